// D10: datasets accessed through HTTP
#include "world.h"
#include "arki/core/binary.h"
#include "arki/core/file.h"
#include "arki/dataset/http.h"
#include "arki/metadata/data.h"
#include "arki/metadata/sort.h"
#include "arki/query/progress.h"
#include "arki/stream.h"
#include "arki/types/source.h"
#include "arki/types/source/url.h"
#include "arki/utils/string.h"
#include <arpa/inet.h>
#include <cstring>
#include <atomic>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <mutex>
#include <thread>
#include <unistd.h>

using namespace vf;
using namespace arki;
using namespace arki::types;
namespace fs = std::filesystem;

namespace {

typedef std::vector<uint8_t> Bytes;

/// How the server behaves with the next request
struct Plan
{
    enum Framing
    {
        LENGTH,
        CHUNKED,
        CLOSE
    } framing        = LENGTH;
    bool keep_alive  = false;
    uint32_t frag    = 0; // how data is fragmented, 0 means not at all
    unsigned redirects = 0; // more than 9 for ever
    int redirect_code  = 302;
    bool redirect_abs  = true;
    int64_t truncate   = -1; // part of body sent, in 1/1000, or bytes from the end if >= 10000
    int error          = 0;  // status to send instead of the response
    std::string error_message;
    bool error_header = true;
    Bytes garbage; // data added at the end

    std::string describe() const
    {
        std::string res = framing == LENGTH ? "length" : framing == CHUNKED ? "chunked" : "close";
        if (keep_alive)
            res += " keepalive";
        if (frag)
            res += " fragmented:" + std::to_string(frag);
        if (redirects)
            res += " redirects:" + std::to_string(redirects) + "x" + std::to_string(redirect_code) +
                   (redirect_abs ? "abs" : "rel");
        if (truncate >= 0)
            res += " truncate:" + std::to_string(truncate);
        if (error)
            res += " error:" + std::to_string(error) + (error_header ? "h" : "");
        if (!garbage.empty())
            res += " garbage:" + std::to_string(garbage.size());
        return res;
    }
};

struct Request
{
    std::string method, path;
    std::map<std::string, std::string> fields;
    std::map<std::string, std::pair<std::string, std::string>> files; // name -> file name, contents
    std::string bad;
};

struct Response
{
    int code = 200;
    Bytes body;
    // Positions where metadata in the body begin
    std::vector<size_t> bounds;
    void add(const std::string& s) { body.insert(body.end(), s.begin(), s.end()); }
};

struct HTTPError
{
    int code;
    std::string msg;
};

/// The HTTP part of arki-server
struct Server
{
    int sock = -1;
    int stop_pipe[2];
    unsigned port = 0;
    std::thread thread;
    std::vector<std::thread> connections;
    std::mutex mutex;
    std::string url;

    std::map<std::string, core::cfg::Section> cfgs;
    core::cfg::Sections aliases;
    bool has_aliases = false;

    // Written by the client when it has no requests running
    Plan plan;
    std::vector<Request> requests;
    size_t sent_body = 0, full_body = 0;
    std::vector<size_t> bounds;

    Server()
    {
        sock = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        struct sockaddr_in a;
        memset(&a, 0, sizeof(a));
        a.sin_family      = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (sock == -1 || bind(sock, (struct sockaddr*)&a, sizeof(a)) == -1 || listen(sock, 16) == -1)
            throw std::runtime_error("cannot start the server");
        socklen_t len = sizeof(a);
        getsockname(sock, (struct sockaddr*)&a, &len);
        port = ntohs(a.sin_port);
        url  = "http://127.0.0.1:" + std::to_string(port);
        if (pipe2(stop_pipe, O_CLOEXEC) == -1)
            throw std::runtime_error("cannot start the server");
    }
    ~Server()
    {
        ::close(stop_pipe[1]);
        if (thread.joinable())
            thread.join();
        for (auto& t : connections)
            t.join();
        ::close(stop_pipe[0]);
        ::close(sock);
    }
    void start()
    {
        thread = std::thread([this] { run(); });
    }

    /// Returns false if the server is being stopped
    bool wait(int fd)
    {
        struct pollfd p[2] = {{fd, POLLIN, 0}, {stop_pipe[0], POLLIN, 0}};
        while (poll(p, 2, -1) == -1 && errno == EINTR)
            ;
        return !p[1].revents;
    }

    void run()
    {
        while (wait(sock))
        {
            int fd = accept4(sock, nullptr, nullptr, SOCK_CLOEXEC);
            if (fd == -1)
                continue;
            int one = 1;
            setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
            connections.emplace_back([this, fd] {
                try
                {
                    std::string buf;
                    while (serve(fd, buf))
                        ;
                }
                catch (std::exception&)
                {
                }
                ::close(fd);
            });
        }
    }

    bool receive(int fd, std::string& buf)
    {
        char tmp[4096];
        if (!wait(fd))
            return false;
        ssize_t r = recv(fd, tmp, sizeof(tmp), 0);
        if (r <= 0)
            return false;
        buf.append(tmp, r);
        return true;
    }

    static bool send_all(int fd, const void* data, size_t size)
    {
        const char* d = (const char*)data;
        while (size)
        {
            ssize_t r = ::send(fd, d, size, MSG_NOSIGNAL);
            if (r <= 0)
                return false;
            d += r;
            size -= r;
        }
        return true;
    }

    static std::string header(const std::string& headers, const std::string& name)
    {
        auto low = arki::utils::str::lower(headers);
        auto pos = low.find("\r\n" + name + ":");
        if (pos == std::string::npos)
            return std::string();
        pos += name.size() + 3;
        return arki::utils::str::strip(headers.substr(pos, headers.find("\r\n", pos) - pos));
    }

    static void parse_form(Request& req, const std::string& type, const std::string& body)
    {
        auto pos = type.find("boundary=");
        if (type.compare(0, 19, "multipart/form-data") || pos == std::string::npos)
        {
            req.bad = "request is of type " + type;
            return;
        }
        std::string sep = "--" + type.substr(pos + 9);
        pos             = body.find(sep);
        while (pos != std::string::npos)
        {
            pos += sep.size();
            if (body.compare(pos, 2, "--") == 0)
                break;
            auto end = body.find("\r\n" + sep, pos);
            if (end == std::string::npos)
            {
                req.bad = "form is not complete";
                break;
            }
            auto hend           = body.find("\r\n\r\n", pos);
            std::string headers = body.substr(pos, hend - pos + 2);
            std::string value   = body.substr(hend + 4, end - hend - 4);
            std::string disp    = header(headers, "content-disposition");
            auto get            = [&](const std::string& k) {
                auto p = disp.find("; " + k + "=\"");
                if (p == std::string::npos)
                    return std::string();
                p += k.size() + 4;
                return disp.substr(p, disp.find('"', p) - p);
            };
            auto name = get("name");
            if (req.fields.count(name) || req.files.count(name))
                req.bad = name + " is present twice";
            if (disp.find("; filename=") != std::string::npos)
                req.files[name] = std::make_pair(get("filename"), value);
            else
                req.fields[name] = value;
            pos = end + 2;
        }
    }

    bool serve(int fd, std::string& buf)
    {
        size_t hend;
        while ((hend = buf.find("\r\n\r\n")) == std::string::npos)
            if (!receive(fd, buf))
                return false;
        std::string headers = buf.substr(0, hend + 2);
        buf.erase(0, hend + 4);
        Request req;
        req.method = headers.substr(0, headers.find(' '));
        auto p     = headers.find(' ') + 1;
        req.path   = headers.substr(p, headers.find(' ', p) - p);
        if (header(headers, "expect") == "100-continue")
        {
            std::string cont = "HTTP/1.1 100 Continue\r\n\r\n";
            if (!send_all(fd, cont.data(), cont.size()))
                return false;
        }
        auto len    = header(headers, "content-length");
        size_t size = len.empty() ? 0 : std::stoul(len);
        while (buf.size() < size)
            if (!receive(fd, buf))
                return false;
        if (req.method == "POST")
            parse_form(req, header(headers, "content-type"), buf.substr(0, size));
        buf.erase(0, size);

        std::unique_lock<std::mutex> lock(mutex);
        // Redirects
        unsigned hop = 0;
        if (req.path.compare(0, 4, "/hop") == 0)
        {
            hop = req.path[4] - '0';
            req.path.erase(0, 5);
        }
        std::string extra;
        Response res;
        if (hop < plan.redirects)
        {
            res.code = plan.redirect_code;
            res.add("<p>moved</p>\n");
            extra = "Location: " + (plan.redirect_abs ? url : std::string()) + "/hop" + std::to_string(std::min(hop + 1, 9u)) + req.path +
                    "\r\n";
        }
        else
        {
            requests.push_back(req);
            try
            {
                if (plan.error)
                    throw HTTPError{plan.error, plan.error_message};
                respond(req, res);
                bounds.push_back(res.body.size());
                res.body.insert(res.body.end(), plan.garbage.begin(), plan.garbage.end());
            }
            catch (HTTPError& e)
            {
                res      = Response();
                res.code = e.code;
                if (!plan.error || plan.error_header)
                    extra = "Arkimet-Exception: " + e.msg + "\r\n";
                res.add(e.msg + "\n");
            }
            catch (std::exception& e)
            {
                std::string msg = e.what();
                for (auto& ch : msg)
                    if (ch == '\n')
                        ch = ' ';
                res      = Response();
                res.code = 500;
                extra    = "Arkimet-Exception: " + msg + "\r\n";
                res.add(msg + "\n");
            }
        }
        size_t limit = res.body.size();
        if (res.code == 200)
        {
            full_body = res.body.size();
            if (plan.truncate >= 10000)
                limit -= std::min<size_t>(limit, plan.truncate - 10000 + 1);
            else if (plan.truncate >= 0)
                limit = limit * plan.truncate / 1000;
            sent_body = limit;
        }
        Plan cur = plan;
        lock.unlock();
        return send_response(fd, cur, res, limit, extra);
    }

    bool send_response(int fd, const Plan& plan, const Response& res, size_t limit, const std::string& extra)
    {
        uint32_t rnd = plan.frag * 2654435761u;
        auto next    = [&](uint32_t n) {
            rnd = rnd * 1664525u + 1013904223u;
            return (rnd >> 8) % n;
        };
        std::string head = plan.framing == Plan::CLOSE ? "HTTP/1.0 " : "HTTP/1.1 ";
        head += std::to_string(res.code) + " Reason\r\nServer: test\r\nContent-Type: application/octet-stream\r\n" + extra;
        if (plan.framing == Plan::LENGTH)
            head += "Content-Length: " + std::to_string(res.body.size()) + "\r\n";
        if (plan.framing == Plan::CHUNKED)
            head += "Transfer-Encoding: chunked\r\n";
        bool keep = plan.keep_alive && plan.framing != Plan::CLOSE;
        if (!keep)
            head += "Connection: close\r\n";
        head += "\r\n";
        std::vector<std::pair<std::string, bool>> pieces;
        auto fragment = [&](const std::string& s, bool data) {
            size_t pos = 0;
            while (pos < s.size())
            {
                size_t n = s.size() - pos;
                if (plan.frag)
                {
                    size_t max = next(4) ? (next(3) ? 400 : 20000) : 9;
                    n          = std::min<size_t>(n, 1 + next(max));
                }
                pieces.emplace_back(s.substr(pos, n), data);
                pos += n;
            }
        };
        fragment(head, false);
        size_t nhead = pieces.size();
        fragment(std::string(res.body.begin(), res.body.begin() + limit), true);
        for (size_t i = 0; i < pieces.size(); ++i)
        {
            std::string s = pieces[i].first;
            if (i >= nhead && plan.framing == Plan::CHUNKED)
            {
                char len[32];
                snprintf(len, sizeof(len), "%zx\r\n", s.size());
                s = len + s + "\r\n";
            }
            if (!send_all(fd, s.data(), s.size()))
                return false;
            if (plan.frag && i < 40 && !next(3))
                usleep(next(200));
        }
        if (limit < res.body.size())
            return false;
        if (plan.framing == Plan::CHUNKED)
            if (!send_all(fd, "0\r\n\r\n", 5))
                return false;
        return keep;
    }

    std::shared_ptr<dataset::Session> make_session()
    {
        auto s = std::make_shared<dataset::Session>(false);
        if (has_aliases)
            s->load_aliases(aliases);
        return s;
    }

    void add_md(Response& res, Metadata& md)
    {
        bounds.push_back(res.body.size());
        auto enc = md.encodeBinary();
        res.body.insert(res.body.end(), enc.begin(), enc.end());
        if (md.source().style() == Source::Style::INLINE)
        {
            auto d = md.get_data().read();
            res.body.insert(res.body.end(), d.begin(), d.end());
        }
    }

    core::cfg::Section remote_cfg(const std::string& name)
    {
        core::cfg::Section res;
        for (const auto& i : cfgs.at(name))
            if (i.first != "name" && i.first != "path" && i.first != "type" && i.second.find_first_of("\"';#\n") == std::string::npos)
                res.set(i.first, i.second);
        res.set("type", "remote");
        res.set("path", url + "/dataset/" + name);
        res.set("server", url);
        return res;
    }

    void respond(const Request& req, Response& res)
    {
        bounds.clear();
        auto field = [&](const std::string& n, const std::string& def = std::string()) {
            auto i = req.fields.find(n);
            return i == req.fields.end() ? def : arki::utils::str::strip(i->second);
        };
        auto method = [&](const char* m) {
            if (req.method != m)
                throw HTTPError{405, "method not allowed"};
        };
        auto session = make_session();
        if (req.path == "/config")
        {
            method("GET");
            core::cfg::Sections s;
            for (auto& i : cfgs)
                s.emplace(i.first, std::make_shared<core::cfg::Section>(remote_cfg(i.first)));
            res.add(s.to_string());
            return;
        }
        if (req.path == "/aliases")
        {
            method("GET");
            res.add(session->get_alias_database()->to_string());
            return;
        }
        if (req.path == "/qexpand")
        {
            method("POST");
            res.add(session->matcher(field("query")).toStringExpanded());
            return;
        }
        if (req.path == "/query" || req.path == "/summary")
        {
            // Macros: here they are only a query of the dataset they name
            method("POST");
            auto qm = field("qmacro");
            auto i  = cfgs.find(qm);
            if (i == cfgs.end())
                throw HTTPError{404, "no macro " + qm};
            dataset_request(req.path.substr(1), i->first, *session, field("query"), req, res);
            return;
        }
        if (req.path.compare(0, 9, "/dataset/") == 0)
        {
            auto p    = req.path.find('/', 9);
            auto name = req.path.substr(9, p - 9);
            auto i    = cfgs.find(name);
            if (i == cfgs.end())
                throw HTTPError{404, "Dataset " + name + " not found"};
            auto view = p == std::string::npos ? std::string() : req.path.substr(p + 1);
            if (view == "config")
            {
                method("GET");
                core::cfg::Sections s;
                s.emplace(name, std::make_shared<core::cfg::Section>(remote_cfg(name)));
                res.add(s.to_string());
                return;
            }
            method("POST");
            dataset_request(view, name, *session, field("query"), req, res);
            return;
        }
        throw HTTPError{404, "not found: " + req.path};
    }

    void dataset_request(const std::string& view, const std::string& name, dataset::Session& session, const std::string& query,
                         const Request& req, Response& res)
    {
        auto field = [&](const std::string& n, const std::string& def = std::string()) {
            auto i = req.fields.find(n);
            return i == req.fields.end() ? def : arki::utils::str::strip(i->second);
        };
        auto reader  = session.dataset(cfgs.at(name))->create_reader();
        auto matcher = session.matcher(query);
        if (view == "summary")
        {
            Summary s;
            reader->query_summary(matcher, s);
            res.body = s.encode(true);
            return;
        }
        if (view != "query")
            throw HTTPError{404, "not found: " + req.path};
        std::shared_ptr<metadata::sort::Compare> sort;
        if (!field("sort").empty())
            sort = metadata::sort::Compare::parse(field("sort"));
        auto style = field("style", "metadata");
        if (style == "metadata")
        {
            query::Data q(matcher);
            q.sorter = sort;
            reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                md->set_source(Source::createURL(md->source().format, url + "/dataset/" + name));
                add_md(res, *md);
                return true;
            });
        }
        else if (style == "inline")
        {
            query::Data q(matcher, true);
            q.sorter = sort;
            reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                md->makeInline();
                add_md(res, *md);
                return true;
            });
        }
        else if (style == "data" || style == "postprocess")
        {
            query::Bytes q;
            if (style == "data")
                q.setData(matcher);
            else
                q.setPostprocess(matcher, field("command"));
            q.sorter = sort;
            auto out = StreamOutput::create(res.body);
            reader->query_bytes(q, *out);
        }
        else
            throw HTTPError{404, "query style " + style};
    }
};

struct CountProgress : public query::Progress
{
    unsigned started = 0, ended = 0;
    void start(size_t c = 0, size_t b = 0) override
    {
        ++started;
        query::Progress::start(c, b);
    }
    void done() override
    {
        ++ended;
        query::Progress::done();
    }
    size_t get_count() const { return count; }
    size_t get_bytes() const { return bytes; }
};

struct Http
{
    Case& c;
    Gen& g;
    std::vector<std::unique_ptr<World>> worlds;
    Server server;
    std::shared_ptr<dataset::Session> local;
    std::shared_ptr<dataset::Session> client;
    std::vector<std::shared_ptr<Metadata>> mpool;
    std::map<std::string, std::shared_ptr<dataset::Reader>> kept;
    std::vector<std::string> alias_names;

    explicit Http(Case& c)
        : c(c), g(c.g), local(std::make_shared<dataset::Session>(false)), client(std::make_shared<dataset::Session>(false))
    {
        unsetenv("http_proxy");
        unsetenv("all_proxy");
        unsetenv("ALL_PROXY");
        unsetenv("ARKI_POSTPROC_FILES");
    }
    ~Http()
    {
        kept.clear();
        while (!worlds.empty())
            worlds.pop_back();
    }

    void setup()
    {
        unsigned nw = g.range(1, 2);
        for (unsigned i = 0; i < nw; ++i)
        {
            WorldOpts o;
            o.name  = i ? "b" : "a";
            o.small = g.chance(1, 3);
            worlds.push_back(std::make_unique<World>(c, o));
            auto& w    = *worlds.back();
            w.notes    = true;
            unsigned n = g.weighted({1, 3, 2, 1});
            for (unsigned j = 0; j < n; ++j)
                w.op_import();
            if (n && g.chance(1, 4))
                w.op_convert();
            for (const auto& m : w.mpool())
                mpool.push_back(m);
            server.cfgs[o.name] = w.cfg;
            server.cfgs[o.name].set("name", o.name);
        }
        if (g.chance(1, 3))
        {
            server.has_aliases = true;
            for (auto code : {TYPE_PRODUCT, TYPE_ORIGIN, TYPE_LEVEL})
            {
                if (!g.flip())
                    continue;
                auto sec = std::make_shared<core::cfg::Section>();
                for (unsigned i = 0, n = g.range(1, 3); i < n; ++i)
                {
                    std::string name = "al" + std::to_string(i);
                    const Type* hint = nullptr;
                    for (auto& m : mpool)
                        if (m->get(code))
                            hint = m->get(code);
                    ItemOpts io;
                    auto alt = gen_alt(g, code, hint, io);
                    if (alt.text.find_first_of(";\"'#\n") != std::string::npos)
                        continue;
                    sec->set(name, alt.text);
                    alias_names.push_back(std::string(tag_of(code)) + ":" + name);
                }
                if (!sec->empty())
                    server.aliases.emplace(tag_of(code), sec);
            }
            try
            {
                server.make_session();
            }
            catch (std::exception& e)
            {
                throw Discard();
            }
        }
        server.start();
    }

    Plan gen_plan(bool allow_bad)
    {
        Plan p;
        p.framing    = (Plan::Framing)g.below(3);
        p.keep_alive = g.flip();
        if (g.chance(2, 3))
            p.frag = g.range(1, 1000);
        if (g.chance(1, 5))
        {
            p.redirects     = g.range(1, 3);
            if (allow_bad && g.chance(1, 10))
                p.redirects = 1000;
            p.redirect_code = g.pick({302, 301, 303, 307, 308});
            p.redirect_abs  = g.flip();
        }
        if (allow_bad)
            switch (g.weighted({6, 2, 1, 1}))
            {
                case 0: break;
                case 1: p.truncate = g.flip() ? g.below(1000) : 10000 + g.below(20); break;
                case 2:
                    p.error         = g.pick({500, 400, 404, 503});
                    p.error_message = "it failed " + std::to_string(g.below(1000));
                    p.error_header  = g.flip();
                    break;
                case 3:
                    p.garbage = g.bytes(1, 20);
                    break;
            }
        return p;
    }

    /// Set what the server does with the next request
    void begin(Plan p, int simple = 0)
    {
        if (simple)
            p.garbage.clear();
        if (simple > 1)
        {
            p.truncate = -1;
            if (p.redirects > 9)
                p.redirects = 4;
        }
        std::lock_guard<std::mutex> lock(server.mutex);
        server.plan = p;
        server.requests.clear();
    }

    std::string gen_query()
    {
        if (g.chance(1, 4) || mpool.empty())
            return "";
        ItemOpts io;
        return gen_expr(g, mpool, io, true, 2).text();
    }

    std::shared_ptr<dataset::Reader> remote(const std::string& name, bool qmacro, const std::string& query)
    {
        core::cfg::Section cfg;
        cfg.set("name", name);
        cfg.set("type", "remote");
        cfg.set("path", qmacro ? server.url : server.url + "/dataset/" + name);
        cfg.set("server", server.url);
        if (qmacro)
        {
            cfg.set("qmacro", query);
            return client->dataset(cfg)->create_reader();
        }
        if (g.flip())
            kept[name].reset();
        if (!kept[name])
            kept[name] = client->dataset(cfg)->create_reader();
        return kept[name];
    }

    /// Describe metadata, source excluded
    std::string describe(const Metadata& md)
    {
        auto m = md.clone();
        m->unset_source();
        return m->to_yaml();
    }

    struct Got
    {
        std::vector<std::string> mds;
        std::vector<Bytes> data;
        std::vector<std::string> sources;
        std::string error;
        bool ret = true;
    };

    void run_data()
    {
        auto& w     = *worlds[g.below(worlds.size())];
        auto query  = gen_query();
        bool qmacro = g.chance(1, 8) && !query.empty();
        std::string sort;
        if (g.chance(1, 3))
            sort = g.pick({"reftime", "-reftime", "product,reftime", "day:reftime", "hour:-product", "month:", "level,-origin"});
        bool with_data = g.flip();
        // Expected
        query::Data q(local->matcher(query), with_data);
        if (!sort.empty())
            q.sorter = metadata::sort::Compare::parse(sort);
        Got exp;
        local->dataset(w.cfg)->create_reader()->query_data(q, [&](std::shared_ptr<Metadata> md) {
            exp.mds.push_back(describe(*md));
            if (with_data)
                exp.data.push_back(md->get_data().read());
            return true;
        });
        begin(gen_plan(true));
        int stop = -1, boom = -1;
        if (g.chance(1, 4))
            (g.flip() ? stop : boom) = g.below(exp.mds.size() + 1);
        std::string desc = "query of " + w.name + " [" + query + "] sort [" + sort + "]" + (with_data ? " with data" : "") +
                           (qmacro ? " qmacro" : "") + " server: " + server.plan.describe() +
                           (stop >= 0 ? " stopped at " + std::to_string(stop) : "") +
                           (boom >= 0 ? " failing at " + std::to_string(boom) : "");
        c.log(desc + ": " + std::to_string(exp.mds.size()) + " elements expected");
        cur_name    = w.name;
        auto reader = remote(w.name, qmacro, query);
        c.eq(reader->type(), "http", "type", "type of dataset");
        auto progress = std::make_shared<CountProgress>();
        if (g.flip())
            q.progress = progress;
        Got got;
        bool stopped = false;
        try
        {
            got.ret = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                int n = got.mds.size();
                c.check(!stopped, "stop", desc + ": the consumer is called again after it stopped or failed");
                stopped = n == boom || n == stop;
                if (n == boom)
                    throw std::runtime_error("consumer error");
                if (n == stop)
                    return false;
                got.mds.push_back(describe(*md));
                got.sources.push_back(md->source().to_string());
                if (with_data)
                {
                    c.check(md->source().style() == Source::Style::INLINE, "source",
                            desc + ": source is " + md->source().to_string());
                    got.data.push_back(md->get_data().read());
                }
                else
                {
                    c.check(md->source().style() == Source::Style::URL, "source",
                            desc + ": source is " + md->source().to_string());
                    c.eq(dynamic_cast<const source::URL&>(md->source()).url, server.url + "/dataset/" + w.name, "source",
                         desc + ": source");
                }
                return true;
            });
        }
        catch (Failure&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            got.error = e.what();
            if (got.error.empty())
                got.error = "(empty)";
        }
        check_request(desc, "POST", qmacro ? "/query" : "/dataset/" + w.name + "/query", query, sort, qmacro,
                      with_data ? "inline" : "", got.error);
        // Whatever happens, nothing wrong arrives
        c.check(got.mds.size() <= exp.mds.size(), "count",
                desc + ": " + std::to_string(got.mds.size()) + " elements instead of " + std::to_string(exp.mds.size()));
        for (size_t i = 0; i < got.mds.size(); ++i)
        {
            c.eq(got.mds[i], exp.mds[i], "metadata", desc + ": element " + std::to_string(i));
            if (with_data)
                c.check(got.data[i] == exp.data[i], "data", desc + ": data of element " + std::to_string(i));
        }
        size_t complete = exp.mds.size();
        if (judge(desc, got, stop, boom, complete))
        {
            size_t n = std::min<size_t>(complete, stop >= 0 ? stop : complete);
            c.eq(got.mds.size(), n, "count", desc + ": number of elements");
            c.eq(got.ret, !(stop >= 0 && (size_t)stop < complete), "result", desc + ": result of the query");
            if (q.progress && stop < 0)
            {
                c.check(progress->started == 1 && progress->ended == 1, "progress", desc + ": progress starts and ends once");
                c.eq(progress->get_count(), n, "progress", desc + ": elements reported");
            }
            c.count("complete");
            if (exp.mds.size() > 1)
            {
                c.mark();
                c.count("elements", n);
            }
        }
        for (auto& s : got.mds)
            c.mix(s);
        c.mix(desc.size());
    }

    /// Check errors. Returns true if the query should have worked, and did
    bool judge(const std::string& desc, const Got& got, int stop, int boom, size_t& complete)
    {
        auto& p = server.plan;
        if (p.redirects > 9)
        {
            c.check(!got.error.empty(), "redirects", desc + ": endless redirects are not reported");
            c.check(got.mds.empty(), "redirects", desc + ": there are results");
            return false;
        }
        if (p.error)
        {
            c.check(!got.error.empty(), "error-lost", desc + ": the error of the server is not reported");
            c.check(got.error.find(p.error_message) != std::string::npos, "error-message",
                    desc + ": the error is [" + got.error + "]");
            c.check(got.mds.empty() && got.data.empty(), "error-data", desc + ": there are results");
            c.count("server errors");
            return false;
        }
        // The part of the response which is complete
        bool cut      = false;
        bool boundary = false;
        if (p.truncate >= 0 && server.sent_body < server.full_body)
        {
            cut      = true;
            complete = 0;
            for (size_t i = 0; i < server.bounds.size(); ++i)
            {
                if (i && server.bounds[i] <= server.sent_body)
                    complete = i;
                if (server.bounds[i] == server.sent_body)
                    boundary = true;
            }
            if (server.sent_body == 0)
                boundary = true;
        }
        if (boom >= 0 && (size_t)boom < complete)
        {
            c.eq(got.error, "consumer error", "consumer-error", desc + ": error");
            return false;
        }
        if (stop >= 0 && (size_t)stop < complete && p.framing == Plan::CLOSE)
        {
            // What comes after is not of interest
            return got.error.empty();
        }
        if (cut && p.framing == Plan::CLOSE && boundary && p.garbage.empty())
            // It looks complete
            return true;
        if (cut)
        {
            c.check(!got.error.empty(), "truncated", desc + ": " + std::to_string(server.sent_body) + " bytes of " +
                                                         std::to_string(server.full_body) +
                                                         " were received, and there is no error");
            c.count("truncated");
            return false;
        }
        if (!p.garbage.empty())
        {
            c.check(stop >= 0 || !got.error.empty(), "garbage", desc + ": garbage at the end of data is ignored");
            c.count("garbage");
            return false;
        }
        c.check(got.error.empty(), "failed", desc + ": failed with [" + got.error + "]");
        return true;
    }

    void check_request(const std::string& desc, const std::string& method, const std::string& path, const std::string& query,
                       const std::string& sort, bool qmacro, const std::string& style, const std::string& error)
    {
        // A request can be repeated if an old connection was closed
        if (server.plan.redirects > 9)
            return;
        c.check(!server.requests.empty(), "request", desc + ": no request was received [" + error + "]");
        auto& r = server.requests.back();
        c.check(r.bad.empty(), "request", desc + ": " + r.bad);
        c.eq(r.method, method, "request", desc + ": method");
        c.eq(r.path, path, "request", desc + ": path");
        auto f = r.fields;
        if (qmacro)
        {
            c.eq(f["query"], query, "request", desc + ": query of the macro");
            c.eq(f["qmacro"], path == "/query" || path == "/summary" ? cur_name : "", "request", desc + ": name of the macro");
        }
        else
            c.eq(f["query"], local->matcher(query).toStringExpanded(), "request", desc + ": query sent");
        std::string s;
        if (!sort.empty())
            s = metadata::sort::Compare::parse(sort)->toString();
        c.eq(f["sort"], s, "request", desc + ": sort order sent");
        c.eq(f["style"], style, "request", desc + ": style");
    }
    std::string cur_name;

    void run_summary()
    {
        auto& w     = *worlds[g.below(worlds.size())];
        auto query  = gen_query();
        bool qmacro = g.chance(1, 8) && !query.empty();
        Summary exp;
        local->dataset(w.cfg)->create_reader()->query_summary(local->matcher(query), exp);
        begin(gen_plan(true));
        std::string desc = "summary of " + w.name + " [" + query + "]" + (qmacro ? " qmacro" : "") +
                           " server: " + server.plan.describe();
        c.log(desc);
        cur_name    = w.name;
        auto reader = remote(w.name, qmacro, query);
        Got got;
        Summary res;
        try
        {
            reader->query_summary(local->matcher(query), res);
        }
        catch (std::exception& e)
        {
            got.error = e.what();
        }
        check_request(desc, "POST", qmacro ? "/summary" : "/dataset/" + w.name + "/summary", query, "", qmacro, "", got.error);
        if (server.plan.error || server.plan.redirects > 9)
        {
            size_t n = 0;
            judge(desc, got, -1, -1, n);
            return;
        }
        if (server.plan.truncate >= 0 && server.sent_body < server.full_body)
        {
            // If truncated, the garbage at the end can be lost
            if (!server.plan.garbage.empty())
                return;
            c.check(!got.error.empty(), "truncated", desc + ": " + std::to_string(server.sent_body) + " bytes of " +
                                                         std::to_string(server.full_body) +
                                                         " were received, and there is no error");
            c.count("truncated");
            return;
        }
        c.check(got.error.empty(), "failed", desc + ": failed with [" + got.error + "]");
        auto diff = summap_diff(w.read_summary(res), w.read_summary(exp));
        c.check(diff.empty(), "summary", desc + ": " + diff);
        c.count("summaries");
    }

    void run_bytes()
    {
        auto& w    = *worlds[g.below(worlds.size())];
        auto query = gen_query();
        std::string sort;
        if (g.chance(1, 3))
            sort = g.pick({"reftime", "-reftime", "product,reftime", "day:-product"});
        bool post  = g.flip();
        auto fill  = [&](query::Bytes& q) {
            if (post)
                q.setPostprocess(local->matcher(query), "/bin/cat");
            else
                q.setData(local->matcher(query));
            if (!sort.empty())
                q.sorter = metadata::sort::Compare::parse(sort);
        };
        Bytes exp;
        {
            query::Bytes q;
            fill(q);
            auto out = StreamOutput::create(exp);
            local->dataset(w.cfg)->create_reader()->query_bytes(q, *out);
        }
        begin(gen_plan(true), 1);
        // Files for the postprocessor
        std::vector<std::pair<std::string, std::string>> files;
        std::string env;
        if (g.chance(1, 4))
        {
            auto dir = c.newdir();
            for (unsigned i = 0, n = g.range(1, 3); i < n; ++i)
            {
                auto bytes = g.bytes(0, 200);
                if (g.chance(1, 10))
                    bytes.insert(bytes.end(), g.range(0, 70000), 'x');
                files.emplace_back("file" + std::to_string(i), std::string(bytes.begin(), bytes.end()));
                auto f = dir / files.back().first;
                core::File out(f, O_WRONLY | O_CREAT, 0666);
                if (!bytes.empty())
                    out.write_all_or_throw(bytes.data(), bytes.size());
                env += (env.empty() ? "" : ":") + f.native();
            }
        }
        std::string desc = std::string(post ? "postprocess" : "data") + " of " + w.name + " [" + query + "] sort [" + sort +
                           "] " + std::to_string(files.size()) + " files, server: " + server.plan.describe();
        c.log(desc + ": " + std::to_string(exp.size()) + " bytes expected");
        auto reader = remote(w.name, false, query);
        query::Bytes q;
        fill(q);
        auto progress = std::make_shared<CountProgress>();
        if (g.flip())
            q.progress = progress;
        Bytes res;
        Got got;
        // The server process would get this as well
        if (!env.empty())
            setenv("ARKI_POSTPROC_FILES", env.c_str(), 1);
        try
        {
            auto out = StreamOutput::create(res);
            reader->query_bytes(q, *out);
        }
        catch (std::exception& e)
        {
            got.error = e.what();
        }
        unsetenv("ARKI_POSTPROC_FILES");
        check_request(desc, "POST", "/dataset/" + w.name + "/query", query, sort, false, post ? "postprocess" : "data", got.error);
        if (server.plan.redirects > 9)
        {
            c.check(!got.error.empty() && res.empty(), "redirects", desc + ": endless redirects are not reported");
            return;
        }
        auto& r = server.requests.back();
        if (post)
            c.eq(r.fields["command"], "/bin/cat", "request", desc + ": command");
        c.eq(r.files.size(), files.size(), "files", desc + ": files sent");
        for (size_t i = 0; i < files.size(); ++i)
        {
            auto& f = r.files["postprocfile" + std::to_string(i + 1)];
            c.eq(f.first, files[i].first, "files", desc + ": name of a file");
            c.check(f.second == files[i].second, "files", desc + ": contents of file " + f.first);
        }
        if (server.plan.error || server.plan.redirects > 9)
        {
            size_t n = 0;
            c.check(res.empty(), "error-data", desc + ": there are results");
            judge(desc, got, -1, -1, n);
            return;
        }
        bool cut = server.plan.truncate >= 0 && server.sent_body < server.full_body;
        if (cut && server.plan.framing != Plan::CLOSE)
        {
            c.check(!got.error.empty(), "truncated", desc + ": truncated data, and there is no error");
            c.count("truncated");
        }
        else
            c.check(got.error.empty(), "failed", desc + ": failed with [" + got.error + "]");
        if (cut)
        {
            // Order of data can only be compared with data
            c.check(res.size() <= exp.size() && std::equal(res.begin(), res.end(), exp.begin()), "bytes",
                    desc + ": what arrived is not a beginning of the data");
            return;
        }
        c.eq(res.size(), exp.size(), "bytes", desc + ": size of the data");
        c.check(res == exp, "bytes", desc + ": data are different");
        if (q.progress)
        {
            c.check(progress->ended == 1, "progress", desc + ": progress ends " + std::to_string(progress->ended) + " times");
            c.eq(progress->get_bytes(), exp.size(), "progress", desc + ": bytes reported");
        }
        c.mix(exp.data(), exp.size());
        c.count("bytes");
    }

    void run_config()
    {
        begin(gen_plan(true), 2);
        bool all      = g.flip();
        auto name     = worlds[g.below(worlds.size())]->name;
        bool missing  = !all && g.chance(1, 6);
        std::string u = all ? server.url : server.url + "/dataset/" + (missing ? "missing" : name);
        if (g.flip())
            u += "/";
        std::string desc = "configuration of " + u.substr(server.url.size()) + " server: " + server.plan.describe();
        c.log(desc);
        bool many = all || g.flip();
        std::string error;
        std::shared_ptr<core::cfg::Sections> res;
        std::shared_ptr<core::cfg::Section> one;
        try
        {
            if (many)
                res = dataset::Session::read_configs(u);
            else
                one = dataset::Session::read_config(u);
        }
        catch (std::exception& e)
        {
            error = e.what();
        }
        c.eq(error.empty(), !server.plan.error && !missing, "config-error", desc + ": error [" + error + "]: no error");
        if (!error.empty())
        {
            c.check(error.find(server.plan.error ? server.plan.error_message : "not found") != std::string::npos,
                    "config-error", desc + ": error is [" + error + "]");
            return;
        }
        std::map<std::string, core::cfg::Section> got;
        if (res)
            for (auto& s : *res)
                got[s.first] = *s.second;
        else
            got[one->value("name")] = *one;
        c.eq(got.size(), all ? server.cfgs.size() : 1, "config", desc + ": number of datasets");
        for (auto& i : got)
        {
            c.check(server.cfgs.count(i.first) && (all || i.first == name), "config", desc + ": dataset " + i.first);
            auto exp = server.remote_cfg(i.first);
            exp.set("name", i.first);
            c.eq(i.second.to_string(), exp.to_string(), "config", desc + ": configuration of " + i.first);
        }
        // Use it
        if (got.count(name))
        {
            begin(gen_plan(false));
            size_t n    = 0;
            client->dataset(got[name])->create_reader()->query_data(query::Data(Matcher(), true), [&](std::shared_ptr<Metadata>) {
                ++n;
                return true;
            });
            for (auto& w : worlds)
                if (w->name == name)
                    c.eq(n, w->visible().size(), "config-query", desc + ": elements in the dataset configured");
        }
        c.count("configurations");
    }

    std::string gen_aliased()
    {
        std::string q = gen_query();
        if (!alias_names.empty() && g.chance(3, 4))
        {
            auto a = g.pick(alias_names);
            // The same type cannot be given twice
            if (q.find(a.substr(0, a.find(':'))) != std::string::npos || g.flip())
                q = a;
            else
                q = q.empty() ? a : q + "; " + a;
        }
        if (g.chance(1, 10))
            q = "product:unknown";
        return q;
    }

    void run_aliases()
    {
        begin(gen_plan(true), 2);
        auto query = gen_aliased();
        auto sess  = server.make_session();
        std::string exp;
        bool exp_fails = false;
        try
        {
            exp = sess->matcher(query).toStringExpanded();
        }
        catch (std::exception&)
        {
            exp_fails = true;
        }
        bool server_fails = exp_fails || server.plan.error;
        std::string desc = "expansion of [" + query + "] server: " + server.plan.describe();
        c.log(desc + ": [" + exp + "] expected");
        switch (g.below(3))
        {
            case 0: {
                std::string got, error;
                try
                {
                    got = dataset::http::Reader::expandMatcher(query, server.url);
                }
                catch (std::exception& e)
                {
                    error = e.what();
                }
                c.eq(!error.empty(), server_fails, "expand-error", desc + ": error [" + error + "]");
                if (error.empty())
                    c.eq(got, exp, "expand", desc + ": expanded query");
                break;
            }
            case 1: {
                // Remotes: this server and possibly the local system, which may have the same aliases
                bool with_local  = g.flip();
                auto s           = std::make_shared<dataset::Session>(false);
                int local_has    = g.below(3);
                if (local_has == 1 && server.has_aliases)
                    s->load_aliases(server.aliases);
                if (local_has == 2 && !alias_names.empty())
                {
                    // With another meaning
                    core::cfg::Sections other;
                    for (auto& i : server.aliases)
                    {
                        auto sec = std::make_shared<core::cfg::Section>();
                        for (auto& j : *i.second)
                            sec->set(j.first, i.first == "product" ? "GRIB1,111,1,1" : i.first == "origin" ? "GRIB1,111" : "GRIB1,111");
                        other.emplace(i.first, sec);
                    }
                    s->load_aliases(other);
                }
                auto remotes = std::make_shared<core::cfg::Sections>();
                for (auto& i : server.cfgs)
                    remotes->emplace(i.first, std::make_shared<core::cfg::Section>(server.remote_cfg(i.first)));
                if (with_local)
                    remotes->emplace(g.pick({"0local", "zlocal"}), std::make_shared<core::cfg::Section>(worlds[0]->cfg));
                std::set<std::string> results;
                if (!server_fails)
                    results.insert(exp);
                if (with_local)
                    try
                    {
                        results.insert(s->matcher(query).toStringExpanded());
                    }
                    catch (std::exception&)
                    {
                    }
                std::string got, error;
                try
                {
                    got = s->expand_remote_query(remotes, query);
                }
                catch (std::exception& e)
                {
                    error = e.what();
                }
                c.eq(!error.empty(), results.size() > 1, "expand-remote", desc + ": systems disagree [" + error + "]");
                if (error.empty())
                    c.eq(got, results.empty() ? query : *results.begin(), "expand-remote", desc + ": expanded query");
                c.count("expansions");
                break;
            }
            case 2: {
                auto s = std::make_shared<dataset::Session>(false);
                std::string error;
                try
                {
                    s->load_remote_aliases(server.url);
                }
                catch (std::exception& e)
                {
                    error = e.what();
                }
                c.eq(!error.empty(), server.plan.error != 0, "aliases-error", desc + ": error [" + error + "]");
                if (!error.empty())
                    break;
                c.eq(s->get_alias_database()->to_string(), sess->get_alias_database()->to_string(), "aliases",
                     desc + ": aliases");
                std::string got;
                bool fails = false;
                try
                {
                    got = s->matcher(query).toStringExpanded();
                }
                catch (std::exception&)
                {
                    fails = true;
                }
                c.eq(fails, exp_fails, "aliases", desc + ": the query fails");
                c.eq(got, exp, "aliases", desc + ": expanded query");
                break;
            }
        }
    }

    void run()
    {
        setup();
        unsigned n = g.range(1, c.thorough ? 14 : 8);
        for (unsigned i = 0; i < n; ++i)
        {
            cur_name = "";
            switch (g.weighted({6, 2, 3, 1, 1}))
            {
                case 0:
                    run_data();
                    break;
                case 1: run_summary(); break;
                case 2: run_bytes(); break;
                case 3: run_config(); break;
                case 4: run_aliases(); break;
            }
        }
    }
};

} // namespace

PROPERTY("D10", "remote", 1, "a remote query that selects at least two elements is completed")
{
    // std::thread and the client share the process
    Http h(c);
    h.run();
}
