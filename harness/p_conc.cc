/*
 * Concurrent use of datasets by several processes, with controlled scheduling
 */
#include "faults.h"
#include "world.h"
#include "arki/core/binary.h"
#include "arki/metadata/data.h"
#include "arki/types/source/blob.h"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;
using namespace arki;
namespace fs = std::filesystem;

namespace {

const long NEVER = std::numeric_limits<long>::max();

enum ActType
{
    IMPORT,
    QUERY,
    SUMMARY,
    REPACK,
    CHECK,
    REMOVE,
    CONVERT,
};
const char* NAMES[] = {"import", "query", "summary", "repack", "check", "remove", "convert"};

struct Act
{
    ActType type;
    std::vector<ElemP> batch; // imported or removed
    std::string strategy;
    std::string expr;
    bool with_data = false, late = false;
    unsigned conv = 0, grp = 512;
    long start = NEVER, end = NEVER;
    std::string result;
};

struct Child
{
    pid_t pid = -1;
    int in = -1, out = -1; // as seen from the scheduler: read from in, write to out
    enum { READY, STUCK_LOCK, STUCK_SLEEP, DONE } state = READY;
    std::vector<Act> acts;
    int cur = -1;
    std::string where;
    long wait_since = 0;
};

void put(std::string& s, const std::string& d)
{
    uint32_t l = d.size();
    s.append((const char*)&l, 4);
    s += d;
}
bool get(const std::string& s, size_t& pos, std::string& d)
{
    if (pos + 4 > s.size())
        return false;
    uint32_t l;
    memcpy(&l, s.data() + pos, 4);
    d = s.substr(pos + 4, l);
    pos += 4 + l;
    return true;
}

/// What is known of the presence of an element
struct Life
{
    ElemP e;
    long birth_s = 0, birth_e = 0;
    const Act* by = nullptr; // imported by
    long sure_death = NEVER; // certainly gone after this
    long may_death  = NEVER; // may be gone after this
    bool removed    = false; // may be removed, not just replaced
};

struct Conc
{
    Case& c;
    Gen& g;
    World& w;
    std::vector<Child> ch;
    std::vector<Life> lives;
    std::map<std::string, bool> locked;
    long now = 0;
    unsigned switches = 0, blocks = 0, sleeps = 0;

    Conc(World& w) : c(w.c), g(w.g), w(w) {}
    ~Conc()
    {
        for (auto& k : ch)
        {
            if (k.pid != -1)
            {
                ::kill(k.pid, SIGKILL);
                ::waitpid(k.pid, nullptr, 0);
            }
            if (k.in != -1)
                ::close(k.in);
            if (k.out != -1)
                ::close(k.out);
        }
    }

    typedef std::pair<std::string, std::string> Key;
    Key key(const ElemP& e, bool with_data) const { return Key(e->fp, with_data ? std::string(e->payload.begin(), e->payload.end()) : ""); }

    bool is_dir(DataFormat f) const
    {
        return f != DataFormat::GRIB && f != DataFormat::BUFR && f != DataFormat::VM2;
    }

    std::string gen_query()
    {
        switch (g.weighted({4, 1, 1}))
        {
            case 0: return "";
            case 1:
            {
                auto t = secs_civil((w.base_day + g.pick(w.day_offsets)) * 86400);
                return "reftime:=" + t.to_iso8601().substr(0, 10);
            }
            default:
            {
                auto t = secs_civil((w.base_day + g.pick(w.day_offsets)) * 86400);
                return std::string("reftime:") + (g.flip() ? ">=" : "<") + t.to_iso8601().substr(0, 10);
            }
        }
    }

    void plan()
    {
        // What kind of activities
        //  0 imports, queries, summaries
        //  1 also maintenance
        //  2 also removals
        //  3 also conversions
        unsigned mix = g.weighted({4, 5, 2, 2});
        unsigned n   = 2 + g.weighted({4, 2});
        ch.resize(n);
        std::set<const Elem*> removing;
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned na = 1 + g.weighted({3, 2, 1});
            for (unsigned a = 0; a < na; ++a)
            {
                Act act;
                std::vector<unsigned> weights;
                unsigned k;
                switch (mix)
                {
                    case 0: k = g.weighted({4, 3, 2}); break;
                    case 1: k = g.weighted({4, 3, 1, 3, 1}); break;
                    case 2: k = g.weighted({4, 3, 1, 0, 0, 4}); break;
                    default: k = g.weighted({3, 3, 1, 1, 0, 0, 3}); break;
                }
                act.type = (ActType)k;
                switch (act.type)
                {
                    case IMPORT:
                    {
                        unsigned ne = g.range(1, 4);
                        for (unsigned j = 0; j < ne; ++j)
                            act.batch.push_back(w.new_elem());
                        act.strategy = w.iseg && g.chance(1, 3) ? g.pick(std::vector<std::string>{"no", "yes", "USN"}) : w.replace;
                        break;
                    }
                    case QUERY:
                        act.expr      = gen_query();
                        act.with_data = g.chance(3, 4);
                        act.late      = g.flip();
                        break;
                    case SUMMARY: act.expr = gen_query(); break;
                    case REMOVE:
                        for (const auto& l : lives)
                            if (!removing.count(l.e.get()) && !w.segs.at(l.e->seg).packed && g.flip())
                            {
                                act.batch.push_back(l.e);
                                removing.insert(l.e.get());
                            }
                        break;
                    case CONVERT:
                        act.conv = g.below(3);
                        act.grp  = g.pick({0, 1, 2, 512});
                        if (act.conv == 0 && (w.dir_segments || w.formats_multi || is_dir(w.format)))
                            act.conv = 2;
                        break;
                    default: break;
                }
                ch[i].acts.push_back(act);
            }
        }
        // What is replaced, or cannot be told from something else, cannot be
        // removed in a predictable way
        std::set<std::pair<std::string, std::string>> imported;
        std::map<Key, unsigned> same;
        for (auto& l : lives)
            ++same[key(l.e, true)];
        for (auto& k : ch)
            for (auto& a : k.acts)
                if (a.type == IMPORT)
                    for (auto& e : a.batch)
                    {
                        imported.emplace(e->seg, e->key);
                        ++same[key(e, true)];
                    }
        for (auto& k : ch)
            for (auto& a : k.acts)
                if (a.type == REMOVE)
                {
                    std::vector<ElemP> ok;
                    for (auto& e : a.batch)
                        if (same[key(e, true)] == 1 && (!w.iseg || !imported.count(std::make_pair(e->seg, e->key))))
                            ok.push_back(e);
                    a.batch = ok;
                }
        if (c.verbose)
            for (unsigned i = 0; i < ch.size(); ++i)
                for (const auto& a : ch[i].acts)
                {
                    c.log("process " + std::to_string(i) + ": " + NAMES[a.type] + " " + a.strategy + " " + a.expr +
                          (a.with_data ? " with data" : ""));
                    for (const auto& e : a.batch)
                        c.log("     " + w.show(*e));
                }
    }

    std::string run_act(const Act& a)
    {
        switch (a.type)
        {
            case IMPORT:
            {
                dataset::AcquireConfig acfg;
                acfg.replace = a.strategy == "no"    ? ReplaceStrategy::NEVER
                               : a.strategy == "yes" ? ReplaceStrategy::ALWAYS
                                                     : ReplaceStrategy::HIGHER_USN;
                auto writer = w.dataset()->create_writer();
                metadata::InboundBatch b;
                for (const auto& e : a.batch)
                    b.add(w.elem_md(*e));
                writer->acquire_batch(b, acfg);
                writer->flush();
                writer.reset();
                std::string res;
                for (const auto& i : b)
                    res += i->result == metadata::Inbound::Result::OK          ? 'o'
                           : i->result == metadata::Inbound::Result::DUPLICATE ? 'd'
                                                                               : 'e';
                return res;
            }
            case QUERY:
            {
                std::string res;
                auto reader = w.dataset()->create_reader();
                std::vector<std::shared_ptr<Metadata>> got;
                auto add = [&](std::shared_ptr<Metadata> md) {
                    put(res, w.visible_fp(*md));
                    if (a.with_data)
                    {
                        auto d = md->get_data().read();
                        put(res, std::string(d.begin(), d.end()));
                    }
                    else
                        put(res, "");
                };
                bool r = reader->query_data(query::Data(w.session->matcher(a.expr), a.with_data), [&](std::shared_ptr<Metadata> md) {
                    if (a.late)
                        got.push_back(md);
                    else
                        add(md);
                    return true;
                });
                if (!r)
                    throw std::runtime_error("query_data returned false");
                for (auto& md : got)
                    add(md);
                return res;
            }
            case SUMMARY:
            {
                Summary s;
                w.dataset()->create_reader()->query_summary(w.session->matcher(a.expr), s);
                auto buf = s.encode(false);
                return std::string(buf.begin(), buf.end());
            }
            case REPACK:
            case CHECK:
            case CONVERT:
            {
                auto rep = std::make_shared<CaptureReporter>();
                dataset::CheckerConfig opts(rep, false);
                opts.online = opts.offline = true;
                auto checker = w.dataset()->create_checker();
                if (a.type == REPACK)
                    checker->repack(opts);
                else if (a.type == CHECK)
                    checker->check(opts);
                else if (a.conv == 0)
                    checker->compress(opts, a.grp);
                else if (a.conv == 1)
                    checker->tar(opts);
                else
                    checker->zip(opts);
                return rep->all();
            }
            case REMOVE:
            {
                metadata::Collection mds;
                std::multiset<std::pair<std::string, std::string>> todo;
                for (const auto& e : a.batch)
                    todo.emplace(e->fp, std::string(e->payload.begin(), e->payload.end()));
                w.dataset()->create_reader()->query_data(query::Data(Matcher(), true), [&](std::shared_ptr<Metadata> md) {
                    auto d = md->get_data().read();
                    auto i = todo.find(std::make_pair(w.visible_fp(*md), std::string(d.begin(), d.end())));
                    if (i != todo.end())
                    {
                        todo.erase(i);
                        md->sourceBlob().unlock();
                        mds.acquire(md->clone());
                    }
                    return true;
                });
                w.dataset()->create_checker()->remove(mds);
                std::string res;
                for (const auto& e : a.batch)
                {
                    auto i = todo.find(std::make_pair(e->fp, std::string(e->payload.begin(), e->payload.end())));
                    res += i == todo.end() ? 'r' : 'n';
                    if (i != todo.end())
                        todo.erase(i);
                }
                return res;
            }
        }
        return "";
    }

    void child_main(Child& k, int in, int out)
    {
        w.session = std::make_shared<dataset::Session>(false);
        faults::sched_start(in, out, w.root.c_str(), c.verbose);
        for (unsigned i = 0; i < k.acts.size(); ++i)
        {
            faults::sched_event('S', std::to_string(i));
            std::string res;
            try
            {
                res = "+" + run_act(k.acts[i]);
            }
            catch (std::exception& e)
            {
                res = std::string("-") + e.what();
            }
            faults::sched_event('E', res);
        }
        faults::disarm();
        _exit(0);
    }

    void start()
    {
        for (auto& k : ch)
        {
            int a[2], b[2];
            if (::pipe2(a, O_CLOEXEC) < 0 || ::pipe2(b, O_CLOEXEC) < 0)
                c.fail("harness", "pipe");
            pid_t pid = ::fork();
            if (pid < 0)
                c.fail("harness", "fork");
            if (pid == 0)
            {
                ::prctl(PR_SET_PDEATHSIG, SIGKILL);
                for (auto& o : ch)
                    if (o.in != -1)
                    {
                        ::close(o.in);
                        ::close(o.out);
                    }
                ::close(a[0]);
                ::close(b[1]);
                child_main(k, b[0], a[1]);
                _exit(0);
            }
            k.pid = pid;
            k.in  = a[0];
            k.out = b[1];
            ::close(a[1]);
            ::close(b[0]);
            if (receive(k) != 'S')
                c.fail("harness", "process did not start");
        }
    }

    bool read_full(int fd, char* buf, size_t len)
    {
        while (len)
        {
            auto r = ::read(fd, buf, len);
            if (r <= 0)
                return false;
            buf += r;
            len -= r;
        }
        return true;
    }

    std::string title(const Child& k) const
    {
        return "process " + std::to_string(&k - ch.data()) + (k.cur >= 0 && k.cur < (int)k.acts.size() ? std::string(" (") + NAMES[k.acts[k.cur].type] + ")" : "");
    }

    /// Check if other processes were doing maintenance during the given action
    bool maintenance_during(const Act& a) const
    {
        for (const auto& k : ch)
            for (const auto& b : k.acts)
                if (&b != &a && (b.type == REPACK || b.type == CHECK || b.type == CONVERT) && b.start < a.end && (b.end == NEVER || b.end > a.start))
                    return true;
        return false;
    }

    /// Read the next message, and update the state of the process
    char receive(Child& k)
    {
        char hdr[5];
        if (!read_full(k.in, hdr, 5))
        {
            int status;
            ::waitpid(k.pid, &status, 0);
            k.pid = -1;
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
            {
                k.state = Child::DONE;
                return 'X';
            }
            c.fail("died", title(k) + " died with status " + std::to_string(status));
        }
        uint32_t len;
        memcpy(&len, hdr + 1, 4);
        std::string p(len, 0);
        if (!read_full(k.in, p.data(), len))
            c.fail("harness", "short message");
        ++now;
        if (c.verbose)
            c.log("  " + std::to_string(&k - ch.data()) + " " + hdr[0] + " " + (hdr[0] == 'E' ? p.substr(0, 1) + printable(p.substr(1, 200)) : p));
        switch (hdr[0])
        {
            case 'Y':
                k.state = Child::READY;
                k.where = p;
                break;
            case 'B':
                k.state = Child::STUCK_LOCK;
                k.where = p;
                ++blocks;
                break;
            case 'Z':
                k.state = Child::STUCK_SLEEP;
                ++sleeps;
                break;
            case 'S':
                k.cur                = atoi(p.c_str());
                k.acts[k.cur].start  = now;
                k.state              = Child::READY;
                break;
            case 'E':
                k.acts[k.cur].end = now;
                if (p[0] == '-' && k.acts[k.cur].type == CONVERT && p.find("No such file or directory") != std::string::npos && maintenance_during(k.acts[k.cur]))
                    // The list of segments can be out of date
                    c.count("conversions interrupted");
                else if (p[0] == '-')
                    c.fail(std::string("exception-") + NAMES[k.acts[k.cur].type], title(k) + " failed: " + p.substr(1));
                k.acts[k.cur].result = p.substr(1);
                k.state              = Child::READY;
                break;
        }
        if (hdr[0] != 'B' && hdr[0] != 'Z')
            for (auto& o : ch)
                if (&o != &k && (o.state == Child::STUCK_LOCK || o.state == Child::STUCK_SLEEP))
                    o.state = Child::READY;
        return hdr[0];
    }

    void schedule()
    {
        unsigned voluntary = g.below(13);
        unsigned span      = g.pick({10, 40, 200});
        unsigned draws     = 0;
        auto gen_gap       = [&]() -> long {
            if (!voluntary)
                return NEVER;
            --voluntary;
            return 1 + g.below(span);
        };
        auto choose = [&](int but) -> int {
            std::vector<int> cand;
            for (unsigned i = 0; i < ch.size(); ++i)
                if ((int)i != but && ch[i].state == Child::READY)
                    cand.push_back(i);
            if (cand.empty())
            {
                if (but != -1 && ch[but].state == Child::READY)
                    return but;
                for (unsigned i = 0; i < ch.size(); ++i)
                    if (ch[i].state == Child::STUCK_SLEEP)
                        return i;
                return -1;
            }
            if (cand.size() == 1)
                return cand[0];
            if (draws++ > 300)
                return cand[draws % cand.size()];
            return cand[g.below(cand.size())];
        };
        int cur  = choose(-1);
        long gap = gen_gap();
        for (long steps = 0; true; ++steps)
        {
            if (steps > 300000)
                c.fail("livelock", "the processes never end");
            if (cur != -1 && ch[cur].state == Child::READY && gap > 0)
                ;
            else
            {
                bool vol = cur != -1 && ch[cur].state == Child::READY;
                int next = choose(cur);
                if (next == -1)
                {
                    bool done = true;
                    std::string msg;
                    for (auto& k : ch)
                        if (k.state != Child::DONE)
                        {
                            done = false;
                            msg += title(k) + " waits for " + k.where + "; ";
                        }
                    if (done)
                        return;
                    c.fail("deadlock", "all processes are waiting for each other: " + msg);
                }
                if (vol || gap <= 0)
                    gap = gen_gap();
                if (next != cur)
                    ++switches;
                cur = next;
            }
            if (gap != NEVER)
                --gap;
            char tok = 'k';
            if (::write(ch[cur].out, &tok, 1) != 1)
                c.fail("harness", "cannot resume a process");
            receive(ch[cur]);
        }
    }

    /// What happened to all elements
    void history()
    {
        for (auto& k : ch)
            for (auto& a : k.acts)
            {
                if (a.type != IMPORT)
                    continue;
                c.check(a.result.size() == a.batch.size(), "harness", "results of import");
                for (unsigned i = 0; i < a.batch.size(); ++i)
                {
                    char r = a.result[i];
                    if (r == 'e')
                    {
                        // Only correct on converted segments, and on mixed formats
                        bool conv = false;
                        for (auto& k1 : ch)
                            for (auto& a1 : k1.acts)
                                conv = conv || a1.type == CONVERT;
                        auto s = w.segs.find(a.batch[i]->seg);
                        c.check(conv || (s != w.segs.end() && s->second.packed) || a.batch[i]->format != a.batch[0]->format, "import-error",
                                "import reported an error on " + w.show(*a.batch[i]));
                    }
                    if (r == 'd')
                        c.check(w.iseg, "import-duplicate", "a simple dataset reported a duplicate");
                    if (r != 'o')
                        continue;
                    Life l;
                    l.e       = a.batch[i];
                    l.birth_s = a.start;
                    l.birth_e = a.end;
                    l.by      = &a;
                    lives.push_back(l);
                }
            }
        if (w.iseg)
            for (auto& v : lives)
                for (auto& k : lives)
                {
                    if (&v == &k || !k.by || v.e->seg != k.e->seg || v.e->key != k.e->key)
                        continue;
                    if (v.birth_s >= k.birth_e)
                        continue; // v came later
                    v.may_death = std::min(v.may_death, k.birth_s);
                    if (v.birth_e <= k.birth_s)
                        v.sure_death = std::min(v.sure_death, k.birth_e);
                }
        for (auto& k : ch)
            for (auto& a : k.acts)
                if (a.type == REMOVE)
                    for (unsigned i = 0; i < a.batch.size(); ++i)
                        for (auto& l : lives)
                            if (l.e == a.batch[i] && !l.by)
                            {
                                if (a.result[i] != 'r')
                                {
                                    // Simple datasets may not return data from segments being written
                                    c.check(busy(l.e->seg, a.start, a.end), "remove-lost",
                                            "a query to find what to remove does not return " + w.show(*l.e));
                                    continue;
                                }
                                l.may_death  = std::min(l.may_death, a.start);
                                l.sure_death = std::min(l.sure_death, a.end);
                                l.removed    = true;
                            }
    }

    /// Simple datasets do not use segments while they are being imported to
    bool busy(const std::string& seg, long s, long e) const
    {
        if (w.iseg)
            return false;
        for (auto& k : ch)
            for (auto& a : k.acts)
                if (a.type == IMPORT && a.start < e && a.end > s)
                    for (auto& x : a.batch)
                        if (x->seg == seg)
                            return true;
        return false;
    }
    bool may(const Life& l, long s, long e) const { return l.birth_s < e && l.sure_death > s; }
    bool must(const Life& l, long s, long e) const { return l.birth_e <= s && l.may_death >= e && !busy(l.e->seg, s, e); }

    /// Check the results of a query run between two times
    void check_query(const std::string& what, const std::multiset<Key>& got, const std::string& expr, bool with_data, long s, long e)
    {
        auto m = w.session->matcher(expr);
        std::multiset<Key> mays, musts;
        struct Group
        {
            unsigned n = 0;
            bool sure = false;
            std::set<Key> keys;
            std::string show;
        };
        std::map<std::pair<std::string, std::string>, Group> groups;
        std::map<std::pair<const Act*, std::string>, std::vector<Key>> batches;
        for (const auto& l : lives)
        {
            if (!m(*l.e->items))
                continue;
            auto k = key(l.e, with_data);
            if (may(l, s, e))
                mays.insert(k);
            if (must(l, s, e))
            {
                musts.insert(k);
                c.check(got.count(k) >= musts.count(k), "lost", what + " does not return " + w.show(*l.e));
            }
            if (w.iseg)
            {
                auto& gr = groups[std::make_pair(l.e->seg, l.e->key)];
                if (may(l, s, e))
                    gr.keys.insert(k);
                if (l.birth_e <= s && !l.removed)
                    gr.sure = true;
                gr.show = w.show(*l.e);
                if (l.by && l.may_death == NEVER)
                    batches[std::make_pair(l.by, l.e->seg)].push_back(k);
            }
        }
        std::multiset<Key> seen;
        for (const auto& k : got)
        {
            seen.insert(k);
            if (seen.count(k) > mays.count(k))
            {
                std::string name;
                for (const auto& l : lives)
                    if (key(l.e, with_data) == k)
                        name += w.show(*l.e) + " ";
                c.fail(mays.count(k) ? "twice" : "extra", what + " returns " + (mays.count(k) ? "too many times " : "what it should not: ") +
                                                              (name.empty() ? printable(k.first) + " " + printable(k.second) : name));
            }
        }
        // Only one version of each element
        if (with_data)
            for (const auto& gr : groups)
            {
                unsigned n = 0;
                for (const auto& k : gr.second.keys)
                    n += got.count(k);
                bool same = true; // payload and items only found in one group
                for (const auto& o : groups)
                    if (o.first != gr.first)
                        for (const auto& k : gr.second.keys)
                            if (o.second.keys.count(k))
                                same = false;
                if (!same)
                    continue;
                c.check(n <= 1, "versions", what + " returns " + std::to_string(n) + " versions of " + gr.second.show);
                c.check(n == 1 || !gr.second.sure, "no-version", what + " returns neither the old nor the new version of " + gr.second.show);
            }
        // Batches are atomic for each segment
        std::map<Key, unsigned> owners;
        for (const auto& l : lives)
            ++owners[key(l.e, with_data)];
        for (auto& b : batches)
        {
            std::vector<Key> own;
            for (const auto& k : b.second)
                if (owners[k] == 1)
                    own.push_back(k);
            b.second = own;
        }
        if (with_data)
            for (const auto& b : batches)
            {
                unsigned n = 0;
                for (const auto& k : b.second)
                    n += got.count(k) ? 1 : 0;
                c.check(n == 0 || n == b.second.size(), "partial-batch",
                        what + " returns " + std::to_string(n) + " of the " + std::to_string(b.second.size()) + " elements imported together in " +
                            b.first.second);
            }
    }

    void check_summary(const std::string& what, const SumMap& got, const std::string& expr, long s, long e)
    {
        auto m = w.session->matcher(expr);
        std::vector<ElemP> mays, musts;
        for (const auto& l : lives)
        {
            if (!m(*l.e->items))
            {
                // Simple datasets summarise whole segments
                if (!w.iseg && may(l, s, e))
                    mays.push_back(l.e);
                continue;
            }
            if (may(l, s, e))
                mays.push_back(l.e);
            if (must(l, s, e))
                musts.push_back(l.e);
        }
        auto hi = w.model_summary(mays), lo = w.model_summary(musts);
        for (const auto& r : lo)
        {
            auto i = got.find(r.first);
            c.check(i != got.end() && std::get<0>(i->second) >= std::get<0>(r.second), "summary-lost",
                    what + ": less elements in the summary than there are: " + summap_diff(got, lo));
        }
        for (const auto& r : got)
        {
            auto i = hi.find(r.first);
            c.check(i != hi.end() && std::get<0>(i->second) >= std::get<0>(r.second), "summary-extra",
                    what + ": more elements in the summary than there are: " + summap_diff(got, hi));
        }
        if (musts.size() == mays.size())
            c.check(got == hi, "summary", what + ": " + summap_diff(got, hi));
    }

    std::multiset<Key> query_all()
    {
        std::multiset<Key> res;
        for (const auto& md : w.query("", true))
        {
            auto d = md->get_data().read();
            res.emplace(w.visible_fp(*md), std::string(d.begin(), d.end()));
        }
        return res;
    }

    void verify()
    {
        for (auto& k : ch)
            for (unsigned i = 0; i < k.acts.size(); ++i)
            {
                auto& a          = k.acts[i];
                std::string what = std::string(NAMES[a.type]) + " " + std::to_string(i) + " of process " + std::to_string(&k - ch.data());
                if (a.type == QUERY)
                {
                    std::multiset<Key> got;
                    size_t pos = 0;
                    Key x;
                    while (get(a.result, pos, x.first) && get(a.result, pos, x.second))
                        got.insert(x);
                    check_query(what, got, a.expr, a.with_data, a.start, a.end);
                }
                if (a.type == SUMMARY)
                {
                    Summary s;
                    core::BinaryDecoder dec((const uint8_t*)a.result.data(), a.result.size());
                    s.read(dec, "result");
                    check_summary(what, w.read_summary(s), a.expr, a.start, a.end);
                }
            }
    }

    void final(const std::string& when)
    {
        auto got = query_all();
        check_query("a query " + when, got, "", true, NEVER - 1, NEVER);
        // What is there
        std::vector<ElemP> present;
        auto left = got;
        for (const auto& l : lives)
        {
            auto i = left.find(key(l.e, true));
            if (i == left.end())
                continue;
            left.erase(i);
            present.push_back(l.e);
        }
        Summary s;
        w.dataset()->create_reader()->query_summary(Matcher(), s);
        auto exp = w.model_summary(present);
        auto sum = w.read_summary(s);
        c.check(exp == sum, "final-summary", "summary " + when + ": " + summap_diff(sum, exp));
        if (last_seen)
            c.check(*last_seen == got, "changed", "the contents of the dataset changed " + when);
        last_seen.reset(new std::multiset<Key>(got));
    }
    std::unique_ptr<std::multiset<Key>> last_seen;

    void states(const std::string& when, bool clean)
    {
        auto rep = std::make_shared<CaptureReporter>();
        for (const auto& s : w.states(*rep, false))
        {
            bool bad = s.second.has(segment::SEGMENT_UNALIGNED) || s.second.has(segment::SEGMENT_MISSING) || s.second.has(segment::SEGMENT_CORRUPTED);
            c.check(!bad, "state", "state of " + s.first + " " + when + ": " + s.second.to_string() + " " + rep->all());
            if (clean)
                c.check(s.second.is_ok(), "dirty", "state of " + s.first + " " + when + ": " + s.second.to_string() + " " + rep->all());
        }
    }
};

} // namespace

PROPERTY("F03", "schedules", 1, "a query or maintenance ran at the same time as an import or maintenance of another process")
{
    WorldOpts o;
    o.small = c.g.chance(3, 4);
    World w(c, o);
    w.cfg.set("locking", "yes");
    unsigned n = c.g.range(0, 3);
    for (unsigned i = 0; i < n; ++i)
        switch (c.g.weighted({6, 2, 1, 1}))
        {
            case 0: w.op_import(); break;
            case 1: w.op_remove(); break;
            case 2: w.op_repack(); break;
            case 3: w.op_convert(); break;
        }
    if (fs::exists(w.path))
        w.op_check();
    w.op_age(100);
    Conc b(w);
    for (const auto& s : w.segs)
        for (const auto& p : s.second.phys)
            if (p.second)
            {
                Life l;
                l.e = p.first;
                b.lives.push_back(l);
            }
    if (c.g.chance(1, 3) && fs::exists(w.path))
        // Start with fresh summaries
        w.audit_summary();
    b.plan();
    b.start();
    b.schedule();
    b.history();
    // Did anything happen at the same time?
    for (unsigned i = 0; i < b.ch.size(); ++i)
        for (unsigned j = 0; j < b.ch.size(); ++j)
            for (auto& x : b.ch[i].acts)
                for (auto& y : b.ch[j].acts)
                    if (i != j && x.start < y.end && y.start < x.end && x.type != IMPORT && (y.type != QUERY && y.type != SUMMARY))
                    {
                        c.mark();
                        c.count(std::string(NAMES[x.type]) + " during " + NAMES[y.type]);
                    }
    c.count("switches", b.switches);
    c.count("waits for locks", b.blocks);
    c.count("busy waits", b.sleeps);
    b.verify();
    if (fs::exists(w.path))
    {
        b.final("after all processes ended");
        b.states("after all processes ended", false);
        {
            auto rep = std::make_shared<CaptureReporter>();
            dataset::CheckerConfig opts(rep, false);
            w.dataset()->create_checker()->check(opts);
        }
        b.final("after a check");
        {
            auto rep = std::make_shared<CaptureReporter>();
            dataset::CheckerConfig opts(rep, false);
            w.dataset()->create_checker()->repack(opts);
            c.log(rep->all());
        }
        b.final("after a repack");
        b.states("after a repack", true);
    }
    c.mix((uint64_t)b.switches);
    c.mix((uint64_t)b.now);
    for (const auto& e : w.history)
        c.mix(e->payload.data(), e->payload.size());
}
