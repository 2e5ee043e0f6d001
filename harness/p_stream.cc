/*
 * Outputs of data streams, with and without filters
 */
#include "engine.h"
#include "arki/core/file.h"
#include "arki/stream.h"
#include "arki/stream/filter.h"
#include "arki/utils/sys.h"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace vf;
using namespace arki;
namespace fs = std::filesystem;

namespace {

typedef std::string Bytes;

Bytes make_bytes(uint32_t seed, size_t size)
{
    Bytes res(size, 0);
    uint32_t x = seed * 2654435761u + 12345;
    for (size_t i = 0; i < size; ++i)
    {
        x      = x * 1664525u + 1013904223u;
        res[i] = x >> 24;
    }
    return res;
}

/// Who reads the other end of a pipe
struct Consumer
{
    int fd = -1;
    unsigned start_ms = 0, pause_ms = 0;
    size_t chunk      = 65536;
    size_t limit      = SIZE_MAX; // close after reading this much
    Bytes got;
    std::thread thread;

    void start()
    {
        thread = std::thread([this] {
            if (start_ms)
                usleep(start_ms * 1000);
            std::vector<char> buf(chunk);
            unsigned pauses = 20;
            while (got.size() < limit)
            {
                ssize_t r = ::read(fd, buf.data(), std::min(buf.size(), limit - got.size()));
                if (r <= 0)
                    break;
                got.append(buf.data(), r);
                if (pause_ms && pauses)
                {
                    usleep(pause_ms * 1000);
                    --pauses;
                }
            }
            ::close(fd);
        });
    }
    void join()
    {
        if (thread.joinable())
            thread.join();
    }
    ~Consumer() { join(); }
};

struct Filter
{
    std::string name;
    std::vector<std::string> args;
    // Result of filtering
    std::function<Bytes(const Bytes&)> fn;
    bool fails   = false; // exits with an error
    bool partial = false; // does not read all its input
    Bytes errors;
};

/// A way of sending data
struct Op
{
    unsigned kind; // 0 buffer, 1 line, 2 file segment
    Bytes data;    // expected
    off_t offset;
};

struct Bench
{
    Case& c;
    Gen& g;
    std::unique_ptr<Consumer> consumer;
    std::shared_ptr<core::NamedFileDescriptor> out_fd;
    std::unique_ptr<StreamOutput> out;
    std::vector<uint8_t> buffer;
    fs::path outfile;
    std::string kind;
    Bytes prefix; // already in the output file
    uint64_t progress   = 0;
    bool closes_early   = false;
    bool stalls         = false; // the destination is only read at the end
    size_t capacity     = 0;
    Bytes source;
    std::unique_ptr<core::File> source_fd;
    size_t total = 0;

    Bench(Case& c) : c(c), g(c.g) {}

    size_t gen_size()
    {
        switch (g.weighted({4, 4, 3, 2}))
        {
            case 0: return g.below(20);
            case 1: return g.below(5000);
            case 2: return g.pick({4095, 4096, 4097, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 131073}) + 0;
            default: return g.below(300000);
        }
    }

    void open()
    {
        auto dir = c.newdir();
        switch (g.weighted({4, 2, 2, 4, 3, 1}))
        {
            case 0: kind = "pipe"; break;
            case 1: kind = "file"; break;
            case 2: kind = "append"; break;
            case 3: kind = "buffer"; break;
            case 4: kind = "socket"; break;
            case 5: kind = "discard"; break;
        }
        unsigned timeout = 0;
        std::string desc = kind;
        if (kind == "pipe" || kind == "socket")
        {
            int fds[2];
            if (kind == "pipe")
            {
                if (::pipe2(fds, O_CLOEXEC) < 0)
                    throw Discard();
            }
            else if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds) < 0)
                throw Discard();
            if (kind == "pipe" && g.flip())
                ::fcntl(fds[1], F_SETPIPE_SZ, 4096);
            if (kind == "pipe")
                capacity = ::fcntl(fds[1], F_GETPIPE_SZ);
            // A socket open for appending is something one cannot splice() to
            if (kind == "socket" && g.flip())
            {
                ::fcntl(fds[1], F_SETFL, ::fcntl(fds[1], F_GETFL) | O_APPEND);
                desc += " append";
            }
            consumer.reset(new Consumer);
            consumer->fd       = fds[0];
            consumer->start_ms = g.weighted({3, 1}) ? g.range(1, 15) : 0;
            consumer->pause_ms = g.chance(1, 4);
            consumer->chunk    = g.pick({65536, 4096, 1000, 30000, 200000});
            if (g.chance(1, 10))
            {
                closes_early    = true;
                consumer->limit = gen_size();
            }
            out_fd = std::make_shared<core::File>(fds[1], "destination");
            desc += " start=" + std::to_string(consumer->start_ms) + "ms pause=" + std::to_string(consumer->pause_ms) +
                    "ms chunk=" + std::to_string(consumer->chunk) + (closes_early ? " closes after " + std::to_string(consumer->limit) : "");
            if (g.chance(1, 6))
                timeout = 10000;
            else if (kind == "pipe" && !closes_early && g.chance(1, 12))
            {
                timeout = g.range(10, 30);
                stalls  = true;
                desc += " stalls, timeout=" + std::to_string(timeout) + "ms";
            }
        }
        else if (kind == "file" || kind == "append")
        {
            outfile = dir / "out";
            if (g.flip())
            {
                prefix = make_bytes(1, 10 + g.below(100));
                core::File f(outfile, O_WRONLY | O_CREAT, 0666);
                f.write_all_or_throw(prefix.data(), prefix.size());
                f.close();
            }
            auto f = std::make_shared<core::File>(outfile, O_WRONLY | O_CREAT | (kind == "append" ? O_APPEND : 0), 0666);
            if (kind == "file")
                f->lseek(0, SEEK_END);
            out_fd = f;
        }
        if (out_fd)
            out = StreamOutput::create(out_fd, timeout);
        else if (kind == "buffer")
            out = StreamOutput::create(buffer);
        else
            out = StreamOutput::create_discard();
        if (g.flip())
            out->set_progress_callback([this](size_t s) { progress += s; });
        else
            progress = UINT64_MAX;
        c.log("output: " + desc);
        source = make_bytes(7, 400000);
        source_fd.reset(new core::File(dir / "source", O_RDWR | O_CREAT, 0666));
        source_fd->write_all_or_throw(source.data(), source.size());
        if (consumer && !stalls)
            consumer->start();
    }

    Filter gen_filter()
    {
        Filter f;
        auto id = [](const Bytes& b) { return b; };
        switch (g.weighted({4, 4, 2, 2, 2, 1, 1, 1}))
        {
            case 0:
                f.name = "cat";
                f.args = {"cat"};
                f.fn   = id;
                break;
            case 1:
                // Writes everything at the end
                f.name = "dd";
                f.args = {"dd", "obs=" + std::to_string(g.pick({1000000, 5000, 50000})), "status=none"};
                f.fn   = id;
                break;
            case 2:
                f.name   = "failing";
                f.args   = {"sh", "-c", "cat; echo problem >&2; exit 3"};
                f.fn     = id;
                f.fails  = true;
                f.errors = "problem";
                break;
            case 3:
            {
                size_t n  = gen_size();
                f.name    = "head";
                f.args    = {"head", "-c", std::to_string(n)};
                f.fn      = [n](const Bytes& b) { return b.substr(0, n); };
                f.partial = true;
                break;
            }
            case 4:
            {
                size_t n = gen_size();
                f.name   = "noisy";
                f.args   = {"sh", "-c", "head -c " + std::to_string(n) + " /dev/zero >&2; cat; head -c " + std::to_string(n) + " /dev/zero >&2"};
                f.fn     = id;
                f.errors = Bytes(2 * n, 0);
                break;
            }
            case 5:
                f.name = "silent";
                f.args = {"sh", "-c", "cat > /dev/null"};
                f.fn   = [](const Bytes&) { return Bytes(); };
                break;
            case 6:
            {
                size_t n = gen_size();
                f.name   = "verbose";
                f.args   = {"sh", "-c", "cat; head -c " + std::to_string(n) + " /dev/zero"};
                f.fn     = [n](const Bytes& b) { return b + Bytes(n, 0); };
                break;
            }
            case 7:
                f.name   = "missing";
                f.args   = {"sh", "-c", "cat > /dev/null; exit 1"};
                f.fn     = [](const Bytes&) { return Bytes(); };
                f.fails  = true;
                break;
        }
        return f;
    }

    Op gen_op()
    {
        Op op;
        op.kind = g.weighted({3, 2, 3});
        auto n  = gen_size();
        switch (op.kind)
        {
            case 0: op.data = make_bytes(g.below(1000), n); break;
            case 1:
                op.data = make_bytes(g.below(1000), n);
                std::replace(op.data.begin(), op.data.end(), '\n', ' ');
                break;
            case 2:
                n         = std::min(n, source.size());
                op.offset = g.below(source.size() - n + 1);
                op.data   = source.substr(op.offset, n);
                break;
        }
        static const char* names[] = {"buffer", "line", "file segment"};
        c.log(std::string("send ") + names[op.kind] + " " + std::to_string(op.data.size()));
        return op;
    }

    stream::SendResult send(const Op& op, Bytes& sent)
    {
        stream::SendResult res;
        switch (op.kind)
        {
            case 0: res = out->send_buffer(op.data.data(), op.data.size()); break;
            case 1: res = out->send_line(op.data.data(), op.data.size()); break;
            case 2: res = out->send_file_segment(*source_fd, op.offset, op.data.size()); break;
        }
        sent += op.data;
        if (op.kind == 1)
            sent += "\n";
        total += op.data.size();
        return res;
    }

    /// Close the output and get what arrived
    Bytes finish()
    {
        out.reset();
        out_fd.reset();
        if (consumer)
        {
            if (stalls)
                consumer->start();
            consumer->join();
            return consumer->got;
        }
        if (kind == "buffer")
            return Bytes(buffer.begin(), buffer.end());
        if (kind == "discard")
            return Bytes();
        return utils::sys::read_file(outfile);
    }

    static std::string diff(const Bytes& got, const Bytes& exp)
    {
        size_t i = 0;
        while (i < got.size() && i < exp.size() && got[i] == exp[i])
            ++i;
        return "got " + std::to_string(got.size()) + " bytes, expected " + std::to_string(exp.size()) + ", first difference at " + std::to_string(i);
    }

    /// Send data to a destination that does not read it
    void run_stalled()
    {
        c.count("stalled outputs");
        bool filtered = g.flip();
        bool threw    = false;
        Bytes in;
        unsigned n = g.range(1, 4);
        try
        {
            if (filtered)
                out->start_filter({"cat"});
            for (unsigned i = 0; i < n; ++i)
            {
                auto op = gen_op();
                in += op.data;
                if (op.kind == 1)
                    in += "\n";
                Bytes dummy;
                auto res = send(op, dummy);
                c.eq((unsigned)res.flags, 0u, "stall", "flags of sending data to a destination that does not read it");
            }
            // The filter may need more time to start than the timeout
            if (filtered)
                out->stop_filter();
        }
        catch (stream::TimedOut& e)
        {
            c.log(std::string("  timed out: ") + e.what());
            threw = true;
            try
            {
                if (filtered)
                    out->abort_filter();
            }
            catch (std::exception& e)
            {
                // On a loaded system, it can take longer than the timeout to
                // kill a process
                c.log(std::string("  abort failed: ") + e.what());
            }
        }
        if (in.size() > capacity)
            c.check(threw, "stall", "sending " + std::to_string(in.size()) + " bytes to a destination that does not read it does not time out");
        if (in.size() < 4096 && !filtered && capacity > 4096)
            c.check(!threw, "stall", "sending " + std::to_string(in.size()) + " bytes to an empty pipe timed out");
        auto got = finish();
        c.check(got.size() <= in.size() && in.compare(0, got.size(), got) == 0, "data", "data sent to a stalled destination: " + diff(got, in));
        if (!threw)
            c.eq(got.size(), in.size(), "data", "size of data sent to a stalled destination");
        c.mark();
        c.mix(in);
    }

    void run()
    {
        open();
        if (stalls)
        {
            run_stalled();
            return;
        }
        Bytes expected     = prefix;
        bool eof           = false;
        bool inexact       = false; // only a beginning is expected
        unsigned filters   = 0;
        unsigned rounds    = g.range(1, 2);
        for (unsigned r = 0; r < rounds && !eof && !inexact; ++r)
        {
            bool filtered = g.flip();
            Filter f;
            Bytes in;
            if (filtered)
            {
                f = gen_filter();
                c.log("filter " + f.name);
                out->start_filter(f.args);
                ++filters;
            }
            unsigned n   = g.range(filtered ? 0 : 1, 5);
            bool aborted = false;
            for (unsigned i = 0; i < n && !eof; ++i)
            {
                if (filtered && g.chance(1, 15))
                {
                    c.log("abort");
                    out->abort_filter();
                    aborted = true;
                    break;
                }
                auto op = gen_op();
                try
                {
                    if (send(op, in).flags & stream::SendResult::SEND_PIPE_EOF_DEST)
                    {
                        c.log("  destination closed");
                        eof = true;
                    }
                }
                catch (std::exception& e)
                {
                    c.log(std::string("  failed: ") + e.what());
                    if (!filtered || !f.partial)
                        throw;
                    in += op.data;
                    if (op.kind == 1)
                        in += "\n";
                    c.count("filters that closed their input");
                    out->abort_filter();
                    aborted = true;
                    break;
                }
            }
            if (!filtered)
            {
                expected += in;
                continue;
            }
            if (aborted)
            {
                c.count("filters aborted");
                expected += f.fn(in);
                inexact = true;
                continue;
            }
            auto res = out->stop_filter();
            expected += f.fn(in);
            if (eof)
                continue;
            bool threw = false;
            try
            {
                res->check_for_errors();
            }
            catch (std::exception& e)
            {
                threw = true;
                c.log(std::string("  filter failed: ") + e.what());
                if (f.fails)
                    c.check(std::string(e.what()).find(f.errors) != std::string::npos, "filter-errors",
                            std::string("errors of the filter are not reported: ") + e.what());
            }
            if (closes_early)
            {
                // The filter may have been ended before it finished
                inexact = true;
                continue;
            }
            c.eq(threw, f.fails, "filter-result", "failure of filter " + f.name);
            c.eq(res->errors.str().size(), f.errors.size() + (f.fails && !f.errors.empty() ? 1 : 0), "filter-errors", "size of the errors of filter " + f.name);
            if (!f.partial)
                c.eq(res->size_stdin, in.size(), "filter-size", "size of data sent to filter " + f.name);
            if (kind != "discard")
                c.eq(res->size_stdout, f.fn(in).size(), "filter-size", "size of data received from filter " + f.name);
        }
        auto got = finish();
        if (kind == "discard")
            expected.clear();
        else if (closes_early)
        {
            auto limit = prefix.size() + consumer->limit;
            if (expected.size() > limit)
                expected.resize(limit);
            else
                closes_early = false;
            c.check(got.size() <= expected.size() && expected.compare(0, got.size(), got) == 0, "data",
                    "data sent to a destination that was closed: " + diff(got, expected));
            c.count("destination closed");
        }
        else if (inexact)
            c.check(got.size() <= expected.size() && expected.compare(0, got.size(), got) == 0, "data",
                    "data sent with an interrupted filter: " + diff(got, expected));
        else if (!eof)
            c.check(got == expected, "data", "data sent to " + kind + ": " + diff(got, expected));
        else
            c.fail("eof", "sending data to " + kind + " reported that it was closed");
        if (!inexact && !closes_early && progress != UINT64_MAX && kind != "discard")
            c.eq(progress, expected.size() - prefix.size(), "progress", "bytes reported as written");
        c.count("output " + kind);
        if (filters)
            c.count("filters");
        if (total > 0)
            c.mark();
        c.mix(kind);
        c.mix((uint64_t)total);
        c.mix(expected);
    }
};

} // namespace

static void prop_stream(Case& c)
{
    ::signal(SIGPIPE, SIG_IGN);
    Bench b(c);
    b.run();
}

// How the data is split among reads and writes depends on timing
static Register reg_stream(Prop{"C03", "stream", prop_stream, "data was sent to an output", 1, 60, true});
