// C05: batches of data, and programs run on them
#include "world.h"
#include "arki/core/file.h"
#include "arki/metadata/clusterer.h"
#include "arki/metadata/data.h"
#include "arki/metadata/xargs.h"
#include "arki/types/reftime.h"
#include "arki/types/source.h"
#include "arki/types/timerange.h"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

using namespace vf;
using namespace arki;
using namespace arki::types;
namespace fs = std::filesystem;

namespace {

struct Item
{
    std::shared_ptr<Metadata> md;
    DataFormat format;
    std::string data;
    int64_t t;
    std::string timerange; // encoded
    std::string show;
};

struct Limits
{
    size_t max_count = 0, max_bytes = 0, max_interval = 0;
    bool split_timerange = false;
};

std::vector<Item> gen_items(Case& c, unsigned max)
{
    auto& g = c.g;
    std::vector<std::unique_ptr<World>> worlds;
    unsigned nw = g.chance(1, 3) ? 2 : 1;
    for (unsigned i = 0; i < nw; ++i)
    {
        WorldOpts o;
        o.small = g.flip();
        worlds.push_back(std::make_unique<World>(c, o));
    }
    std::vector<Item> res;
    unsigned n = g.range(0, max);
    World* w   = worlds[0].get();
    for (unsigned i = 0; i < n; ++i)
    {
        if (g.chance(1, 5))
            w = g.pick(worlds).get();
        if (!res.empty() && g.chance(1, 6))
        {
            // The same again
            auto it = res.back();
            it.md   = it.md->clone();
            res.push_back(it);
            continue;
        }
        auto e = w->new_elem();
        w->history.push_back(e);
        Item it;
        it.md     = make_inline(e->format, *e->items, e->usn, e->filler);
        it.format = e->format;
        it.t      = e->t;
        if (g.chance(1, 4) && !res.empty())
        {
            // Same time range as before
            if (auto tr = res.back().md->get(TYPE_TIMERANGE))
                it.md->set(*tr);
            else
                it.md->unset(TYPE_TIMERANGE);
        }
        if (g.chance(1, 4) && !res.empty())
        {
            // Same time as before, or close to it
            it.t = res.back().t + g.pick({0, 1, 59, 60, 3599, 3600, 86399, 86400, -1, 31 * 86400});
            it.md->set(Reftime::createPosition(secs_civil(it.t)));
        }
        auto d  = it.md->get_data().read();
        it.data = std::string(d.begin(), d.end());
        if (auto tr = it.md->get(TYPE_TIMERANGE))
        {
            auto x       = enc(*tr);
            it.timerange = std::string(x.begin(), x.end());
        }
        it.show = format_name(it.format) + " " + secs_civil(it.t).to_iso8601(' ') + " " + std::to_string(it.data.size()) + "b " +
                  (it.md->get(TYPE_TIMERANGE) ? vf::show(*it.md->get(TYPE_TIMERANGE)) : "no timerange");
        res.push_back(it);
    }
    for (const auto& i : res)
    {
        c.log(i.show);
        c.mix(i.show);
    }
    return res;
}

Limits gen_limits(Case& c, const std::vector<Item>& items)
{
    auto& g = c.g;
    Limits l;
    if (g.chance(1, 2))
        l.max_count = g.range(1, 5);
    if (g.chance(1, 2))
    {
        // Around the sum of the sizes of some of the elements
        size_t sum = 0;
        if (!items.empty())
        {
            unsigned from = g.below(items.size());
            unsigned n    = g.range(1, 4);
            for (unsigned i = from; i < from + n && i < items.size(); ++i)
                sum += items[i].data.size();
        }
        sum += g.pick({0, 1, -1});
        l.max_bytes = std::max<size_t>(sum, 1);
    }
    if (g.chance(1, 2))
        l.max_interval = g.range(1, 5);
    l.split_timerange = g.chance(1, 3);
    c.log("limits: count " + std::to_string(l.max_count) + " bytes " + std::to_string(l.max_bytes) + " interval " +
          std::to_string(l.max_interval) + (l.split_timerange ? " timerange" : ""));
    return l;
}

/// The part of a time that elements of a batch have in common
std::string period(int64_t t, size_t interval)
{
    auto x = secs_civil(t);
    int v[] = {x.ye, x.mo, x.da, x.ho, x.mi};
    std::string res;
    for (size_t i = 0; i < interval; ++i)
        res += std::to_string(v[i]) + "-";
    return res;
}

std::vector<std::vector<Item>> model_batches(const std::vector<Item>& items, const Limits& l)
{
    std::vector<std::vector<Item>> res;
    for (const auto& i : items)
    {
        bool start = res.empty();
        if (!start)
        {
            auto& b     = res.back();
            size_t size = 0;
            for (auto& x : b)
                size += x.data.size();
            start = i.format != b[0].format || (l.max_count && b.size() + 1 > l.max_count) ||
                    (l.max_bytes && size + i.data.size() > l.max_bytes) ||
                    (l.max_interval && period(i.t, l.max_interval) != period(b[0].t, l.max_interval)) ||
                    (l.split_timerange && i.timerange != b[0].timerange);
        }
        if (start)
            res.emplace_back();
        res.back().push_back(i);
    }
    return res;
}

std::string show_sizes(const std::vector<std::vector<Item>>& b)
{
    std::string r;
    for (auto& x : b)
        r += (r.empty() ? "" : " ") + std::to_string(x.size());
    return r;
}

struct Collect : public metadata::Clusterer
{
    struct B
    {
        std::vector<std::shared_ptr<Metadata>> mds;
        DataFormat format;
        size_t count = 0, size = 0;
        core::Interval timespan;
        bool closed = false;
    };
    std::vector<B> batches;
    bool bad = false;

    void start_batch(DataFormat f) override
    {
        Clusterer::start_batch(f);
        if (!batches.empty() && !batches.back().closed)
            bad = true;
        batches.emplace_back();
        batches.back().format = f;
    }
    void add_to_batch(std::shared_ptr<Metadata> md) override
    {
        Clusterer::add_to_batch(md);
        if (batches.empty() || batches.back().closed)
            bad = true;
        else
            batches.back().mds.push_back(md);
    }
    void flush_batch() override
    {
        if (batches.empty() || batches.back().closed)
            bad = true;
        else
        {
            auto& b    = batches.back();
            b.closed   = true;
            b.count    = count;
            b.size     = size;
            b.timespan = timespan;
        }
        Clusterer::flush_batch();
    }
};

std::string slurp(const fs::path& p)
{
    std::ifstream in(p, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}

struct Env
{
    std::string name;
    bool had;
    std::string old;
    Env(const std::string& name, const std::string& val) : name(name)
    {
        const char* o = getenv(name.c_str());
        had           = o;
        if (o)
            old = o;
        setenv(name.c_str(), val.c_str(), 1);
    }
    ~Env()
    {
        if (had)
            setenv(name.c_str(), old.c_str(), 1);
        else
            unsetenv(name.c_str());
    }
};

} // namespace

PROPERTY("C05", "batches", 2, "at least two batches, one of them with more than an element")
{
    auto items = gen_items(c, c.thorough ? 40 : 20);
    auto l     = gen_limits(c, items);
    auto exp   = model_batches(items, l);
    c.log("expected batches: " + show_sizes(exp));
    if (exp.size() > 1 && exp.size() < items.size())
        c.mark();
    Collect cl;
    cl.max_count       = l.max_count;
    cl.max_bytes       = l.max_bytes;
    cl.max_interval    = l.max_interval;
    cl.split_timerange = l.split_timerange;
    for (const auto& i : items)
        c.check(cl.eat(i.md), "eat", "the batcher refuses an element");
    cl.flush();
    if (c.g.flip())
        cl.flush();
    c.check(!cl.bad, "sequence", "batches are not started, filled and closed one after the other");
    std::string sizes;
    for (auto& b : cl.batches)
        sizes += (sizes.empty() ? "" : " ") + std::to_string(b.mds.size());
    c.eq(sizes, show_sizes(exp), "batches", "elements in each batch");
    for (size_t i = 0; i < exp.size(); ++i)
    {
        auto& b = cl.batches[i];
        auto& e = exp[i];
        c.check(b.closed, "closed", "a batch is left open");
        c.check(b.format == e[0].format, "format", "wrong format of a batch");
        c.eq(b.count, e.size(), "count", "elements counted in a batch");
        size_t size = 0;
        int64_t lo = INT64_MAX, hi = INT64_MIN;
        for (size_t j = 0; j < e.size(); ++j)
        {
            c.check(b.mds[j].get() == e[j].md.get(), "order", "batches change the order of elements");
            size += e[j].data.size();
            lo = std::min(lo, e[j].t);
            hi = std::max(hi, e[j].t);
        }
        c.eq(b.size, size, "size", "size of a batch");
        c.check(b.timespan.begin == secs_civil(lo) && b.timespan.end == secs_civil(hi + 1), "timespan",
                "time span of a batch is " + b.timespan.to_string() + " instead of " + secs_civil(lo).to_iso8601() + " to " +
                    secs_civil(hi).to_iso8601());
    }
}

PROPERTY("C05", "programs", 1, "a program is run at least twice, one of them with more than an element")
{
    auto& g    = c.g;
    auto items = gen_items(c, 12);
    auto l     = gen_limits(c, items);
    if (!l.max_count && !l.max_bytes)
        l.max_count = 3;
    auto exp = model_batches(items, l);
    c.log("expected batches: " + show_sizes(exp));
    auto dir = c.newdir();
    auto tmp = dir / "tmp";
    auto out = dir / "out";
    fs::create_directories(tmp);
    fs::create_directories(out);
    Env e1("TMPDIR", tmp), e2("ARKI_XARGS_OTHER", "1"), e3("VF_OTHER", "some value"), e4("ARKI_XARGS_COUNT", "77");

    // What the program does at the end
    enum { OK, EXIT, KILL, REMOVE, NOTFOUND } end = (decltype(OK))g.weighted({6, 2, 1, 2, 1});
    unsigned when = end == NOTFOUND || exp.empty() ? 0 : g.below(exp.size());
    std::string last;
    switch (end)
    {
        case EXIT: last = "exit " + std::to_string(g.pick({1, 2, 127, 255})); break;
        case KILL: last = std::string("kill -") + g.pick({"9", "15"}) + " $$"; break;
        case REMOVE: last = "rm \"$ARKI_XARGS_FILENAME\""; break;
        default: break;
    }
    // Where the name of the file is passed
    int pos = g.pick({-1, -1, 1, 3, 1000});
    c.log("file name at " + std::to_string(pos) + " batch " + std::to_string(when) + " ends with " +
          (end == NOTFOUND ? "program not found" : last));
    auto script = dir / "script";
    {
        std::ofstream o(script);
        o << "#!/bin/sh\n"
             "N=$(ls '" << out.native() << "' | grep -c '\\.env$')\n"
             "O='" << out.native() << "'/$N\n"
             "{ echo \"format=$ARKI_XARGS_FORMAT\"; echo \"count=$ARKI_XARGS_COUNT\"; echo \"start=$ARKI_XARGS_TIME_START\";\n"
             "echo \"end=$ARKI_XARGS_TIME_END\"; echo \"other=$ARKI_XARGS_OTHER\"; echo \"vf=$VF_OTHER\";\n"
             "echo \"nargs=$#\"; for i in \"$@\"; do if [ \"$i\" = \"$ARKI_XARGS_FILENAME\" ]; then echo \"arg=FILE\"; else echo \"arg=$i\"; fi; done; } > $O.env\n"
             "cat > $O.stdin\n"
             "cat \"$ARKI_XARGS_FILENAME\" > $O.data\n"
             "if [ $N = " << when << " ]; then true; " << last << "\nfi\n"
             "exit 0\n";
    }
    ::chmod(script.c_str(), 0755);
    auto px           = std::make_unique<metadata::Xargs>();
    auto& x           = *px;
    x.command         = {end == NOTFOUND ? (dir / "missing").native() : script.native(), "one", "two words", ""};
    x.max_count       = l.max_count;
    x.set_max_bytes(l.max_bytes);
    if (l.max_interval)
    {
        static const std::vector<std::string> names = {"", "year", "month", "day", "hour", "minute"};
        std::string name = names[l.max_interval];
        if (g.chance(1, 3))
            name = " " + name + " ";
        if (g.chance(1, 3))
            name[1] = toupper(name[1]);
        x.set_interval(name);
    }
    x.split_timerange   = l.split_timerange;
    x.filename_argument = pos;
    bool threw = false;
    std::string what;
    // Sometimes input stops coming
    bool stop   = !exp.empty() && g.chance(1, 6);
    size_t upto = items.size();
    if (stop)
    {
        upto = g.below(items.size() + 1);
        exp  = model_batches(std::vector<Item>(items.begin(), items.begin() + upto), l);
        // The last one is incomplete
        if (!exp.empty())
            exp.pop_back();
        c.log("stop after " + std::to_string(upto) + " elements");
        c.count("stopped early");
    }
    try
    {
        for (size_t i = 0; i < upto; ++i)
            x.eat(items[i].md);
        if (!stop)
            x.flush();
    }
    catch (std::exception& e)
    {
        threw = true;
        what  = e.what();
        c.log("exception: " + what);
    }
    px.reset();
    bool fails = when < exp.size() && (end == EXIT || end == KILL || end == NOTFOUND);
    c.check(threw == fails, "result",
            threw ? "running the program failed: " + what : "the failure of the program is not reported");
    size_t runs = end == NOTFOUND ? 0 : fails ? when + 1 : exp.size();
    size_t got  = 0;
    for (auto& e : fs::directory_iterator(out))
        if (e.path().extension() == ".env")
            ++got;
    c.eq(got, runs, "runs", "times the program was run");
    for (size_t i = 0; i < runs; ++i)
    {
        auto& b = exp[i];
        std::string data;
        int64_t lo = INT64_MAX, hi = INT64_MIN;
        for (auto& e : b)
        {
            data += e.data;
            if (e.format == DataFormat::VM2)
                data += "\n";
            lo = std::min(lo, e.t);
            hi = std::max(hi, e.t);
        }
        auto f   = out / std::to_string(i);
        auto got = slurp(f.native() + ".data");
        c.check(got == data, "data",
                "batch " + std::to_string(i) + " has " + std::to_string(got.size()) + " bytes instead of " +
                    std::to_string(data.size()) + ", or different data");
        c.eq(slurp(f.native() + ".stdin"), std::string(), "stdin", "data sent to the standard input of the program");
        std::string fmt = format_name(b[0].format);
        for (auto& ch : fmt)
            ch = toupper(ch);
        std::vector<std::string> args = {"one", "two words", ""};
        if (pos == -1)
            args.push_back("FILE");
        else if (pos < 4)
            args[pos - 1] = "FILE";
        std::string env = "format=" + fmt + "\ncount=" + std::to_string(b.size()) + "\nstart=" + secs_civil(lo).to_iso8601(' ') +
                          "\nend=" + secs_civil(hi).to_iso8601(' ') + "\nother=\nvf=some value\nnargs=" +
                          std::to_string(args.size()) + "\n";
        for (auto& a : args)
            env += "arg=" + a + "\n";
        c.eq(slurp(f.native() + ".env"), env, "environment", "what the program is told about batch " + std::to_string(i));
    }
    for (auto& e : fs::directory_iterator(tmp))
        c.fail("leftover", "a temporary file is left behind: " + e.path().native());
    c.count("programs run", runs);
    if (fails)
        c.count("failures");
    if (runs > 1 && items.size() > exp.size())
        c.mark();
}
