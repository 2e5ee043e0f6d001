// D08: queries on several datasets
#include "world.h"
#include "arki/core/file.h"
#include "arki/dataset/file.h"
#include "arki/dataset/pool.h"
#include "arki/metadata/data.h"
#include "arki/metadata/sort.h"
#include "arki/query/progress.h"
#include "arki/stream.h"
#include "arki/types/reftime.h"
#include "arki/types/source/blob.h"
#include "arki/types/source.h"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <unistd.h>

using namespace vf;
using namespace arki;
namespace fs = std::filesystem;

namespace {

/// A file queried as a dataset
struct FileDS
{
    fs::path path;
    fs::path datafile;
    std::shared_ptr<core::cfg::Section> cfg;
    std::string name;
    std::string kind;
    std::vector<ElemP> elems;
    int broken_at = -1; // elements before the damage, or -1
};

struct CountProgress : public query::Progress
{
    unsigned starts = 0, dones = 0, updates_outside = 0;
    size_t n = 0, size = 0;
    void start(size_t expected_count = 0, size_t expected_bytes = 0) override
    {
        ++starts;
        query::Progress::start(expected_count, expected_bytes);
    }
    void update(size_t count, size_t bytes) override
    {
        if (!starts || dones)
            ++updates_outside;
        n += count;
        size += bytes;
    }
    void done() override { ++dones; }
};

void spew(const fs::path& p, const std::string& s)
{
    std::ofstream out(p, std::ios::binary);
    out << s;
}

struct Row
{
    std::shared_ptr<Metadata> md;
    std::string fp;
    std::string data;
    bool operator==(const Row& o) const { return fp == o.fp && data == o.data; }
};

struct TestError : public std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Multi
{
    Case& c;
    Gen& g;
    std::vector<std::unique_ptr<World>> worlds;
    std::vector<FileDS> files;
    std::vector<std::shared_ptr<Metadata>> mpool;
    bool broken = false;
    bool shared_pool = true;

    explicit Multi(Case& c) : c(c), g(c.g) {}

    ~Multi()
    {
        // Worlds may override the current time
        while (!worlds.empty())
            worlds.pop_back();
    }

    void setup()
    {
        unsigned nw = g.range(1, 3);
        unsigned nf = g.weighted({3, 2, 1});
        if (nw + nf < 2)
            nf = 1;
        std::vector<std::string> names = {"a", "b", "c", "d", "e", "zz"};
        g.shuffle(names);
        for (unsigned i = 0; i < nw; ++i)
        {
            WorldOpts o;
            o.name  = names[i];
            o.small = g.flip();
            worlds.push_back(std::make_unique<World>(c, o));
            auto& w = *worlds.back();
            if (i && g.flip())
            {
                // Similar data in several datasets
                w.pool       = worlds[0]->pool;
                w.base_day   = worlds[0]->base_day;
                if (w.format == DataFormat::VM2 || w.formats_multi)
                    w.pool[TYPE_VALUE].clear();
            }
            else if (i)
                shared_pool = false;
            unsigned n = g.weighted({1, 3, 2});
            for (unsigned j = 0; j < n; ++j)
                w.op_import();
            if (n && g.chance(1, 3))
                w.op_repack();
            if (n && g.chance(1, 4))
                w.op_convert();
            for (const auto& m : w.mpool())
                mpool.push_back(m);
        }
        for (unsigned i = 0; i < nf; ++i)
            add_file(i);
    }

    void add_file(unsigned idx)
    {
        FileDS f;
        WorldOpts o;
        o.allow_multi_fmt = false;
        o.no_dirs         = true;
        o.name            = "files" + std::to_string(idx);
        World w(c, o);
        bool concat = w.format == DataFormat::GRIB || w.format == DataFormat::BUFR || w.format == DataFormat::VM2;
        unsigned n  = g.range(1, concat ? 6 : 1);
        auto root   = c.newdir();
        for (unsigned i = 0; i < n; ++i)
        {
            f.elems.push_back(w.new_elem());
            w.history.push_back(f.elems.back());
        }
        if (g.chance(1, 2))
            std::stable_sort(f.elems.begin(), f.elems.end(),
                             [](const ElemP& a, const ElemP& b) { return a->t < b->t; });
        for (const auto& e : f.elems)
            mpool.push_back(e->items);
        auto fmt = format_name(w.format);
        f.datafile = root / ("data." + fmt);
        std::string all;
        std::vector<size_t> offsets;
        for (const auto& e : f.elems)
        {
            offsets.push_back(all.size());
            all.append((const char*)e->payload.data(), e->payload.size());
            if (e->format == DataFormat::VM2)
                all += "\n";
        }
        spew(f.datafile, all);
        auto blob_md = [&](unsigned i, bool relative) {
            auto md = f.elems[i]->items->clone();
            md->set_source(types::Source::createBlobUnlocked(w.format, root, relative ? fs::path("data." + fmt) : f.datafile,
                                                             offsets[i], f.elems[i]->payload.size()));
            return md;
        };
        unsigned kind = g.weighted({3, 2, 2, 2});
        if (w.format == DataFormat::VM2 && kind == 3)
            kind = 1;
        std::string meta;
        switch (kind)
        {
            case 0:
                f.kind = "data";
                f.path = f.datafile;
                if (concat && g.chance(1, 3))
                {
                    // With metadata next to it
                    f.kind = "data with metadata";
                    metadata::Collection mds;
                    for (unsigned i = 0; i < f.elems.size(); ++i)
                        mds.acquire(blob_md(i, true));
                    mds.writeAtomically(root / ("data." + fmt + ".metadata"));
                }
                break;
            case 1:
            {
                f.kind = "inline metadata";
                f.path = root / "test.metadata";
                core::File out(f.path, O_WRONLY | O_CREAT, 0666);
                for (const auto& e : f.elems)
                {
                    auto md = make_inline(e->format, *e->items, e->usn, e->filler);
                    md->write(out);
                }
                break;
            }
            case 2:
            {
                f.kind = "metadata";
                f.path = root / "test.arkimet";
                core::File out(f.path, O_WRONLY | O_CREAT, 0666);
                metadata::Collection mds;
                for (unsigned i = 0; i < f.elems.size(); ++i)
                    mds.acquire(blob_md(i, true));
                mds.write_to(out);
                break;
            }
            default:
            {
                f.kind = "yaml";
                f.path = root / "test.yaml";
                std::string y;
                for (unsigned i = 0; i < f.elems.size(); ++i)
                    y += blob_md(i, true)->to_yaml() + "\n";
                spew(f.path, y);
                // Items are as their text tells, and bounding boxes are not kept
                for (auto& e : f.elems)
                {
                    auto e1   = std::make_shared<Elem>(*e);
                    e1->items = e->items->clone();
                    for (int code = TYPE_ORIGIN; code < TYPE_MAXCODE; ++code)
                        if (auto t = e->items->get((types::Code)code))
                        {
                            std::stringstream text;
                            text << *t;
                            if (code != TYPE_VALUE && code != TYPE_ASSIGNEDDATASET && code != TYPE_SOURCE && code != TYPE_NOTE)
                                e1->items->set(types::decodeString((types::Code)code, text.str()));
                        }
                    e = e1;
                }
                break;
            }
        }
        if (kind == 1 && g.chance(1, 6))
        {
            // A damaged file
            auto size = fs::file_size(f.path);
            fs::resize_file(f.path, size - 1 - g.below(std::min<size_t>(size - 1, 8)));
            f.broken_at = f.elems.size() - 1;
            broken      = true;
        }
        f.cfg  = dataset::file::read_config(f.path);
        c.check((bool)f.cfg, "file-config", "file " + f.path.native() + " is not recognised");
        f.name = f.cfg->value("name");
        c.log("file " + f.kind + " " + f.path.native() + (f.broken_at != -1 ? " damaged" : ""));
        for (const auto& e : f.elems)
            c.log("   " + w.show(*e));
        files.push_back(std::move(f));
    }

    std::shared_ptr<dataset::Pool> make_pool()
    {
        auto session = std::make_shared<dataset::Session>(false);
        auto pool    = std::make_shared<dataset::Pool>(session);
        for (auto& w : worlds)
            pool->add_dataset(w->cfg);
        for (auto& f : files)
            pool->add_dataset(*f.cfg);
        return pool;
    }

    Row row(std::shared_ptr<Metadata> md, bool with_data)
    {
        Row r;
        r.md = md;
        r.fp = items_fingerprint(*md);
        if (with_data)
        {
            auto d = md->get_data().read();
            r.data = std::string(d.begin(), d.end());
        }
        return r;
    }

    std::vector<Row> component(std::shared_ptr<dataset::Dataset> ds, std::shared_ptr<dataset::Session> session,
                               const std::string& expr, const std::string& sort, bool with_data, bool& failed)
    {
        std::vector<Row> res;
        query::Data q(session->matcher(expr), with_data);
        if (!sort.empty())
            q.sorter = metadata::sort::Compare::parse(sort);
        auto progress = std::make_shared<CountProgress>();
        q.progress    = progress;
        failed        = false;
        auto reader   = ds->create_reader();
        size_t size   = 0;
        try
        {
            bool r = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                size += md->data_size();
                res.push_back(row(md, with_data));
                return true;
            });
            c.check(r, "query-return", "query_data on " + ds->name() + " returned false but was not stopped");
        }
        catch (std::exception& e)
        {
            c.log("   query on " + ds->name() + " failed: " + e.what());
            failed = true;
        }
        c.check(progress->n == res.size() && progress->size == size, "progress",
                "query of " + ds->name() + " reported progress for " + std::to_string(progress->n) + " elements of " +
                    std::to_string(res.size()));
        c.check(progress->starts == 1 && !progress->updates_outside, "progress-start",
                "query of " + ds->name() + ": progress started " + std::to_string(progress->starts) + " times");
        if (!failed)
            c.check(progress->dones == 1, "progress-done",
                    "query of " + ds->name() + ": progress was done " + std::to_string(progress->dones) + " times");
        return res;
    }

    /// Check the results of querying a file
    void check_file(const FileDS& f, const MExpr* expr, const std::string& sort, bool with_data,
                    std::vector<Row> got, bool failed)
    {
        std::vector<Row> exp;
        unsigned n = f.broken_at == -1 ? f.elems.size() : f.broken_at;
        for (unsigned i = 0; i < n; ++i)
        {
            if (expr && !expr->match(*f.elems[i]->items))
                continue;
            Row r;
            r.md = f.elems[i]->items;
            r.fp = items_fingerprint(*r.md);
            if (with_data)
                r.data = std::string(f.elems[i]->payload.begin(), f.elems[i]->payload.end());
            exp.push_back(r);
        }
        c.check(failed == (f.broken_at != -1), "file-fails",
                "querying file " + f.kind + (failed ? " failed" : " did not fail but the file is damaged"));
        if (failed && !sort.empty())
            return;
        if (!sort.empty())
        {
            bool sorted = true;
            for (unsigned i = 1; i < f.elems.size(); ++i)
                if (f.elems[i]->t < f.elems[i - 1]->t)
                    sorted = false;
            if (sort.find(':') != std::string::npos && !sorted)
            {
                // Intervals are streamed: data is expected to be in order
                c.check(got.size() == exp.size(), "file-count",
                        "query of file " + f.kind + " returned " + std::to_string(got.size()) + " elements instead of " +
                            std::to_string(exp.size()));
                return;
            }
            std::stable_sort(exp.begin(), exp.end(),
                             [&](const Row& a, const Row& b) { return ref_sort(sort, *a.md, *b.md) < 0; });
        }
        if (f.kind == "yaml")
            for (auto v : {&got, &exp})
                for (auto& r : *v)
                {
                    auto md = r.md->clone();
                    r.fp = vf::show(*md);
                }
        for (size_t i = 0; i < std::min(got.size(), exp.size()); ++i)
            if (!(got[i] == exp[i]))
                c.log("   element " + std::to_string(i) + " is " + vf::show(*got[i].md) + " data " + printable(got[i].data) +
                      " instead of " + vf::show(*exp[i].md) + " data " + printable(exp[i].data));
        c.check(got == exp, "file-results",
                "query of file " + f.kind + " sort " + sort + " returned " + std::to_string(got.size()) +
                    " elements instead of " + std::to_string(exp.size()) + ", or different ones");
    }

    void run_query()
    {
        std::string text;
        std::unique_ptr<MExpr> expr;
        if (g.chance(1, 2) && !mpool.empty())
        {
            ItemOpts io;
            io.plain = io.small = io.ordered_timerange = true;
            expr = std::make_unique<MExpr>(gen_expr(g, mpool, io, true, 1));
            text = expr->text(nullptr);
        }
        static const std::vector<std::string> sorts = {"", "", "reftime", "-reftime", "origin,reftime", "hour:level",
                                                       "day:-reftime", "day:product", "month:product,-reftime",
                                                       "year:-origin", "minute:-level"};
        std::string sort = g.pick(sorts);
        bool with_data   = g.chance(2, 3);
        c.log("query " + text + " sort " + sort + (with_data ? " with data" : ""));

        auto pool    = make_pool();
        auto session = pool->session();
        std::map<std::string, std::vector<Row>> comp;
        std::set<std::string> failing;
        std::vector<std::string> order;
        pool->foreach_dataset([&](std::shared_ptr<dataset::Dataset> ds) {
            order.push_back(ds->name());
            bool failed       = false;
            comp[ds->name()] = component(ds, session, text, sort, with_data, failed);
            if (failed)
                failing.insert(ds->name());
            c.log("   " + ds->name() + ": " + std::to_string(comp[ds->name()].size()) + " elements" +
                  (failed ? " and then fails" : ""));
            return true;
        });
        for (auto& w : worlds)
        {
            std::vector<ElemP> expected;
            for (const auto& e : w->visible())
                if (!expr || expr->match(*e->items))
                    expected.push_back(e);
            std::vector<std::shared_ptr<Metadata>> got;
            for (auto& r : comp[w->name])
                got.push_back(r.md);
            w->compare(expected, got, "query " + text + " on " + w->name, with_data);
            c.check(!failing.count(w->name), "query-fails", "query on " + w->name + " failed");
        }
        for (auto& f : files)
            check_file(f, expr.get(), sort, with_data, comp[f.name], failing.count(f.name));

        // Merge them
        std::vector<Row> expected;
        std::map<std::string, size_t> pos;
        while (true)
        {
            const Row* best = nullptr;
            std::string from;
            for (const auto& name : order)
            {
                auto& v = comp[name];
                if (pos[name] >= v.size())
                    continue;
                const Row* r = &v[pos[name]];
                if (!best || ref_sort(sort.empty() ? "reftime" : sort, *r->md, *best->md) < 0)
                {
                    best = r;
                    from = name;
                }
            }
            if (!best)
                break;
            expected.push_back(*best);
            ++pos[from];
        }

        size_t nonempty = 0;
        for (auto& i : comp)
            if (!i.second.empty())
                ++nonempty;
        if (nonempty > 1)
            c.mark();
        c.count("merged queries");
        c.count("elements merged", expected.size());

        auto merged = pool->merged();
        enum { ALL, STOP, THROW } mode = (decltype(ALL))g.weighted({2, 1, 1});
        size_t n = expected.empty() ? 0 : g.below(expected.size());
        if (mode != ALL && expected.empty())
            mode = ALL;
        auto reader = merged->create_reader();
        query::Data q(session->matcher(text), with_data);
        if (!sort.empty())
            q.sorter = metadata::sort::Compare::parse(sort);
        auto progress = std::make_shared<CountProgress>();
        q.progress    = progress;
        std::vector<Row> got;
        bool stopped = false, again = false;
        bool threw = false, mine = false;
        bool res   = false;
        std::string what;
        try
        {
            res = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                if (stopped)
                    again = true;
                got.push_back(row(md, with_data));
                if (mode != ALL && got.size() == n + 1)
                {
                    stopped = true;
                    if (mode == THROW)
                        throw TestError("stop");
                    return false;
                }
                return true;
            });
        }
        catch (TestError& e)
        {
            threw = mine = true;
        }
        catch (std::exception& e)
        {
            threw = true;
            what  = e.what();
        }
        std::string desc = "merged query " + text + " sort " + sort;
        c.check(!again, "stop-again", desc + " went on after its consumer stopped it");
        if (failing.empty())
        {
            c.check(!threw || mine, "exception", desc + " failed: " + what);
            c.check(mine == (mode == THROW), "consumer-exception", desc + " lost the exception of its consumer");
            if (!threw)
                c.check(res == (mode == ALL), "query-return",
                        desc + " returned " + (res ? "true" : "false") + (mode == ALL ? " but was not" : " but was") +
                            " stopped");
        }
        else if (mode == THROW)
            c.check(mine, "consumer-exception", desc + " lost the exception of its consumer: " + what);
        else if (mode == ALL)
            c.check(threw, "lost-error", desc + ": one of the datasets cannot be read but the query did not fail");
        size_t want = mode == ALL ? expected.size() : n + 1;
        c.check(got.size() == want, "count",
                desc + " returned " + std::to_string(got.size()) + " elements instead of " + std::to_string(want));
        for (size_t i = 0; i < got.size(); ++i)
            c.check(got[i] == expected[i], "merge",
                    desc + ": element " + std::to_string(i) + " is " + vf::show(*got[i].md) + " instead of " +
                        vf::show(*expected[i].md));
        if (failing.empty() && mode != THROW)
            c.check(progress->starts == 1 && progress->dones == 1 && progress->n == got.size() &&
                        !progress->updates_outside,
                    "progress",
                    desc + ": progress started " + std::to_string(progress->starts) + " times, done " +
                        std::to_string(progress->dones) + " times, with " + std::to_string(progress->n) +
                        " elements of " + std::to_string(got.size()));
        got.clear();
        expected.clear();
        comp.clear();

        // Summaries
        if (g.chance(1, 2))
        {
            Summary sum;
            bool failed = false;
            try
            {
                merged->create_reader()->query_summary(session->matcher(text), sum);
            }
            catch (std::exception& e)
            {
                failed = true;
                what   = e.what();
            }
            if (failing.empty())
            {
                c.check(!failed, "summary-exception", "summary of several datasets failed: " + what);
                Summary exp;
                pool->foreach_dataset([&](std::shared_ptr<dataset::Dataset> ds) {
                    Summary s;
                    ds->create_reader()->query_summary(session->matcher(text), s);
                    exp.add(s);
                    return true;
                });
                auto d = summap_diff(worlds[0]->read_summary(sum), worlds[0]->read_summary(exp));
                c.check(d.empty(), "summary", "summary " + text + " of several datasets is not the sum of theirs: " + d);
                if (!expr)
                {
                    SumMap model;
                    auto add = [&](const SumMap& m) {
                        for (const auto& r : m)
                        {
                            auto i = model.find(r.first);
                            if (i == model.end())
                                model.insert(r);
                            else
                            {
                                std::get<0>(i->second) += std::get<0>(r.second);
                                std::get<1>(i->second) += std::get<1>(r.second);
                                std::get<2>(i->second) = std::min(std::get<2>(i->second), std::get<2>(r.second));
                                std::get<3>(i->second) = std::max(std::get<3>(i->second), std::get<3>(r.second));
                            }
                        }
                    };
                    for (auto& w : worlds)
                        add(w->model_summary(w->visible()));
                    size_t count = 0, mcount = 0;
                    for (const auto& r : worlds[0]->read_summary(sum))
                        count += std::get<0>(r.second);
                    for (const auto& r : model)
                        mcount += std::get<0>(r.second);
                    for (const auto& f : files)
                        mcount += f.elems.size();
                    c.check(count == mcount, "summary-count",
                            "summary of several datasets counts " + std::to_string(count) + " elements of " +
                                std::to_string(mcount));
                    // Equal items can be encoded differently in different datasets
                    if (files.empty() && shared_pool)
                    {
                        d = summap_diff(worlds[0]->read_summary(sum), model);
                        c.check(d.empty(), "summary-model", "summary of several datasets is wrong: " + d + "\n" + sum.to_yaml());
                    }
                }
                c.count("merged summaries");
            }
            else
                c.check(failed, "summary-lost-error", "the error summarising a dataset was lost");
        }

        // Bytes
        if (g.chance(1, 3) && failing.empty())
        {
            std::string exp;
            auto get = [&](std::shared_ptr<dataset::Reader> r) {
                std::vector<uint8_t> out;
                auto stream = StreamOutput::create(out);
                query::Bytes q;
                q.setData(session->matcher(text));
                r->query_bytes(q, *stream);
                return std::string(out.begin(), out.end());
            };
            pool->foreach_dataset([&](std::shared_ptr<dataset::Dataset> ds) {
                exp += get(ds->create_reader());
                return true;
            });
            auto got = get(merged->create_reader());
            c.check(got == exp, "bytes", "query_bytes of several datasets is not the concatenation of theirs");
            c.count("merged byte queries");
        }
    }

    /// Remove data from several datasets together
    void run_remove()
    {
        metadata::Collection mds;
        bool foreign = g.chance(1, 6);
        std::map<World*, std::map<std::string, SegModel>> saved;
        for (auto& w : worlds)
        {
            saved[w.get()] = w->segs;
            metadata::Collection m;
            w->select_remove(m);
            for (auto& md : m)
                mds.acquire(md);
        }
        if (mds.empty())
            return;
        if (g.flip())
        {
            // In any order
            std::vector<std::shared_ptr<Metadata>> v(mds.begin(), mds.end());
            g.shuffle(v);
            metadata::Collection m;
            for (auto& x : v)
                m.acquire(x);
            mds = std::move(m);
        }
        auto pool = make_pool();
        dataset::CheckPool check(pool);
        auto snap = [&] {
            std::map<std::string, std::string> res;
            for (auto& w : worlds)
                for (auto& f : w->snapshot())
                    res[w->name + ":" + f.first] = f.second;
            return res;
        };
        bool simulate = g.chance(1, 4);
        if (foreign)
        {
            // Something that comes from elsewhere
            auto e  = worlds[0]->new_elem();
            auto md = make_inline(e->format, *e->items, e->usn, e->filler);
            if (g.flip())
            {
                auto d = c.newdir();
                spew(d / "x.grib", std::string(e->payload.begin(), e->payload.end()));
                md = e->items->clone();
                md->set_source(types::Source::createBlobUnlocked(DataFormat::GRIB, d, "x.grib", 0, e->payload.size()));
            }
            mds.acquire(md);
        }
        auto before = snap();
        bool threw  = false;
        std::string what;
        try
        {
            check.remove(mds, simulate);
        }
        catch (std::exception& e)
        {
            threw = true;
            what  = e.what();
        }
        c.log("remove " + std::to_string(mds.size()) + " elements" + (simulate ? " simulated" : "") +
              (foreign ? " with foreign ones" : "") + (threw ? ", fails: " + what : ""));
        c.check(threw == foreign, "remove-exception",
                threw ? "removing failed: " + what : "data that are in no dataset were ignored");
        if (simulate || foreign)
        {
            auto after = snap();
            c.check(before == after, "remove-changes", "nothing should have been removed: " + tree_diff(before, after));
            for (auto& s : saved)
                s.first->segs = s.second;
        }
        else
            c.count("elements removed", mds.size());
        for (auto& w : worlds)
            w->audit_all();
    }

    void run()
    {
        setup();
        unsigned n = g.range(1, c.thorough ? 6 : 4);
        for (unsigned i = 0; i < n; ++i)
        {
            run_query();
            if (g.chance(1, 3))
                run_remove();
        }
        for (auto& w : worlds)
            for (const auto& e : w->history)
                c.mix(e->payload.data(), e->payload.size());
        for (auto& f : files)
            for (const auto& e : f.elems)
                c.mix(e->payload.data(), e->payload.size());
    }
};

} // namespace

PROPERTY("D08", "merged", 1, "at least two of the datasets have data matching the query")
{
    Multi m(c);
    m.run();
}
