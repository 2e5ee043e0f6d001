// D07: dispatch
#include "world.h"
#include "arki/dataset/pool.h"
#include "arki/dispatcher.h"
#include "arki/metadata/data.h"
#include "arki/metadata/validator.h"
#include "arki/types/reftime.h"
#include "arki/types/source/blob.h"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <unistd.h>

using namespace vf;
using namespace arki;
namespace fs = std::filesystem;

namespace {

enum Role { REGULAR, OUTBOUND, DUPLICATES, ERRORS };

/// A dataset, its model and what the dispatcher should use it for
struct Target
{
    std::unique_ptr<World> w;
    Role role       = REGULAR;
    bool discard    = false;
    bool outbound   = false;
    std::string filter_text;
    std::function<bool(const Metadata&)> filter;
    size_t stored   = 0;
};

struct Msg
{
    ElemP e;             // element of the generator world
    bool reftime = true;
    bool valid   = true;
    std::shared_ptr<Metadata> md;
    // expected
    std::string destination;
    int result = 2;
    unsigned outbound_failures = 0;
    std::set<std::string> outbounds;
};

struct ExprValidator : public metadata::Validator
{
    MExpr expr;
    bool operator()(const Metadata& md, std::vector<std::string>& errors) const override
    {
        if (!expr.match(md))
            return true;
        errors.push_back("refused by the test validator");
        return false;
    }
};

std::string slurp(const fs::path& p)
{
    std::ifstream in(p, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}

struct Dispatch
{
    Case& c;
    Gen& g;
    std::vector<Target> targets;
    std::unique_ptr<World> gen; // only used to generate elements
    std::vector<std::unique_ptr<ExprValidator>> validators;
    std::unique_ptr<dataset::SessionTimeOverride> now_override;
    std::string error_name, duplicates_name;
    bool have_ages = false;
    bool undated_seen = false;
    std::vector<ElemP> seen;
    size_t n_regular = 0;

    explicit Dispatch(Case& c) : c(c), g(c.g) { setup(); }

    Target* by_name(const std::string& name)
    {
        for (auto& t : targets)
            if (t.w->name == name)
                return &t;
        return nullptr;
    }

    void setup()
    {
        WorldOpts og;
        og.small           = g.flip();
        og.allow_multi_fmt = false;
        og.bufr_usn        = g.chance(1, 4);
        gen                = std::make_unique<World>(c, og);
        // Some elements, to base filters on
        for (unsigned i = 0; i < 6; ++i)
            gen->history.push_back(gen->new_elem());

        unsigned nreg = 1 + g.weighted({2, 4, 2});
        n_regular     = nreg;
        unsigned nout = g.weighted({3, 3, 1});
        bool with_dup = g.chance(2, 3);
        have_ages     = g.chance(1, 4);
        int64_t now   = (gen->base_day + g.pick({5, 10, 20, 1, 60, 400})) * 86400 + g.pick({0, 43200, 86399});
        if (have_ages)
            now_override = std::make_unique<dataset::SessionTimeOverride>(
                dataset::SessionTime::local_override(now - civil_secs(1970, 1, 1, 0, 0, 0)));

        // Filters: disjoint in time, or generated expressions
        auto mp      = gen->mpool();
        bool by_time = g.chance(1, 3);
        std::vector<int64_t> cuts;
        if (by_time)
        {
            for (unsigned i = 1; i < nreg; ++i)
                cuts.push_back((gen->base_day + (int64_t)g.below(20)) * 86400 + g.pick({0, 0, 43200}));
            std::sort(cuts.begin(), cuts.end());
        }
        auto make_filter = [&](Target& t, unsigned idx) {
            if (t.role == REGULAR && by_time)
            {
                bool lo = idx > 0, hi = idx < nreg - 1;
                int64_t l = lo ? cuts[idx - 1] : 0, h = hi ? cuts[idx] : 0;
                std::string text;
                if (lo)
                    text += ">=" + secs_civil(l).to_iso8601(' ');
                if (hi)
                    text += (lo ? "," : "") + std::string("<") + secs_civil(h).to_iso8601(' ');
                t.filter_text = text.empty() ? "reftime:>=1900" : "reftime:" + text;
                t.filter      = [=](const Metadata& md) {
                    auto rt = md.get<types::reftime::Position>();
                    if (!rt)
                        return false;
                    auto x = civil_secs(rt->get_Position());
                    return (!lo || x >= l) && (!hi || x < h);
                };
                return;
            }
            ItemOpts io;
            io.plain = io.small = io.ordered_timerange = true;
            for (unsigned tries = 0; tries < 4; ++tries)
            {
                auto x        = gen_expr(g, mp, io, g.chance(1, 3), t.role == REGULAR ? 1 : 2);
                t.filter_text = x.text(nullptr);
                t.filter      = [x](const Metadata& md) { return x.match(md); };
                unsigned hits = 0;
                for (const auto& m : mp)
                    if (t.filter(*m))
                        ++hits;
                if (!t.filter_text.empty() && hits)
                    break;
            }
            if (t.filter_text.empty())
            {
                // An empty filter is a configuration error
                t.filter_text = "reftime:>=1900";
                t.filter      = [](const Metadata& md) { return md.get<types::reftime::Position>() != nullptr; };
            }
        };

        auto add = [&](Role role, const std::string& name, unsigned idx) {
            Target t;
            t.role = role;
            WorldOpts o;
            o.name            = name;
            o.allow_multi_fmt = false;
            o.small           = og.small;
            o.force_format    = (int)gen->format;
            if (gen->format == DataFormat::VM2)
                o.force_dirs = 0; // not a case that exists
            if (role == REGULAR && g.chance(1, 12))
                o.force_format = (int)g.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2});
            if (role == OUTBOUND)
                o.simple_only = true;
            if (role == REGULAR)
            {
                o.iseg_only = g.chance(2, 3);
                o.bufr_usn  = og.bufr_usn;
            }
            unsigned kind = 0;
            if (role == ERRORS || role == DUPLICATES)
            {
                kind = g.weighted({6, 3, 2, 3});
                if (kind == 1)
                    o.iseg_only = true;
                else
                    o.simple_only = true;
            }
            t.w = std::make_unique<World>(c, o);
            if ((DataFormat)o.force_format != t.w->format)
            {
                // bufr_usn may choose another format, and force_format then applies
            }
            auto& w = *t.w;
            if (role == OUTBOUND || ((role == ERRORS || role == DUPLICATES) && kind == 3))
            {
                t.outbound = true;
                w.cfg.set("type", "outbound");
            }
            if (kind == 2)
            {
                t.discard = true;
                w.cfg.set("type", "discard");
            }
            if (role == ERRORS || role == DUPLICATES)
            {
                // What tells what the dataset is for
                const char* use = role == ERRORS ? "error" : "duplicates";
                if (name == use)
                {
                    if (g.chance(1, 3))
                        w.cfg.set("use", use);
                    else if (kind == 0 && g.flip())
                        w.cfg.set("type", use);
                }
                else if (kind == 0 && g.flip())
                    w.cfg.set("type", use);
                else
                    w.cfg.set("use", use);
                // Filters of datasets for a special use are not used
                if (g.chance(1, 5))
                    w.cfg.set("filter", "reftime:>=1900");
            }
            else
            {
                make_filter(t, idx);
                w.cfg.set("filter", t.filter_text);
            }
            if (have_ages && !t.discard && role != ERRORS && g.chance(1, 2))
            {
                w.now = now;
                if (g.flip())
                {
                    w.archive_age = g.pick({1, 5, 10, 31});
                    w.cfg.set("archive age", std::to_string(w.archive_age));
                }
                else
                {
                    w.delete_age = g.pick({5, 10, 31, 60});
                    w.cfg.set("delete age", std::to_string(w.delete_age));
                }
            }
            if (c.verbose)
            {
                std::stringstream ss;
                for (const auto& i : w.cfg)
                    ss << i.first << "=" << i.second << "; ";
                c.log("   " + std::string(role == REGULAR    ? "regular"
                                          : role == OUTBOUND ? "outbound"
                                          : role == ERRORS   ? "errors"
                                                             : "duplicates") +
                      ": " + ss.str());
            }
            targets.push_back(std::move(t));
        };

        // Names are shuffled, since datasets are used in alphabetical order
        std::vector<std::string> names = {"a", "b", "c", "d", "e1", "f", "zz", "duplicate", "err"};
        g.shuffle(names);
        unsigned nn = 0;
        for (unsigned i = 0; i < nreg; ++i)
            add(REGULAR, names[nn++], i);
        for (unsigned i = 0; i < nout; ++i)
            add(OUTBOUND, names[nn++], i);
        error_name = g.chance(2, 3) ? "error" : names[nn++];
        add(ERRORS, error_name, 0);
        if (with_dup)
        {
            duplicates_name = g.chance(2, 3) ? "duplicates" : names[nn++];
            add(DUPLICATES, duplicates_name, 0);
        }
        else
            duplicates_name = error_name;

        unsigned nval = g.weighted({4, 1, 1});
        for (unsigned i = 0; i < nval; ++i)
        {
            ItemOpts io;
            io.plain = io.small = io.ordered_timerange = true;
            auto v  = std::make_unique<ExprValidator>();
            v->expr = gen_expr(g, mp, io, true, 2);
            if (v->expr.parts.empty())
                continue;
            c.log("   validator refusing " + v->expr.text(nullptr));
            validators.push_back(std::move(v));
        }
    }

    std::shared_ptr<dataset::Pool> make_pool()
    {
        auto session = std::make_shared<dataset::Session>(false);
        auto pool    = std::make_shared<dataset::Pool>(session);
        for (auto& t : targets)
        {
            pool->add_dataset(t.w->cfg);
            if (t.w->dir_segments && !t.discard)
                if (auto s = std::dynamic_pointer_cast<dataset::segmented::Dataset>(pool->dataset(t.w->name)))
                    s->segment_session->default_file_segment = segment::DefaultFileSegment::SEGMENT_DIR;
        }
        return pool;
    }

    std::vector<Msg> gen_batch()
    {
        std::vector<Msg> res;
        unsigned n = g.range(1, c.thorough ? 14 : 9);
        for (unsigned i = 0; i < n; ++i)
        {
            Msg m;
            if (!res.empty() && g.chance(1, 6))
            {
                auto e = g.pick(res).e;
                m.e    = gen->make_elem(e->items, g.below(4), e->format, e->filler);
            }
            else
                m.e = gen->new_elem();
            if (g.chance(1, 20) && m.e->format != DataFormat::VM2)
            {
                DataFormat fmt = g.pick({DataFormat::GRIB, DataFormat::BUFR});
                m.e            = gen->make_elem(m.e->items, m.e->usn, fmt, m.e->filler);
            }
            if (g.chance(1, 4) && !seen.empty())
            {
                // Something already dispatched before
                auto e = g.pick(seen);
                m.e    = gen->make_elem(e->items, g.flip() ? e->usn : g.below(4), e->format, e->filler);
            }
            m.reftime = !(g.chance(1, 25) && m.e->format != DataFormat::VM2);
            for (auto& v : validators)
                if (v->expr.match(*m.e->items))
                    m.valid = false;
            res.push_back(std::move(m));
        }
        gen->history.clear();
        for (const auto& m : res)
            if (m.reftime)
            {
                gen->history.push_back(m.e);
                seen.push_back(m.e);
            }
        return res;
    }

    void make_mds(std::vector<Msg>& msgs, metadata::InboundBatch& batch)
    {
        for (auto& m : msgs)
        {
            if (m.reftime)
                m.md = make_inline(m.e->format, *m.e->items, m.e->usn, m.e->filler);
            else
            {
                auto items = m.e->items->clone();
                items->unset(TYPE_REFTIME);
                m.md = make_inline(m.e->format, *items, m.e->usn, m.e->filler);
            }
            batch.add(m.md);
        }
    }

    /**
     * What acquiring into a dataset gives.
     *
     * If test is true, only consider the age of data: this is what a
     * simulation can know
     */
    void acquire(Target& t, std::vector<Msg*>& batch, bool test)
    {
        if (batch.empty())
            return;
        auto& w = *t.w;
        std::vector<int> results;
        if (t.discard)
            results.assign(batch.size(), 4);
        else if (test)
        {
            for (auto m : batch)
            {
                int64_t x = m->reftime ? m->e->t : INT64_MAX;
                if (w.delete_age != -1 && x < w.threshold(w.delete_age))
                    results.push_back(4);
                else if (w.archive_age != -1 && x < w.threshold(w.archive_age))
                    results.push_back(2);
                else
                    results.push_back(0);
            }
        }
        else
        {
            std::vector<ElemP> els;
            for (auto m : batch)
            {
                ElemP e;
                if (m->reftime)
                    e = w.make_elem(m->e->items, m->e->usn, m->e->format, m->e->filler);
                else
                {
                    // The payload stays the original one
                    auto items = m->e->items->clone();
                    items->test_set(
                        types::Reftime::createPosition(m->md->get<types::reftime::Position>()->get_Position()));
                    e     = w.make_elem(items, m->e->usn, m->e->format, m->e->filler);
                    items = m->e->items->clone();
                    items->unset(TYPE_REFTIME);
                    e->payload = make_payload(m->e->format, *items, m->e->usn, m->e->filler);
                }
                els.push_back(e);
            }
            results = w.model_import(els, w.replace).results;
            for (unsigned i = 0; i < els.size(); ++i)
                if (results[i] == 0)
                {
                    ++t.stored;
                    if (batch[i]->reftime)
                        w.history.push_back(els[i]);
                }
            for (auto i = w.segs.begin(); i != w.segs.end();)
                if (i->second.phys.empty())
                    i = w.segs.erase(i);
                else
                    ++i;
        }
        for (unsigned i = 0; i < batch.size(); ++i)
        {
            int r = results[i];
            if (t.role == OUTBOUND)
            {
                if (r == 1 || r == 2)
                    ++batch[i]->outbound_failures;
                else if (r == 0)
                    batch[i]->outbounds.insert(w.name);
            }
            else
                batch[i]->result = r;
            if (t.role != OUTBOUND)
                batch[i]->destination = r == 0 || r == 4 ? w.name : "";
        }
    }

    /// What happens to a batch
    void model(std::vector<Msg>& msgs, bool test)
    {
        std::vector<Msg*> errors, duplicates;
        std::map<std::string, std::vector<Msg*>> regular, outbound;
        for (auto& m : msgs)
        {
            m.destination.clear();
            m.outbound_failures = 0;
            m.outbounds.clear();
            if (!m.reftime || !m.valid)
            {
                errors.push_back(&m);
                continue;
            }
            std::vector<std::string> found;
            for (auto& t : targets)
            {
                if (t.role == OUTBOUND && t.filter(*m.e->items))
                    outbound[t.w->name].push_back(&m);
                if (t.role == REGULAR && t.filter(*m.e->items))
                    found.push_back(t.w->name);
            }
            if (found.size() == 1)
                regular[found[0]].push_back(&m);
            else
                errors.push_back(&m);
        }
        for (auto& b : outbound)
            acquire(*by_name(b.first), b.second, test);
        for (auto& b : regular)
        {
            acquire(*by_name(b.first), b.second, test);
            for (auto m : b.second)
                if (m->result == 1)
                    duplicates.push_back(m);
                else if (m->result == 2)
                    errors.push_back(m);
        }
        acquire(*by_name(duplicates_name), duplicates, test);
        // Data refused by the duplicates dataset goes to the error dataset
        for (auto m : duplicates)
            if (m->result == 1 || m->result == 2)
                errors.push_back(m);
        acquire(*by_name(error_name), errors, test);
    }

    void compare_results(const std::vector<Msg>& msgs, const metadata::InboundBatch& batch, const char* what)
    {
        for (unsigned i = 0; i < msgs.size(); ++i)
        {
            const auto& m = msgs[i];
            int r         = batch[i]->result == metadata::Inbound::Result::OK          ? 0
                            : batch[i]->result == metadata::Inbound::Result::DUPLICATE ? 1
                                                                                       : 2;
            if (c.verbose)
                c.log("   " + std::string(what) + " " + gen->show(*m.e) + (m.reftime ? "" : " without reftime") +
                      (m.valid ? "" : " invalid") + ": result " + std::to_string(r) + " destination " +
                      batch[i]->destination + ", expected " + std::to_string(m.result) + " " + m.destination);
        }
        for (unsigned i = 0; i < msgs.size(); ++i)
        {
            const auto& m = msgs[i];
            int r         = batch[i]->result == metadata::Inbound::Result::OK          ? 0
                            : batch[i]->result == metadata::Inbound::Result::DUPLICATE ? 1
                                                                                       : 2;
            c.check(batch[i]->destination == m.destination, std::string(what) + "-destination",
                    "element " + gen->show(*m.e) + ": destination is '" + batch[i]->destination + "' instead of '" +
                        m.destination + "'");
            c.check((r == 0) == (m.result == 0 || m.result == 4), std::string(what) + "-result",
                    "element " + gen->show(*m.e) + ": result " + std::to_string(r) + " instead of " +
                        std::to_string(m.result));
        }
    }

    void audit(Target& t)
    {
        auto& w = *t.w;
        if (t.discard)
        {
            auto s = tree_snapshot(w.path);
            c.check(s.empty(), "discard", "files appeared in a discard dataset");
            return;
        }
        if (!t.outbound)
        {
            w.audit_all();
            return;
        }
        // Outbound datasets cannot be queried: look at the files
        std::map<std::string, std::string> expected;
        for (const auto& s : w.segs)
        {
            if (s.second.isdir)
            {
                unsigned n = 0;
                for (const auto& p : s.second.phys)
                {
                    char buf[64];
                    snprintf(buf, 64, "/%06u.%s", n++, format_name(s.second.format).c_str());
                    expected[s.first + buf] = std::string(p.first->payload.begin(), p.first->payload.end());
                }
            }
            else
            {
                std::string all;
                for (const auto& p : s.second.phys)
                {
                    all.append((const char*)p.first->payload.data(), p.first->payload.size());
                    if (s.second.format == DataFormat::VM2)
                        all += "\n";
                }
                expected[s.first] = all;
            }
        }
        std::map<std::string, std::string> got;
        if (fs::exists(w.path))
            for (const auto& f : fs::recursive_directory_iterator(w.path))
            {
                if (f.is_directory())
                    continue;
                auto rel = f.path().lexically_relative(w.path).native();
                if (rel == "lock" || f.path().filename() == ".sequence")
                    continue;
                got[rel] = slurp(f.path());
            }
        for (const auto& e : expected)
        {
            auto i = got.find(e.first);
            c.check(i != got.end(), "outbound-missing", "outbound dataset " + w.name + " has no file " + e.first);
            c.check(i->second == e.second, "outbound-data",
                    "file " + e.first + " of outbound dataset " + w.name + " has " + std::to_string(i->second.size()) +
                        " bytes instead of the expected data of " + std::to_string(e.second.size()));
        }
        for (const auto& i : got)
            c.check(expected.count(i.first), "outbound-extra", "outbound dataset " + w.name + " has also file " + i.first);
    }

    std::map<std::string, std::string> snapshot()
    {
        std::map<std::string, std::string> res;
        for (auto& t : targets)
            for (auto& f : tree_snapshot(t.w->root))
                res[t.w->name + ":" + f.first] = f.second;
        return res;
    }

    void run()
    {
        unsigned n = g.range(1, c.thorough ? 8 : 5);
        std::unique_ptr<RealDispatcher> dispatcher;
        size_t failures = 0;
        std::map<std::string, unsigned> fates;
        size_t total = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            if (i && g.chance(1, 3))
            {
                // Maintenance of one of the datasets
                auto& t = targets[g.below(n_regular)];
                if (g.flip())
                    dispatcher.reset();
                if (t.w->delete_age == -1 && t.w->archive_age == -1)
                    switch (g.weighted({1, 1, 1, 2}))
                    {
                        case 0: t.w->op_remove(); break;
                        case 1: t.w->op_repack(); break;
                        case 2: t.w->op_check(); break;
                        case 3:
                            t.w->op_convert();
                            break;
                    }
                if (t.w->finished)
                    return;
            }
            auto msgs = gen_batch();

            if (g.chance(1, 4))
            {
                // Simulate first: nothing should change
                metadata::InboundBatch batch;
                make_mds(msgs, batch);
                auto before = snapshot();
                TestDispatcher td(make_pool());
                for (auto& v : validators)
                    td.add_validator(*v);
                td.dispatch(batch, g.flip());
                td.flush();
                auto after = snapshot();
                c.check(before == after, "test-changes", "simulating dispatch changed: " + tree_diff(before, after));
                model(msgs, true);
                compare_results(msgs, batch, "test");
                c.count("simulations");
            }

            if (!dispatcher || g.chance(1, 4))
            {
                dispatcher = std::make_unique<RealDispatcher>(make_pool());
                for (auto& v : validators)
                    dispatcher->add_validator(*v);
                failures = 0;
            }
            metadata::InboundBatch batch;
            make_mds(msgs, batch);
            bool drop = g.flip();
            c.log("dispatch" + std::string(drop ? " dropping data" : ""));
            std::string what;
            bool threw = false;
            try
            {
                dispatcher->dispatch(batch, drop);
                dispatcher->flush();
            }
            catch (std::exception& e)
            {
                threw = true;
                what  = e.what();
            }
            c.check(!threw, "dispatch-exception", "dispatch failed: " + what);
            model(msgs, false);
            compare_results(msgs, batch, "dispatch");
            for (auto& t : targets)
                audit(t);
            for (const auto& m : msgs)
            {
                failures += m.outbound_failures;
                ++total;
                auto t = m.destination.empty() ? nullptr : by_name(m.destination);
                std::string fate = !t                     ? "not imported"
                                   : t->discard           ? "discarded"
                                   : t->role == REGULAR   ? (m.result == 4 ? "too old" : "in regular dataset")
                                   : t->role == ERRORS    ? "in error dataset"
                                                          : "in duplicates dataset";
                ++fates[fate];
                c.count(fate);
                if (m.outbounds.size())
                    c.count("in outbound datasets");
                // The metadata describes where data has gone
                if (t && m.result == 0)
                {
                    const auto& src = m.md->source();
                    c.check(src.style() == types::Source::Style::BLOB, "dispatch-source",
                            "element " + gen->show(*m.e) + " dispatched to " + m.destination + " has source " +
                                src.to_string());
                    const auto& b = m.md->sourceBlob();
                    c.check(b.basedir == t->w->path, "dispatch-source",
                            "element " + gen->show(*m.e) + " dispatched to " + m.destination + " has source " +
                                src.to_string());
                    if (m.reftime)
                        c.check(b.filename == t->w->step_path(m.e->t) + "." + format_name(m.e->format), "dispatch-source",
                                "element " + gen->show(*m.e) + " dispatched to " + m.destination + " has source " +
                                    src.to_string());
                }
                // Data is kept, for example to write it to a copyok or copyko file
                if (!drop || !t || m.result != 0)
                {
                    std::vector<uint8_t> d;
                    try
                    {
                        d = m.md->get_data().read();
                    }
                    catch (std::exception& e)
                    {
                        c.fail("dispatch-data", "data of element " + gen->show(*m.e) + " dispatched to '" +
                                                    m.destination + "' cannot be read anymore: " + e.what());
                    }
                    auto expected = m.e->payload;
                    if (!m.reftime)
                    {
                        auto items = m.e->items->clone();
                        items->unset(TYPE_REFTIME);
                        expected = make_payload(m.e->format, *items, m.e->usn, m.e->filler);
                    }
                    c.check(d == expected, "dispatch-data",
                            "data of element " + gen->show(*m.e) + " changed after being dispatched");
                }
            }
            c.check(dispatcher->outboundFailures() == failures, "outbound-failures",
                    "outboundFailures is " + std::to_string(dispatcher->outboundFailures()) + " instead of " +
                        std::to_string(failures));
        }
        if (fates.size() > 1 || (total > 1 && targets.size() > 2))
            c.mark();
        c.mix(total);
        for (auto& f : fates)
        {
            c.mix(f.first.data(), f.first.size());
            c.mix(f.second);
        }
        for (const auto& e : seen)
            c.mix(e->payload.data(), e->payload.size());
    }
};

} // namespace

PROPERTY("D07", "dispatch", 1, "messages went to two different kinds of places, or more than one message with at least three datasets")
{
    Dispatch d(c);
    d.run();
}
