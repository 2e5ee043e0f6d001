#include "world.h"
#include "arki/types/note.h"
#include "arki/core/file.h"
#include "arki/core/time.h"
#include "arki/data.h"
#include "arki/dataset/segmented.h"
#include "arki/dataset/simple/manifest.h"
#include "arki/dataset/time.h"
#include "arki/metadata/data.h"
#include "arki/metadata/reader.h"
#include "arki/query.h"
#include "arki/metadata/sort.h"
#include "arki/segment/session.h"
#include "arki/stream.h"
#include "arki/summary.h"
#include "arki/summary/stats.h"
#include "arki/types/area.h"
#include "arki/types/product.h"
#include "arki/types/reftime.h"
#include "arki/types/source.h"
#include "arki/types/source/blob.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace arki;
using namespace arki::types;
using arki::core::Time;

namespace vf {

void SegModel::pack()
{
    std::vector<std::pair<ElemP, bool>> n;
    for (const auto& p : phys)
        if (p.second)
            n.push_back(p);
    std::stable_sort(n.begin(), n.end(), [](const auto& a, const auto& b) { return a.first->t < b.first->t; });
    phys = n;
}

static const std::vector<TypeCode> ISEG_CODES = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA,
                                                 TYPE_PRODDEF, TYPE_RUN, TYPE_QUANTITY, TYPE_TASK};

static std::string codes_fp(const Metadata& md, const std::vector<TypeCode>& codes)
{
    std::string res;
    for (auto code : codes)
        if (auto t = md.get(code))
        {
            auto e = enc(*t);
            res.append((const char*)e.data(), e.size());
            res += '|';
        }
    return res;
}

World::World(Case& c, const WorldOpts& o_) : c(c), g(c.g), o(o_)
{
    root = c.newdir();
    if (!o.name.empty())
        name = o.name;
    path = root / name;
    iseg = o.iseg_only ? true : o.simple_only ? false : g.flip();
    static const std::vector<std::string> steps = {"daily", "monthly", "yearly", "weekly", "biweekly"};
    step = g.pick(steps);
    switch (g.weighted({5, 2, 2, 1, 1, 1}))
    {
        case 0: format = DataFormat::GRIB; break;
        case 1: format = DataFormat::BUFR; break;
        case 2: format = DataFormat::VM2; break;
        case 3: format = DataFormat::ODIMH5; break;
        case 4: format = DataFormat::NETCDF; break;
        default: format = DataFormat::JPEG; break;
    }
    if (o.bufr_usn)
        format = g.chance(3, 4) ? DataFormat::BUFR : DataFormat::VM2;
    if (!o.no_dirs && format != DataFormat::VM2 && g.chance(1, 5))
        dir_segments = true;
    if (o.force_format != -1)
        format = (DataFormat)o.force_format;
    if (o.force_dirs != -1)
        dir_segments = o.force_dirs;
    formats_multi = !iseg && o.allow_multi_fmt && g.chance(1, 4);

    cfg.set("name", name);
    cfg.set("path", path.native());
    cfg.set("type", iseg ? "iseg" : "simple");
    cfg.set("step", step);
    if (iseg)
        cfg.set("format", format_name(format));
    if (!o.durable && g.chance(9, 10))
        cfg.set("eatmydata", "yes");
    if (g.chance(1, 2))
        cfg.set("locking", "no");
    smallfiles = g.chance(1, 4);
    if (smallfiles)
        cfg.set("smallfiles", "yes");
    if (iseg)
    {
        static const std::vector<TypeCode> U = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA,
                                                TYPE_PRODDEF, TYPE_RUN, TYPE_QUANTITY, TYPE_TASK};
        std::string u, idx;
        for (auto code : U)
        {
            if (g.chance(1, 2))
            {
                unique.insert(code);
                u += (u.empty() ? "" : ", ") + std::string(tag_of(code));
            }
            if (g.chance(1, 3))
                idx += (idx.empty() ? "" : ",") + std::string(tag_of(code));
        }
        if (g.chance(1, 4))
            u += (u.empty() ? "" : ",") + std::string("reftime");
        if (!u.empty())
            cfg.set("unique", u);
        if (!idx.empty())
            cfg.set("index", idx);
    }
    unsigned r = o.force_replace != -1 ? o.force_replace : g.weighted({3, 1, 1});
    replace    = r == 0 ? "no" : r == 1 ? "yes" : "USN";
    if (r || g.flip())
        cfg.set("replace", replace);
    if (g.chance(1, 2))
        cfg.set("gz group size", std::to_string(g.pick({0, 1, 2, 3, 512})));
    static const std::vector<std::array<int, 3>> bases = {
        {2007, 7, 7}, {2008, 2, 28}, {2007, 12, 30}, {2007, 6, 14}, {1999, 12, 31}, {2000, 2, 29}, {2007, 7, 28}};
    auto b   = g.pick(bases);
    base_day = civil_secs(b[0], b[1], b[2], 0, 0, 0) / 86400;
    static const std::vector<int> offs = {0, 1, 2, 3, 7, 15, 16, 31, 60, 366};
    unsigned n                         = g.range(1, o.small ? 3 : 5);
    day_offsets.push_back(0);
    for (unsigned i = 1; i < n; ++i)
        day_offsets.push_back(g.pick(offs));

    if (o.ages)
    {
        if (g.chance(4, 5))
            archive_age = g.pick({1, 0, 2, 5, 10, 31, 100});
        if (g.chance(1, 2) || archive_age == -1)
            delete_age = g.pick({5, 0, 2, 10, 31, 60, 400});
        if (archive_age != -1)
            cfg.set("archive age", std::to_string(archive_age));
        if (delete_age != -1)
            cfg.set("delete age", std::to_string(delete_age));
        set_now(base_day * 86400 + g.pick({0, 0, -1, 1, -10, -30, 5, 20, 40}) * 86400 + g.pick({0, 43200, 86399}));
    }

    ItemOpts io;
    io.plain = true;
    io.small = true;
    io.ordered_timerange = true;
    for (auto code : ALL_CODES)
    {
        if (code == TYPE_REFTIME || code == TYPE_ASSIGNEDDATASET || code == TYPE_VALUE)
            continue;
        unsigned k = g.range(1, o.small ? 2 : 3);
        for (unsigned i = 0; i < k; ++i)
        {
            auto item = std::shared_ptr<Type>(gen_item(g, code, io).release());
            // The same value with different encodings (12 periods of 3 hours, 3
            // periods of 12 hours) is the same thing for a summary and not for
            // an index: use only one of them
            bool same = false;
            for (const auto& other : pool[code])
                if (item->equals(*other) && enc(*item) != enc(*other))
                    same = true;
            if (!same)
                pool[code].push_back(item);
        }
    }
    if (format == DataFormat::VM2 || formats_multi)
    {
        pool[TYPE_VALUE].clear();
    }
    session = std::make_shared<dataset::Session>(false);
    if (c.verbose)
    {
        std::stringstream ss;
        for (const auto& i : cfg)
            ss << i.first << "=" << i.second << "; ";
        c.log("dataset " + ss.str() + (dir_segments ? "(directory segments)" : ""));
    }
}

std::shared_ptr<dataset::Dataset> World::dataset()
{
    auto res = session->dataset(cfg);
    if (dir_segments)
    {
        auto s = std::dynamic_pointer_cast<dataset::segmented::Dataset>(res);
        s->segment_session->default_file_segment = segment::DefaultFileSegment::SEGMENT_DIR;
    }
    return res;
}

std::string World::step_path(const std::string& step, int64_t t)
{
    Time x = secs_civil(t);
    char buf[32];
    if (step == "daily")
        snprintf(buf, 32, "%04d/%02d-%02d", x.ye, x.mo, x.da);
    else if (step == "weekly")
        snprintf(buf, 32, "%04d/%02d-%d", x.ye, x.mo, (x.da - 1) / 7 + 1);
    else if (step == "biweekly")
        snprintf(buf, 32, "%04d/%02d-%d", x.ye, x.mo, x.da > 15 ? 2 : 1);
    else if (step == "monthly")
        snprintf(buf, 32, "%04d/%02d", x.ye, x.mo);
    else
        snprintf(buf, 32, "%02d/%04d", x.ye / 100, x.ye);
    return buf;
}

std::string World::step_path(int64_t t) const { return step_path(step, t); }

std::pair<int64_t, int64_t> World::step_span(const std::string& step, int64_t t)
{
    Time x = secs_civil(t);
    auto mk = [](int y, int m, int d) {
        while (m > 12)
        {
            m -= 12;
            ++y;
        }
        return civil_secs(y, m, d, 0, 0, 0);
    };
    int64_t next_month = mk(x.ye, x.mo + 1, 1);
    if (step == "daily")
    {
        int64_t d = mk(x.ye, x.mo, x.da);
        return {d, d + 86400};
    }
    if (step == "weekly")
    {
        int64_t d = mk(x.ye, x.mo, (x.da - 1) / 7 * 7 + 1);
        return {d, std::min(d + 7 * 86400, next_month)};
    }
    if (step == "biweekly")
    {
        if (x.da > 15)
            return {mk(x.ye, x.mo, 16), next_month};
        return {mk(x.ye, x.mo, 1), mk(x.ye, x.mo, 16)};
    }
    if (step == "monthly")
        return {mk(x.ye, x.mo, 1), next_month};
    return {mk(x.ye, 1, 1), mk(x.ye + 1, 1, 1)};
}

std::string World::visible_fp(const Metadata& md) const
{
    std::vector<TypeCode> codes = {TYPE_REFTIME};
    if (iseg)
    {
        codes.insert(codes.end(), ISEG_CODES.begin(), ISEG_CODES.end());
        if (smallfiles)
            codes.push_back(TYPE_VALUE);
    }
    else
    {
        codes.clear();
        for (auto code : ALL_CODES)
            if (code != TYPE_VALUE || smallfiles)
                codes.push_back(code);
    }
    return codes_fp(md, codes);
}

std::string World::key_of(const Metadata& md) const
{
    std::vector<TypeCode> codes = {TYPE_REFTIME};
    std::string res;
    codes.insert(codes.end(), unique.begin(), unique.end());
    for (auto code : codes)
    {
        if (auto t = md.get(code))
        {
            auto e = enc(*t);
            res.append((const char*)e.data(), e.size());
        }
        res += "|";
    }
    return res;
}

ElemP World::make_elem(const std::shared_ptr<Metadata>& items, unsigned usn, DataFormat fmt,
                       const std::vector<uint8_t>& filler)
{
    auto e     = std::make_shared<Elem>();
    e->id      = next_id++;
    e->format  = fmt;
    e->usn     = usn;
    e->filler  = filler;
    e->payload = make_payload(fmt, *items, usn, filler);
    e->items   = scan_payload(fmt, e->payload.data(), e->payload.size());
    e->t       = civil_secs(e->items->get<reftime::Position>()->get_Position());
    e->seg     = step_path(e->t) + "." + format_name(fmt);
    e->fp      = visible_fp(*e->items);
    e->key     = key_of(*e->items);
    return e;
}

ElemP World::new_elem()
{
    // Possibly a variation of an existing one
    DataFormat fmt = format;
    if (formats_multi && g.chance(1, 3))
        fmt = g.pick({DataFormat::GRIB, DataFormat::BUFR, dir_segments ? DataFormat::GRIB : DataFormat::VM2, DataFormat::ODIMH5});
    unsigned usn = g.below(4);
    std::vector<uint8_t> filler = g.bytes(0, 12);
    filler.push_back(next_id >> 8);
    filler.push_back(next_id);
    if (!history.empty() && g.chance(1, o.small ? 2 : 4))
    {
        auto e = g.pick(history);
        if (g.chance(1, 4) && e->format != DataFormat::VM2)
        {
            auto md   = e->items->clone();
            auto code = g.pick(std::vector<TypeCode>{TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_AREA, TYPE_PRODDEF});
            if (g.chance(1, 4))
                md->unset(code);
            else
                md->test_set(std::unique_ptr<Type>(g.pick(pool[code])->clone()));
            return make_elem(md, usn, e->format, filler);
        }
        if (g.chance(1, 3))
            filler = e->filler; // exactly the same data, if the USN is the same
        return make_elem(e->items, g.chance(1, 3) ? e->usn : usn, e->format, filler);
    }
    auto md    = std::make_shared<Metadata>();
    int64_t t  = (base_day + g.pick(day_offsets)) * 86400;
    if (o.ages && g.chance(1, 3))
    {
        // Recent data
        t = now / 86400 * 86400 - g.pick({0, 1, 2, 5, -1}) * 86400;
        if (g.chance(1, 4))
            t = threshold(g.flip() || delete_age == -1 ? archive_age : delete_age) + g.pick({0, -1, 1}) * 86400;
    }
    switch (g.weighted({3, 2, 1, 1}))
    {
        case 0: t += g.pick({0, 6, 12, 18}) * 3600; break;
        case 1: t += g.below(24) * 3600; break;
        case 2: t += g.flip() ? 0 : 86399; break;
        default: t += g.below(86400); break;
    }
    md->test_set(Reftime::createPosition(secs_civil(t)));
    if (fmt == DataFormat::VM2)
    {
        md->test_set(area::VM2::create(g.below(3) + 1));
        md->test_set(Product::createVM2(g.below(3) + 1));
    }
    else
        for (auto& p : pool)
        {
            if (p.second.empty())
                continue;
            bool rare = p.first == TYPE_TASK || p.first == TYPE_QUANTITY || p.first == TYPE_BBOX;
            if (rare ? !g.chance(1, 5) : g.chance(1, 8))
                continue;
            md->test_set(std::unique_ptr<Type>(g.pick(p.second)->clone()));
        }
    return make_elem(md, usn, fmt, filler);
}

std::shared_ptr<Metadata> World::elem_md(const Elem& e) const
{
    auto md = make_inline(e.format, *e.items, e.usn, e.filler);
    if (notes)
        for (const auto& n : notes_of(e.payload))
            md->add_note(types::Note::create(n.first, n.second));
    return md;
}

std::vector<std::pair<core::Time, std::string>> World::notes_of(const std::vector<uint8_t>& payload)
{
    uint32_t h = 2166136261u;
    for (auto b : payload)
        h = (h ^ b) * 16777619u;
    h ^= h >> 15;
    std::vector<std::pair<core::Time, std::string>> res;
    static const unsigned counts[]  = {0, 0, 0, 1, 1, 2, 3, 5};
    static const unsigned lengths[] = {0, 1, 30, 100, 130, 300};
    for (unsigned i = 0; i < counts[h % 8]; ++i)
    {
        std::string text;
        for (unsigned j = 0; j < lengths[(h / 8 + i) % 6]; ++j)
            text += "note \xc3\xa8\n'\";:"[(h / 64 + j) % 12];
        res.emplace_back(core::Time(2000 + (h >> 8) % 30, 1 + (h >> 4) % 12, 1 + i, 12, 30, (h >> 12) % 60), text);
    }
    return res;
}

static std::string notes_diff(const Metadata& md, const std::vector<uint8_t>& payload)
{
    auto show = [](const core::Time& t, const std::string& s) { return t.to_iso8601() + " " + printable(s) + "|"; };
    std::string got, exp;
    auto n = md.notes();
    for (auto i = n.first; i != n.second; ++i)
    {
        core::Time t;
        std::string s;
        reinterpret_cast<const types::Note*>(*i)->get(t, s);
        got += show(t, s);
    }
    for (const auto& x : World::notes_of(payload))
        exp += show(x.first, x.second);
    return got == exp ? "" : "got [" + got + "] expected [" + exp + "]";
}

std::string World::show(const Elem& e) const
{
    return "#" + std::to_string(e.id) + " " + secs_civil(e.t).to_iso8601(' ') + " " + format_name(e.format) + " usn" +
           std::to_string(e.usn) + " {" + vf::show(*e.items) + "}";
}

std::vector<ElemP> World::visible() const
{
    std::vector<ElemP> res;
    for (auto m : {&arch, &segs})
        for (const auto& s : *m)
            for (const auto& p : s.second.phys)
                if (p.second)
                    res.push_back(p.first);
    return res;
}

World::Expected World::model_import(const std::vector<ElemP>& batch, const std::string& strategy)
{
    Expected res;
    res.results.assign(batch.size(), 3);
    if (batch.empty())
        return res;
    DataFormat first = batch[0]->format;
    if (iseg && first != format)
    {
        res.results.assign(batch.size(), 2);
        return res;
    }
    std::map<std::string, std::vector<unsigned>> by_seg;
    for (unsigned i = 0; i < batch.size(); ++i)
    {
        if (batch[i]->format != first)
        {
            res.results[i] = 2;
            continue;
        }
        if (delete_age != -1 && batch[i]->t < threshold(delete_age))
        {
            // Safely discarded
            res.results[i] = 4;
            ++count_aged_out;
            continue;
        }
        if (archive_age != -1 && batch[i]->t < threshold(archive_age))
        {
            // Refused
            res.results[i] = 2;
            ++count_aged_out;
            continue;
        }
        by_seg[batch[i]->seg].push_back(i);
    }
    for (auto& s : by_seg)
    {
        std::stable_sort(s.second.begin(), s.second.end(), [&](unsigned a, unsigned b) { return batch[a]->t < batch[b]->t; });
        auto i = segs.find(s.first);
        if (i != segs.end() && i->second.packed)
        {
            // Archived and compressed segments do not accept more data
            for (auto idx : s.second)
                res.results[idx] = 2;
            continue;
        }
        auto& seg   = segs[s.first];
        seg.relpath = s.first;
        seg.format  = first;
        seg.isdir   = dir_segments || first == DataFormat::ODIMH5 || first == DataFormat::NETCDF || first == DataFormat::JPEG;
        for (auto idx : s.second)
        {
            const auto& e = batch[idx];
            std::pair<ElemP, bool>* old = nullptr;
            if (iseg)
                for (auto& p : seg.phys)
                    if (p.second && p.first->key == e->key)
                        old = &p;
            if (old)
            {
                if (strategy == "no")
                {
                    res.results[idx] = 1;
                    continue;
                }
                if (strategy == "USN")
                {
                    if (e->format != DataFormat::BUFR)
                    {
                        res.results[idx] = 1;
                        continue;
                    }
                    if (e->usn < old->first->usn)
                    {
                        res.results[idx] = 1;
                        continue;
                    }
                }
                old->second = false;
                ++count_replaced;
            }
            res.results[idx] = 0;
            seg.phys.emplace_back(e, true);
        }
    }
    return res;
}

void World::import(const std::vector<ElemP>& batch, const std::string& strategy,
                   std::shared_ptr<dataset::Writer> writer)
{
    metadata::InboundBatch b;
    for (const auto& e : batch)
        b.add(elem_md(*e));
    auto before = segs;
    auto exp    = model_import(batch, strategy == "default" ? replace : strategy);
    dataset::AcquireConfig acfg;
    if (strategy == "no")
        acfg.replace = ReplaceStrategy::NEVER;
    else if (strategy == "yes")
        acfg.replace = ReplaceStrategy::ALWAYS;
    else if (strategy == "USN")
        acfg.replace = ReplaceStrategy::HIGHER_USN;
    bool threw = false;
    std::string what;
    try
    {
        if (!writer)
            writer = dataset()->create_writer();
        writer->acquire_batch(b, acfg);
        writer->flush();
    }
    catch (std::exception& e)
    {
        threw = true;
        what  = e.what();
    }
    if (c.verbose)
    {
        c.log("import strategy=" + strategy + (threw ? " (throws: " + what + ")" : ""));
        for (unsigned i = 0; i < batch.size(); ++i)
        {
            std::stringstream ss;
            ss << b[i]->result;
            c.log("   " + show(*batch[i]) + " -> " + ss.str());
        }
    }
    c.check(!threw, "import-exception", "import failed: " + what);
    for (unsigned i = 0; i < batch.size(); ++i)
    {
        int r = b[i]->result == metadata::Inbound::Result::OK ? 0
                : b[i]->result == metadata::Inbound::Result::DUPLICATE ? 1
                                                                        : 2;
        if (exp.results[i] == 3)
            c.check(r != 0, "import-result", "element " + show(*batch[i]) + " not stored but reported as imported");
        else
        {
            if (r != exp.results[i] % 4)
                c.fail("import-result", "element " + show(*batch[i]) + ": result " + std::to_string(r) + " instead of " +
                                            std::to_string(exp.results[i]) + " (0 ok, 1 duplicate, 2 error)");
        }
        c.check(b[i]->destination == (r == 0 ? name : ""), "import-destination",
                "destination is " + b[i]->destination + " with result " + std::to_string(r));
        if (exp.results[i] == 0)
            history.push_back(batch[i]);
        if (r == 1)
            ++count_duplicates;
    }
    // Importing never leaves empty segments in the model
    for (auto i = segs.begin(); i != segs.end();)
        if (i->second.phys.empty())
            i = segs.erase(i);
        else
            ++i;
}

void World::op_import(std::shared_ptr<dataset::Writer> writer)
{
    unsigned n = g.range(1, o.small ? 4 : 7);
    // Many elements with the same reference time, to import in order
    bool big = !o.small && g.chance(1, 20);
    if (big)
        n = g.range(17, 30);
    std::vector<ElemP> batch;
    for (unsigned i = 0; i < n; ++i)
    {
        if (!batch.empty() && (big ? g.chance(3, 4) : g.chance(1, 6)))
        {
            // Data repeated inside a batch
            auto e = g.pick(batch);
            batch.push_back(make_elem(e->items, g.below(4), e->format, e->filler));
        }
        else
            batch.push_back(new_elem());
    }
    std::string strategy = "default";
    if (iseg && g.chance(1, 4))
        strategy = g.pick(std::vector<std::string>{"no", "yes", "USN"});
    import(batch, strategy, writer);
}

std::vector<std::shared_ptr<Metadata>> World::query(const std::string& expr, bool with_data, const std::string& sort)
{
    std::vector<std::shared_ptr<Metadata>> res;
    auto reader = dataset()->create_reader();
    query::Data q(session->matcher(expr), with_data);
    if (!sort.empty())
        q.sorter = metadata::sort::Compare::parse(sort);
    bool r = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
        if (with_data)
            md->get_data();
        res.push_back(md);
        return true;
    });
    c.check(r, "query-return", "query_data returned false although the consumer never stopped");
    return res;
}

void World::compare(const std::vector<ElemP>& expected, const std::vector<std::shared_ptr<Metadata>>& got,
                    const std::string& what, bool with_data)
{
    typedef std::pair<std::string, std::string> K;
    std::multiset<K> e, r;
    for (const auto& x : expected)
        e.emplace(x->fp, with_data ? std::string(x->payload.begin(), x->payload.end()) : "");
    std::vector<std::string> extra;
    auto e1 = e;
    for (const auto& md : got)
    {
        K k(visible_fp(*md), "");
        if (with_data)
        {
            auto d   = md->get_data().read();
            k.second = std::string(d.begin(), d.end());
        }
        auto i = e1.find(k);
        if (i == e1.end())
        {
            std::string msg = what + ": unexpected element " + vf::show(*md);
            if (md->has_source())
                msg += " source " + md->source().to_string();
            if (with_data)
                msg += " data " + printable(k.second);
            c.fail("extra", msg + " (got " + std::to_string(got.size()) + ", expected " + std::to_string(e.size()) + ")");
        }
        e1.erase(i);
        if (notes && with_data)
        {
            auto d = notes_diff(*md, std::vector<uint8_t>(k.second.begin(), k.second.end()));
            if (!d.empty())
                c.fail("notes", what + ": notes of " + vf::show(*md) + ": " + d);
        }
    }
    if (!e1.empty())
    {
        for (const auto& x : expected)
        {
            K k(x->fp, with_data ? std::string(x->payload.begin(), x->payload.end()) : "");
            if (e1.find(k) != e1.end())
                c.fail("missing", what + ": missing element " + show(*x) + " in " + x->seg + " (got " +
                                      std::to_string(got.size()) + ", expected " + std::to_string(e.size()) + ")");
        }
    }
}

std::vector<std::shared_ptr<Metadata>> World::mpool() const
{
    std::vector<std::shared_ptr<Metadata>> res;
    size_t start = history.size() > 8 ? history.size() - 8 : 0;
    for (size_t i = start; i < history.size(); ++i)
        res.push_back(history[i]->items);
    return res;
}

void World::audit_all()
{
    auto vis = visible();
    auto got = query("", true);
    compare(vis, got, "query of everything", true);
    for (const auto& md : got)
    {
        const auto& b = md->sourceBlob();
        c.check(b.basedir == path || !arch.empty(), "source", "source basedir is " + b.basedir.native());
    }
}

int64_t ref_sort_period(const std::string& order, int64_t t)
{
    auto pos = order.find(':');
    if (pos == std::string::npos)
        return 0;
    auto p = order.substr(0, pos);
    Time x = secs_civil(t);
    if (p == "minute")
        return civil_secs(x.ye, x.mo, x.da, x.ho, x.mi, 0);
    if (p == "hour")
        return civil_secs(x.ye, x.mo, x.da, x.ho, 0, 0);
    if (p == "day")
        return civil_secs(x.ye, x.mo, x.da, 0, 0, 0);
    if (p == "month")
        return civil_secs(x.ye, x.mo, 1, 0, 0, 0);
    return civil_secs(x.ye, 1, 1, 0, 0, 0);
}

int ref_sort(const std::string& order, const Metadata& a, const Metadata& b)
{
    std::string items = order;
    auto pos          = order.find(':');
    if (pos != std::string::npos)
    {
        items   = order.substr(pos + 1);
        auto ra = a.get<reftime::Position>(), rb = b.get<reftime::Position>();
        if (!ra != !rb)
            return ra ? 1 : -1;
        if (ra)
        {
            auto ta = ref_sort_period(order, civil_secs(ra->get_Position()));
            auto tb = ref_sort_period(order, civil_secs(rb->get_Position()));
            if (ta != tb)
                return ta < tb ? -1 : 1;
        }
    }
    if (items.empty())
        items = "reftime";
    std::stringstream ss(items);
    std::string item;
    while (std::getline(ss, item, ','))
    {
        bool rev = false;
        while (!item.empty() && (item[0] == ' ' || item[0] == '+' || item[0] == '-'))
        {
            if (item[0] == '-')
                rev = true;
            item = item.substr(1);
        }
        while (!item.empty() && item.back() == ' ')
            item.pop_back();
        auto code = types::parseCodeName(item);
        auto x = a.get(code), y = b.get(code);
        int r;
        if (!x && !y)
            r = 0;
        else if (!x != !y)
            r = x ? 1 : -1;
        else
            r = x->compare(*y);
        if (r)
            return rev ? -r : r;
    }
    return 0;
}

void World::audit_query()
{
    auto p = mpool();
    if (p.empty())
        return;
    ItemOpts io;
    io.plain = io.small = io.ordered_timerange = true;
    auto expr           = gen_expr(g, p, io, true, 2);
    std::string text    = expr.text(&g);
    std::vector<ElemP> expected;
    for (const auto& e : visible())
    {
        // Items that the dataset does not keep cannot be matched
        if (expr.match(*e->items))
            expected.push_back(e);
    }
    c.log("query " + text + " expecting " + std::to_string(expected.size()));
    c.count("queries");
    if (!expected.empty())
        c.count("queries with results");
    static const std::vector<std::string> sorts = {"", "", "reftime", "-reftime", "origin,reftime", "-level,+product",
                                                   "hour:level", "day:-reftime", "month:product,-reftime"};
    std::string sort = g.pick(sorts);
    auto got         = query(text, true, sort);
    compare(expected, got, "query " + text + (sort.empty() ? "" : " sort " + sort), true);

    // Order: each segment is sorted, and sorting intervals come in sequence
    std::string order = sort.empty() ? "reftime" : sort;
    for (size_t i = 1; i < got.size(); ++i)
    {
        const auto& a = got[i - 1]->sourceBlob();
        const auto& b = got[i]->sourceBlob();
        bool sameseg  = a.basedir == b.basedir && a.filename == b.filename;
        if (sameseg)
            c.check(ref_sort(order, *got[i - 1], *got[i]) <= 0, "order",
                    "query " + text + " sort " + sort + ": " + vf::show(*got[i - 1]) + " comes before " +
                        vf::show(*got[i]));
        else if (arch.empty() && !formats_multi)
        {
            auto ta = civil_secs(got[i - 1]->get<reftime::Position>()->get_Position());
            auto tb = civil_secs(got[i]->get<reftime::Position>()->get_Position());
            if (sort.empty())
                c.check(ta <= tb, "order-segments",
                        "query " + text + ": " + vf::show(*got[i - 1]) + " comes before " + vf::show(*got[i]));
            else if (sort.find(':') != std::string::npos)
                c.check(ref_sort_period(order, ta) <= ref_sort_period(order, tb), "order-periods",
                        "query " + text + " sort " + sort + ": " + vf::show(*got[i - 1]) + " comes before " +
                            vf::show(*got[i]));
        }
    }
}

void World::audit_bytes()
{
    auto p = mpool();
    if (p.empty())
        return;
    ItemOpts io;
    io.plain = io.small = io.ordered_timerange = true;
    std::string text;
    MExpr expr;
    if (g.chance(2, 3))
    {
        expr = gen_expr(g, p, io, true, 1);
        text = expr.text(nullptr);
    }
    auto md = query(text, true);
    std::string expected;
    for (const auto& m : md)
    {
        auto d = m->get_data().read();
        expected.append((const char*)d.data(), d.size());
        if (m->source().format == DataFormat::VM2)
            expected += "\n";
    }
    std::vector<uint8_t> out;
    auto stream = StreamOutput::create(out);
    query::Bytes q;
    q.setData(session->matcher(text));
    dataset()->create_reader()->query_bytes(q, *stream);
    std::string got(out.begin(), out.end());
    c.check(got == expected, "bytes",
            "query_bytes " + text + " returned " + std::to_string(got.size()) + " bytes, the data has " +
                std::to_string(expected.size()));
    c.count("byte queries");

    // Same thing through a postprocessor, which gets metadata and data
    if (g.chance(1, 5))
    {
        auto fn = root / "postprocess.out";
        std::vector<uint8_t> pout;
        auto st = StreamOutput::create(pout);
        query::Bytes q;
        bool fails = g.chance(1, 4);
        q.setPostprocess(session->matcher(text), fails ? "/bin/false" : "/bin/cat");
        bool threw = false;
        try
        {
            dataset()->create_reader()->query_bytes(q, *st);
        }
        catch (std::exception& e)
        {
            threw = true;
            c.log(std::string("  postprocessor failed: ") + e.what());
        }
        c.eq(threw, fails, "postprocess", std::string("failure of postprocessing with ") + (fails ? "false" : "cat"));
        if (!fails)
        {
            core::File out(fn, O_RDWR | O_CREAT | O_TRUNC, 0666);
            out.write_all_or_throw(pout.data(), pout.size());
            out.lseek(0);
            metadata::BinaryReader r(out);
            std::vector<std::shared_ptr<Metadata>> res;
            r.read_all([&](std::shared_ptr<Metadata> m) {
                res.push_back(m);
                return true;
            });
            out.close();
            ::unlink(fn.c_str());
            c.eq(res.size(), md.size(), "postprocess", "number of elements received by the postprocessor for " + text);
            for (size_t i = 0; i < md.size(); ++i)
            {
                c.check(md[i]->items_equal(*res[i]), "postprocess", "metadata of element " + std::to_string(i) + " received by the postprocessor for " + text);
                c.check(md[i]->get_data().read() == res[i]->get_data().read(), "postprocess", "data of element " + std::to_string(i) + " received by the postprocessor for " + text);
            }
        }
        c.count("postprocessed queries");
    }

    // Same thing on a file
    if (g.chance(1, 3))
    {
        auto fn = root / "bytes.out";
        {
            auto fd = std::make_shared<core::File>(fn, O_WRONLY | O_CREAT | O_TRUNC, 0666);
            auto st = StreamOutput::create(fd);
            query::Bytes q;
            q.setData(session->matcher(text));
            dataset()->create_reader()->query_bytes(q, *st);
        }
        std::string got1;
        {
            int fd = ::open(fn.c_str(), O_RDONLY);
            char buf[65536];
            ssize_t r;
            while ((r = ::read(fd, buf, sizeof buf)) > 0)
                got1.append(buf, r);
            ::close(fd);
        }
        ::unlink(fn.c_str());
        c.check(got1 == expected, "bytes-file",
                "query_bytes " + text + " wrote " + std::to_string(got1.size()) + " bytes to a file, the data has " +
                    std::to_string(expected.size()));
    }
}

void World::audit_stop()
{
    auto vis = visible();
    if (vis.empty())
        return;
    static const std::vector<std::string> sorts = {"", "reftime", "hour:level", "minute:reftime", "day:-reftime"};
    std::string sort                            = g.pick(sorts);
    bool with_data                              = g.flip();
    auto full                                   = query("", with_data, sort);
    size_t n                                    = 1 + g.below(full.size());
    auto reader                                 = dataset()->create_reader();
    query::Data q(Matcher(), with_data);
    if (!sort.empty())
        q.sorter = metadata::sort::Compare::parse(sort);
    size_t calls = 0;
    bool stopped = false;
    bool again   = false;
    bool same    = true;
    bool r       = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
        if (stopped)
            again = true;
        if (calls < full.size() && visible_fp(*md) != visible_fp(*full[calls]))
            same = false;
        ++calls;
        if (calls >= n)
        {
            stopped = true;
            return false;
        }
        return true;
    });
    c.check(!again, "stop-again", "sort " + sort + ": the consumer was called again after it refused element " + std::to_string(n) +
                                      " of " + std::to_string(full.size()));
    c.check(!r, "stop-return", "query_data returned true although the consumer stopped it at element " +
                                   std::to_string(n) + " of " + std::to_string(full.size()) + ", sort " + sort);
    c.check(same, "stop-prefix", "a query stopped by its consumer returned different elements");
    c.count("interrupted queries");
}

// ---------------------------------------------------------------- summaries

static const std::vector<TypeCode> SUM_CODES = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA,
                                                TYPE_PRODDEF, TYPE_BBOX, TYPE_RUN, TYPE_QUANTITY, TYPE_TASK};

SumMap World::model_summary(const std::vector<ElemP>& els) const
{
    SumMap res;
    for (const auto& e : els)
    {
        std::string k;
        for (auto code : SUM_CODES)
        {
            if (iseg && code == TYPE_BBOX)
                continue;
            if (auto t = e->items->get(code))
            {
                auto x = enc(*t);
                k.append((const char*)x.data(), x.size());
                k += "|";
            }
        }
        auto i = res.find(k);
        if (i == res.end())
            res[k] = std::make_tuple(1, e->payload.size(), e->t, e->t);
        else
        {
            std::get<0>(i->second) += 1;
            std::get<1>(i->second) += e->payload.size();
            std::get<2>(i->second) = std::min(std::get<2>(i->second), e->t);
            std::get<3>(i->second) = std::max(std::get<3>(i->second), e->t);
        }
    }
    return res;
}

SumMap World::read_summary(const Summary& s) const
{
    struct V : public summary::Visitor
    {
        SumMap res;
        bool dup = false;
        bool operator()(const std::vector<const types::Type*>& md, const summary::Stats& st) override
        {
            std::map<int, const types::Type*> by;
            for (auto t : md)
                if (t)
                    by[t->type_code()] = t;
            std::string k;
            for (auto code : SUM_CODES)
                if (by.count(code))
                {
                    auto x = enc(*by[code]);
                    k.append((const char*)x.data(), x.size());
                    k += "|";
                }
            if (res.count(k))
                dup = true;
            res[k] = std::make_tuple(st.count, st.size, civil_secs(st.begin), civil_secs(st.end));
            return true;
        }
    } v;
    s.visit(v);
    if (v.dup)
        c.fail("summary-dup", "the same combination of items appears twice in a summary");
    return v.res;
}

static std::string show_row(const SumMap::value_type& r)
{
    std::vector<uint8_t> k(r.first.begin(), r.first.end());
    return "count " + std::to_string(std::get<0>(r.second)) + " size " + std::to_string(std::get<1>(r.second)) + " from " +
           secs_civil(std::get<2>(r.second)).to_iso8601(' ') + " to " +
           secs_civil(std::get<3>(r.second)).to_iso8601(' ') + " items " + hexdump(k, 60);
}

std::string summap_diff(const SumMap& got, const SumMap& expected)
{
    for (const auto& r : expected)
    {
        auto i = got.find(r.first);
        if (i == got.end())
            return "missing row: " + show_row(r);
        if (i->second != r.second)
            return "row differs: got " + show_row(*i) + " expected " + show_row(r);
    }
    for (const auto& r : got)
        if (!expected.count(r.first))
            return "unexpected row: " + show_row(r);
    return std::string();
}

void World::audit_summary()
{
    auto p   = mpool();
    auto vis = visible();
    // Offline archives are only known by their summary
    vis.insert(vis.end(), offline_elems.begin(), offline_elems.end());
    ItemOpts io;
    io.plain = io.small = io.ordered_timerange = true;
    unsigned kind       = p.empty() ? 0 : g.below(4);
    if (kind == 2 && !offline_elems.empty())
        kind = 3;
    if (kind == 0)
    {
        Summary s;
        dataset()->create_reader()->query_summary(Matcher(), s);
        auto d = summap_diff(read_summary(s), model_summary(vis));
        c.check(d.empty(), "summary-all", "summary of everything: " + d);
        c.count("summaries");
        return;
    }
    if (kind == 1)
    {
        // no reference times
        auto expr        = gen_expr(g, p, io, false, 2);
        std::string text = expr.text(&g);
        c.log("summary query " + text);
        std::vector<ElemP> sel;
        for (const auto& e : vis)
            if (expr.match(*e->items))
                sel.push_back(e);
        Summary s;
        dataset()->create_reader()->query_summary(session->matcher(text), s);
        auto d = summap_diff(read_summary(s), model_summary(sel));
        c.check(d.empty(), "summary-expr", "summary of " + text + ": " + d);
        c.count("summaries");
        if (!sel.empty())
            c.count("summaries with results");
        return;
    }
    if (kind == 2)
    {
        // Aligned with segments, and with months: the result must be exact
        auto e1 = g.pick(history), e2 = g.pick(history);
        bool lo = !g.chance(1, 4), hi = !g.chance(1, 4) || !lo;
        int64_t a = e1->t, b = e2->t;
        if (a > b)
            std::swap(a, b);
        bool month = iseg || g.flip();
        // iseg is exact on any date interval, as indices are queried for partial months
        std::string st = iseg && arch.empty() ? g.pick(std::vector<std::string>{"daily", "monthly", "yearly"}) : step;
        (void)month;
        a = step_span(st, a).first;
        b = step_span(st, b).second;
        std::string text = "reftime:";
        if (lo)
            text += ">=" + secs_civil(a).to_iso8601(' ');
        if (hi)
            text += (lo ? "," : "") + std::string("<") + secs_civil(b).to_iso8601(' ');
        MExpr expr;
        if (g.chance(1, 2))
        {
            expr = gen_expr(g, p, io, false, 1);
            text += "; " + expr.text(nullptr);
        }
        c.log("summary query " + text);
        std::vector<ElemP> sel;
        for (const auto& e : vis)
            if ((!lo || e->t >= a) && (!hi || e->t < b) && expr.match(*e->items))
                sel.push_back(e);
        Summary s;
        dataset()->create_reader()->query_summary(session->matcher(text), s);
        auto d = summap_diff(read_summary(s), model_summary(sel));
        c.check(d.empty(), "summary-interval", "summary of " + text + ": " + d);
        c.count("summaries");
        if (!sel.empty())
            c.count("summaries with results");
        return;
    }
    // Any expression: all that matches is counted, and nothing is counted
    // that does not match the items
    auto expr        = gen_expr(g, p, io, true, 2);
    std::string text = expr.text(&g);
    c.log("summary query " + text);
    std::vector<ElemP> sel, other;
    MExpr norf = expr;
    norf.parts.erase(TYPE_REFTIME);
    for (const auto& e : vis)
    {
        if (expr.match(*e->items))
            sel.push_back(e);
        if (norf.match(*e->items))
            other.push_back(e);
    }
    Summary s;
    dataset()->create_reader()->query_summary(session->matcher(text), s);
    auto got   = read_summary(s);
    auto lower = model_summary(sel);
    auto upper = model_summary(other);
    for (const auto& r : lower)
    {
        auto i = got.find(r.first);
        c.check(i != got.end(), "summary-missing", "summary of " + text + ": missing row " + show_row(r));
        c.check(std::get<0>(i->second) >= std::get<0>(r.second) && std::get<1>(i->second) >= std::get<1>(r.second) &&
                    std::get<2>(i->second) <= std::get<2>(r.second) && std::get<3>(i->second) >= std::get<3>(r.second),
                "summary-less", "summary of " + text + ": got " + show_row(*i) + " for data " + show_row(r));
    }
    for (const auto& r : got)
    {
        auto i = upper.find(r.first);
        c.check(i != upper.end(), "summary-extra", "summary of " + text + ": unexpected row " + show_row(r));
        c.check(std::get<0>(i->second) >= std::get<0>(r.second) && std::get<1>(i->second) >= std::get<1>(r.second) &&
                    std::get<2>(i->second) <= std::get<2>(r.second) && std::get<3>(i->second) >= std::get<3>(r.second),
                "summary-more", "summary of " + text + ": got " + show_row(r) + " but all the data is " + show_row(*i));
    }
    c.count("summaries");
    if (!sel.empty())
        c.count("summaries with results");
}

// ------------------------------------------------------------- maintenance

static dataset::CheckerConfig mkopts(std::shared_ptr<CaptureReporter> rep, bool readonly)
{
    dataset::CheckerConfig opts(rep, readonly);
    return opts;
}

void World::op_remove()
{
    metadata::Collection mds;
    select_remove(mds);
    if (mds.empty())
        return;
    auto checker = dataset()->create_checker();
    checker->remove(mds);
}

void World::select_remove(metadata::Collection& mds)
{
    auto vis = visible();
    if (vis.empty())
        return;
    // Choose what to remove via a query, then a subset of it
    auto all = query("", g.flip());
    std::multiset<std::string> gone;
    bool by_day = g.chance(1, 4);
    int64_t day = g.pick(vis)->t / 86400;
    for (const auto& md : all)
    {
        const auto& b = md->sourceBlob();
        if (b.basedir != path)
            continue;
        auto i = segs.find(b.filename.native());
        if (i == segs.end())
            continue;
        if (i->second.packed)
            continue;
        bool sel = by_day ? civil_secs(md->get<reftime::Position>()->get_Position()) / 86400 == day : g.chance(1, 3);
        if (!sel)
            continue;
        // find it in the model by its data
        md->sourceBlob();
        mds.acquire(md->clone());
    }
    if (mds.empty())
        return;
    // Data of the selected elements
    auto full = query("", true);
    std::map<std::pair<std::string, uint64_t>, std::shared_ptr<Metadata>> byofs;
    for (const auto& md : full)
        byofs[{md->sourceBlob().filename.native(), md->sourceBlob().offset}] = md;
    for (const auto& md : mds)
    {
        auto k  = std::make_pair(md->sourceBlob().filename.native(), (uint64_t)md->sourceBlob().offset);
        auto f  = byofs.find(k);
        c.check(f != byofs.end(), "remove-lookup", "two queries return different positions for the same data");
        auto d  = f->second->get_data().read();
        auto fp = visible_fp(*f->second);
        bool found = false;
        for (auto& p : segs[k.first].phys)
            if (!found && p.second && p.first->payload == d && p.first->fp == fp)
            {
                p.second = false;
                found    = true;
            }
        c.check(found, "remove-model", "query returned data that is not in the model");
    }
    c.log("remove " + std::to_string(mds.size()) + " elements");
    // A query result with data keeps its segments locked: let go of it
    for (const auto& md : mds)
        md->sourceBlob().unlock();
    byofs.clear();
    full.clear();
    all.clear();
}

void World::op_repack()
{
    auto rep  = std::make_shared<CaptureReporter>();
    auto opts = mkopts(rep, false);
    if (g.chance(1, 4))
        opts.offline = false;
    c.log(std::string("repack") + (opts.offline ? "" : " online only"));

    // Archiving a segment that has already been archived cannot work, but must
    // not lose data either
    std::string conflict;
    for (const auto& s : segs)
        if (s.second.has_live() && age_state(s.second) == 1 && arch.count("last/" + s.first))
            conflict = s.first;
    try
    {
        dataset()->create_checker()->repack(opts);
        c.check(conflict.empty(), "archive-twice", "segment " + conflict + " has been archived on top of one with the same name");
    }
    catch (std::exception& e)
    {
        if (conflict.empty())
            throw;
        c.log(std::string("repack: ") + e.what());
        // An unknown part of it has been done: check that no data was lost,
        // and stop here
        auto got = query("", true);
        std::multiset<std::vector<uint8_t>> left;
        for (const auto& md : got)
            left.insert(md->get_data().read());
        for (auto m : {&arch, &segs})
            for (const auto& s : *m)
                for (const auto& p : s.second.phys)
                {
                    if (!p.second || (m == &segs && age_state(s.second) == 2))
                        continue;
                    auto k = left.find(p.first->payload);
                    c.check(k != left.end(), "archive-lost",
                            "element " + show(*p.first) + " was lost by a repack that failed to archive " + conflict);
                    left.erase(k);
                }
        c.count("segments archived twice");
        finished = true;
        return;
    }
    if (c.verbose)
        c.log(rep->all());
    if (!rep->aborted_ds.count(name))
        for (auto i = segs.begin(); i != segs.end();)
        {
            auto& s = i->second;
            int age = s.has_live() ? age_state(s) : 0;
            if (!s.has_live() || age == 2)
            {
                if (age == 2)
                    ++count_deleted;
                i = segs.erase(i);
                continue;
            }
            if (s.dirty())
                s.pack();
            if (age == 1)
            {
                arch["last/" + i->first] = s;
                archives.emplace("last", 0);
                ++count_archived;
                i = segs.erase(i);
                continue;
            }
            ++i;
        }
    if (opts.offline)
        for (auto i = arch.begin(); i != arch.end(); ++i)
        {
            auto an = i->first.substr(0, i->first.find('/'));
            if (archives[an] == 0 && !rep->aborted_ds.count(name + ".archives." + an) && i->second.dirty())
                i->second.pack();
        }
}

void World::op_check()
{
    auto rep      = std::make_shared<CaptureReporter>();
    auto opts     = mkopts(rep, false);
    opts.accurate = g.flip();
    c.log("check");
    dataset()->create_checker()->check(opts);
    if (c.verbose)
        c.log(rep->all());
    c.check(!rep->manual, "check-manual", "check asks for manual intervention: " + rep->all());
    for (const auto& a : rep->acts)
        c.fail("check-acts", "check changed segment " + a.first + ": " + rep->all());
}

void World::op_convert()
{
    auto rep   = std::make_shared<CaptureReporter>();
    auto opts  = mkopts(rep, false);
    unsigned k = g.below(3);
    // Conversions rewrite all segments: take away deleted data first
    for (auto m : {&segs, &arch})
        for (const auto& s : *m)
            if (!s.second.has_live())
                return;
    auto checker = dataset()->create_checker();
    c.log(k == 0 ? "compress" : k == 1 ? "tar" : "zip");
    if (k == 0)
        checker->compress(opts, g.pick({0, 1, 2, 3, 512}));
    else if (k == 1)
        checker->tar(opts);
    else
        checker->zip(opts);
    if (c.verbose)
        c.log(rep->all());
    for (auto m : {&segs, &arch})
        for (auto& s : *m)
        {
            if (s.second.packed)
                continue;
            if (m == &arch && archives[s.first.substr(0, s.first.find('/'))])
                continue;
            bool isdir = s.second.isdir;
            if ((k == 0) == !isdir)
            {
                s.second.packed = true;
                s.second.pack();
            }
        }
}

void World::op_remove_all()
{
    auto rep  = std::make_shared<CaptureReporter>();
    auto opts = mkopts(rep, false);
    if (g.chance(1, 3))
        opts.offline = false;
    c.log(std::string("remove all") + (opts.offline ? "" : " online only"));
    dataset()->create_checker()->remove_all(opts);
    segs.clear();
    if (opts.offline)
        for (auto i = arch.begin(); i != arch.end();)
            if (archives[i->first.substr(0, i->first.find('/'))])
                ++i;
            else
                i = arch.erase(i);
}

void World::set_now(int64_t t)
{
    now = t;
    now_override.reset();
    // Model times count from year 1, the system from 1970
    now_override = std::make_unique<dataset::SessionTimeOverride>(
        dataset::SessionTime::local_override(t - civil_secs(1970, 1, 1, 0, 0, 0)));
    c.log("it is now " + secs_civil(t).to_iso8601(' '));
}

int64_t World::threshold(int age) const { return (now / 86400 - age) * 86400; }

int World::age_state(const SegModel& s) const
{
    int64_t end = 0;
    for (const auto& p : s.phys)
        end = step_span(step, p.first->t).second;
    if (delete_age != -1 && threshold(delete_age) >= end)
        return 2;
    if (archive_age != -1 && threshold(archive_age) >= end)
        return 1;
    return 0;
}

void World::op_time()
{
    switch (g.weighted({4, 2, 6, 2}))
    {
        case 3:
        {
            // Late data for a segment that was archived, accepted because of a
            // change of configuration that is then reverted
            if (arch.empty() || archive_age == -1 || delete_age != -1)
                return;
            int orig = archive_age;
            archive_age = 2000;
            cfg.set("archive age", std::to_string(archive_age));
            std::vector<ElemP> batch;
            for (const auto& a : arch)
                for (const auto& p : a.second.phys)
                    if (g.chance(1, 2))
                        batch.push_back(make_elem(p.first->items, g.below(4), p.first->format, g.bytes(1, 10)));
            if (g.flip())
                op_convert();
            if (!batch.empty())
                import(batch, "default");
            if (g.chance(1, 4))
                op_convert();
            archive_age = orig;
            cfg.set("archive age", std::to_string(archive_age));
            break;
        }
        case 0: set_now(now + g.pick({1, 2, 5, 10, 31, 60, 400}) * 86400 + g.pick({0, 3600})); break;
        case 1:
        {
            // Reconfigure
            if (archive_age != -1)
            {
                archive_age = g.pick({1, 0, 10, 100, 1000});
                cfg.set("archive age", std::to_string(archive_age));
                c.log("archive age " + std::to_string(archive_age));
            }
            if (delete_age != -1)
            {
                delete_age = g.pick({5, 2, 31, 400, 2000});
                cfg.set("delete age", std::to_string(delete_age));
                c.log("delete age " + std::to_string(delete_age));
            }
            break;
        }
        default:
        {
            // On the boundaries
            if (history.empty())
                return;
            auto e      = g.pick(history);
            auto span   = step_span(step, e->t);
            int age     = g.flip() && delete_age != -1 ? delete_age : archive_age != -1 ? archive_age : delete_age;
            int64_t day = (g.chance(2, 3) ? span.second : e->t) / 86400 + age + g.pick({0, 0, 1, -1});
            set_now(day * 86400 + g.pick({0, 1, 86399}));
        }
    }
}

void World::op_remove_old()
{
    auto rep  = std::make_shared<CaptureReporter>();
    auto opts = mkopts(rep, false);
    if (g.chance(1, 3))
        opts.offline = false;
    c.log(std::string("remove old") + (opts.offline ? "" : " online only"));
    dataset()->create_checker()->remove_old(opts);
    if (c.verbose)
        c.log(rep->all());
    for (auto i = segs.begin(); i != segs.end();)
        if (i->second.has_live() && age_state(i->second) == 2)
        {
            i = segs.erase(i);
            ++count_deleted;
        }
        else
            ++i;
}

void World::op_unarchive()
{
    std::vector<std::string> cand;
    for (const auto& a : arch)
        if (a.first.substr(0, 5) == "last/" && !segs.count(a.second.relpath) && archives["last"] == 0)
            cand.push_back(a.first);
    if (cand.empty())
        return;
    auto k = g.pick(cand);
    c.log("unarchive " + k);
    auto ck = std::dynamic_pointer_cast<dataset::segmented::Checker>(dataset()->create_checker());
    ck->segment(ck->dataset().segment_session->segment_from_relpath(arch[k].relpath))->unarchive();
    segs[arch[k].relpath] = arch[k];
    arch.erase(k);
}

/// What is documented that users can do with archives
void World::op_archives()
{
    if (arch.empty())
        return;
    auto name = g.pick(std::vector<std::string>{"2007", "old", "zz"});
    auto root = path / ".archive";
    if (!archives.count(name))
    {
        if (!archives.count("last") || archives["last"])
            return;
        c.log("archive last renamed to " + name);
        std::filesystem::rename(root / "last", root / name);
        std::map<std::string, SegModel> n;
        for (const auto& a : arch)
            n[a.first.substr(0, 5) == "last/" ? name + a.first.substr(4) : a.first] = a.second;
        arch           = n;
        archives[name] = 0;
        archives.erase("last");
        return;
    }
    if (archives[name] == 0)
    {
        c.log("archive " + name + " marked as read only");
        core::cfg::Section sc;
        sc.set("name", name);
        sc.set("type", "simple");
        sc.set("path", (root / name).native());
        sc.set("step", step);
        Summary s;
        session->dataset(sc)->create_reader()->query_summary(Matcher(), s);
        s.writeAtomically(root / (name + ".summary"));
        archives[name] = 1;
    }
    else if (archives[name] == 1)
    {
        c.log("archive " + name + " moved offline");
        std::filesystem::remove_all(root / name);
        archives[name] = 2;
        for (auto i = arch.begin(); i != arch.end();)
            if (i->first.substr(0, name.size() + 1) == name + "/")
            {
                for (const auto& p : i->second.phys)
                    if (p.second)
                        offline_elems.push_back(p.first);
                i = arch.erase(i);
            }
            else
                ++i;
    }
}

std::map<std::string, std::string> tree_snapshot(const std::filesystem::path& root)
{
    std::map<std::string, std::string> res;
    if (!std::filesystem::exists(root))
        return res;
    for (auto i = std::filesystem::recursive_directory_iterator(root); i != std::filesystem::recursive_directory_iterator(); ++i)
    {
        auto p = i->path().native().substr(root.native().size());
        if (i->is_directory())
        {
            res[p] = "dir";
            continue;
        }
        std::string content;
        int fd = ::open(i->path().c_str(), O_RDONLY);
        char buf[65536];
        ssize_t r;
        while ((r = ::read(fd, buf, sizeof buf)) > 0)
            content.append(buf, r);
        ::close(fd);
        res[p] = content;
    }
    return res;
}

std::string tree_diff(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b)
{
    for (const auto& i : a)
    {
        auto j = b.find(i.first);
        if (j == b.end())
            return i.first + " has disappeared";
        if (j->second != i.second)
            return i.first + " has changed";
    }
    for (const auto& i : b)
        if (!a.count(i.first))
            return i.first + " has been created";
    return std::string();
}

/// Make everything on disk as old as if some time had passed since it was last written
void World::op_age(time_t min_delta)
{
    time_t delta = std::max(min_delta, (time_t)g.pick({1, 2, 60, 86400}));
    if (!std::filesystem::exists(path))
        return;
    std::vector<std::filesystem::path> all{path};
    for (const auto& i : std::filesystem::recursive_directory_iterator(path))
        all.push_back(i.path());
    for (const auto& p : all)
        if (p.filename() == "MANIFEST")
        {
            dataset::simple::manifest::Writer mf(p.parent_path(), true);
            mf.reread();
            auto infos = mf.file_list();
            for (const auto& i : infos)
                mf.set_mtime(i.relpath, i.mtime - delta);
            mf.flush();
        }
    for (const auto& p : all)
    {
        struct stat st;
        if (::lstat(p.c_str(), &st) < 0)
            continue;
        struct timespec ts[2] = {st.st_atim, st.st_mtim};
        ts[0].tv_sec -= delta;
        ts[1].tv_sec -= delta;
        ::utimensat(AT_FDCWD, p.c_str(), ts, AT_SYMLINK_NOFOLLOW);
    }
    c.log(std::to_string(delta) + " seconds pass");
}

std::map<std::string, std::string> World::snapshot() const
{
    auto res = tree_snapshot(path);
    for (auto i = res.begin(); i != res.end();)
    {
        const auto& n = i->first;
        auto ends     = [&](const char* s) { return n.size() >= strlen(s) && n.compare(n.size() - strlen(s), strlen(s), s) == 0; };
        // locks, caches and sqlite working files
        if (ends("/lock") || ends(".lock") || ends("-wal") || ends("-shm") || ends("-journal") || ends("/summary") ||
            n.find("/.summaries") != std::string::npos)
            i = res.erase(i);
        else
            ++i;
    }
    return res;
}

void World::op_readonly()
{
    auto before = snapshot();
    auto rep    = std::make_shared<CaptureReporter>();
    auto opts   = mkopts(rep, true);
    auto ck     = dataset()->create_checker();
    unsigned k  = g.below(8);
    opts.accurate = g.flip();
    static const char* names[] = {"repack", "check", "remove_old", "remove_all", "tar", "zip", "compress", "state"};
    c.log(std::string("readonly ") + names[k]);
    switch (k)
    {
        case 0: ck->repack(opts); break;
        case 1: ck->check(opts); break;
        case 2: ck->remove_old(opts); break;
        case 3: ck->remove_all(opts); break;
        case 4: ck->tar(opts); break;
        case 5: ck->zip(opts); break;
        case 6: ck->compress(opts, 2); break;
        default: ck->state(opts); break;
    }
    ck.reset();
    auto after = snapshot();
    // Old manifests are converted
    if (before.count("/index.sqlite") && !after.count("/index.sqlite") && !before.count("/MANIFEST") && after.count("/MANIFEST"))
    {
        before.erase("/index.sqlite");
        after.erase("/MANIFEST");
    }
    // Opening a dataset or its archives sets up empty ones if there are none
    for (const char* n : {"/MANIFEST", "/needs-check-do-not-pack", "/.archive", "/.archive/last", "/.archive/last/MANIFEST",
                          "/.archive/last/needs-check-do-not-pack"})
    {
        auto i = after.find(n);
        if (!before.count(n) && i != after.end() && (i->second.empty() || i->second == "dir"))
            after.erase(i);
    }
    auto d = tree_diff(before, after);
    // An iseg index may be checkpointed when opened
    c.check(d.empty() || (iseg && d.find(".index has changed") != std::string::npos), "readonly",
            std::string(names[k]) + " in simulation mode: " + d);
}

std::map<std::string, segment::State> World::states(CaptureReporter& rep, bool quick)
{
    std::map<std::string, segment::State> res;
    auto ck = std::dynamic_pointer_cast<dataset::segmented::Checker>(dataset()->create_checker());
    ck->segments_all([&](dataset::segmented::CheckerSegment& s) {
        auto p = s.path_relative().native();
        c.check(!res.count(p), "state-twice", "segment " + p + " is listed twice");
        res[p] = s.fsck(rep, quick).state;
    });
    return res;
}

void World::audit_state()
{
    CaptureReporter rep;
    bool quick = g.flip();
    auto st    = states(rep, quick);
    for (const auto& s : segs)
    {
        auto i = st.find(s.first);
        c.check(i != st.end(), "state-missing", "segment " + s.first + " is not listed by the checker");
        segment::State exp;
        if (!s.second.has_live())
            exp = segment::SEGMENT_DELETED;
        else
        {
            if (s.second.dirty())
                exp = segment::SEGMENT_DIRTY;
            if (int age = age_state(s.second))
                exp += age == 1 ? segment::SEGMENT_ARCHIVE_AGE : segment::SEGMENT_DELETE_AGE;
        }
        if (!(i->second == exp))
        {
            std::stringstream ss;
            ss << "segment " << s.first << " has state " << i->second.to_string() << " instead of " << exp.to_string() << "\n"
               << rep.all();
            c.fail("state", ss.str());
        }
    }
    for (const auto& s : st)
        c.check(segs.count(s.first), "state-extra", "the checker lists segment " + s.first + " which has no data");
    c.count("states", st.size());

    // Archived segments
    if (!std::filesystem::exists(path / ".archive"))
    {
        c.check(arch.empty(), "state-archive", "the archives are gone");
        return;
    }
    auto ck   = std::dynamic_pointer_cast<dataset::segmented::Checker>(dataset()->create_checker());
    auto crep = std::make_shared<CaptureReporter>();
    auto opts = mkopts(crep, true);
    opts.online = false;
    std::set<std::string> seen;
    ck->segments_recursive(opts, [&](dataset::segmented::Checker& sc, dataset::segmented::CheckerSegment& s) {
        auto k = sc.dataset().path.filename().native() + "/" + s.path_relative().native();
        c.check(seen.insert(k).second, "state-twice", "archived segment " + k + " is listed twice");
        auto i = arch.find(k);
        c.check(i != arch.end(), "state-extra", "the checker lists archived segment " + k + " which has no data");
        auto state = s.fsck(*crep, quick).state;
        if (!state.is_ok())
            c.fail("state", "archived segment " + k + " has state " + state.to_string() + "\n" + crep->all());
    });
    for (const auto& a : arch)
        c.check(archives[a.first.substr(0, a.first.find('/'))] || seen.count(a.first), "state-missing",
                "archived segment " + a.first + " is not listed by the checker");
    c.count("archived states", seen.size());
}

} // namespace vf
