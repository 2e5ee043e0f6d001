// S01: aggregation and selection; S02: summary documents
#include "exprgen.h"
#include "gen.h"
#include "payload.h"
#include "arki/core/binary.h"
#include "arki/core/file.h"
#include "arki/matcher.h"
#include "arki/matcher/parser.h"
#include "arki/metadata/data.h"
#include "arki/stream.h"
#include "arki/structured/json.h"
#include "arki/structured/keys.h"
#include "arki/structured/memory.h"
#include "arki/summary.h"
#include "arki/summary/short.h"
#include "arki/summary/stats.h"
#include "arki/types/reftime.h"
#include "arki/types/source.h"
#include "arki/types/utils.h"
#include "arki/utils/compress.h"
#include <cstring>
#include <fcntl.h>
#include <map>

using namespace vf;
using namespace arki;
using namespace arki::types;
using arki::core::Time;

namespace {

// Order in which items are stored in a summary
const std::vector<TypeCode> MSO = {TYPE_ORIGIN,  TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA,
                                   TYPE_PRODDEF, TYPE_BBOX,    TYPE_RUN,   TYPE_QUANTITY,  TYPE_TASK};

typedef std::vector<std::vector<uint8_t>> Key; // encoded items, empty if missing

struct St
{
    uint64_t count = 0, size = 0;
    Time begin, end;
    // times known to be of single elements
    std::vector<Time> times;
    bool exact = true; // times has all of them
    void merge(const St& o)
    {
        if (!count)
        {
            *this = o;
            return;
        }
        count += o.count;
        size += o.size;
        if (civil_secs(o.begin) < civil_secs(begin)) begin = o.begin;
        if (civil_secs(o.end) > civil_secs(end)) end = o.end;
        times.insert(times.end(), o.times.begin(), o.times.end());
    }
};

struct Model
{
    std::map<Key, St> rows;
    void add(const Key& k, const St& s) { rows[k].merge(s); }
    St total() const
    {
        St r;
        for (auto& i : rows)
            r.merge(i.second);
        return r;
    }
};

std::unique_ptr<Type> dec(const std::vector<uint8_t>& b)
{
    core::BinaryDecoder d(b);
    return Type::decode(d);
}

std::string show(const Key& k)
{
    std::string r;
    for (auto& i : k)
        if (!i.empty())
            r += vf::show(*dec(i)) + "; ";
    return r;
}

std::string show(const St& s)
{
    return std::to_string(s.count) + " elements, " + std::to_string(s.size) + "b, " + s.begin.to_iso8601() + " to " +
           s.end.to_iso8601();
}

struct Reader : public summary::Visitor
{
    Model m;
    bool dup = false;
    unsigned limit = 0, seen = 0;
    bool operator()(const std::vector<const Type*>& md, const summary::Stats& st) override
    {
        Key k(MSO.size());
        for (unsigned i = 0; i < md.size(); ++i)
            if (md[i])
            {
                int pos = summary::Visitor::posForCode(md[i]->type_code());
                if (pos != (int)i || summary::Visitor::codeForPos(i) != md[i]->type_code())
                    throw Failure("position", "item " + vf::show(*md[i]) + " at position " + std::to_string(i));
                for (unsigned j = 0; j < MSO.size(); ++j)
                    if (MSO[j] == md[i]->type_code())
                        k[j] = enc(*md[i]);
            }
        if (m.rows.count(k))
            dup = true;
        St s;
        s.count = st.count;
        s.size  = st.size;
        s.begin = st.begin;
        s.end   = st.end;
        m.add(k, s);
        ++seen;
        return !limit || seen < limit;
    }
};

bool same(const St& a, const St& b)
{
    return a.count == b.count && a.size == b.size && a.begin == b.begin && a.end == b.end;
}

std::string diff(const Model& got, const Model& exp)
{
    for (auto& i : exp.rows)
    {
        auto j = got.rows.find(i.first);
        if (j == got.rows.end())
        {
            std::string r = "row [" + show(i.first) + "] is missing, there are:";
            for (auto& k : got.rows)
                if (!exp.rows.count(k.first))
                    r += " [" + show(k.first) + "]";
            return r;
        }
        if (!same(i.second, j->second))
            return "row [" + show(i.first) + "] has " + show(j->second) + " instead of " + show(i.second);
    }
    for (auto& i : got.rows)
        if (!exp.rows.count(i.first))
            return "row [" + show(i.first) + "] should not be there";
    return "";
}

struct Pools
{
    std::map<TypeCode, std::vector<std::shared_ptr<Type>>> pool;
    ItemOpts io;

    std::set<TypeCode> active;

    Pools(Gen& g, bool plain, bool bbox = true)
    {
        unsigned nactive = 1 + g.below(4);
        if (g.chance(1, 4))
            active.insert(MSO.begin(), MSO.end());
        for (unsigned i = 0; i < nactive; ++i)
            active.insert(g.pick(MSO));
        // documents do not preserve obsolete bounding boxes
        if (!bbox)
            active.erase(TYPE_BBOX);
        io.plain             = plain;
        io.ordered_timerange = true;
        for (auto code : MSO)
        {
            unsigned n = code == TYPE_BBOX ? 1 : 1 + g.below(3);
            for (unsigned i = 0; i < n; ++i)
            {
                std::shared_ptr<Type> t = gen_item(g, code, io);
                // an encoding that is preserved by documents
                if (!bbox)
                {
                    if (plain)
                    {
                        std::stringstream ss;
                        t->writeToOstream(ss);
                        t = types::decodeString(code, ss.str());
                    }
                    else
                    {
                        structured::Memory mem;
                        mem.start_mapping();
                        t->serialise_local(mem, structured::keys_json);
                        mem.end_mapping();
                        t = types::decode_structure(structured::keys_json, code, mem.root());
                    }
                }
                bool dup = false;
                for (auto& o : pool[code])
                    if (o->equals(*t))
                        dup = true;
                if (!dup)
                    pool[code].push_back(t);
            }
        }
    }

    std::pair<std::shared_ptr<Metadata>, std::pair<Key, St>> md(Gen& g)
    {
        auto res = std::make_shared<Metadata>();
        Key k(MSO.size());
        for (unsigned i = 0; i < MSO.size(); ++i)
        {
            if (!active.count(MSO[i]) || g.chance(1, 3))
                continue;
            auto t = g.pick(pool[MSO[i]]);
            res->set(*t);
            k[i] = enc(*t);
        }
        St s;
        s.count = 1;
        s.begin = s.end = g.chance(1, 6) ? gen_time(g) : gen_time_near(g);
        s.times.push_back(s.begin);
        res->test_set(Reftime::createPosition(s.begin));
        // items which are not part of summaries
        for (auto code : {TYPE_VALUE, TYPE_ASSIGNEDDATASET})
            if (g.chance(1, 8))
                res->test_set(gen_item(g, code, io));
        s.size = g.chance(1, 5) ? g.edgy(1ull << 33) : g.below(5000);
        res->set_source(Source::createBlobUnlocked(DataFormat::GRIB, "", "a.grib", 0, s.size));
        return {res, {k, s}};
    }
};

struct Slot
{
    std::unique_ptr<Summary> s{new Summary};
    Model m;
};

void audit(Case& c, const Slot& sl, const std::string& what)
{
    Reader r;
    bool full = sl.s->visit(r);
    c.check(full, "visit-result", "visit reports it was interrupted, " + what);
    c.check(!r.dup, "row-twice", "a combination of items is listed twice, " + what);
    auto d = diff(r.m, sl.m);
    c.check(d.empty(), "rows", what + ": " + d);
    auto tot = sl.m.total();
    c.eq(sl.s->count(), tot.count, "count", what);
    c.eq((uint64_t)sl.s->size(), tot.size, "size", what);
    c.eq(sl.s->empty(), sl.m.rows.empty(), "empty", what);
    if (!sl.m.rows.empty())
    {
        auto i = sl.s->get_reference_time();
        c.eq(civil_secs(i.begin), civil_secs(tot.begin), "reftime-begin", what);
        c.eq(civil_secs(i.end), civil_secs(tot.end) + 1, "reftime-end", what + " (end excluded)");
    }
}

bool match_row(const MExpr& e, const Key& k)
{
    for (auto& p : e.parts)
    {
        if (p.first == TYPE_REFTIME)
            continue;
        unsigned i = 0;
        while (i < MSO.size() && MSO[i] != p.first)
            ++i;
        if (i == MSO.size() || k[i].empty())
            return false;
        if (!p.second.match(*dec(k[i])))
            return false;
    }
    return true;
}

} // namespace

PROPERTY("S01", "aggregate", 3, "a row aggregates at least two additions, and a selection keeps only some rows")
{
    auto& g = c.g;
    Pools p(g, false);
    std::vector<Slot> slots(3);
    std::vector<std::shared_ptr<Metadata>> mds;
    bool merged = false, partial = false;
    unsigned nops = 4 + g.below(c.thorough ? 50 : 30);
    for (unsigned op = 0; op < nops; ++op)
    {
        auto& sl = slots[g.below(slots.size())];
        std::string what;
        switch (g.weighted({8, 3, 4, 3, 4, 1, 2, 1}))
        {
            case 0: {
                auto x = p.md(g);
                mds.push_back(x.first);
                merged = merged || sl.m.rows.count(x.second.first);
                sl.s->add(*x.first);
                sl.m.add(x.second.first, x.second.second);
                what = "add " + vf::show(*x.first);
                break;
            }
            case 1: {
                auto x = p.md(g);
                mds.push_back(x.first);
                summary::Stats st;
                St s;
                s.count  = 1 + g.edgy(1u << 30);
                s.size   = g.edgy(1ull << 40);
                s.begin  = gen_time_near(g);
                s.end    = gen_time_near(g);
                if (civil_secs(s.end) < civil_secs(s.begin))
                    std::swap(s.begin, s.end);
                s.times.push_back(s.begin);
                s.times.push_back(s.end);
                st.count = s.count;
                st.size  = s.size;
                st.begin = s.begin;
                st.end   = s.end;
                merged = merged || sl.m.rows.count(x.second.first);
                sl.s->add(*x.first, st);
                sl.m.add(x.second.first, s);
                what = "add " + show(s) + " to " + show(x.second.first);
                break;
            }
            case 2: {
                // merge another summary
                auto& o = slots[g.below(slots.size())];
                if (&o == &sl)
                    continue;
                if (sl.m.total().count + o.m.total().count > 0xffffffffu)
                    continue;
                sl.s->add(*o.s);
                for (auto& i : o.m.rows)
                    sl.m.add(i.first, i.second);
                what = "merge";
                break;
            }
            case 3: {
                auto& o = slots[g.below(slots.size())];
                if (&o == &sl)
                    continue;
                if (sl.m.total().count + o.m.total().count > 0xffffffffu)
                    continue;
                std::set<TypeCode> keep;
                for (auto code : MSO)
                    if (g.flip())
                        keep.insert(code);
                if (g.chance(1, 4))
                    keep.insert(TYPE_REFTIME);
                sl.s->add(*o.s, keep);
                for (auto& i : o.m.rows)
                {
                    Key k = i.first;
                    for (unsigned j = 0; j < MSO.size(); ++j)
                        if (!keep.count(MSO[j]))
                            k[j].clear();
                    sl.m.add(k, i.second);
                }
                what = "merge pruning";
                break;
            }
            case 4: {
                // select
                auto& o = slots[g.below(slots.size())];
                if (&o == &sl || mds.empty() || o.m.rows.empty())
                    continue;
                auto e           = gen_expr(g, mds, p.io, false, 2);
                std::string text = e.text(&g);
                Time lo, hi;
                bool has_lo = g.chance(1, 4), has_hi = g.chance(1, 4);
                if (has_lo)
                {
                    lo = g.flip() ? g.pick(mds)->get<Reftime>()->get_Position() : gen_time_near(g);
                    text += std::string(text.empty() ? "" : "; ") + "reftime:>=" + lo.to_iso8601(' ');
                }
                if (has_hi)
                {
                    hi = g.flip() ? g.pick(mds)->get<Reftime>()->get_Position() : gen_time_near(g);
                    text += std::string(has_lo ? "," : text.empty() ? "reftime:" : "; reftime:") + "<" + hi.to_iso8601(' ');
                }
                matcher::Parser parser;
                Matcher m;
                try {
                    m = parser.parse(text);
                } catch (std::exception& ex) {
                    // empty interval
                    throw Discard();
                }
                what = "select " + text;
                c.log(what);
                Model sel;
                for (auto& i : o.m.rows)
                {
                    if (!match_row(e, i.first))
                        continue;
                    if (has_lo && civil_secs(i.second.end) < civil_secs(lo))
                        continue;
                    if (has_hi && civil_secs(i.second.begin) >= civil_secs(hi))
                        continue;
                    sel.add(i.first, i.second);
                }
                if (has_lo && has_hi && civil_secs(lo) >= civil_secs(hi))
                    throw Discard();
                partial = partial || (!sel.rows.empty() && sel.rows.size() < o.m.rows.size());
                Reader r;
                o.s->visitFiltered(m, r);
                auto d = diff(r.m, sel);
                c.check(d.empty(), "visit-filtered", what + ": " + d);
                c.eq(o.s->match(m), !sel.rows.empty(), "match", what);
                if (sl.m.total().count + sel.total().count > 0xffffffffu)
                    continue;
                o.s->filter(m, *sl.s);
                for (auto& i : sel.rows)
                    sl.m.add(i.first, i.second);
                if (!sel.rows.empty())
                    c.count("selections");
                break;
            }
            case 5:
                sl.s->clear();
                sl.m.rows.clear();
                what = "clear";
                break;
            case 6: {
                // read a summary on top of what is there
                auto& o   = slots[g.below(slots.size())];
                if (&o != &sl && sl.m.total().count + o.m.total().count > 0xffffffffu)
                    continue;
                if (o.m.total().count > 0xffffffffu)
                    continue;
                Model add = o.m;
                if (&o == &sl && 2 * sl.m.total().count > 0xffffffffu)
                    continue;
                auto buf = o.s->encode(g.flip());
                core::BinaryDecoder d(buf);
                c.check(sl.s->read(d, "test"), "read", "read returned false");
                for (auto& i : add.rows)
                    sl.m.add(i.first, i.second);
                what = "read over";
                break;
            }
            default: {
                // interrupted visits
                Reader r;
                r.limit = 1 + g.below(3);
                bool full = sl.s->visit(r);
                // Refusing the last row also interrupts the visit
                c.eq(r.seen, std::min<size_t>(r.limit, sl.m.rows.size()), "visit-stop", "rows visited");
                c.eq(full, sl.m.rows.size() < r.limit, "visit-stop-result", "result of interrupted visit");
                what = "visit";
            }
        }
        c.log(what);
        c.mix(what);
        if (g.flip())
            audit(c, sl, "after " + what);
    }
    for (auto& sl : slots)
    {
        audit(c, sl, "at the end");
        // Short summary
        summary::Short sh;
        sl.s->visit(sh);
        std::map<TypeCode, std::set<std::vector<uint8_t>>> exp, got;
        for (auto& i : sl.m.rows)
            for (unsigned j = 0; j < MSO.size(); ++j)
                if (!i.first[j].empty())
                    exp[MSO[j]].insert(i.first[j]);
        for (auto& i : sh.items)
            for (auto& t : i.second)
                got[i.first].insert(enc(*t));
        c.check(exp == got, "short-items", "items of the short summary differ");
        auto tot = sl.m.total();
        c.eq(sh.stats.count, tot.count, "short-count", "count");
        c.eq(sh.stats.size, tot.size, "short-size", "size");
        if (tot.count)
        {
            c.eq(civil_secs(sh.stats.begin), civil_secs(tot.begin), "short-begin", "begin");
            c.eq(civil_secs(sh.stats.end), civil_secs(tot.end), "short-end", "end");
        }
    }
    for (unsigned i = 0; i < slots.size(); ++i)
        for (unsigned j = 0; j < slots.size(); ++j)
        {
            bool eq = diff(slots[i].m, slots[j].m).empty();
            c.eq(*slots[i].s == *slots[j].s, eq, "equal", "comparison of summaries");
            c.eq(*slots[i].s != *slots[j].s, !eq, "different", "comparison of summaries");
        }
    // Twins: the order of additions does not matter, any difference does
    if (!slots[0].m.rows.empty())
    {
        unsigned target = g.below(slots[0].m.rows.size()), what = g.below(6);
        for (bool change : {false, true})
        {
            Summary twin;
            std::vector<std::pair<Key, St>> rows(slots[0].m.rows.begin(), slots[0].m.rows.end());
            if (change)
            {
                auto& st = rows[target].second;
                switch (what)
                {
                    case 0: st.count += 1; break;
                    case 1: st.size += 1; break;
                    case 2: st.size += 1ull << 32; break;
                    case 3: st.begin.se = st.begin.se ? st.begin.se - 1 : 0; st.begin.ye -= 1; break;
                    case 4: st.end.ye += 1; break;
                    default: st.size += (1 + g.below(3)) << 31; break;
                }
            }
            g.shuffle(rows);
            for (auto& r : rows)
            {
                Metadata md;
                for (auto& i : r.first)
                    if (!i.empty())
                        md.test_set(dec(i));
                summary::Stats st;
                st.count = r.second.count;
                st.size  = r.second.size;
                st.begin = r.second.begin;
                st.end   = r.second.end;
                twin.add(md, st);
            }
            c.eq(twin == *slots[0].s, !change, "twin", "comparison of summaries, change " + std::to_string(change ? (int)what : -1));
            c.eq(*slots[0].s == twin, !change, "twin", "comparison of summaries, change " + std::to_string(change ? (int)what : -1));
        }
    }
    if (merged && partial)
        c.mark();
}

namespace {

void put(std::vector<uint8_t>& out, uint64_t v, unsigned n)
{
    for (unsigned i = 0; i < n; ++i)
        out.push_back(v >> (8 * (n - 1 - i)));
}
void varint(std::vector<uint8_t>& out, uint64_t v)
{
    while (v > 0x7f)
    {
        out.push_back((v & 0x7f) | 0x80);
        v >>= 7;
    }
    out.push_back(v);
}
void put_time(std::vector<uint8_t>& out, const Time& t)
{
    uint64_t v = ((uint64_t)t.ye << 26) | ((uint64_t)t.mo << 22) | ((uint64_t)t.da << 17) | ((uint64_t)t.ho << 12) |
                 ((uint64_t)t.mi << 6) | t.se;
    put(out, v, 5);
}
uint64_t get_varint(const std::vector<uint8_t>& b, size_t& pos)
{
    uint64_t r = 0;
    for (unsigned sh = 0;; sh += 7)
    {
        r |= (uint64_t)(b.at(pos) & 0x7f) << sh;
        if (!(b.at(pos++) & 0x80))
            return r;
    }
}
uint64_t get(const std::vector<uint8_t>& b, size_t& pos, unsigned n)
{
    uint64_t r = 0;
    while (n--)
        r = r << 8 | b.at(pos++);
    return r;
}

std::vector<uint8_t> ref_stats(Gen& g, const St& s)
{
    std::vector<uint8_t> r;
    put(r, s.count, 4);
    bool position = s.begin == s.end && g.flip();
    varint(r, TYPE_REFTIME);
    varint(r, position ? 6 : 11);
    r.push_back(position ? 1 : 2);
    put_time(r, s.begin);
    if (!position)
        put_time(r, s.end);
    put(r, s.size, 8);
    return r;
}

/// Item without its envelope, as found in old summaries
std::vector<uint8_t> body(const std::vector<uint8_t>& e)
{
    size_t pos = 0;
    get_varint(e, pos);
    uint64_t len = get_varint(e, pos);
    if (e.size() != pos + len)
        throw Failure("harness", "cannot parse item");
    return std::vector<uint8_t>(e.begin() + pos, e.end());
}

void ref_v1(Gen& g, std::vector<uint8_t>& out, const std::vector<std::pair<Key, St>>& rows, size_t b, size_t e, unsigned pos,
            const std::vector<unsigned>& lens)
{
    // A stripe of items common to all rows from b to e
    unsigned common = pos;
    while (common < MSO.size())
    {
        bool same = true;
        for (size_t i = b + 1; i < e; ++i)
            if (rows[i].first[common] != rows[b].first[common])
                same = false;
        if (!same)
            break;
        ++common;
    }
    if (e - b > 1 && common > pos && g.flip())
        common = pos + g.below(common - pos + 1);
    unsigned stripe = common;
    // trailing missing items can be left out of leaves
    if (e - b == 1 && g.flip())
        while (stripe > pos && rows[b].first[stripe - 1].empty())
            --stripe;
    put(out, stripe - pos, 2);
    for (unsigned i = pos; i < stripe; ++i)
    {
        auto& item = rows[b].first[i];
        if (item.empty())
        {
            put(out, 0, lens[i]);
            continue;
        }
        auto bd = body(item);
        put(out, bd.size(), lens[i]);
        out.insert(out.end(), bd.begin(), bd.end());
    }
    if (e - b == 1)
    {
        put(out, 0, 2);
        auto st = ref_stats(g, rows[b].second);
        put(out, st.size(), 2);
        out.insert(out.end(), st.begin(), st.end());
        return;
    }
    // Children grouped by the next item
    std::vector<size_t> bounds = {b};
    for (size_t i = b + 1; i < e; ++i)
        if (common >= MSO.size() || rows[i].first[common] != rows[i - 1].first[common])
            bounds.push_back(i);
    bounds.push_back(e);
    if (bounds.size() == 2)
    {
        // a single group: use one child per row
        bounds.clear();
        for (size_t i = b; i <= e; ++i)
            bounds.push_back(i);
    }
    put(out, bounds.size() - 1, 2);
    for (size_t i = 0; i + 1 < bounds.size(); ++i)
        ref_v1(g, out, rows, bounds[i], bounds[i + 1], common, lens);
}

struct Shorts : public core::AbstractInputFile
{
    Gen& g;
    const std::vector<uint8_t>& buf;
    size_t pos = 0;
    Shorts(Gen& g, const std::vector<uint8_t>& buf) : g(g), buf(buf) {}
    std::filesystem::path path() const override { return "test"; }
    size_t read(void* dest, size_t size) override
    {
        size_t n = std::min(size, buf.size() - pos);
        if (n > 1 && g.flip())
            n = 1 + g.below(n);
        memcpy(dest, buf.data() + pos, n);
        pos += n;
        return n;
    }
};

Slot gen_slot(Gen& g, Pools& p, unsigned maxrows)
{
    Slot res;
    unsigned n = g.chance(1, 12) ? 0 : 1 + g.below(maxrows);
    for (unsigned i = 0; i < n; ++i)
    {
        auto x = p.md(g);
        St s = x.second.second;
        if (g.chance(1, 3))
        {
            s.count = 1 + g.edgy(10000000); // the encoded totals of 400 rows fit in 32 bits
            s.size  = g.edgy(1ull << 50);
            s.begin = gen_time_near(g);
            s.end   = gen_time_near(g);
            if (civil_secs(s.end) < civil_secs(s.begin))
                std::swap(s.begin, s.end);
        }
        summary::Stats st;
        st.count = s.count;
        st.size  = s.size;
        st.begin = s.begin;
        st.end   = s.end;
        res.s->add(*x.first, st);
        res.m.add(x.second.first, s);
    }
    return res;
}

void compare(Case& c, const Summary& s, const Slot& sl, const std::string& what)
{
    Reader r;
    s.visit(r);
    auto d = diff(r.m, sl.m);
    c.check(d.empty(), what, what + ": " + d);
    auto tot = sl.m.total();
    c.eq(s.count(), tot.count, what + "-count", "count");
    c.eq((uint64_t)s.size(), tot.size, what + "-size", "size");
    c.check(s == *sl.s, what + "-equal", "summaries read back compares as different");
}

} // namespace

PROPERTY("S02", "binary", 3, "at least two rows that share some items")
{
    auto& g = c.g;
    Pools p(g, false);
    unsigned nrows = c.thorough ? 60 : 12;
    if (g.chance(1, 15))
        nrows = 400;
    Slot sl = gen_slot(g, p, nrows);
    for (auto& r : sl.m.rows)
        c.mix(show(r.first) + show(r.second));
    c.log(sl.s->to_yaml());
    if (sl.m.rows.size() > 1)
        c.mark();
    bool lzo = g.flip();
    auto buf = sl.s->encode(lzo);
    // Layout of what is written
    c.check(buf.size() >= 9 && buf[0] == 'S' && buf[1] == 'U' && buf[2] == 0 && buf[3] == 3, "header", "bad header");
    {
        size_t pos = 4;
        c.eq(get(buf, pos, 4), (uint64_t)buf.size() - 8, "header-size", "size in header");
        unsigned comp = get(buf, pos, 1);
        std::vector<uint8_t> inner(buf.begin() + pos, buf.end());
        if (comp == 1)
        {
            c.check(lzo, "compressed", "compressed without being asked");
            size_t u = get(buf, pos, 4);
            inner = utils::compress::unlzo(buf.data() + pos, buf.size() - pos, u);
            c.count("compressed");
        }
        else
            c.eq(comp, 0u, "compression", "compression type");
        // reference decoder
        Model m;
        Key cur(MSO.size());
        for (size_t i = 0; i < inner.size();)
        {
            auto posof = [&](uint64_t code) {
                for (unsigned j = 0; j < MSO.size(); ++j)
                    if ((uint64_t)MSO[j] == code)
                        return j;
                c.fail("layout-code", "unexpected item code " + std::to_string(code));
            };
            for (uint64_t n = get_varint(inner, i); n; --n)
                cur[posof(get_varint(inner, i))].clear();
            for (uint64_t n = get_varint(inner, i); n; --n)
            {
                size_t start = i;
                unsigned j   = posof(get_varint(inner, i));
                uint64_t len = get_varint(inner, i);
                i += len;
                cur[j].assign(inner.begin() + start, inner.begin() + i);
            }
            c.eq(get_varint(inner, i), (uint64_t)TYPE_SUMMARYSTATS, "layout-stats", "type of statistics");
            uint64_t len = get_varint(inner, i);
            size_t end   = i + len;
            St s;
            s.count = get(inner, i, 4);
            c.eq(get_varint(inner, i), (uint64_t)TYPE_REFTIME, "layout-reftime", "type of reftime");
            c.eq(get_varint(inner, i), (uint64_t)11, "layout-reftime", "size of reftime");
            c.eq(get(inner, i, 1), (uint64_t)2, "layout-reftime", "style of reftime");
            auto time = [&] {
                uint64_t v = get(inner, i, 5);
                return Time(v >> 26, v >> 22 & 15, v >> 17 & 31, v >> 12 & 31, v >> 6 & 63, v & 63);
            };
            s.begin = time();
            s.end   = time();
            s.size  = get(inner, i, 8);
            c.eq(i, end, "layout-size", "size of statistics");
            m.add(cur, s);
        }
        auto d = diff(m, sl.m);
        c.check(d.empty(), "layout", "written summary: " + d);
    }
    // Read it back, followed by something else
    auto read_check = [&](std::vector<uint8_t> b, const std::string& what) {
        size_t pad = g.chance(1, 6) ? 1 + g.below(4) : 0;
        unsigned copies = g.chance(1, 6) ? 2 : 1;
        std::vector<uint8_t> stream;
        for (unsigned i = 0; i < copies; ++i)
        {
            stream.insert(stream.end(), pad, 0);
            stream.insert(stream.end(), b.begin(), b.end());
        }
        unsigned how = g.below(3);
        if (how == 0)
        {
            core::BinaryDecoder d(b);
            Summary s;
            c.check(s.read(d, "test"), what + "-mem", "read returned false");
            c.eq(d.size, (size_t)0, what + "-left", "bytes left in the buffer");
            compare(c, s, sl, what + "-mem");
        }
        else if (how == 1)
        {
            Shorts in(g, stream);
            for (unsigned i = 0; i < copies; ++i)
            {
                Summary s;
                c.check(s.read(in), what + "-short-reads", "read returned false");
                compare(c, s, sl, what + "-short-reads");
            }
            Summary s;
            c.check(!s.read(in), what + "-eof", "read after the end of file returned true");
        }
        else
        {
            auto f = c.newdir() / "sum";
            {
                core::File out(f, O_WRONLY | O_CREAT | O_TRUNC, 0666);
                out.write_all_or_throw(stream.data(), stream.size());
            }
            core::File in(f, O_RDONLY);
            for (unsigned i = 0; i < copies; ++i)
            {
                Summary s;
                c.check(s.read(in), what + "-file", "read returned false");
                compare(c, s, sl, what + "-file");
            }
            Summary s;
            c.check(!s.read(in), what + "-eof", "read after the end of file returned true");
            Summary s1;
            s1.read_file(f);
            compare(c, s1, sl, what + "-read-file");
        }
    };
    read_check(buf, "current");
    // Writers
    {
        std::vector<uint8_t> mem;
        auto so = StreamOutput::create(mem);
        sl.s->write(*so);
        c.check(mem == sl.s->encode(true), "write-stream", "bytes sent to a stream");
        auto f = c.newdir() / "sum";
        if (g.flip())
            sl.s->writeAtomically(f);
        else
        {
            core::File out(f, O_WRONLY | O_CREAT | O_TRUNC, 0666);
            sl.s->write(out);
        }
        Summary s;
        s.read_file(f);
        compare(c, s, sl, "write-file");
    }
    // Older versions
    {
        std::vector<unsigned> lens;
        bool fits = !sl.m.rows.empty();
        for (auto code : MSO)
            lens.push_back(types::MetadataType::get(code)->serialisationSizeLen);
        for (auto& r : sl.m.rows)
            for (unsigned i = 0; i < MSO.size(); ++i)
                if (!r.first[i].empty() && body(r.first[i]).size() >= (1ull << (8 * lens[i])))
                    fits = false;
        if (fits)
        {
            std::vector<std::pair<Key, St>> rows(sl.m.rows.begin(), sl.m.rows.end());
            std::vector<uint8_t> v1;
            ref_v1(g, v1, rows, 0, rows.size(), 0, lens);
            std::vector<uint8_t> out = {'S', 'U', 0, 1};
            std::vector<uint8_t> comp;
            if (!v1.empty() && g.flip())
                comp = utils::compress::lzo(v1.data(), v1.size());
            if (!comp.empty() && comp.size() < v1.size())
            {
                out[3] = 2;
                put(out, comp.size() + 4, 4);
                put(out, v1.size(), 4);
                out.insert(out.end(), comp.begin(), comp.end());
            }
            else
            {
                put(out, v1.size(), 4);
                out.insert(out.end(), v1.begin(), v1.end());
            }
            c.count("older versions");
            read_check(out, "version-" + std::to_string(out[3]));
        }
    }
}

PROPERTY("S02", "documents", 2, "at least two rows that share some items")
{
    auto& g = c.g;
    bool yaml = g.flip();
    Pools p(g, yaml, false);
    Slot sl = gen_slot(g, p, 10);
    for (auto& r : sl.m.rows)
        c.mix(show(r.first) + show(r.second));
    if (sl.m.rows.size() > 1)
        c.mark();
    std::string y = sl.s->to_yaml();
    c.log(y);
    if (yaml)
    {
        auto in = core::LineReader::from_chars(y.data(), y.size());
        Summary s;
        s.readYaml(*in, "test");
        compare(c, s, sl, "yaml");
        // text of the statistics
        for (auto& r : sl.m.rows)
        {
            std::string e = "  Count: " + std::to_string(r.second.count) + "\n  Size: " + std::to_string(r.second.size) +
                            "\n  Reftime: " + r.second.begin.to_iso8601() + " to " + r.second.end.to_iso8601() + "\n";
            c.check(y.find(e) != std::string::npos, "yaml-stats", "statistics not found in YAML: " + e);
        }
    }
    else
    {
        std::stringstream out;
        structured::JSON json(out);
        sl.s->serialise(json, structured::keys_json);
        structured::Memory parsed;
        structured::JSON::parse(out.str(), parsed);
        Summary s;
        s.read(structured::keys_json, parsed.root());
        compare(c, s, sl, "json");
        structured::Memory mem;
        sl.s->serialise(mem, structured::keys_json);
        Summary s1;
        s1.read(structured::keys_json, mem.root());
        compare(c, s1, sl, "structured");
        // short form
        summary::Short sh;
        sl.s->visit(sh);
        std::stringstream out2;
        structured::JSON json2(out2);
        sh.serialise(json2, structured::keys_json);
        structured::Memory p2;
        structured::JSON::parse(out2.str(), p2);
        std::map<TypeCode, std::set<std::vector<uint8_t>>> exp;
        for (auto& i : sl.m.rows)
            for (unsigned j = 0; j < MSO.size(); ++j)
                if (!i.first[j].empty())
                    exp[MSO[j]].insert(i.first[j]);
        auto tot = sl.m.total();
        p2.root().sub("items", "items", [&](const structured::Reader& items) {
            items.sub("summarystats", "stats", [&](const structured::Reader& st) {
                c.eq((uint64_t)st.as_int("c", "count"), tot.count, "short-json-count", "count");
                c.eq((uint64_t)st.as_int("s", "size"), tot.size, "short-json-size", "size");
                if (tot.count)
                {
                    c.check(st.as_time("b", "begin") == tot.begin, "short-json-begin", "begin");
                    c.check(st.as_time("e", "end") == tot.end, "short-json-end", "end");
                }
            });
            for (auto code : MSO)
            {
                auto tag = types::tag(code);
                std::set<std::vector<uint8_t>> got;
                if (items.has_key(tag, structured::NodeType::LIST))
                    items.sub(tag, "list", [&](const structured::Reader& l) {
                        unsigned n = l.list_size("items");
                        for (unsigned i = 0; i < n; ++i)
                            l.sub(i, "item", [&](const structured::Reader& it) {
                                got.insert(enc(*types::decode_structure(structured::keys_json, code, it)));
                            });
                    });
                c.check(got == exp[code], "short-json-items", "items of type " + tag + " in the short summary");
            }
        });
    }
}
