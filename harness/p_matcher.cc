#include "arki/core/binary.h"
#include "arki/core/cfg.h"
#include "arki/core/time.h"
#include "arki/matcher.h"
#include "arki/matcher/parser.h"
#include "arki/matcher/reftime/parser.h"
#include "arki/matcher/utils.h"
#include "arki/types/itemset.h"
#include "arki/types/reftime.h"
#include "exprgen.h"
#include <algorithm>
#include <sqlite3.h>

using namespace vf;
using namespace arki;
using arki::core::Interval;
using arki::core::Time;
using arki::types::Type;

namespace {

std::vector<std::shared_ptr<Metadata>> gen_pool(Gen& g, const ItemOpts& o, unsigned maxn)
{
    std::vector<std::shared_ptr<Metadata>> pool;
    unsigned n = 1 + g.below(maxn);
    for (unsigned i = 0; i < n; ++i)
        pool.push_back(gen_md(g, o, true));
    return pool;
}

ItemOpts gen_opts(Gen& g)
{
    ItemOpts o;
    o.small = g.chance(3, 4);
    o.plain = g.chance(3, 4);
    o.ordered_timerange = true;
    return o;
}

Matcher parse(Case& c, const std::string& text, const char* what, const matcher::Parser* parser = nullptr)
{
    static matcher::Parser plain;
    try
    {
        return (parser ? parser : &plain)->parse(text);
    }
    catch (std::exception& e)
    {
        c.fail("parse", std::string(what) + ": [" + text + "]: " + e.what());
    }
}

std::string expl(const std::string& expr, const Metadata& md) { return "expression [" + expr + "] metadata " + show(md); }

} // namespace

PROPERTY("Q01", "match", 4, "some metadata match and some do not, with an expression on at least one type")
{
    ItemOpts o = gen_opts(c.g);
    auto pool  = gen_pool(c.g, o, 5);
    MExpr e    = gen_expr(c.g, pool, o, true, 4);
    std::string text = e.text(&c.g);
    c.log("expr " + text);
    c.mix(text);
    Matcher m = parse(c, text, "expression");
    c.eq(m.empty(), e.parts.empty(), "match", "empty() of [" + text + "]");
    unsigned yes = 0, no = 0;
    for (auto& md : pool)
    {
        bool want = e.match(*md);
        (want ? yes : no) += 1;
        c.mix(want);
        c.eq(m(*md), want, "match", expl(text, *md));
        types::ItemSet is;
        for (auto code : ALL_CODES)
            if (const Type* t = md->get(code))
                is.set(*t);
        c.eq(m(is), want, "match-itemset", expl(text, *md));
        // A metadata read back from its encoded form
        for (auto code : ALL_CODES)
        {
            const Type* t = md->get(code);
            if (!t)
                continue;
            auto p     = e.parts.find(code);
            bool iwant = p == e.parts.end() ? true : p->second.match(*t);
            c.eq(m(*t), iwant, "match-item", "expression [" + text + "] item " + show(*t));
            std::vector<uint8_t> buf;
            {
                core::BinaryEncoder benc(buf);
                t->encodeWithoutEnvelope(benc);
            }
            c.eq(m(code, buf.data(), buf.size()), iwant, "match-buffer", "expression [" + text + "] item " + show(*t));
        }
    }
    if (!e.parts.empty() && (yes && (no || pool.size() == 1)))
        c.mark();
    c.count("matched", yes);
    c.count("not matched", no);
}

PROPERTY("Q01", "item", 3, "the item matches at least one alternative")
{
    // Many items against one expression on their type
    ItemOpts o    = gen_opts(c.g);
    TypeCode code = c.g.chance(1, 6) ? TYPE_REFTIME : c.g.pick(MATCHER_CODES);
    auto item     = gen_item(c.g, code, o);
    MOr mo;
    unsigned n = 1 + c.g.below(3);
    for (unsigned i = 0; i < n; ++i)
        mo.alts.push_back(gen_alt(c.g, code, i == 0 || c.g.flip() ? item.get() : nullptr, o));
    std::string text = std::string(tag_of(code)) + ":" + mo.text(&c.g);
    c.log(text);
    c.mix(text);
    Matcher m = parse(c, text, "expression");
    bool any  = false;
    for (unsigned i = 0; i < 4; ++i)
    {
        std::unique_ptr<Type> other;
        const Type* t = item.get();
        if (i)
        {
            other = gen_item(c.g, code, o);
            t     = other.get();
        }
        bool want = mo.match(*t);
        any |= want;
        c.mix(want);
        c.eq(m(*t), want, "match-item", "expression [" + text + "] item " + show(*t));
        std::vector<uint8_t> buf;
        {
            core::BinaryEncoder benc(buf);
            t->encodeWithoutEnvelope(benc);
        }
        c.eq(m(code, buf.data(), buf.size()), want, "match-buffer", "expression [" + text + "] item " + show(*t));
        // Through the textual forms too
        Matcher m1 = parse(c, m.toString(), "toString");
        c.eq(m1(*t), want, "toString", "expression [" + text + "] reparsed [" + m.toString() + "] item " + show(*t));
        Matcher m2 = parse(c, m.toStringExpanded(), "toStringExpanded");
        c.eq(m2(*t), want, "toStringExpanded", "expression [" + text + "] reparsed [" + m.toStringExpanded() + "] item " + show(*t));
    }
    if (any)
        c.mark();
}

PROPERTY("Q02", "forms", 3, "two expressions sharing a type, at least one decision true")
{
    ItemOpts o = gen_opts(c.g);
    auto pool  = gen_pool(c.g, o, 4);
    MExpr e1   = gen_expr(c.g, pool, o, true, 4);
    MExpr e2   = gen_expr(c.g, pool, o, true, 4);
    if (c.g.flip())
    {
        // Share types
        for (auto& p : e1.parts)
            if (c.g.flip())
            {
                MOr mo;
                const Type* hint = pool[c.g.below(pool.size())]->get(p.first);
                mo.alts.push_back(gen_alt(c.g, p.first, hint, o));
                e2.parts[p.first] = mo;
            }
    }
    std::string t1 = e1.text(&c.g), t2 = e2.text(&c.g);
    c.log("e1 " + t1);
    c.log("e2 " + t2);
    c.mix(t1);
    c.mix(t2);
    Matcher m1 = parse(c, t1, "expression"), m2 = parse(c, t2, "expression");

    // Reference for merge: types in both, either
    auto match_merge = [&](const Metadata& md) {
        for (auto& p : e1.parts)
        {
            auto q = e2.parts.find(p.first);
            if (q == e2.parts.end())
                continue;
            const Type* t = md.get(p.first);
            if (!t || (!p.second.match(*t) && !q->second.match(*t)))
                return false;
        }
        return true;
    };
    // Reference for update: those of the second where present
    MExpr upd = e1;
    for (auto& p : e2.parts)
        upd.parts[p.first] = p.second;

    Matcher merged  = m1.merge(m2);
    Matcher updated = m1.update(m2);

    // Split
    std::set<TypeCode> codes;
    MExpr with, without;
    for (auto code : MATCHER_CODES)
        if (c.g.flip())
            codes.insert(code);
    if (c.g.flip())
        codes.insert(TYPE_REFTIME);
    for (auto& p : e1.parts)
        (codes.count(p.first) ? with : without).parts[p.first] = p.second;
    Matcher mwith, mwithout;
    if (!m1.empty())
        m1.split(codes, mwith, mwithout);

    bool shared = false, any = false;
    for (auto& p : e1.parts)
        if (e2.parts.count(p.first))
            shared = true;

    auto forms = [&](const Matcher& m, const char* name) {
        std::vector<std::pair<std::string, Matcher>> res;
        res.emplace_back(std::string(name), m);
        res.emplace_back(std::string(name) + " toString", parse(c, m.toString(), name));
        res.emplace_back(std::string(name) + " toStringExpanded", parse(c, m.toStringExpanded(), name));
        return res;
    };
    auto f1 = forms(m1, "plain"), fm = forms(merged, "merge"), fu = forms(updated, "update"), fw = forms(mwith, "split with"),
         fo = forms(mwithout, "split without");
    for (unsigned i = 0; i < pool.size() + 3; ++i)
    {
        auto md   = i < pool.size() ? pool[i] : gen_md(c.g, o, true);
        auto test = [&](const std::vector<std::pair<std::string, Matcher>>& fs, bool want) {
            any |= want;
            c.mix(want);
            for (auto& f : fs)
                c.eq(f.second(*md), want, f.first,
                     "e1 [" + t1 + "] e2 [" + t2 + "] result [" + f.second.toString() + "] metadata " + show(*md));
        };
        test(f1, e1.match(*md));
        test(fm, match_merge(*md));
        test(fu, upd.match(*md));
        test(fw, with.match(*md));
        test(fo, without.match(*md));
    }
    // An empty matcher matches everything
    for (auto& md : pool)
        c.check(Matcher()(*md) && parse(c, c.g.pick<std::string>({"", " ", ";", "\n"}), "empty")(*md), "empty", "empty matcher does not match " + show(*md));
    if (shared && any)
        c.mark();
}

PROPERTY("Q02", "aliases", 2, "an expression that uses an alias which refers to another alias")
{
    ItemOpts o = gen_opts(c.g);
    auto pool  = gen_pool(c.g, o, 3);
    struct Alias
    {
        std::string name;
        std::string text;
        MOr value;
        bool nested = false;
    };
    std::map<TypeCode, std::vector<Alias>> aliases;
    std::vector<TypeCode> codes;
    unsigned ntypes = 1 + c.g.below(3);
    for (unsigned i = 0; i < ntypes; ++i)
    {
        TypeCode code = c.g.chance(1, 6) ? TYPE_REFTIME : c.g.pick(MATCHER_CODES);
        // task and quantity accept any text, aliases to aliases may be read as values
        if (aliases.count(code))
            continue;
        auto& as = aliases[code];
        codes.push_back(code);
        unsigned n = 1 + c.g.below(4);
        for (unsigned j = 0; j < n; ++j)
        {
            Alias a;
            a.name       = "al" + std::string(1, "zyxabc"[c.g.below(6)]) + std::to_string(j);
            unsigned nt  = 1 + c.g.below(3);
            for (unsigned k = 0; k < nt; ++k)
            {
                if (!a.text.empty())
                    a.text += " or ";
                if (!as.empty() && c.g.chance(1, 3) && code != TYPE_TASK && code != TYPE_QUANTITY)
                {
                    auto& ref = as[c.g.below(as.size())];
                    a.text += ref.name;
                    a.nested = true;
                    for (auto& v : ref.value.alts)
                        a.value.alts.push_back(v);
                }
                else
                {
                    const Type* hint = pool[c.g.below(pool.size())]->get(code);
                    auto alt         = gen_alt(c.g, code, hint, o);
                    a.text += alt.text;
                    a.value.alts.push_back(alt);
                }
            }
            as.push_back(a);
        }
    }
    core::cfg::Sections cfg;
    for (auto& p : aliases)
    {
        auto s = cfg.obtain(tag_of(p.first));
        for (auto& a : p.second)
        {
            c.log(std::string(tag_of(p.first)) + " alias " + a.name + " = " + a.text);
            std::string name = a.name;
            if (c.g.chance(1, 4))
                name[0] = toupper(name[0]);
            s->set(name, a.text);
        }
    }
    matcher::Parser parser;
    try
    {
        parser.load_aliases(cfg);
    }
    catch (std::exception& e)
    {
        c.fail("load", std::string("cannot load aliases: ") + e.what());
    }
    // Aliases dumped and loaded again are the same
    matcher::Parser parser2;
    auto dumped = parser.serialise_aliases();
    if (c.g.flip())
    {
        // Loading the same aliases again is not a conflict
        try
        {
            parser.load_aliases(cfg);
            parser2.load_aliases(*dumped);
        }
        catch (std::exception& e)
        {
            c.fail("reload", std::string("cannot load dumped aliases: ") + e.what() + " " + dumped->to_string());
        }
    }
    else
        parser2.load_aliases(*core::cfg::Sections::parse(dumped->to_string()));

    MExpr e;
    std::string text;
    bool nested = false;
    for (auto code : codes)
    {
        if (c.g.chance(1, 4))
            continue;
        std::string part;
        MOr mo;
        unsigned n = 1 + c.g.below(3);
        for (unsigned k = 0; k < n; ++k)
        {
            if (!part.empty())
                part += " or ";
            if (c.g.chance(2, 3))
            {
                auto& as = aliases[code];
                auto& a  = as[c.g.below(as.size())];
                std::string name = a.name;
                if (c.g.chance(1, 4))
                    for (auto& ch : name)
                        ch = toupper(ch);
                part += name;
                nested |= a.nested;
                for (auto& v : a.value.alts)
                    mo.alts.push_back(v);
            }
            else
            {
                auto alt = gen_alt(c.g, code, pool[c.g.below(pool.size())]->get(code), o);
                part += alt.text;
                mo.alts.push_back(alt);
            }
        }
        if (!text.empty())
            text += ";";
        text += std::string(tag_of(code)) + ":" + part;
        e.parts[code] = mo;
    }
    c.log("expr " + text);
    c.mix(text);
    Matcher m  = parse(c, text, "expression with aliases", &parser);
    Matcher m2 = parse(c, text, "expression with dumped aliases", &parser2);
    Matcher me = parse(c, m.toStringExpanded(), "expanded");
    Matcher ms = parse(c, m.toString(), "toString", &parser);
    for (auto& md : pool)
    {
        bool want = e.match(*md);
        c.mix(want);
        std::string info = expl(text, *md) + " aliases " + dumped->to_string();
        c.eq(m(*md), want, "alias", info);
        c.eq(m2(*md), want, "alias-dump", info);
        c.eq(me(*md), want, "alias-expanded", "expanded [" + m.toStringExpanded() + "] " + info);
        c.eq(ms(*md), want, "alias-tostring", info);
    }
    if (nested)
        c.mark();
}

// --- reference time -------------------------------------------------------

namespace {

/// Times at or around which an expression is likely to change its mind
std::vector<int64_t> gen_times(Gen& g, const RTExpr& e, const Time& hint, unsigned n)
{
    std::vector<int64_t> res;
    int64_t lo = civil_secs(1, 1, 2, 0, 0, 0), hi = civil_secs(9998, 12, 31, 0, 0, 0);
    res.push_back(civil_secs(hint));
    for (unsigned i = 0; i < n; ++i)
    {
        int64_t t;
        auto& r = e.tests[g.below(e.tests.size())];
        switch (g.below(4))
        {
            case 0: t = r.has_lo ? r.lo : r.has_hi ? r.hi : civil_secs(gen_time_near(g)); break;
            case 1: t = r.has_hi ? r.hi - 1 : r.has_lo ? r.lo - 1 : civil_secs(gen_time_near(g)); break;
            case 2: t = civil_secs(gen_time_near(g)); break;
            default: t = civil_secs(hint); break;
        }
        if (g.flip())
        {
            // Match the time of the day of another test
            auto& r1 = e.tests[g.below(e.tests.size())];
            int64_t day = t - t % 86400;
            if (r1.has_tod)
                t = day + (g.flip() ? r1.tod_lo : r1.tod_hi) + g.range(-1, 1);
            else if (r1.has_step)
            {
                int64_t k = g.below(86400 / r1.step_rep + 1);
                t         = day + r1.step_base % r1.step_rep + k * r1.step_rep + (g.chance(1, 4) ? g.range(-1, 1) : 0);
            }
        }
        if (g.chance(1, 4))
            t += g.pick<int64_t>({-1, 1, 60, -60, 3600, -3600, 86400, -86400, 86400 * 31, -86400 * 365});
        if (t < lo || t > hi)
            continue;
        res.push_back(t);
    }
    return res;
}

struct Sqlite
{
    sqlite3* db = nullptr;
    Sqlite()
    {
        if (sqlite3_open(":memory:", &db) != SQLITE_OK)
            throw std::runtime_error("sqlite3_open");
        exec("CREATE TABLE d (n INTEGER, reftime TEXT)");
    }
    ~Sqlite() { sqlite3_close(db); }
    void exec(const std::string& q)
    {
        char* err = nullptr;
        if (sqlite3_exec(db, q.c_str(), nullptr, nullptr, &err) != SQLITE_OK)
        {
            std::string e = err ? err : "?";
            sqlite3_free(err);
            throw Failure("sql", "query failed: " + e + ": " + q);
        }
    }
    std::set<int> select(const std::string& where)
    {
        std::string q = "SELECT n FROM d WHERE " + where;
        sqlite3_stmt* st;
        if (sqlite3_prepare_v2(db, q.c_str(), -1, &st, nullptr) != SQLITE_OK)
            throw Failure("sql", std::string("query failed: ") + sqlite3_errmsg(db) + ": " + q);
        std::set<int> res;
        while (sqlite3_step(st) == SQLITE_ROW)
            res.insert(sqlite3_column_int(st, 0));
        sqlite3_finalize(st);
        return res;
    }
};

} // namespace

PROPERTY("Q04", "dates", 3, "the expression accepts some of the times and refuses others")
{
    RTOpts o;
    o.near_dates = c.g.chance(3, 4);
    Time hint    = gen_time_near(c.g);
    bool rel     = c.g.chance(1, 3);
    if (rel)
        o.now = civil_secs(o.near_dates ? gen_time_near(c.g) : gen_time(c.g));
    if (rel && (o.now < civil_secs(1000, 1, 1, 0, 0, 0) || o.now > civil_secs(9000, 1, 1, 0, 0, 0)))
        o.now = civil_secs(hint);
    RTExpr e = gen_reftime(c.g, o, &hint);
    c.log("expr " + e.text);
    c.mix(e.text);
    matcher::reftime::Parser p;
    if (rel)
    {
        p.tnow = o.now - civil_secs(1970, 1, 1, 0, 0, 0);
        Time t = secs_civil(o.now);
        c.log("now " + t.to_iso8601());
    }
    try
    {
        p.parse(e.text);
    }
    catch (std::exception& ex)
    {
        c.fail("parse", "[" + e.text + "]: " + ex.what());
    }
    std::string back;
    for (auto& t : p.res)
        back += (back.empty() ? "" : ",") + t->toString();
    matcher::reftime::Parser p2;
    try
    {
        p2.parse(back);
    }
    catch (std::exception& ex)
    {
        c.fail("parse", "[" + e.text + "] formatted as [" + back + "]: " + ex.what());
    }
    unsigned yes = 0, no = 0;
    for (auto t : gen_times(c.g, e, hint, 12))
    {
        bool want = e.match(t);
        Time tt   = secs_civil(t);
        bool got = true, got2 = true;
        for (auto& r : p.res)
            got &= r->match(tt);
        for (auto& r : p2.res)
            got2 &= r->match(tt);
        c.mix(want);
        std::string info = "[" + e.text + "] on " + tt.to_iso8601() + (rel ? " now " + secs_civil(o.now).to_iso8601() : "") + " parsed as [" + back + "]";
        c.eq(got, want, "reftime", info);
        c.eq(got2, want, "reftime-text", info);
        (want ? yes : no) += 1;
    }
    if (yes && no)
        c.mark();
    c.count("times accepted", yes);
    c.count("times refused", no);
}

PROPERTY("Q05", "interval", 3, "the interval computed is narrower than the one given, or the expression cannot match")
{
    Time hint = gen_time_near(c.g);
    RTOpts o;
    o.near_dates = c.g.chance(7, 8);
    o.max_terms  = 2;
    std::vector<RTExpr> ors;
    unsigned n = 1 + c.g.below(3);
    std::string text;
    for (unsigned i = 0; i < n; ++i)
    {
        ors.push_back(gen_reftime(c.g, o, &hint));
        text += (i ? " or " : "") + ors.back().text;
    }
    auto accepts = [&](int64_t t) {
        for (auto& e : ors)
            if (e.match(t))
                return true;
        return false;
    };
    c.log(text);
    c.mix(text);
    Matcher m   = parse(c, "reftime:" + text, "expression");
    auto orimpl = m.get(TYPE_REFTIME);

    std::vector<int64_t> times;
    for (auto& e : ors)
        for (auto t : gen_times(c.g, e, hint, 6))
            times.push_back(t);

    // Starting interval
    Interval start;
    int64_t lo = INT64_MIN, hi = INT64_MAX;
    if (c.g.flip())
    {
        lo          = times[c.g.below(times.size())];
        start.begin = secs_civil(lo);
    }
    if (c.g.flip())
    {
        hi = times[c.g.below(times.size())] + c.g.below(3);
        if (lo != INT64_MIN && hi <= lo)
            hi = lo + 1 + c.g.below(86400 * 2);
        start.end = secs_civil(hi);
    }
    Interval res = start;
    bool ok      = m.intersect_interval(res);
    for (auto t : times)
    {
        Time tt     = secs_civil(t);
        bool inside = t >= lo && t < hi;
        if (!inside || !accepts(t))
            continue;
        std::string info = "[" + text + "] " + tt.to_iso8601() + " interval " + start.to_string() + " result " + (ok ? res.to_string() : "none");
        c.check(ok, "intersect", "matching time excluded: " + info);
        c.check(res.contains(tt), "intersect", "matching time excluded: " + info);
    }
    // Never wider than what was given
    if (ok)
    {
        if (start.begin.is_set())
            c.check(res.begin.is_set() && res.begin >= start.begin, "widen", "[" + text + "] " + start.to_string() + " became " + res.to_string());
        if (start.end.is_set())
            c.check(res.end.is_set() && res.end <= start.end, "widen", "[" + text + "] " + start.to_string() + " became " + res.to_string());
        // With no alternatives, dates are followed exactly
        if (n == 1)
        {
            int64_t wlo = lo, whi = hi;
            for (auto& r : ors[0].tests)
            {
                if (r.has_lo)
                    wlo = std::max(wlo, r.lo);
                if (r.has_hi)
                    whi = std::min(whi, r.hi);
            }
            c.eq(res.begin.is_set() ? civil_secs(res.begin) : INT64_MIN, wlo, "exact", "begin of [" + text + "] on " + start.to_string());
            c.eq(res.end.is_set() ? civil_secs(res.end) : INT64_MAX, whi, "exact", "end of [" + text + "] on " + start.to_string());
        }
    }
    if (!ok || res != start)
        c.mark();

    // Matching time spans, made of whole days
    int64_t t0   = times[c.g.below(times.size())];
    int64_t span = c.g.pick<int64_t>({1, 1, 7, 31, 365}) * 86400;
    t0 -= t0 % 86400;
    Interval days(secs_civil(t0), secs_civil(t0 + span));
    bool want = false;
    for (auto t : times)
        if (t >= t0 && t < t0 + span && accepts(t))
            want = true;
    if (want)
        c.check(m(days), "match-interval", "[" + text + "] does not match " + days.to_string() + " which contains matching times");

    // Matching arbitrary time spans: one that contains a matching time matches
    {
        int64_t a = times[c.g.below(times.size())], b = a + 1;
        switch (c.g.below(4))
        {
            case 0: break;
            case 1:
                b = times[c.g.below(times.size())];
                if (b < a)
                    std::swap(a, b);
                ++b;
                break;
            case 2: // around midnight
                b = a - a % 86400 + 86400 + c.g.below(7200);
                a = a - a % 86400 + 86400 - 1 - c.g.below(7200);
                break;
            default:
                b = a + 1 + c.g.below(86400);
                a -= c.g.below(43200);
                break;
        }
        Interval span(secs_civil(a), secs_civil(b));
        std::vector<int64_t> inside{a, b - 1};
        for (auto t : times)
        {
            inside.push_back(t);
            // same times of day, on the days of the interval
            for (int64_t base : {a, b})
                inside.push_back(base - ((base % 86400) + 86400) % 86400 + ((t % 86400) + 86400) % 86400);
        }
        for (auto t : inside)
            if (t >= a && t < b && accepts(t))
            {
                c.check(m(span), "match-span", "[" + text + "] does not match " + span.to_string() + " which contains " + secs_civil(t).to_iso8601());
                if (b - a < 86400)
                    c.count("short spans with matching times", 1);
                break;
            }
    }

    // SQL query
    Sqlite db;
    std::set<int> want_rows;
    std::string ins = "INSERT INTO d VALUES ";
    for (unsigned i = 0; i < times.size(); ++i)
    {
        ins += (i ? ", (" : "(") + std::to_string(i) + ", '" + secs_civil(times[i]).to_sql() + "')";
        if (accepts(times[i]))
            want_rows.insert(i);
    }
    db.exec(ins);
    std::string sql = orimpl->toReftimeSQL("reftime");
    auto rows       = db.select(sql);
    for (unsigned i = 0; i < times.size(); ++i)
        c.eq(rows.count(i), want_rows.count(i), "sql", "[" + text + "] on " + secs_civil(times[i]).to_iso8601() + " with " + sql);
}

PROPERTY("Q05", "for-interval", 1, "always")
{
    int64_t a = civil_secs(gen_time_near(c.g)), b = civil_secs(gen_time_near(c.g));
    if (a == b)
        b += 1 + c.g.below(1000);
    if (a > b)
        std::swap(a, b);
    Interval iv;
    bool has_a = c.g.chance(3, 4), has_b = c.g.chance(3, 4);
    if (has_a)
        iv.begin = secs_civil(a);
    if (has_b)
        iv.end = secs_civil(b);
    Matcher m;
    bool month = c.g.chance(1, 3);
    if (month)
    {
        Time t = secs_civil(a);
        a      = civil_secs(t.ye, t.mo, 1, 0, 0, 0);
        b      = t.mo == 12 ? civil_secs(t.ye + 1, 1, 1, 0, 0, 0) : civil_secs(t.ye, t.mo + 1, 1, 0, 0, 0);
        has_a = has_b = true;
        m             = Matcher::for_month(t.ye, t.mo);
    }
    else
        m = Matcher::for_interval(iv);
    c.mix(a);
    c.mix(b);
    std::string text = m.toString();
    Matcher m1;
    if (has_a || has_b)
        m1 = parse(c, text, "for_interval");
    for (int64_t t : {a - 1, a, a + 1, b - 1, b, b + 1, civil_secs(gen_time_near(c.g))})
    {
        bool want = (!has_a || t >= a) && (!has_b || t < b);
        auto rt   = types::Reftime::createPosition(secs_civil(t));
        c.eq(m(*rt), want, "for-interval", text + " on " + show(*rt));
        c.eq(m1(*rt), want, "for-interval-text", text + " on " + show(*rt));
    }
    c.mark();
}
