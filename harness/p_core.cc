// C01: times and intervals; C02: configuration; D09: steps
#include "exprgen.h"
#include "gen.h"
#include "arki/core/binary.h"
#include "arki/core/cfg.h"
#include "arki/core/file.h"
#include "arki/core/fuzzytime.h"
#include "arki/core/time.h"
#include "arki/dataset/step.h"
#include "arki/matcher.h"
#include "arki/matcher/parser.h"
#include "arki/matcher/utils.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <optional>

using namespace vf;
using namespace arki;
using arki::core::Interval;
using arki::core::Time;
namespace fs = std::filesystem;

namespace {

int mdays(int ye, int mo)
{
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return mo == 2 && ((ye % 4 == 0 && ye % 100 != 0) || ye % 400 == 0) ? 29 : d[mo - 1];
}

/// Times at and around the boundaries of the calendar
Time edge_time(Gen& g, int ye_min = 1000, int ye_max = 9000)
{
    Time t;
    switch (g.weighted({4, 4, 2, 2}))
    {
        case 0: t = gen_time_near(g); break;
        case 1: {
            int ye = g.pick({1999, 2000, 2003, 2004, 2007, 2008, 1900, 2100, 1969, 1970});
            int mo = g.pick({1, 2, 3, 6, 11, 12});
            int da = g.pick({1, 2, 27, 28, 29, 30, 31});
            t = Time(ye, mo, std::min(da, mdays(ye, mo)), g.pick({0, 23, 12}), g.pick({0, 59}), g.pick({0, 59, 1}));
            break;
        }
        case 2: {
            int ye = g.range(ye_min, ye_max), mo = 1 + g.below(12);
            t = Time(ye, mo, 1 + g.below(mdays(ye, mo)), g.below(24), g.below(60), g.below(60));
            break;
        }
        default: {
            // the start of something, or a second before
            int ye = 2007 + g.below(2), mo = 1 + g.below(12);
            t = Time(ye, mo, 1);
            if (g.flip())
                t = secs_civil(civil_secs(t) - 1);
        }
    }
    return t;
}

struct Iv
{
    std::optional<int64_t> b, e;
    Interval iv;
    bool has(int64_t t) const { return (!b || t >= *b) && (!e || t < *e); }
};

/// Non-empty interval, possibly open
Iv gen_iv(Gen& g, const std::vector<int64_t>& pts)
{
    Iv r;
    int64_t b = g.pick(pts), e = g.pick(pts);
    if (b > e)
        std::swap(b, e);
    if (b == e)
        e = b + 1;
    if (!g.chance(1, 5))
    {
        r.b        = b;
        r.iv.begin = secs_civil(b);
    }
    if (!g.chance(1, 5))
    {
        r.e      = e;
        r.iv.end = secs_civil(e);
    }
    return r;
}

std::string show(const Interval& i) { return i.to_string(); }

bool time_ok(const Time& t)
{
    return t.mo >= 1 && t.mo <= 12 && t.da >= 1 && t.da <= mdays(t.ye, t.mo) && t.ho >= 0 && t.ho < 24 && t.mi >= 0 &&
           t.mi < 60 && t.se >= 0 && t.se < 60;
}

} // namespace

PROPERTY("C01", "times", 3, "always: a time and one close to it or to a boundary of the calendar")
{
    auto& g = c.g;
    Time t    = edge_time(g);
    int64_t s = civil_secs(t);
    c.log(t.to_iso8601());
    c.mix(t.to_iso8601());
    c.mark();
    auto is = [&](const Time& got, int64_t exp, const char* what) {
        c.check(time_ok(got), "not-normal", std::string(what) + " of " + t.to_iso8601() + " is " + got.to_iso8601());
        c.eq(got.to_iso8601(), secs_civil(exp).to_iso8601(), what, what + std::string(" of ") + t.to_iso8601());
    };
    is(t.next_instant(), s + 1, "next-instant");
    is(t.prev_instant(), s - 1, "prev-instant");
    is(t.start_of_month(), civil_secs(t.ye, t.mo, 1, 0, 0, 0), "start-of-month");
    int nye = t.mo == 12 ? t.ye + 1 : t.ye, nmo = t.mo == 12 ? 1 : t.mo + 1;
    is(t.start_of_next_month(), civil_secs(nye, nmo, 1, 0, 0, 0), "start-of-next-month");
    is(t.end_of_month(), civil_secs(nye, nmo, 1, 0, 0, 0) - 1, "end-of-month");
    int pye = t.mo == 1 ? t.ye - 1 : t.ye, pmo = t.mo == 1 ? 12 : t.mo - 1;
    is(t.start_of_previous_month(), civil_secs(pye, pmo, 1, 0, 0, 0), "start-of-previous-month");
    c.eq(t.is_start_of_month(), s == civil_secs(t.ye, t.mo, 1, 0, 0, 0), "is-start-of-month", t.to_iso8601());
    c.eq(Time::days_in_month(t.ye, t.mo), mdays(t.ye, t.mo), "days-in-month", t.to_iso8601());
    c.eq((int64_t)Time::days_in_year(t.ye), (civil_secs(t.ye + 1, 1, 1, 0, 0, 0) - civil_secs(t.ye, 1, 1, 0, 0, 0)) / 86400,
         "days-in-year", t.to_iso8601());
    c.eq((int64_t)t.to_unix(), std::max<int64_t>(0, s - civil_secs(1970, 1, 1, 0, 0, 0)), "unix", t.to_iso8601());
    // texts
    c.eq(Time::create_iso8601(t.to_iso8601()).to_iso8601(), t.to_iso8601(), "iso8601", "parsed back");
    c.eq(Time::create_iso8601(t.to_iso8601(' ')).to_iso8601(), t.to_iso8601(), "iso8601-space", "parsed back");
    c.eq(Time::create_sql(t.to_sql()).to_iso8601(), t.to_iso8601(), "sql", "parsed back");
    c.eq(Time::decodeString(t.to_iso8601()).to_iso8601(), t.to_iso8601(), "decode-string", "parsed back");
    {
        char buf[32];
        snprintf(buf, 32, "%04d-%02d-%02d %02d:%02d:%02d", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
        c.eq(t.to_sql(), std::string(buf), "sql-text", "text");
        buf[10] = 'T';
        c.eq(t.to_iso8601(), std::string(buf) + "Z", "iso8601-text", "text");
    }
    // binary
    {
        std::vector<uint8_t> b;
        core::BinaryEncoder e(b);
        t.encodeWithoutEnvelope(e);
        uint8_t raw[5];
        t.encode_binary(raw);
        c.check(b.size() == 5 && memcmp(raw, b.data(), 5) == 0, "encode", "the two encodings differ");
        core::BinaryDecoder d(b);
        c.eq(Time::decode(d).to_iso8601(), t.to_iso8601(), "decode", "decoded");
    }
    // order and distance
    Time u    = g.flip() ? edge_time(g) : secs_civil(s + g.range(-3, 3) * (int64_t)g.pick({1, 60, 3600, 86400, 86400 * 31}));
    int64_t x = civil_secs(u);
    auto sgn  = [](int64_t v) { return v < 0 ? -1 : v > 0; };
    std::string pair = t.to_iso8601() + " and " + u.to_iso8601();
    c.mix(pair);
    c.eq(sgn(t.compare(u)), sgn(s - x), "compare", pair);
    c.check((t < u) == (s < x) && (t <= u) == (s <= x) && (t > u) == (s > x) && (t >= u) == (s >= x) && (t == u) == (s == x) &&
                (t != u) == (s != x),
            "operators", pair);
    c.eq((int64_t)Time::duration(t, u), x - s, "duration", pair);
    c.eq((int64_t)Time::duration(Interval(t, u)), x - s, "duration-interval", pair);
    // normalisation of any overflow
    {
        Time n = t;
        int64_t e = s;
        switch (g.below(5))
        {
            case 0: { int64_t d = g.range(-100000, 100000); n.se += d; e += d; break; }
            case 1: { int64_t d = g.range(-100000, 100000); n.mi += d; e += d * 60; break; }
            case 2: { int64_t d = g.range(-10000, 10000); n.ho += d; e += d * 3600; break; }
            case 3: { int64_t d = g.range(-1500, 1500); n.da += d; e += d * 86400; break; }
            default: {
                // months, with a day which exists in all of them
                n.da = 1 + g.below(28);
                int d = g.range(-60, 60);
                n.mo += d;
                int m = t.ye * 12 + t.mo - 1 + d;
                e = civil_secs(m / 12, m % 12 + 1, n.da, t.ho, t.mi, t.se);
            }
        }
        if (g.flip())
        {
            int64_t d = g.range(-200, 200);
            n.mi += d;
            e += d * 60;
        }
        std::string was = n.to_iso8601();
        n.normalise();
        c.check(time_ok(n), "normalise-range", was + " normalised to " + n.to_iso8601());
        c.eq(n.to_iso8601(), secs_civil(e).to_iso8601(), "normalise", was);
    }
    // Partial times
    {
        int v[6] = {t.ye, t.mo, t.da, t.ho, t.mi, t.se};
        unsigned set = 1 + g.below(6);
        for (unsigned i = set; i < 6; ++i)
            v[i] = -1;
        core::FuzzyTime ft(v[0], v[1], v[2], v[3], v[4], v[5]);
        int64_t lo = civil_secs(t.ye, set > 1 ? t.mo : 1, set > 2 ? t.da : 1, set > 3 ? t.ho : 0, set > 4 ? t.mi : 0, set > 5 ? t.se : 0);
        int64_t hi;
        switch (set)
        {
            case 1: hi = civil_secs(t.ye + 1, 1, 1, 0, 0, 0); break;
            case 2: hi = civil_secs(nye, nmo, 1, 0, 0, 0); break;
            case 3: hi = lo + 86400; break;
            case 4: hi = lo + 3600; break;
            case 5: hi = lo + 60; break;
            default: hi = lo + 1;
        }
        is(ft.lowerbound(), lo, "lowerbound");
        is(ft.upperbound(), hi - 1, "upperbound");
        is(Time::create_lowerbound(v[0], v[1], v[2], v[3], v[4], v[5]), lo, "create-lowerbound");
        is(Time::create_upperbound(v[0], v[1], v[2], v[3], v[4], v[5]), hi - 1, "create-upperbound");
    }
    // Sequences
    {
        int step = g.pick({1, 3600, 86400, 7 * 3600 + 13, 100000});
        int64_t n = g.below(30);
        int64_t end = s + n * step + (g.flip() ? 0 : 1 + g.below(step));
        auto seq = Time::generate(t, secs_civil(end), step);
        std::vector<int64_t> exp;
        for (int64_t i = s; i < end; i += step)
            exp.push_back(i);
        c.eq(seq.size(), exp.size(), "generate-size", "sequence from " + t.to_iso8601());
        for (unsigned i = 0; i < exp.size(); ++i)
            is(seq[i], exp[i], "generate");
    }
}

PROPERTY("C01", "intervals", 3, "two intervals which overlap without being equal")
{
    auto& g = c.g;
    std::vector<int64_t> pts;
    unsigned npts = 2 + g.below(4);
    for (unsigned i = 0; i < npts; ++i)
    {
        int64_t t = civil_secs(edge_time(g, 1500, 3000));
        pts.push_back(t);
        if (g.flip())
            pts.push_back(t + g.range(-1, 1));
        if (g.flip())
            pts.push_back(civil_secs(secs_civil(t).start_of_month()));
        if (g.flip())
            pts.push_back(civil_secs(secs_civil(t).start_of_next_month()));
    }
    Iv a = gen_iv(g, pts), b = gen_iv(g, pts);
    std::string what = show(a.iv) + " and " + show(b.iv);
    c.log(what);
    c.mix(what);
    // Sample points where membership can change
    const int64_t FAR = civil_secs(9900, 1, 1, 0, 0, 0), PAST = civil_secs(100, 1, 1, 0, 0, 0);
    std::vector<int64_t> probe = {FAR, PAST};
    for (auto& i : {a, b})
        for (auto& x : {i.b, i.e})
            if (x)
                for (int d = -1; d <= 1; ++d)
                    probe.push_back(*x + d);
    bool inter = false, sub = true, differ = false;
    for (auto p : probe)
    {
        c.eq(a.iv.contains(secs_civil(p)), a.has(p), "contains-time", show(a.iv) + " contains " + secs_civil(p).to_iso8601());
        inter  = inter || (a.has(p) && b.has(p));
        sub    = sub && (!b.has(p) || a.has(p));
        differ = differ || a.has(p) != b.has(p);
    }
    if (inter && differ)
        c.mark();
    c.eq(a.iv.intersects(b.iv), inter, "intersects", what);
    c.eq(b.iv.intersects(a.iv), inter, "intersects", what + " swapped");
    c.eq(a.iv.contains(b.iv), sub, "contains", what);
    c.eq(a.iv == b.iv, !differ, "equal", what);
    c.eq(a.iv != b.iv, differ, "different", what);
    c.eq(a.iv.is_unbounded(), !a.b && !a.e, "unbounded", what);
    {
        Interval r = a.iv;
        bool res   = r.intersect(b.iv);
        c.eq(res, inter, "intersect-result", what);
        for (auto p : probe)
            c.eq(r.contains(secs_civil(p)), inter ? a.has(p) && b.has(p) : a.has(p), "intersect",
                 what + ": intersection is " + show(r) + " at " + secs_civil(p).to_iso8601());
    }
    {
        Interval r = a.iv;
        r.extend(b.iv);
        Iv e;
        if (a.b && b.b) e.b = std::min(*a.b, *b.b);
        if (a.e && b.e) e.e = std::max(*a.e, *b.e);
        for (auto p : probe)
            c.eq(r.contains(secs_civil(p)), e.has(p), "extend", what + ": union is " + show(r) + " at " + secs_civil(p).to_iso8601());
    }
    {
        auto pt = [](const std::optional<int64_t>& x, Time& t) -> const Time* {
            if (!x)
                return nullptr;
            t = secs_civil(*x);
            return &t;
        };
        Time t1, t2, t3, t4;
        c.eq(Time::range_overlaps(pt(a.b, t1), pt(a.e, t2), pt(b.b, t3), pt(b.e, t4)), inter, "range-overlaps", what);
    }
    // Months
    {
        bool month = !a.b || !a.e;
        if (!month)
        {
            Time t = secs_civil(*a.b);
            if (civil_secs(t.ye, t.mo, 1, 0, 0, 0) != *a.b)
                t = t.start_of_next_month();
            month = civil_secs(t.start_of_next_month()) <= *a.e;
        }
        c.eq(a.iv.spans_one_whole_month(), month, "whole-month", show(a.iv));
    }
    if (a.b && a.e && *a.e - *a.b < 86400ll * 366 * 30)
    {
        int64_t pos = *a.b;
        bool bad    = false;
        unsigned n  = 0;
        a.iv.iter_months([&](const Interval& i) {
            if (civil_secs(i.begin) != pos || civil_secs(i.end) <= pos || civil_secs(i.end) > *a.e ||
                civil_secs(i.end) > civil_secs(i.begin.start_of_next_month()) ||
                (civil_secs(i.end) != *a.e && !i.end.is_start_of_month()))
                bad = true;
            pos = civil_secs(i.end);
            ++n;
            return true;
        });
        c.check(!bad && pos == *a.e, "iter-months", "the months of " + show(a.iv) + " are not a partition of it");
    }
}

PROPERTY("C02", "config", 2, "at least two sections, with comments or blanks around keys and values")
{
    auto& g = c.g;
    auto blanks = [&](bool some = false) { return g.str(" \t", some ? 1 : 0, 3); };
    auto key = [&] {
        // words are separated by blanks
        std::string r = g.str("abcXY019_.-", 1, 6);
        return r;
    };
    auto value = [&]() -> std::string {
        switch (g.weighted({3, 2, 2, 1, 1}))
        {
            case 0: return g.str("abcXYZ019_.-:,;/= ", 0, 12);
            case 1: return g.pick<std::string>({"daily", "true", "grib:GRIB1,98;reftime:>=2007", "a = b", "[x]", "# no", "; no"});
            case 2: return std::to_string(g.edgy(1u << 31));
            case 3: return g.str("\"' a", 0, 6);
            default: return "/tmp/a dir/" + g.str("abc ", 0, 4);
        }
    };
    auto strip = [](std::string s) {
        auto ws = " \t\n\r\f\v";
        auto b = s.find_first_not_of(ws);
        if (b == std::string::npos)
            return std::string();
        return s.substr(b, s.find_last_not_of(ws) - b + 1);
    };
    auto unquote = [&](std::string s) {
        s = strip(s);
        if (s.size() >= 2 && s.front() == '"' && s.back() == '"')
            return s.substr(1, s.size() - 2);
        return s;
    };
    unsigned nsec = 1 + g.below(4);
    std::map<std::string, std::map<std::string, std::string>> model;
    std::string text;
    bool noise = false;
    auto junk = [&] {
        if (g.chance(1, 4))
        {
            noise = true;
            text += g.pick<std::string>({"\n", "# comment\n", "; comment = x\n", "  \t\n", "  # [section]\n", "#\n"});
        }
    };
    bool single = g.chance(1, 4); // a file without sections
    for (unsigned i = 0; i < (single ? 1 : nsec); ++i)
    {
        junk();
        std::string name = single ? "" : key();
        if (!single)
        {
            text += "[" + blanks() + name + blanks() + "]\n";
            model[name];
        }
        else
            model[""];
        unsigned nkeys = g.below(5);
        for (unsigned j = 0; j < nkeys; ++j)
        {
            junk();
            auto k = key(), v = value();
            if (unquote(v) != strip(v) && strip(v) == "\"")
                v = "";
            std::string lead = blanks(), b1 = blanks(), b2 = blanks();
            noise = noise || !b1.empty() || !lead.empty();
            bool quoted = g.chance(1, 4);
            std::string q = quoted ? "\"" + v + "\"" : v;
            // a lone quote is neither quoted nor not
            if (strip(q) == "\"")
                q = "x";
            text += lead + k + b1 + "=" + b2 + q + blanks() + "\n";
            model[name][k] = unquote(q);
        }
        junk();
    }
    c.log(text);
    c.mix(text);
    if (model.size() > 1 && noise)
        c.mark();
    auto cmp = [&](const core::cfg::Section& s, const std::map<std::string, std::string>& m, const std::string& what) {
        std::map<std::string, std::string> got;
        for (const auto& i : s)
            got[i.first] = i.second;
        for (auto& i : m)
        {
            c.check(s.has(i.first), what + "-key", "key " + i.first + " not found");
            c.eq(printable(s.value(i.first)), printable(i.second), what + "-value", "value of " + i.first);
        }
        c.eq(got.size(), m.size(), what + "-keys", "number of keys");
    };
    auto from_file = [&](const std::string& t, auto f) {
        auto p = c.newdir() / "conf";
        std::ofstream(p) << t;
        core::File in(p, O_RDONLY);
        return f(in);
    };
    if (single)
    {
        auto s = g.flip() ? core::cfg::Section::parse(text, "test")
                          : from_file(text, [](core::NamedFileDescriptor& in) { return core::cfg::Section::parse(in); });
        cmp(*s, model[""], "section");
        // a section line is an error here
        bool failed = false;
        try {
            core::cfg::Section::parse(text + "[a]\n", "test");
        } catch (core::cfg::ParseError&) {
            failed = true;
        }
        c.check(failed, "section-in-section", "a section was accepted");
    }
    else
    {
        auto s = g.flip() ? core::cfg::Sections::parse(text, "test")
                          : from_file(text, [](core::NamedFileDescriptor& in) { return core::cfg::Sections::parse(in); });
        c.eq(s->size(), model.size(), "sections", "number of sections");
        for (auto& i : model)
        {
            auto sec = s->section(i.first);
            c.check((bool)sec, "section-missing", i.first);
            cmp(*sec, i.second, "sections");
        }
        c.check(!s->section("no such section"), "section-extra", "a section that does not exist was found");
        // A copy does not share anything
        core::cfg::Sections copy(*s);
        if (!model.empty())
        {
            auto& name = model.begin()->first;
            copy.section(name)->set("added", "1");
            c.check(model[name].count("added") || !s->section(name)->has("added"), "copy", "a copy shares its sections");
        }
    }
    // Errors
    {
        std::string bad = g.pick<std::string>({"nothing\n", "= x\n", "[sec\n", "a b c\n", "[se ction]\n", "*=1\n"});
        std::string t = text + bad;
        bool failed = false;
        try {
            if (single)
                core::cfg::Section::parse(t, "test");
            else
                core::cfg::Sections::parse(t, "test");
        } catch (core::cfg::ParseError& e) {
            failed = true;
            int line = std::count(text.begin(), text.end(), '\n') + 1;
            c.check(std::string(e.what()).find("test:" + std::to_string(line) + ":") == 0, "error-line",
                    std::string("error does not report the line: ") + e.what());
        }
        c.check(failed, "error", "invalid line accepted: " + bad);
    }
    // Written and read back
    {
        core::cfg::Sections out;
        std::map<std::string, std::map<std::string, std::string>> m2;
        for (auto& i : model)
        {
            auto name = i.first.empty() ? "x" : i.first;
            auto sec  = out.obtain(name);
            m2[name];
            for (auto& k : i.second)
            {
                // texts that cannot be represented without quoting
                if (k.second.empty() || strip(k.second) != k.second || unquote(k.second) != k.second || k.second == "\"")
                    continue;
                sec->set(k.first, k.second);
                m2[name][k.first] = k.second;
            }
        }
        auto s = core::cfg::Sections::parse(out.to_string(), "test");
        c.eq(s->size(), m2.size(), "written-sections", "number of sections");
        for (auto& i : m2)
        {
            auto sec = s->section(i.first);
            c.check((bool)sec, "written-section", i.first);
            cmp(*sec, i.second, "written");
            auto one = core::cfg::Section::parse(out.section(i.first)->to_string(), "test");
            cmp(*one, i.second, "written-one");
        }
    }
    // Boolean values
    {
        core::cfg::Section s;
        auto v = blanks() + g.pick<std::string>({"true", "TRUE", "Yes", "on", "1", "false", "No", "OFF", "0", "", "maybe", "2"}) + blanks();
        std::string l = strip(v);
        for (auto& ch : l)
            ch = tolower(ch);
        int exp = l == "true" || l == "yes" || l == "on" || l == "1" ? 1
                  : l.empty() || l == "false" || l == "no" || l == "off" || l == "0" ? 0 : -1;
        s.set("k", v);
        int got = -1;
        try {
            got = s.value_bool("k", g.flip());
        } catch (std::runtime_error&) {
        }
        c.eq(got, exp, "bool", "boolean value of " + v);
        c.eq(s.value_bool("none", true), true, "bool-default", "default");
        c.eq(s.value_bool("none"), false, "bool-default", "default");
    }
}

namespace {
const std::vector<std::string> STEPS = {"daily", "weekly", "biweekly", "monthly", "yearly"};

std::string ref_path(const std::string& step, const Time& t)
{
    char buf[64];
    if (step == "daily") snprintf(buf, 64, "%04d/%02d-%02d", t.ye, t.mo, t.da);
    else if (step == "weekly") snprintf(buf, 64, "%04d/%02d-%d", t.ye, t.mo, (t.da - 1) / 7 + 1);
    else if (step == "biweekly") snprintf(buf, 64, "%04d/%02d-%d", t.ye, t.mo, t.da <= 15 ? 1 : 2);
    else if (step == "monthly") snprintf(buf, 64, "%04d/%02d", t.ye, t.mo);
    else if (step == "yearly") snprintf(buf, 64, "%02d/%04d", t.ye / 100, t.ye);
    else snprintf(buf, 64, "all");
    return buf;
}

std::pair<int64_t, int64_t> ref_span(const std::string& step, const Time& t)
{
    Time b = t;
    b.ho = b.mi = b.se = 0;
    int64_t next_month = civil_secs(t.mo == 12 ? t.ye + 1 : t.ye, t.mo == 12 ? 1 : t.mo + 1, 1, 0, 0, 0);
    if (step == "daily")
        return {civil_secs(b), civil_secs(b) + 86400};
    if (step == "weekly")
    {
        b.da = (t.da - 1) / 7 * 7 + 1;
        return {civil_secs(b), std::min(civil_secs(b) + 7 * 86400, next_month)};
    }
    if (step == "biweekly")
    {
        b.da = t.da <= 15 ? 1 : 16;
        return {civil_secs(b), t.da <= 15 ? civil_secs(b) + 15 * 86400 : next_month};
    }
    b.da = 1;
    if (step == "monthly")
        return {civil_secs(b), next_month};
    b.mo = 1;
    return {civil_secs(b), civil_secs(t.ye + 1, 1, 1, 0, 0, 0)};
}
} // namespace

PROPERTY("D09", "steps", 2, "a query restricted in time that selects some of the segments on disk and not others")
{
    auto& g = c.g;
    std::string sname = g.pick(STEPS);
    auto step = dataset::Step::create(sname);
    auto dir  = c.newdir();
    const std::vector<std::pair<std::string, DataFormat>> formats = {
        {"grib", DataFormat::GRIB}, {"bufr", DataFormat::BUFR}, {"vm2", DataFormat::VM2}, {"odimh5", DataFormat::ODIMH5}, {"nc", DataFormat::NETCDF}, {"jpeg", DataFormat::JPEG}};
    auto fmt = g.pick(formats);
    struct Seg
    {
        std::string rel;
        int64_t b, e;
    };
    std::vector<Seg> segs;
    std::set<std::string> seen;
    std::vector<Time> times;
    unsigned n = 1 + g.below(8);
    for (unsigned i = 0; i < n; ++i)
    {
        Time t = edge_time(g, 1000, 3000);
        times.push_back(t);
        auto path = (*step)(t);
        c.eq(path.native(), ref_path(sname, t), "path", sname + " path of " + t.to_iso8601());
        auto span = ref_span(sname, t);
        Interval iv;
        c.check(step->path_timespan(path, iv), "path-timespan", "time span of " + path.native() + " not computed");
        c.eq(iv.begin.to_iso8601(), secs_civil(span.first).to_iso8601(), "timespan-begin", sname + " " + path.native());
        c.eq(iv.end.to_iso8601(), secs_civil(span.second).to_iso8601(), "timespan-end", sname + " " + path.native());
        // also with extensions
        Interval iv2;
        c.check(step->path_timespan(path.native() + "." + fmt.first, iv2) && iv == iv2, "path-timespan-ext",
                "time span of " + path.native() + "." + fmt.first + " is different");
        // the times around the span are in other segments
        c.eq((*step)(secs_civil(span.first)).native(), path.native(), "span-first", "first time of " + path.native());
        c.eq((*step)(secs_civil(span.second - 1)).native(), path.native(), "span-last", "last time of " + path.native());
        c.check((*step)(secs_civil(span.second)) != path, "span-next", "the time after " + path.native() + " has the same path");
        c.check((*step)(secs_civil(span.first - 1)) != path, "span-prev", "the time before " + path.native() + " has the same path");
        std::string rel = path.native() + "." + fmt.first;
        if (!seen.insert(path.native()).second)
            continue;
        std::string ext = g.pick<std::string>({"", "", "", ".gz", ".zip", ".tar"});
        fs::create_directories((dir / rel).parent_path());
        if (ext.empty() && g.chance(1, 4))
            fs::create_directory(dir / rel);
        else
            std::ofstream(dir / (rel + ext)) << "x";
        if (g.flip())
            std::ofstream(dir / (rel + ".metadata")) << "x";
        if (g.flip())
            std::ofstream(dir / (rel + ".index")) << "x";
        if (g.chance(1, 3))
            std::ofstream(dir / (rel + ".gz.idx")) << "x";
        segs.push_back(Seg{rel, span.first, span.second});
        c.mix(rel + ext);
        c.log(rel + ext);
        // other things next to it
        if (g.chance(1, 3))
        {
            auto other = g.pick(formats);
            auto p = path.native();
            std::string extra = g.pick<std::string>(
                {"." + (other.first == fmt.first ? std::string("txt") : other.first), ".txt", ".bak", "." + fmt.first + ".repack", "." + fmt.first + "~",
                 "." + fmt.first + ".old", "." + fmt.first + ".gz.bak", "." + fmt.first + ".lock", "x." + fmt.first, "-1." + fmt.first});
            std::ofstream(dir / (p + extra)) << "x";
            c.log("extra " + p + extra);
            c.mix(p + extra);
        }
    }
    // stray files and directories
    if (g.flip())
    {
        fs::create_directories(dir / g.pick<std::string>({"20071", "abc", "200", ".archive", "x2007", "2007x", "lost+found"}));
        std::ofstream(dir / g.pick<std::string>({"MANIFEST", "2007.txt", "lock", "07-08.grib"})) << "x";
    }
    bool compressed = true;
    Matcher m;
    Iv iv;
    std::string text;
    if (g.chance(3, 4))
    {
        std::vector<int64_t> pts;
        for (auto& s : segs)
        {
            for (int d = -1; d <= 1; ++d)
            {
                pts.push_back(s.b + d);
                pts.push_back(s.e + d);
            }
        }
        iv = gen_iv(g, pts);
        if (iv.b)
            text = "reftime:>=" + iv.iv.begin.to_iso8601(' ');
        if (iv.e)
            text += (text.empty() ? "reftime:<" : ",<") + iv.iv.end.to_iso8601(' ');
        m = matcher::Parser().parse(text);
    }
    c.log("query " + text);
    c.mix(text);
    std::vector<std::string> got, exp;
    std::string ext = "(\\.zip|\\.gz|\\.tar|)$";
    bool indices = g.chance(1, 3);
    if (indices)
        ext = "\\.index$";
    dataset::step::SegmentQuery q(dir, fmt.second, ext, m);
    step->list_segments(q, [&](fs::path&& p) { got.push_back(p.native()); });
    std::sort(got.begin(), got.end());
    int64_t first = INT64_MAX, last = INT64_MIN;
    for (auto& s : segs)
    {
        bool hit = (!iv.b || s.e > *iv.b) && (!iv.e || s.b < *iv.e);
        if (!hit)
            continue;
        if (indices && !fs::exists(dir / (s.rel + ".index")))
            continue;
        exp.push_back(s.rel);
        first = std::min(first, s.b);
        last = std::max(last, s.e);
    }
    std::sort(exp.begin(), exp.end());
    auto join = [](const std::vector<std::string>& v) {
        std::string r;
        for (auto& s : v)
            r += s + " ";
        return r;
    };
    c.eq(join(got), join(exp), "list", "segments listed for " + text);
    if (!exp.empty() && exp.size() < segs.size())
        c.mark();
    Interval ext_iv;
    step->time_extremes(q, ext_iv);
    if (exp.empty())
        c.check(ext_iv.is_unbounded(), "extremes-empty", "time extremes are " + show(ext_iv));
    else
    {
        c.eq(ext_iv.begin.to_iso8601(), secs_civil(first).to_iso8601(), "extremes-begin", "time extremes for " + text);
        c.eq(ext_iv.end.to_iso8601(), secs_civil(last).to_iso8601(), "extremes-end", "time extremes for " + text);
    }
    // Selection of single paths
    if (!m.empty())
        if (auto rt = m->get(TYPE_REFTIME))
            for (auto& s : segs)
                c.eq(step->pathMatches(s.rel, *rt), (!iv.b || s.e > *iv.b) && (!iv.e || s.b < *iv.e), "path-matches", s.rel + " for " + text);
    (void)compressed;
}
