#include "exprgen.h"
#include "arki/core/binary.h"
#include "arki/types/area.h"
#include "arki/types/level.h"
#include "arki/types/origin.h"
#include "arki/types/proddef.h"
#include "arki/types/product.h"
#include "arki/types/quantity.h"
#include "arki/types/reftime.h"
#include "arki/types/run.h"
#include "arki/types/task.h"
#include "arki/types/timerange.h"
#include "arki/types/values.h"
#include <algorithm>
#include <cstring>
#include <set>

using namespace arki;
using namespace arki::types;
using arki::core::Time;

namespace vf {

// --- calendar -------------------------------------------------------------

static int64_t days_civil(int64_t y, int64_t m, int64_t d)
{
    // m may be out of range
    m -= 1;
    y += m >= 0 ? m / 12 : -((-m + 11) / 12);
    m = ((m % 12) + 12) % 12 + 1;
    static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    auto leaps             = [](int64_t y) {
        // leap days before january 1st of year y
        int64_t p = y - 1;
        auto fl   = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
        return fl(p, 4) - fl(p, 100) + fl(p, 400);
    };
    bool leap   = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    int64_t res = 365 * (y - 1) + leaps(y) + cum[m - 1] + (m > 2 && leap ? 1 : 0) + d - 1;
    return res;
}

int64_t civil_secs(int ye, int mo, int da, int ho, int mi, int se)
{
    return days_civil(ye, mo, da) * 86400 + ho * 3600 + mi * 60 + se;
}
int64_t civil_secs(const Time& t) { return civil_secs(t.ye, t.mo, t.da, t.ho, t.mi, t.se); }

Time secs_civil(int64_t s)
{
    int64_t day = s >= 0 ? s / 86400 : -((-s + 86399) / 86400);
    int64_t sec = s - day * 86400;
    int ye      = (int)(day / 365.2425) + 1;
    while (days_civil(ye, 1, 1) > day)
        --ye;
    while (days_civil(ye + 1, 1, 1) <= day)
        ++ye;
    int mo = 12;
    while (days_civil(ye, mo, 1) > day)
        --mo;
    return Time(ye, mo, (int)(day - days_civil(ye, mo, 1)) + 1, sec / 3600, sec / 60 % 60, sec % 60);
}

// --- containers -----------------------------------------------------------

bool MOr::match(const Type& t) const
{
    for (auto& a : alts)
        if (a.match(t))
            return true;
    return false;
}

std::string MOr::text(Gen* g) const
{
    std::string res;
    for (auto& a : alts)
    {
        if (!res.empty())
        {
            if (g)
                res += g->pick<std::string>({" or ", " OR ", "  or\t", " Or "});
            else
                res += " or ";
        }
        res += a.text;
    }
    return res;
}

const char* tag_of(TypeCode code)
{
    switch (code)
    {
        case TYPE_REFTIME: return "reftime";
        case TYPE_ORIGIN: return "origin";
        case TYPE_PRODUCT: return "product";
        case TYPE_LEVEL: return "level";
        case TYPE_TIMERANGE: return "timerange";
        case TYPE_AREA: return "area";
        case TYPE_PRODDEF: return "proddef";
        case TYPE_RUN: return "run";
        case TYPE_TASK: return "task";
        case TYPE_QUANTITY: return "quantity";
        default: throw std::runtime_error("tag_of: unsupported type");
    }
}

bool MExpr::match(const Metadata& md) const
{
    for (auto& p : parts)
    {
        auto t = md.get(p.first);
        if (!t)
            return false;
        if (!p.second.match(*t))
            return false;
    }
    return true;
}

std::string MExpr::text(Gen* g) const
{
    std::string res;
    std::vector<std::string> segs;
    for (auto& p : parts)
    {
        std::string tag = tag_of(p.first);
        if (g && g->chance(1, 5))
            tag[0] = toupper(tag[0]);
        if (g && g->chance(1, 5))
            tag = g->pick<std::string>({tag + " ", " " + tag});
        std::string sep = g && g->chance(1, 4) ? ": " : ":";
        segs.push_back(tag + sep + p.second.text(g));
    }
    if (g)
        g->shuffle(segs);
    for (auto& s : segs)
    {
        if (!res.empty())
            res += g ? g->pick<std::string>({"; ", ";", "\n", ";;", " ;\n"}) : "; ";
        res += s;
    }
    if (g && g->chance(1, 8))
        res += g->pick<std::string>({";", "\n", " ; ", "  "});
    return res;
}

// --- reference times ------------------------------------------------------

bool RTest::match(int64_t t) const
{
    if (has_lo && t < lo)
        return false;
    if (has_hi && t >= hi)
        return false;
    int tod = t % 86400;
    if (has_tod && (tod < tod_lo || tod > tod_hi))
        return false;
    if (has_step && (tod < step_base % step_rep || (tod - step_base % step_rep) % step_rep != 0))
        return false;
    return true;
}

bool RTExpr::match(int64_t t) const
{
    for (auto& r : tests)
        if (!r.match(t))
            return false;
    return true;
}

namespace {

// A partially specified date, fields after depth are not set
struct Partial
{
    int f[6] = {0, 1, 1, 0, 0, 0};
    unsigned depth = 1;

    int64_t lo() const
    {
        return civil_secs(f[0], depth > 1 ? f[1] : 1, depth > 2 ? f[2] : 1, depth > 3 ? f[3] : 0, depth > 4 ? f[4] : 0,
                          depth > 5 ? f[5] : 0);
    }
    /// first instant after
    int64_t hi() const
    {
        switch (depth)
        {
            case 1: return civil_secs(f[0] + 1, 1, 1, 0, 0, 0);
            case 2: return civil_secs(f[0], f[1] + 1, 1, 0, 0, 0);
            case 3: return lo() + 86400;
            case 4: return lo() + 3600;
            case 5: return lo() + 60;
            default: return lo() + 1;
        }
    }
    void add(const int* val, unsigned vdepth, int sign)
    {
        unsigned d = std::max(depth, vdepth);
        int cur[6];
        for (unsigned i = 0; i < 6; ++i)
            cur[i] = depth > i ? f[i] : (i == 1 || i == 2 ? 1 : 0);
        int64_t s = days_civil(cur[0] + sign * val[0], cur[1] + sign * val[1], cur[2]) * 86400 +
                    (int64_t)sign * val[2] * 86400 + (cur[3] + (int64_t)sign * val[3]) * 3600 +
                    (cur[4] + (int64_t)sign * val[4]) * 60 + cur[5] + (int64_t)sign * val[5];
        Time t = secs_civil(s);
        f[0]   = t.ye;
        f[1]   = t.mo;
        f[2]   = t.da;
        f[3]   = t.ho;
        f[4]   = t.mi;
        f[5]   = t.se;
        depth  = d;
    }
    std::string text(Gen& g) const
    {
        char buf[64];
        bool pad = !g.chance(1, 6);
        snprintf(buf, 64, "%04d", f[0]);
        std::string res = buf;
        if (depth > 1)
        {
            snprintf(buf, 64, pad ? "-%02d" : "-%d", f[1]);
            res += buf;
        }
        if (depth > 2)
        {
            snprintf(buf, 64, pad ? "-%02d" : "-%d", f[2]);
            res += buf;
        }
        if (depth > 3)
        {
            bool iso = depth > 5 && g.chance(1, 6);
            snprintf(buf, 64, iso ? "T%02d" : " %02d", f[3]);
            res += buf;
            if (depth > 4)
            {
                snprintf(buf, 64, ":%02d", f[4]);
                res += buf;
            }
            if (depth > 5)
            {
                snprintf(buf, 64, iso ? ":%02dZ" : ":%02d", f[5]);
                res += buf;
            }
        }
        return res;
    }
};

struct Ival
{
    int v[6] = {0, 0, 0, 0, 0, 0};
    unsigned depth = 0;
    std::string text;
};

Ival gen_ival(Gen& g)
{
    Ival res;
    unsigned n = g.chance(1, 3) ? 2 : 1;
    for (unsigned i = 0; i < n; ++i)
    {
        int num     = g.range(1, 5);
        unsigned u  = g.below(7);
        static const std::vector<std::vector<std::string>> names = {
            {"year", "years", "y"},
            {"month", "months"},
            {"day", "days", "d", "da"},
            {"hour", "hours", "h"},
            {"minute", "minutes", "min", "m"},
            {"second", "seconds", "sec", "s"},
            {"week", "weeks", "w"},
        };
        std::string name = g.pick(names[u]);
        if (u >= 3 && u <= 5)
            num = g.range(1, 70);
        std::string t;
        if (num == 1 && g.chance(1, 3))
            t = (name[0] == 'h' ? "an " : "a ") + name;
        else
            t = std::to_string(num) + (g.chance(1, 3) ? "" : " ") + name;
        if (u == 6)
            res.v[2] += num * 7;
        else
            res.v[u] += num;
        if (!res.text.empty())
            res.text += g.flip() ? " and " : " ";
        res.text += t;
    }
    for (unsigned i = 0; i < 6; ++i)
        if (res.v[i])
            res.depth = i + 1;
    return res;
}

void easter(int y, int& m, int& d)
{
    // Butcher-Meeus
    int a = y % 19, b = y / 100, c = y % 100;
    int dd = b / 4, e = b % 4, f = (b + 8) / 25, gg = (b - f + 1) / 3;
    int h = (19 * a + b - dd - gg + 15) % 30, i = c / 4, k = c % 4;
    int l = (32 + 2 * e + 2 * i - h - k) % 7, mm = (a + 11 * h + 22 * l) / 451;
    m = (h + l - 7 * mm + 114) / 31;
    d = (h + l - 7 * mm + 114) % 31 + 1;
}

Partial from_secs(int64_t s, unsigned depth)
{
    Partial p;
    Time t = secs_civil(s);
    p.f[0] = t.ye;
    p.f[1] = t.mo;
    p.f[2] = t.da;
    p.f[3] = t.ho;
    p.f[4] = t.mi;
    p.f[5] = t.se;
    p.depth = depth;
    return p;
}

// daytime: returns depth set (1..3) and values
unsigned gen_daytime(Gen& g, int* v, std::string& text, const Time* hint)
{
    if (g.chance(1, 8))
    {
        switch (g.below(3))
        {
            case 0: text = "midday"; v[0] = 12; break;
            case 1: text = "noon"; v[0] = 12; break;
            default: text = "midnight"; v[0] = 0; break;
        }
        v[1] = v[2] = 0;
        return 3;
    }
    v[0] = g.below(24);
    v[1] = g.below(60);
    v[2] = g.below(60);
    if (hint && g.chance(2, 3))
    {
        v[0] = hint->ho;
        v[1] = hint->mi;
        v[2] = hint->se;
    }
    unsigned depth = 1 + g.below(3);
    char buf[32];
    if (depth == 1)
        snprintf(buf, 32, g.chance(1, 5) ? "%d" : "%02d", v[0]);
    else if (depth == 2)
        snprintf(buf, 32, "%02d:%02d", v[0], v[1]);
    else
        snprintf(buf, 32, "%02d:%02d:%02d", v[0], v[1], v[2]);
    text = buf;
    return depth;
}

Partial gen_absolute(Gen& g, const RTOpts& o, const Time* hint, std::string& text)
{
    Partial p;
    unsigned kind = g.weighted({12, o.now >= 0 ? 6u : 0u, 1, 4});
    if (kind == 3)
    {
        // date modified by an interval
        std::string base;
        RTOpts o1 = o;
        Partial b;
        // a base that is a date, without further modifications
        Time t = o.near_dates ? gen_time_near(g) : gen_time(g);
        if (hint && g.flip())
            t = *hint;
        // stay far from the limits of the calendar
        if (t.ye < 500 || t.ye > 9500)
            t.ye = 2007, t.da = std::min(t.da, 28);
        b      = from_secs(civil_secs(t), 1 + g.below(6));
        base   = b.text(g);
        unsigned n = g.chance(1, 4) ? 2 : 1;
        bool post  = g.flip();
        for (unsigned i = 0; i < n; ++i)
        {
            auto iv   = gen_ival(g);
            bool plus = g.flip();
            // prefix forms apply from the inside out, postfix forms from left to right
            if (post)
                base = base + (plus ? " + " : " - ") + iv.text;
            else
                base = iv.text + (plus ? " after " : " before ") + base;
            b.add(iv.v, iv.depth, plus ? 1 : -1);
        }
        text = base;
        return b;
    }
    if (kind == 2)
    {
        int y = hint && g.flip() && hint->ye > 1600 && hint->ye < 9000 ? hint->ye : g.range(1990, 2030);
        bool sl = g.flip();
        int m, d;
        easter(y, m, d);
        int64_t s = civil_secs(y, m, d, 0, 0, 0);
        if (sl)
        {
            s += 34 * 86400;
            text = g.flip() ? "san luca " + std::to_string(y) : "processione san luca " + std::to_string(y);
        }
        else
            text = "easter " + std::to_string(y);
        p = from_secs(s, 3);
        return p;
    }
    if (kind == 1)
    {
        switch (g.below(5))
        {
            case 0: text = "now"; return from_secs(o.now, 6);
            case 1: {
                auto iv = gen_ival(g);
                text    = iv.text + " ago";
                p       = from_secs(o.now, 6);
                p.add(iv.v, iv.depth, -1);
                p.depth = iv.depth;
                return p;
            }
            case 2: text = "today"; p = from_secs(o.now, 3); break;
            case 3: text = "yesterday"; p = from_secs(o.now - 86400, 3); break;
            default: text = "tomorrow"; p = from_secs(o.now + 86400, 3); break;
        }
        if (g.chance(1, 3))
        {
            std::string t;
            int v[3];
            unsigned d = gen_daytime(g, v, t, hint);
            text += " " + t;
            p.f[3]  = v[0];
            p.f[4]  = v[1];
            p.f[5]  = v[2];
            p.depth = 3 + d;
        }
        if (g.chance(1, 3))
        {
            auto iv   = gen_ival(g);
            bool plus = g.flip();
            if (g.flip())
                text = text + (plus ? " + " : " - ") + iv.text;
            else
                text = iv.text + (plus ? " after " : " before ") + text;
            p.add(iv.v, iv.depth, plus ? 1 : -1);
        }
        return p;
    }
    Time t = o.near_dates ? gen_time_near(g) : gen_time(g);
    if (hint && g.flip())
        t = *hint;
    if (t.ye >= 9998)
        t = gen_time_near(g);
    int64_t s = civil_secs(t);
    if (g.chance(1, 4))
        s += g.pick<int>({-1, 1, 60, -60, 3600, -3600, 86400, -86400});
    if (s < civil_secs(1, 1, 2, 0, 0, 0) || s > civil_secs(9998, 12, 31, 0, 0, 0))
        s = civil_secs(t);
    p    = from_secs(s, 1 + g.below(6));
    // A year and then a time: the first day of the year is meant
    if (p.depth < 3 && g.chance(1, 8))
    {
        std::string dt;
        int v[3];
        text       = p.text(g);
        unsigned d;
        // a word here would be read as a time unit
        do
            d = gen_daytime(g, v, dt, hint);
        while (isalpha(dt[0]));
        text += " " + dt;
        if (p.depth < 2)
            p.f[1] = 1;
        p.f[2]  = 1;
        p.f[3]  = v[0];
        p.f[4]  = v[1];
        p.f[5]  = v[2];
        p.depth = 3 + d;
        return p;
    }
    text = p.text(g);
    return p;
}

int gen_step(Gen& g, std::string& text)
{
    static const std::vector<std::vector<std::string>> names = {
        {"h", "hour", "hours"}, {"m", "min", "minute", "minutes"}, {"s", "sec", "second", "seconds"}};
    unsigned u = g.weighted({3, 1, 1});
    int val, mul;
    switch (u)
    {
        case 0: val = g.pick<int>({12, 6, 3, 1, 24, 7, 5, 36}); mul = 3600; break;
        case 1: val = g.pick<int>({30, 10, 60, 7, 90, 1}); mul = 60; break;
        default: val = g.pick<int>({1800, 3600, 60, 5, 7, 86400}); mul = 1; break;
    }
    std::string sp = g.chance(1, 4) ? " " : "";
    text = (g.chance(1, 4) ? "every " : "%" + sp) + std::to_string(val) + sp + g.pick(names[u]);
    return val * mul;
}

} // namespace

RTExpr gen_reftime(Gen& g, const RTOpts& o, const Time* hint)
{
    RTExpr res;
    unsigned n = 1 + g.below(o.max_terms);
    for (unsigned i = 0; i < n; ++i)
    {
        std::string term;
        unsigned kind = o.only_dates ? 0 : g.weighted({8, 3, 2});
        int timebase  = 0;
        if (kind == 0)
        {
            RTest t;
            std::string text;
            Partial p = gen_absolute(g, o, hint, text);
            timebase  = p.lo() % 86400;
            std::string op;
            switch (g.below(5))
            {
                case 0: op = g.flip() ? ">=" : "from "; t.has_lo = true; t.lo = p.lo(); break;
                case 1: op = g.chance(3, 4) ? "<=" : "until "; t.has_hi = true; t.hi = p.hi(); break;
                case 2: op = ">"; t.has_lo = true; t.lo = p.hi(); break;
                case 3: op = "<"; t.has_hi = true; t.hi = p.lo(); break;
                default:
                    op = g.flip() ? "=" : "==";
                    t.has_lo = t.has_hi = true;
                    t.lo = p.lo();
                    t.hi = p.hi();
            }
            if (g.chance(1, 6))
                op += " ";
            term = op + text;
            res.tests.push_back(t);
        }
        else if (kind == 1)
        {
            RTest t;
            int v[3];
            std::string text;
            unsigned d = gen_daytime(g, v, text, hint);
            int lo     = v[0] * 3600 + (d > 1 ? v[1] * 60 : 0) + (d > 2 ? v[2] : 0);
            int hi     = v[0] * 3600 + (d > 1 ? v[1] : 59) * 60 + (d > 2 ? v[2] : 59);
            timebase   = lo;
            t.has_tod  = true;
            std::string op;
            switch (g.below(5))
            {
                case 0: op = ">="; t.tod_lo = lo; break;
                case 1: op = "<="; t.tod_hi = hi; break;
                case 2: op = ">"; t.tod_lo = hi + 1; break;
                case 3: op = "<"; t.tod_hi = lo - 1; break;
                default: op = g.flip() ? "=" : "=="; t.tod_lo = lo; t.tod_hi = hi;
            }
            term = op + text;
            res.tests.push_back(t);
        }
        if (kind == 2 || (!o.only_dates && g.chance(1, 5)))
        {
            RTest t;
            std::string text;
            t.has_step = true;
            if (g.chance(1, 4))
            {
                int v[3];
                std::string dt;
                unsigned d;
                do
                    d = gen_daytime(g, v, dt, hint);
                while (isalpha(dt[0]));
                timebase = v[0] * 3600 + (d > 1 ? v[1] * 60 : 0) + (d > 2 ? v[2] : 0);
                text     = "@" + dt;
            }
            std::string st;
            t.step_rep  = gen_step(g, st);
            t.step_base = timebase;
            if (!text.empty() && (isalpha(st[0]) || g.flip()))
                text += " ";
            text += st;
            if (!term.empty())
                term += isalpha(st[0]) || text[0] == '@' || g.flip() ? " " : "";
            term += text;
            res.tests.push_back(t);
        }
        if (!res.text.empty())
            res.text += g.chance(1, 4) ? ", " : ",";
        res.text += term;
    }
    return res;
}

// --- items ----------------------------------------------------------------

namespace {

struct Fields
{
    Gen& g;
    bool hinted;
    std::vector<std::string> txt;

    Fields(Gen& g, bool hinted) : g(g), hinted(hinted) {}

    /// Choose if a field is given
    bool given() { return g.chance(2, 3); }
    int64_t perturb(int64_t v, int64_t max)
    {
        if (hinted && !g.chance(1, 7))
            return v;
        return g.flip() ? g.below(std::min<int64_t>(6, max)) : g.below(max);
    }
    std::string join(const std::string& style)
    {
        while (!txt.empty() && txt.back().empty())
        {
            if (g.chance(1, 4))
                break;
            txt.pop_back();
        }
        std::string res = style;
        for (auto& t : txt)
            res += "," + t;
        return res;
    }
};

using OptI = std::pair<bool, int64_t>;

MAlt ints_alt(Gen& g, const std::string& style, const std::vector<int64_t>& vals, const std::vector<int64_t>& maxs, bool hinted,
              std::function<bool(const Type&, std::vector<int64_t>&)> getter)
{
    Fields f(g, hinted);
    std::vector<OptI> want;
    for (size_t i = 0; i < vals.size(); ++i)
    {
        if (f.given())
        {
            int64_t v = f.perturb(vals[i], maxs[i]);
            want.emplace_back(true, v);
            f.txt.push_back(std::to_string(v));
        }
        else
        {
            want.emplace_back(false, 0);
            f.txt.push_back("");
        }
    }
    MAlt res;
    res.text  = f.join(style);
    res.match = [want, getter](const Type& t) {
        std::vector<int64_t> v;
        if (!getter(t, v))
            return false;
        for (size_t i = 0; i < want.size(); ++i)
            if (want[i].first && want[i].second != v[i])
                return false;
        return true;
    };
    return res;
}

template <typename T> std::vector<int64_t> vec(std::initializer_list<T> l) { return std::vector<int64_t>(l.begin(), l.end()); }

// --- value bags, read from their text form

struct BagVal
{
    bool is_int;
    int i;
    std::string s;
    bool operator==(const BagVal& o) const { return is_int == o.is_int && i == o.i && s == o.s; }
};
using Bag = std::map<std::string, BagVal>;

Bag read_bag(const ValueBag& vb)
{
    // Decode the documented binary format independently: name length, name, type
    std::vector<uint8_t> buf;
    core::BinaryEncoder enc(buf);
    vb.encode(enc);
    Bag res;
    size_t pos = 0;
    while (pos < buf.size())
    {
        unsigned len = buf[pos++];
        std::string name((const char*)buf.data() + pos, len);
        pos += len;
        uint8_t lead = buf[pos++];
        BagVal v{true, 0, ""};
        switch (lead >> 6)
        {
            case 0: v.i = (lead & 0x20) ? (int)(lead & 0x3f) - 64 : lead & 0x3f; break;
            case 1: {
                unsigned nbytes = (lead & 7) + 1;
                uint32_t x      = 0;
                for (unsigned i = 0; i < nbytes; ++i)
                    x = x << 8 | buf[pos++];
                v.i = (lead & 0x8) ? (int)(-(int64_t)x) : (int)x;
                break;
            }
            case 2:
                v.is_int = false;
                v.s.assign((const char*)buf.data() + pos, lead & 0x3f);
                pos += lead & 0x3f;
                break;
            default: throw std::runtime_error("unsupported value encoding");
        }
        res[name] = v;
    }
    return res;
}

bool subset(const Bag& want, const ValueBag& vb)
{
    Bag have = read_bag(vb);
    for (auto& w : want)
    {
        auto i = have.find(w.first);
        if (i == have.end() || !(i->second == w.second))
            return false;
    }
    return true;
}

bool plain_word(const std::string& s)
{
    if (s.empty())
        return false;
    if (!isalpha(s[0]))
        return false;
    for (auto c : s)
        if (!isalnum(c) && c != '_')
            return false;
    return true;
}

bool quotable(const std::string& s)
{
    // what can travel inside a matcher expression
    for (unsigned char c : s)
        if (c < 32 || c == ';' || c == '"' || c == '\\' || c > 126)
            return false;
    return s.find(" or ") == std::string::npos;
}

std::string bag_text(Gen& g, const Bag& b)
{
    std::string res;
    std::vector<std::string> segs;
    for (auto& i : b)
    {
        std::string t = i.first + (g.chance(1, 8) ? " = " : "=");
        if (i.second.is_int)
            t += std::to_string(i.second.i);
        else if (plain_word(i.second.s) && g.flip())
            t += i.second.s;
        else
            t += "\"" + i.second.s + "\"";
        segs.push_back(t);
    }
    g.shuffle(segs);
    for (auto& s : segs)
    {
        if (!res.empty())
            res += g.chance(1, 5) ? ", " : ",";
        res += s;
    }
    return res;
}

Bag gen_want_bag(Gen& g, const ValueBag& hint, const ItemOpts& o)
{
    Bag have = read_bag(hint);
    Bag want;
    for (auto& i : have)
    {
        if (g.chance(1, 2))
            continue;
        if (!i.second.is_int && !quotable(i.second.s))
            continue;
        if (!plain_word(i.first))
            continue;
        want[i.first] = i.second;
        if (g.chance(1, 8))
        {
            auto& w = want[i.first];
            if (g.flip())
            {
                w.is_int = !w.is_int;
                if (w.is_int)
                    w.s.clear();
                else
                {
                    w.s = std::to_string(w.i);
                    w.i = 0;
                }
            }
            else if (w.is_int)
                w.i += 1;
            else
                w.s += "x";
        }
    }
    if (g.chance(1, 8))
        want[g.pick<std::string>({"ct", "nn", "lat", "a"})] = BagVal{true, (int)g.below(10), ""};
    return want;
}

// --- time units

// seconds (true) or months (false) and multiplier
bool unit_mul(int unit, int64_t& mul)
{
    switch (unit)
    {
        case 0: mul = 60; return true;
        case 1: mul = 3600; return true;
        case 2: mul = 86400; return true;
        case 10: mul = 3 * 3600; return true;
        case 11: mul = 6 * 3600; return true;
        case 12: mul = 12 * 3600; return true;
        case 13:
        case 254: mul = 1; return true;
        case 3: mul = 1; return false;
        case 4: mul = 12; return false;
        case 5: mul = 120; return false;
        case 6: mul = 360; return false;
        case 7: mul = 1200; return false;
        default: throw std::runtime_error("unknown time unit");
    }
}

// a duration with one of the suffixes s, m, h, d, mo, y
std::string dur_text(Gen& g, int64_t val, bool secs)
{
    if (val == 0 && g.flip())
        return "0";
    std::vector<std::pair<int64_t, const char*>> opts;
    if (secs)
        opts = {{1, "s"}, {60, "m"}, {3600, "h"}, {86400, "d"}};
    else
        opts = {{1, "mo"}, {12, "y"}};
    std::vector<std::pair<int64_t, const char*>> ok;
    for (auto& o : opts)
        if (val % o.first == 0)
            ok.push_back(o);
    auto o = g.pick(ok);
    return std::to_string(val / o.first) + o.second;
}

struct TR
{
    unsigned style;
    // GRIB1
    unsigned type = 0;
    bool secs     = true;
    int64_t p1 = 0, p2 = 0;
    bool use1 = false, use2 = false;
    // GRIB2, BUFR
    unsigned unit = 0;
    // timedef view
    bool has_step = false, step_secs = true;
    int64_t step  = 0;
    int proc      = -1;
    bool has_dur = false, dur_secs = true;
    int64_t dur  = 0;
};

TR read_tr(const Timerange& v)
{
    TR r;
    r.style = (unsigned)v.style();
    int64_t mul;
    switch (v.style())
    {
        case timerange::Style::GRIB1: {
            unsigned type, unit, p1, p2;
            v.get_GRIB1(type, unit, p1, p2);
            r.type = type;
            r.secs = unit_mul(unit, mul);
            static const std::set<unsigned> only1{0}, none{1}, only2{118, 123, 124};
            if (type == 10)
            {
                r.use1 = true;
                r.p1   = (int64_t)(p1 << 8 | p2) * mul;
            }
            else if (only1.count(type))
            {
                r.use1 = true;
                r.p1   = p1 * mul;
            }
            else if (none.count(type))
                ;
            else if (only2.count(type))
            {
                r.use2 = true;
                r.p2   = p2 * mul;
            }
            else
            {
                r.use1 = r.use2 = true;
                r.p1            = p1 * mul;
                r.p2            = p2 * mul;
            }
            switch (type)
            {
                case 0:
                case 1:
                    r.has_step = true;
                    r.step     = p1 * mul;
                    r.proc     = 254;
                    r.has_dur  = true;
                    r.dur      = 0;
                    break;
                case 2:
                case 3:
                case 4:
                case 5:
                    r.has_step = true;
                    r.step     = p2 * mul;
                    r.proc     = type == 2 ? 205 : type == 3 ? 0 : type == 4 ? 1 : 4;
                    r.has_dur  = true;
                    r.dur      = ((int64_t)p2 - p1) * mul;
                    break;
                case 10:
                case 13:
                    // an instant: type 10 has a 16 bits step, and type 13 is an analysis
                    r.has_step = true;
                    r.step     = type == 10 ? (int64_t)(p1 << 8 | p2) * mul : 0;
                    r.proc     = 254;
                    r.has_dur  = true;
                    r.dur      = 0;
                    break;
                default: break;
            }
            r.step_secs = r.dur_secs = r.secs;
            break;
        }
        case timerange::Style::GRIB2: {
            unsigned type, unit;
            signed long p1, p2;
            v.get_GRIB2(type, unit, p1, p2);
            r.type = type;
            r.unit = unit;
            r.p1   = p1;
            r.p2   = p2;
            break;
        }
        case timerange::Style::BUFR: {
            unsigned unit, val;
            v.get_BUFR(unit, val);
            r.unit      = unit;
            r.secs      = unit_mul(unit, mul);
            r.p1        = val * mul;
            r.has_step  = true;
            r.step      = r.p1;
            r.step_secs = r.secs;
            break;
        }
        case timerange::Style::TIMEDEF: {
            timerange::TimedefUnit su, tu;
            unsigned sl, st, tl;
            v.get_Timedef(su, sl, st, tu, tl);
            if (su != timerange::UNIT_MISSING)
            {
                r.has_step  = true;
                r.step_secs = unit_mul(su, mul);
                r.step      = sl * mul;
            }
            if (st != 255)
            {
                r.proc = st;
                if (tu != timerange::UNIT_MISSING)
                {
                    r.has_dur  = true;
                    r.dur_secs = unit_mul(tu, mul);
                    r.dur      = tl * mul;
                }
            }
            break;
        }
    }
    return r;
}

MAlt gen_timerange_alt(Gen& g, const Type* hint, const ItemOpts& o)
{
    std::unique_ptr<Type> own;
    if (!hint)
    {
        own  = gen_item(g, TYPE_TIMERANGE, o);
        hint = own.get();
    }
    const Timerange& h = dynamic_cast<const Timerange&>(*hint);
    TR t               = read_tr(h);
    MAlt res;
    // type 10 has not been defined for Timedef expressions
    bool as_timedef = h.style() == timerange::Style::TIMEDEF || g.chance(1, 3);
    if (as_timedef)
    {
        OptI step{false, 0}, proc{false, 0}, dur{false, 0};
        bool step_missing = false, dur_missing = false, step_secs = true, dur_secs = true;
        std::vector<std::string> txt(3);
        if (g.chance(2, 3))
        {
            step.first = true;
            if (t.has_step && t.step < 0x7fff0000 && !(t.step == 0 && !t.step_secs))
            {
                step.second = t.step;
                step_secs   = t.step_secs;
                if (g.chance(1, 8))
                    step.second += 3600;
                txt[0] = dur_text(g, step.second, step_secs);
            }
            else
            {
                step_missing = true;
                txt[0]       = "-";
            }
        }
        bool proc_missing = false;
        if (g.chance(2, 3))
        {
            proc.first = true;
            if (t.proc == -1)
            {
                proc_missing = true;
                proc.second  = -1;
                txt[1]       = "-";
            }
            else
            {
                proc.second = g.chance(1, 8) ? g.below(6) : t.proc;
                txt[1]      = std::to_string(proc.second);
            }
        }
        if (!proc_missing && g.chance(2, 3))
        {
            dur.first = true;
            if (t.has_dur && t.dur >= 0 && t.dur < 0x7fff0000 && !(t.dur == 0 && !t.dur_secs))
            {
                dur.second = t.dur;
                dur_secs   = t.dur_secs;
                if (g.chance(1, 8))
                    dur.second += 3600;
                txt[2] = dur_text(g, dur.second, dur_secs);
            }
            else
            {
                dur_missing = true;
                txt[2]      = "-";
            }
        }
        while (!txt.empty() && txt.back().empty())
            txt.pop_back();
        res.text = "Timedef";
        for (auto& x : txt)
            res.text += "," + x;
        // "0" stands for zero seconds
        if (step.first && !step_missing && step.second == 0)
            step_secs = true;
        if (dur.first && !dur_missing && dur.second == 0)
            dur_secs = true;
        res.match = [=](const Type& x) {
            TR v = read_tr(dynamic_cast<const Timerange&>(x));
            if (step.first)
            {
                if (step_missing)
                {
                    if (v.has_step)
                        return false;
                }
                else if (!v.has_step || v.step != step.second || v.step_secs != step_secs)
                    return false;
            }
            if (proc.first && v.proc != proc.second)
                return false;
            if (dur.first)
            {
                if (dur_missing)
                {
                    if (v.has_dur)
                        return false;
                }
                else if (!v.has_dur || v.dur != dur.second || v.dur_secs != dur_secs)
                    return false;
            }
            return true;
        };
        return res;
    }
    switch (h.style())
    {
        case timerange::Style::GRIB1: {
            OptI type{false, 0}, p1{false, 0}, p2{false, 0};
            std::vector<std::string> txt(3);
            bool secs = t.secs;
            if (g.chance(2, 3))
            {
                type   = {true, g.chance(1, 8) ? g.below(6) : t.type};
                txt[0] = std::to_string(type.second);
            }
            if (g.chance(2, 3) && t.p1 < 0x7fff0000)
            {
                p1     = {true, t.p1 + (g.chance(1, 8) ? (secs ? 3600 : 12) : 0)};
                txt[1] = dur_text(g, p1.second, secs);
            }
            if (g.chance(2, 3))
            {
                p2     = {true, t.p2 + (g.chance(1, 8) ? (secs ? 3600 : 12) : 0)};
                txt[2] = dur_text(g, p2.second, secs);
            }
            while (!txt.empty() && txt.back().empty())
                txt.pop_back();
            res.text = "GRIB1";
            for (auto& x : txt)
                res.text += "," + x;
            res.match = [=](const Type& x) {
                TR v = read_tr(dynamic_cast<const Timerange&>(x));
                if (v.style != (unsigned)timerange::Style::GRIB1)
                    return false;
                if (type.first && type.second != v.type)
                    return false;
                // Values are compared after reducing them to seconds or
                // months; zero is the same in any unit
                if (p1.first && v.use1 && (p1.second != v.p1 || (p1.second != 0 && v.secs != secs)))
                    return false;
                if (p2.first && v.use2 && (p2.second != v.p2 || (p2.second != 0 && v.secs != secs)))
                    return false;
                return true;
            };
            return res;
        }
        case timerange::Style::GRIB2: {
            OptI want[4];
            int64_t vals[4] = {t.type, t.unit, t.p1, t.p2};
            Fields f(g, true);
            for (unsigned i = 0; i < 4; ++i)
            {
                want[i] = {false, 0};
                // negative p1 and p2 cannot be expressed
                if (vals[i] < 0 || !f.given())
                    f.txt.push_back("");
                else
                {
                    want[i] = {true, g.chance(1, 8) ? (int64_t)g.below(6) : vals[i]};
                    f.txt.push_back(std::to_string(want[i].second));
                }
            }
            res.text                = f.join("GRIB2");
            std::vector<OptI> wantv(want, want + 4);
            res.match               = [wantv](const Type& x) {
                TR v = read_tr(dynamic_cast<const Timerange&>(x));
                if (v.style != (unsigned)timerange::Style::GRIB2)
                    return false;
                int64_t vals[4] = {v.type, v.unit, v.p1, v.p2};
                for (unsigned i = 0; i < 4; ++i)
                    if (wantv[i].first && wantv[i].second != vals[i])
                        return false;
                return true;
            };
            return res;
        }
        default: {
            bool given = g.chance(4, 5) && t.p1 < 0x7fff0000;
            int64_t p1 = t.p1 + (g.chance(1, 8) ? (t.secs ? 3600 : 12) : 0);
            bool secs  = t.secs;
            res.text   = given ? "BUFR," + dur_text(g, p1, secs) : "BUFR";
            res.match  = [=](const Type& x) {
                TR v = read_tr(dynamic_cast<const Timerange&>(x));
                if (v.style != (unsigned)timerange::Style::BUFR)
                    return false;
                if (!given)
                    return true;
                return v.p1 == p1 && (p1 == 0 || v.secs == secs);
            };
            return res;
        }
    }
}

MAlt str_fields(Gen& g, const std::string& style, const std::vector<std::string>& vals,
                std::function<bool(const Type&, std::vector<std::string>&)> getter)
{
    std::vector<std::pair<bool, std::string>> want;
    Fields f(g, true);
    for (auto& v : vals)
    {
        bool ok = !v.empty();
        for (auto ch : v)
            if (!isalnum((unsigned char)ch) && ch != '_')
                ok = false;
        if (ok && g.chance(2, 3))
        {
            std::string s = v;
            if (g.chance(1, 8))
                s += "x";
            else if (g.chance(1, 10) && s.size() > 1)
                s.pop_back();
            want.emplace_back(true, s);
            f.txt.push_back(s);
        }
        else
        {
            want.emplace_back(false, "");
            f.txt.push_back("");
        }
    }
    MAlt res;
    res.text  = f.join(style);
    res.match = [want, getter](const Type& t) {
        std::vector<std::string> v;
        if (!getter(t, v))
            return false;
        for (size_t i = 0; i < want.size(); ++i)
            if (want[i].first && want[i].second != v[i])
                return false;
        return true;
    };
    return res;
}

std::string num(double d)
{
    char buf[40];
    snprintf(buf, 40, "%g", d);
    return buf;
}

std::string casemix(Gen& g, const std::string& s)
{
    std::string r = s;
    if (g.chance(1, 4))
        for (auto& c : r)
            c = g.flip() ? tolower(c) : toupper(c);
    return r;
}

} // namespace

MAlt gen_alt(Gen& g, TypeCode code, const Type* hint, const ItemOpts& o)
{
    std::unique_ptr<Type> own;
    if (!hint)
    {
        own  = gen_item(g, code, o);
        hint = own.get();
    }
    switch (code)
    {
        case TYPE_REFTIME: {
            RTOpts ro;
            ro.near_dates = o.small;
            Time t        = dynamic_cast<const reftime::Position&>(*hint).get_Position();
            auto e        = gen_reftime(g, ro, &t);
            MAlt res;
            res.text  = e.text;
            res.match = [e](const Type& x) {
                return e.match(civil_secs(dynamic_cast<const reftime::Position&>(x).get_Position()));
            };
            return res;
        }
        case TYPE_ORIGIN: {
            const Origin& v = dynamic_cast<const Origin&>(*hint);
            auto sty        = v.style();
            unsigned a, b, c, d, e;
            switch (sty)
            {
                case origin::Style::GRIB1:
                    v.get_GRIB1(a, b, c);
                    return ints_alt(g, "GRIB1", {a, b, c}, {256, 256, 256}, true, [](const Type& t, std::vector<int64_t>& r) {
                        const Origin& v = dynamic_cast<const Origin&>(t);
                        if (v.style() != origin::Style::GRIB1)
                            return false;
                        unsigned a, b, c;
                        v.get_GRIB1(a, b, c);
                        r = {a, b, c};
                        return true;
                    });
                case origin::Style::GRIB2:
                    v.get_GRIB2(a, b, c, d, e);
                    return ints_alt(g, "GRIB2", {a, b, c, d, e}, {65536, 65536, 256, 256, 256}, true,
                                    [](const Type& t, std::vector<int64_t>& r) {
                                        const Origin& v = dynamic_cast<const Origin&>(t);
                                        if (v.style() != origin::Style::GRIB2)
                                            return false;
                                        unsigned a, b, c, d, e;
                                        v.get_GRIB2(a, b, c, d, e);
                                        r = {a, b, c, d, e};
                                        return true;
                                    });
                case origin::Style::BUFR:
                    v.get_BUFR(a, b);
                    return ints_alt(g, "BUFR", {a, b}, {256, 256}, true, [](const Type& t, std::vector<int64_t>& r) {
                        const Origin& v = dynamic_cast<const Origin&>(t);
                        if (v.style() != origin::Style::BUFR)
                            return false;
                        unsigned a, b;
                        v.get_BUFR(a, b);
                        r = {a, b};
                        return true;
                    });
                default: {
                    std::string x, y, z;
                    v.get_ODIMH5(x, y, z);
                    return str_fields(g, "ODIMH5", {x, y, z}, [](const Type& t, std::vector<std::string>& r) {
                        const Origin& v = dynamic_cast<const Origin&>(t);
                        if (v.style() != origin::Style::ODIMH5)
                            return false;
                        std::string x, y, z;
                        v.get_ODIMH5(x, y, z);
                        r = {x, y, z};
                        return true;
                    });
                }
            }
        }
        case TYPE_PRODUCT: {
            const Product& v = dynamic_cast<const Product&>(*hint);
            unsigned a, b, c, d, e, f;
            switch (v.style())
            {
                case product::Style::GRIB1:
                    v.get_GRIB1(a, b, c);
                    return ints_alt(g, "GRIB1", {a, b, c}, {256, 256, 256}, true, [](const Type& t, std::vector<int64_t>& r) {
                        const Product& v = dynamic_cast<const Product&>(t);
                        if (v.style() != product::Style::GRIB1)
                            return false;
                        unsigned a, b, c;
                        v.get_GRIB1(a, b, c);
                        r = {a, b, c};
                        return true;
                    });
                case product::Style::GRIB2:
                    v.get_GRIB2(a, b, c, d, e, f);
                    return ints_alt(g, "GRIB2", {a, b, c, d, e, f}, {65536, 256, 256, 256, 256, 256}, true,
                                    [](const Type& t, std::vector<int64_t>& r) {
                                        const Product& v = dynamic_cast<const Product&>(t);
                                        if (v.style() != product::Style::GRIB2)
                                            return false;
                                        unsigned a, b, c, d, e, f;
                                        v.get_GRIB2(a, b, c, d, e, f);
                                        r = {a, b, c, d, e, f};
                                        return true;
                                    });
                case product::Style::BUFR: {
                    ValueBag vb;
                    v.get_BUFR(a, b, c, vb);
                    auto getter = [](const Type& t, std::vector<int64_t>& r) {
                        const Product& v = dynamic_cast<const Product&>(t);
                        if (v.style() != product::Style::BUFR)
                            return false;
                        unsigned a, b, c;
                        ValueBag vb;
                        v.get_BUFR(a, b, c, vb);
                        r = {a, b, c};
                        return true;
                    };
                    MAlt base = ints_alt(g, "BUFR", {a, b, c}, {256, 256, 256}, true, getter);
                    Bag want  = gen_want_bag(g, vb, o);
                    if (want.empty())
                        return base;
                    base.text += ":" + bag_text(g, want);
                    auto m     = base.match;
                    base.match = [m, want](const Type& t) {
                        if (!m(t))
                            return false;
                        unsigned a, b, c;
                        ValueBag vb;
                        dynamic_cast<const Product&>(t).get_BUFR(a, b, c, vb);
                        return subset(want, vb);
                    };
                    return base;
                }
                case product::Style::ODIMH5: {
                    std::string x, y;
                    v.get_ODIMH5(x, y);
                    return str_fields(g, "ODIMH5", {x, y}, [](const Type& t, std::vector<std::string>& r) {
                        const Product& v = dynamic_cast<const Product&>(t);
                        if (v.style() != product::Style::ODIMH5)
                            return false;
                        std::string x, y;
                        v.get_ODIMH5(x, y);
                        r = {x, y};
                        return true;
                    });
                }
                default: {
                    v.get_VM2(a);
                    // numbers are limited to what a signed integer can hold
                    int64_t val = a > 0x7fffffff ? a & 0x7fffffff : a;
                    return ints_alt(g, "VM2", {val}, {10000}, true, [](const Type& t, std::vector<int64_t>& r) {
                        const Product& v = dynamic_cast<const Product&>(t);
                        if (v.style() != product::Style::VM2)
                            return false;
                        unsigned a;
                        v.get_VM2(a);
                        r = {a};
                        return true;
                    });
                }
            }
        }
        case TYPE_LEVEL: {
            const Level& v = dynamic_cast<const Level&>(*hint);
            switch (v.style())
            {
                case level::Style::GRIB1: {
                    unsigned a, b, c;
                    v.get_GRIB1(a, b, c);
                    static const std::set<unsigned> t1 = {100, 103, 105, 107, 109, 111, 113, 115, 117, 160};
                    static const std::set<unsigned> t2 = {101, 104, 106, 108, 110, 112, 114, 116, 141};
                    auto nvals                         = [](unsigned t) { return t1.count(t) ? 1 : t2.count(t) ? 2 : 0; };
                    Fields f(g, true);
                    std::vector<OptI> want;
                    int64_t vals[] = {a, b, c};
                    int n          = nvals(a);
                    for (int i = 0; i < 3; ++i)
                    {
                        bool given = i <= n ? g.chance(2, 3) : g.chance(1, 10);
                        if (given)
                        {
                            want.emplace_back(true, f.perturb(vals[i], 256));
                            f.txt.push_back(std::to_string(want.back().second));
                        }
                        else
                        {
                            want.emplace_back(false, 0);
                            f.txt.push_back("");
                        }
                    }
                    MAlt res;
                    res.text  = f.join("GRIB1");
                    res.match = [want, nvals](const Type& t) {
                        const Level& v = dynamic_cast<const Level&>(t);
                        if (v.style() != level::Style::GRIB1)
                            return false;
                        unsigned a, b, c;
                        v.get_GRIB1(a, b, c);
                        int64_t vals[] = {a, b, c};
                        int n          = nvals(a);
                        for (int i = 0; i < 3; ++i)
                        {
                            if (!want[i].first)
                                continue;
                            // a value that the level does not have cannot match
                            if (i > n)
                                return false;
                            if (want[i].second != vals[i])
                                return false;
                        }
                        return true;
                    };
                    return res;
                }
                case level::Style::GRIB2S:
                case level::Style::GRIB2D: {
                    bool dbl = v.style() == level::Style::GRIB2D;
                    unsigned a, b, c, d = 0, e = 0, f = 0;
                    if (dbl)
                        v.get_GRIB2D(a, b, c, d, e, f);
                    else
                        v.get_GRIB2S(a, b, c);
                    std::vector<int64_t> vals = {a, b, c, d, e, f};
                    vals.resize(dbl ? 6 : 3);
                    Fields ff(g, true);
                    std::vector<OptI> want;
                    for (size_t i = 0; i < vals.size(); ++i)
                    {
                        int64_t missing = i % 3 == 2 ? 0xffffffffll : 255;
                        if (!ff.given())
                        {
                            want.emplace_back(false, 0);
                            ff.txt.push_back("");
                            continue;
                        }
                        int64_t x = g.chance(1, 10) ? missing : ff.perturb(vals[i], i % 3 == 2 ? 100000 : 256);
                        want.emplace_back(true, x);
                        ff.txt.push_back(x == missing ? "-" : std::to_string(x));
                    }
                    MAlt res;
                    res.text  = ff.join(dbl ? "GRIB2D" : "GRIB2S");
                    auto sty  = v.style();
                    res.match = [want, sty, dbl](const Type& t) {
                        const Level& v = dynamic_cast<const Level&>(t);
                        if (v.style() != sty)
                            return false;
                        unsigned a, b, c, d = 0, e = 0, f = 0;
                        if (dbl)
                            v.get_GRIB2D(a, b, c, d, e, f);
                        else
                            v.get_GRIB2S(a, b, c);
                        int64_t vals[] = {a, b, c, d, e, f};
                        for (size_t i = 0; i < want.size(); ++i)
                            if (want[i].first && want[i].second != vals[i])
                                return false;
                        return true;
                    };
                    return res;
                }
                default: {
                    double lo, hi;
                    v.get_ODIMH5(lo, hi);
                    MAlt res;
                    std::vector<std::pair<double, double>> ranges;
                    switch (g.below(3))
                    {
                        case 0: {
                            double a = g.flip() ? lo : g.range(-20, 90), b = g.flip() ? hi : g.range(-20, 90);
                            res.text = "ODIMH5,range " + num(a) + " " + num(b);
                            ranges.emplace_back(std::min(a, b), std::max(a, b));
                            break;
                        }
                        case 1: res.text = "ODIMH5"; ranges.emplace_back(-360, 360); break;
                        default: {
                            unsigned n = 1 + g.below(3);
                            double off = g.chance(1, 3) ? g.range(0, 30) / 2.0 : 0;
                            res.text   = "ODIMH5,";
                            for (unsigned i = 0; i < n; ++i)
                            {
                                double a = g.flip() ? lo : g.range(-20, 90);
                                if (i)
                                    res.text += " ";
                                res.text += num(a);
                                ranges.emplace_back(a - off, a + off);
                            }
                            if (off)
                                res.text += " offset " + num(off);
                        }
                    }
                    res.match = [ranges](const Type& t) {
                        const Level& v = dynamic_cast<const Level&>(t);
                        if (v.style() != level::Style::ODIMH5)
                            return false;
                        double lo, hi;
                        v.get_ODIMH5(lo, hi);
                        for (auto& r : ranges)
                            if (lo <= r.second && hi >= r.first)
                                return true;
                        return false;
                    };
                    return res;
                }
            }
        }
        case TYPE_TIMERANGE: return gen_timerange_alt(g, hint, o);
        case TYPE_AREA: {
            const Area& v = dynamic_cast<const Area&>(*hint);
            bool grib     = true;
            ValueBag vb;
            switch (v.style())
            {
                case area::Style::GRIB: vb = v.get_GRIB(); break;
                case area::Style::ODIMH5:
                    vb   = v.get_ODIMH5();
                    grib = false;
                    break;
                default: vb = gen_valuebag(g, o, 2); break;
            }
            Bag want = gen_want_bag(g, vb, o);
            MAlt res;
            res.text  = casemix(g, grib ? "GRIB" : "ODIMH5") + ":" + bag_text(g, want);
            res.match = [want, grib](const Type& t) {
                const Area& v = dynamic_cast<const Area&>(t);
                if (v.style() != (grib ? area::Style::GRIB : area::Style::ODIMH5))
                    return false;
                ValueBag vb = grib ? v.get_GRIB() : v.get_ODIMH5();
                return subset(want, vb);
            };
            return res;
        }
        case TYPE_PRODDEF: {
            const Proddef& v = dynamic_cast<const Proddef&>(*hint);
            ValueBag vb      = v.get_GRIB();
            Bag want         = gen_want_bag(g, vb, o);
            MAlt res;
            res.text  = "GRIB:" + bag_text(g, want);
            res.match = [want](const Type& t) { return subset(want, dynamic_cast<const Proddef&>(t).get_GRIB()); };
            return res;
        }
        case TYPE_RUN: {
            unsigned m = dynamic_cast<const Run&>(*hint).get_Minute();
            if (g.chance(1, 8))
                m = g.below(24) * 60;
            MAlt res;
            bool given = g.chance(7, 8);
            char buf[40];
            if (!given)
                snprintf(buf, 40, "MINUTE");
            else if (m % 60 == 0 && g.flip())
                snprintf(buf, 40, g.chance(1, 4) ? "MINUTE,%u" : "MINUTE,%02u", m / 60);
            else
                snprintf(buf, 40, "MINUTE,%02u:%02u", m / 60, m % 60);
            res.text  = buf;
            res.match = [given, m](const Type& t) { return !given || dynamic_cast<const Run&>(t).get_Minute() == m; };
            return res;
        }
        case TYPE_TASK: {
            std::string s = dynamic_cast<const Task&>(*hint).get();
            std::string p = "abc";
            // part of the name, in any case
            std::string plain;
            for (auto ch : s)
                if (isalnum((unsigned char)ch) || ch == '_')
                    plain += ch;
                else if (!plain.empty())
                    break;
            if (!plain.empty())
            {
                size_t b = g.below(plain.size());
                size_t l = 1 + g.below(plain.size() - b);
                p        = plain.substr(b, l);
            }
            p = casemix(g, p);
            MAlt res;
            res.text      = p;
            std::string u = p;
            for (auto& ch : u)
                ch = toupper(ch);
            res.match = [u](const Type& t) {
                std::string v = dynamic_cast<const Task&>(t).get();
                for (auto& ch : v)
                    ch = toupper(ch);
                return v.find(u) != std::string::npos;
            };
            return res;
        }
        case TYPE_QUANTITY: {
            auto v = dynamic_cast<const Quantity&>(*hint).get();
            std::set<std::string> want;
            for (auto& s : v)
                if (g.flip())
                    want.insert(s);
            if (want.empty() || g.chance(1, 8))
                want.insert(g.str("abTHDZ1_", 1, 3));
            MAlt res;
            for (auto& s : want)
                res.text += (res.text.empty() ? "" : ",") + s;
            res.match = [want](const Type& t) {
                auto v = dynamic_cast<const Quantity&>(t).get();
                for (auto& s : want)
                    if (!v.count(s))
                        return false;
                return true;
            };
            return res;
        }
        default: throw std::runtime_error("gen_alt: unsupported type");
    }
}

MExpr gen_expr(Gen& g, const std::vector<std::shared_ptr<Metadata>>& pool, const ItemOpts& o, bool with_reftime,
               unsigned maxtypes)
{
    MExpr res;
    unsigned n = g.below(maxtypes + 1);
    const Metadata* base = pool.empty() ? nullptr : pool[g.below(pool.size())].get();
    for (unsigned i = 0; i < n; ++i)
    {
        TypeCode code = with_reftime && g.chance(1, 4) ? TYPE_REFTIME : g.pick(MATCHER_CODES);
        if (base && !base->get(code) && g.chance(4, 5))
        {
            // prefer types that the data has
            std::vector<TypeCode> codes;
            for (auto c : MATCHER_CODES)
                if (base->get(c))
                    codes.push_back(c);
            if (!codes.empty())
                code = g.pick(codes);
        }
        MOr mo;
        unsigned nalts = 1 + g.weighted({4, 2, 1});
        for (unsigned j = 0; j < nalts; ++j)
        {
            const Metadata* m = j == 0 || pool.empty() ? base : pool[g.below(pool.size())].get();
            const Type* hint  = m ? m->get(code) : nullptr;
            if (g.chance(1, 10))
                hint = nullptr;
            mo.alts.push_back(gen_alt(g, code, hint, o));
        }
        res.parts[code] = mo;
    }
    return res;
}

} // namespace vf
