// T01: metadata items round trip through every representation
// T02: equality and ordering of metadata items
#include "gen.h"
#include "arki/core/binary.h"
#include "arki/core/file.h"
#include "arki/structured/json.h"
#include "arki/structured/keys.h"
#include "arki/structured/memory.h"
#include "arki/types/area.h"
#include "arki/types/level.h"
#include "arki/types/note.h"
#include "arki/types/origin.h"
#include "arki/types/proddef.h"
#include "arki/types/product.h"
#include "arki/types/quantity.h"
#include "arki/types/reftime.h"
#include "arki/types/run.h"
#include "arki/types/source.h"
#include "arki/types/source/blob.h"
#include "arki/types/source/inline.h"
#include "arki/types/source/url.h"
#include "arki/types/task.h"
#include "arki/types/timerange.h"
#include "arki/types/value.h"
#include "arki/types/values.h"
#include <cmath>
#include <cstring>
#include <map>

using namespace vf;
using namespace arki;
using namespace arki::types;
using arki::core::Time;

namespace {

/*
 * Reference encoder, independent from arki/core/binary
 */
struct Ref
{
    std::vector<uint8_t> b;
    Ref& u(uint64_t v, unsigned n)
    {
        for (unsigned i = 0; i < n; ++i)
            b.push_back(v >> (8 * (n - 1 - i)));
        return *this;
    }
    Ref& var(uint64_t v)
    {
        do
        {
            uint8_t x = v & 0x7f;
            v >>= 7;
            b.push_back(v ? x | 0x80 : x);
        } while (v);
        return *this;
    }
    Ref& s(const std::string& str)
    {
        b.insert(b.end(), str.begin(), str.end());
        return *this;
    }
    Ref& vs(const std::string& str) { return var(str.size()).s(str); }
    Ref& time(const Time& t)
    {
        // 14 bits year, 4 month, 5 day, 5 hour, 6 minute, 6 second
        uint64_t v = ((uint64_t)t.ye << 26) | ((uint64_t)t.mo << 22) | ((uint64_t)t.da << 17) | ((uint64_t)t.ho << 12) |
                     ((uint64_t)t.mi << 6) | (uint64_t)t.se;
        return u(v, 5);
    }
    Ref& dbl(double d)
    {
        uint64_t x;
        memcpy(&x, &d, 8);
        for (unsigned i = 0; i < 8; ++i)
            b.push_back(x >> (8 * i));
        return *this;
    }
};

struct BagVal
{
    bool is_int;
    int i;
    std::string s;
};
typedef std::map<std::string, BagVal> Bag;

Bag gen_bag(Gen& g, const ItemOpts& o, unsigned maxsize)
{
    Bag res;
    unsigned n = g.below(maxsize + 1);
    static const std::vector<std::string> keys = {"ct", "nn", "lat", "lon", "a", "b", "foo", "unit", "cc", "ab", "A"};
    for (unsigned i = 0; i < n; ++i)
    {
        std::string k = g.chance(1, 6) ? g.str("abcdefghZ_09", 1, g.chance(1, 5) ? 200 : 12) : g.pick(keys);
        BagVal v;
        v.is_int = g.flip();
        v.i      = 0;
        if (v.is_int)
            switch (g.below(3))
            {
                case 0: v.i = g.range(0, 63); break;
                case 1: v.i = g.range(-64, 300); break;
                default: v.i = (int)((int64_t)g.edgy(1ull << 32) - (1ll << 31));
            }
        else if (g.chance(1, 5))
            v.s = g.pick<std::string>({"12", "-5", "0x10", "1.5", "", "007", "1e3", " 3", "+4", "\"", "\\", "a b", "a,b",
                                       "a;b", "a=b", "a\nb", "\x01z", "\x7f", "0x", " ", "a\""});
        else
            v.s = gen_text(g, o, 0, g.chance(1, 4) ? 63 : 8);
        res[k] = v;
    }
    return res;
}

ValueBag build_bag(Gen& g, const Bag& b)
{
    // Insertion order must not matter
    std::vector<std::string> keys;
    for (auto& i : b)
        keys.push_back(i.first);
    g.shuffle(keys);
    values::ValueBagBuilder bb;
    for (auto& k : keys)
    {
        auto& v = b.at(k);
        if (v.is_int)
            bb.add(k, v.i);
        else
            bb.add(k, v.s);
    }
    return bb.build();
}

void ref_bag(Ref& r, const Bag& b)
{
    for (auto& i : b)
    {
        r.u(i.first.size(), 1).s(i.first);
        if (!i.second.is_int)
        {
            r.u(0x80 | i.second.s.size(), 1).s(i.second.s);
            continue;
        }
        int64_t v = i.second.i;
        if (v >= -32 && v < 31)
            r.u(v & 0x3f, 1);
        else
        {
            uint64_t a     = v < 0 ? -v : v;
            unsigned bytes = a > 0xffffff ? 4 : a > 0xffff ? 3 : a > 0xff ? 2 : 1;
            r.u(0x40 | (v < 0 ? 8 : 0) | (bytes - 1), 1).u(a, bytes);
        }
    }
}

std::string show_bag(const Bag& b)
{
    std::string res;
    for (auto& i : b)
        res += i.first + "=" + (i.second.is_int ? std::to_string(i.second.i) : "'" + printable(i.second.s) + "'") + ",";
    return res;
}

// Compare a decoded bag with the model, through its own accessors
void check_bag(Case& c, const ValueBag& vb, const Bag& b)
{
    // canonical text: key=value, in key order, which we only use to count keys
    Ref r;
    ref_bag(r, b);
    std::vector<uint8_t> buf;
    core::BinaryEncoder e(buf);
    vb.encode(e);
    if (buf != r.b)
        c.fail("getter-bag", "ValueBag contents differ: got " + hexdump(buf) + " expected " + hexdump(r.b));
}

struct Made
{
    TypeCode code;
    std::string desc;
    std::unique_ptr<Type> t;
    Ref ref;
    std::function<void(Case&, const Type&)> getters;
    bool text = true; // representable as text
    std::string note;
};

std::string D(std::initializer_list<int64_t> l)
{
    std::string res;
    for (auto i : l)
        res += (res.empty() ? "" : ",") + std::to_string(i);
    return res;
}

uint32_t num(Gen& g, unsigned bytes) { return g.edgy(1ull << (8 * bytes)); }

#define CK(cond)                                                                                                       \
    if (!(cond))                                                                                                       \
    c.fail("getter", std::string(#cond) + " does not hold for " + desc)

Made make(Gen& g, TypeCode code)
{
    ItemOpts o;
    Made m;
    m.code = code;
    std::string& desc = m.desc;
    switch (code)
    {
        case TYPE_REFTIME: {
            Time t = gen_time(g);
            desc   = "reftime " + t.to_iso8601();
            m.t    = Reftime::createPosition(t);
            m.ref.u(1, 1).time(t);
            m.getters = [=](Case& c, const Type& x) {
                CK(dynamic_cast<const reftime::Position&>(x).get_Position() == t);
            };
            break;
        }
        case TYPE_ORIGIN:
            switch (g.below(4))
            {
                case 0: {
                    unsigned a = num(g, 1), b = num(g, 1), p = num(g, 1);
                    desc = "origin GRIB1 " + D({a, b, p});
                    m.t  = Origin::createGRIB1(a, b, p);
                    m.ref.u(1, 1).u(a, 1).u(b, 1).u(p, 1);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned ra, rb, rp;
                        dynamic_cast<const Origin&>(x).get_GRIB1(ra, rb, rp);
                        CK(ra == a && rb == b && rp == p);
                    };
                    break;
                }
                case 1: {
                    unsigned a = num(g, 2), b = num(g, 2), p = num(g, 1), q = num(g, 1), r = num(g, 1);
                    desc = "origin GRIB2 " + D({a, b, p, q, r});
                    m.t  = Origin::createGRIB2(a, b, p, q, r);
                    m.ref.u(2, 1).u(a, 2).u(b, 2).u(p, 1).u(q, 1).u(r, 1);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned ra, rb, rp, rq, rr;
                        dynamic_cast<const Origin&>(x).get_GRIB2(ra, rb, rp, rq, rr);
                        CK(ra == a && rb == b && rp == p && rq == q && rr == r);
                    };
                    break;
                }
                case 2: {
                    unsigned a = num(g, 1), b = num(g, 1);
                    desc = "origin BUFR " + D({a, b});
                    m.t  = Origin::createBUFR(a, b);
                    m.ref.u(3, 1).u(a, 1).u(b, 1);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned ra, rb;
                        dynamic_cast<const Origin&>(x).get_BUFR(ra, rb);
                        CK(ra == a && rb == b);
                    };
                    break;
                }
                default: {
                    auto w = g.str("abcd019", 0, g.chance(1, 8) ? 150 : 6), r = g.str("RADX1", 0, 6),
                         p = g.str("itplace", 0, 6);
                    desc   = "origin ODIMH5 " + w + "," + r + "," + p;
                    m.t    = Origin::createODIMH5(w, r, p);
                    m.ref.u(4, 1).vs(w).vs(r).vs(p);
                    m.getters = [=](Case& c, const Type& x) {
                        std::string rw, rr, rp;
                        dynamic_cast<const Origin&>(x).get_ODIMH5(rw, rr, rp);
                        CK(rw == w && rr == r && rp == p);
                    };
                    break;
                }
            }
            break;
        case TYPE_PRODUCT:
            switch (g.below(5))
            {
                case 0: {
                    unsigned a = num(g, 1), b = num(g, 1), p = num(g, 1);
                    desc = "product GRIB1 " + D({a, b, p});
                    m.t  = Product::createGRIB1(a, b, p);
                    m.ref.u(1, 1).u(a, 1).u(b, 1).u(p, 1);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned ra, rb, rp;
                        dynamic_cast<const Product&>(x).get_GRIB1(ra, rb, rp);
                        CK(ra == a && rb == b && rp == p);
                    };
                    break;
                }
                case 1: {
                    unsigned a = num(g, 2), b = num(g, 1), p = num(g, 1), q = num(g, 1);
                    unsigned tv = 4, ltv = 255;
                    if (g.flip())
                    {
                        tv  = g.pick<int>({4, 5, 0, 255});
                        ltv = g.pick<int>({255, 0, 1, 254});
                    }
                    desc = "product GRIB2 " + D({a, b, p, q, tv, ltv});
                    m.t  = Product::createGRIB2(a, b, p, q, tv, ltv);
                    m.ref.u(2, 1).u(a, 2).u(b, 1).u(p, 1).u(q, 1);
                    if (ltv != 255)
                        m.ref.u(tv, 1).u(ltv, 1);
                    else if (tv != 4)
                        m.ref.u(tv, 1);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned ra, rb, rp, rq, rt, rl;
                        dynamic_cast<const Product&>(x).get_GRIB2(ra, rb, rp, rq, rt, rl);
                        CK(ra == a && rb == b && rp == p && rq == q && rt == tv && rl == ltv);
                    };
                    break;
                }
                case 2: {
                    unsigned a = num(g, 1), b = num(g, 1), p = num(g, 1);
                    Bag bag;
                    if (g.flip())
                        bag = gen_bag(g, o, 3);
                    desc = "product BUFR " + D({a, b, p}) + " " + show_bag(bag);
                    m.t  = Product::createBUFR(a, b, p, build_bag(g, bag));
                    m.ref.u(3, 1).u(a, 1).u(b, 1).u(p, 1);
                    ref_bag(m.ref, bag);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned ra, rb, rp;
                        ValueBag v;
                        dynamic_cast<const Product&>(x).get_BUFR(ra, rb, rp, v);
                        CK(ra == a && rb == b && rp == p);
                        check_bag(c, v, bag);
                    };
                    break;
                }
                case 3: {
                    auto a = g.str("PVOLSCAN1", 1, 9), b = g.str("CAPIPX", 1, 9);
                    desc   = "product ODIMH5 " + a + "," + b;
                    m.t    = Product::createODIMH5(a, b);
                    m.ref.u(4, 1).vs(a).vs(b);
                    m.getters = [=](Case& c, const Type& x) {
                        std::string ra, rb;
                        dynamic_cast<const Product&>(x).get_ODIMH5(ra, rb);
                        CK(ra == a && rb == b);
                    };
                    break;
                }
                default: {
                    unsigned a = num(g, 4);
                    desc       = "product VM2 " + D({a});
                    m.t        = Product::createVM2(a);
                    m.ref.u(5, 1).u(a, 4);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned ra;
                        dynamic_cast<const Product&>(x).get_VM2(ra);
                        CK(ra == a);
                    };
                }
            }
            break;
        case TYPE_LEVEL:
            switch (g.below(4))
            {
                case 0: {
                    // number of values used by each type, from the GRIB1 code table 3
                    static const std::vector<int> t0 = {1, 2, 3, 4, 5, 6, 7, 8, 102, 200, 201};
                    static const std::vector<int> t1 = {100, 103, 105, 107, 109, 111, 113, 115, 117, 160};
                    static const std::vector<int> t2 = {101, 104, 106, 108, 110, 112, 114, 116, 141};
                    unsigned t, a = 0, b = 0;
                    unsigned nv = g.below(3);
                    t           = nv == 0 ? g.pick(t0) : nv == 1 ? g.pick(t1) : g.pick(t2);
                    m.ref.u(1, 1).u(t, 1);
                    if (nv == 1)
                    {
                        a = num(g, 2);
                        m.ref.var(a);
                    }
                    if (nv == 2)
                    {
                        a = num(g, 1);
                        b = num(g, 1);
                        m.ref.u(a, 1).u(b, 1);
                    }
                    desc      = "level GRIB1 " + D({t, a, b});
                    m.t       = Level::createGRIB1(t, a, b);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned rt, ra, rb;
                        dynamic_cast<const Level&>(x).get_GRIB1(rt, ra, rb);
                        CK(rt == t && (nv < 1 || ra == a) && (nv < 2 || rb == b));
                    };
                    break;
                }
                case 1: {
                    unsigned t = num(g, 1), s = num(g, 1), v = num(g, 4);
                    if (g.chance(1, 4))
                        v = 0xffffffff;
                    if (v == 0x7fffffff)
                        v = 5; // GRIB_MISSING_LONG is mapped to the missing value
                    desc = "level GRIB2S " + D({t, s, v});
                    m.t  = Level::createGRIB2S(t, s, v);
                    m.ref.u(2, 1).u(t, 1).u(s, 1).var(v);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned a, b, d;
                        dynamic_cast<const Level&>(x).get_GRIB2S(a, b, d);
                        CK(a == t && b == s && d == v);
                    };
                    break;
                }
                case 2: {
                    unsigned t = num(g, 1), s = num(g, 1), v = num(g, 4);
                    unsigned t2 = num(g, 1), s2 = num(g, 1), v2 = num(g, 4);
                    if (g.chance(1, 4))
                        v = 0xffffffff;
                    if (g.chance(1, 4))
                        v2 = 0xffffffff;
                    desc = "level GRIB2D " + D({t, s, v, t2, s2, v2});
                    m.t  = Level::createGRIB2D(t, s, v, t2, s2, v2);
                    m.ref.u(3, 1).u(t, 1).u(s, 1).var(v).u(t2, 1).u(s2, 1).var(v2);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned a, b, d, e, f, h;
                        dynamic_cast<const Level&>(x).get_GRIB2D(a, b, d, e, f, h);
                        CK(a == t && b == s && d == v && e == t2 && f == s2 && h == v2);
                    };
                    break;
                }
                default: {
                    double a, b;
                    // Values with up to 5 significant digits are the ones that
                    // the text and JSON representations are documented to carry
                    a = g.flip() ? g.range(-10, 90) : g.range(-9999, 9999) / 10.0;
                    b = g.flip() ? a : g.range(-9999, 9999) / 100.0;
                    desc = "level ODIMH5 " + std::to_string(a) + "," + std::to_string(b);
                    m.t  = Level::createODIMH5(a, b);
                    m.ref.u(4, 1).dbl(a).dbl(b);
                    m.getters = [=](Case& c, const Type& x) {
                        double ra, rb;
                        dynamic_cast<const Level&>(x).get_ODIMH5(ra, rb);
                        CK(ra == a && rb == b);
                    };
                }
            }
            break;
        case TYPE_TIMERANGE:
            switch (g.below(4))
            {
                case 0: {
                    static const std::vector<int> types = {0, 2, 3, 4, 5, 10, 51, 113, 115, 118, 123, 124, 1};
                    static const std::vector<int> units = {1, 0, 2, 3, 4, 5, 6, 7, 10, 11, 12, 254};
                    unsigned t = g.pick(types), u = g.pick(units), p1 = num(g, 1), p2 = num(g, 1);
                    bool use1 = true, use2 = true;
                    if (t == 0)
                        use2 = false;
                    if (t == 1)
                        use1 = use2 = false;
                    if (t == 10)
                        use2 = false;
                    if (t == 123 || t == 124)
                        use1 = false;
                    if (t == 1 && u >= 3 && u <= 7)
                        u = 1; // the text form of an analysis carries no unit
                    desc = "timerange GRIB1 " + D({t, u, p1, p2});
                    m.t  = Timerange::createGRIB1(t, u, p1, p2);
                    // the encoding of unused values is not specified: only compare the rest
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned rt, ru, r1, r2;
                        dynamic_cast<const Timerange&>(x).get_GRIB1(rt, ru, r1, r2);
                        CK(rt == t);
                        if (use2 && p1 && p2)
                            CK(ru == u && r1 == p1 && r2 == p2);
                    };
                    break;
                }
                case 1: {
                    static const std::vector<int> units = {1, 0, 2, 3, 4, 5, 6, 7, 10, 11, 12, 254};
                    unsigned t = num(g, 1), u = g.pick(units);
                    long p1 = (int32_t)num(g, 4), p2 = (int32_t)num(g, 4);
                    desc = "timerange GRIB2 " + D({t, u, p1, p2});
                    m.t  = Timerange::createGRIB2(t, u, p1, p2);
                    m.ref.u(2, 1).u(t, 1).u(u, 1).u((uint32_t)p1, 4).u((uint32_t)p2, 4);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned rt, ru;
                        long r1, r2;
                        dynamic_cast<const Timerange&>(x).get_GRIB2(rt, ru, r1, r2);
                        CK(rt == t && ru == u && r1 == p1 && r2 == p2);
                    };
                    break;
                }
                case 2: {
                    using namespace timerange;
                    static const std::vector<int> units = {1, 0, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13};
                    unsigned su = g.pick(units), sl = g.edgy(1u << 25);
                    if (g.chance(1, 8))
                    {
                        su = 255;
                        sl = 0;
                    }
                    unsigned st = 255, tu = 255, tl = 0;
                    switch (g.below(3))
                    {
                        case 0: break;
                        case 1: st = num(g, 1); break;
                        default:
                            st = g.pick<int>({0, 1, 2, 3, 4, 5, 254});
                            tu = g.pick(units);
                            tl = g.edgy(1u << 25);
                    }
                    if (st == 255)
                    {
                        tu = 255;
                        tl = 0;
                    }
                    desc = "timerange Timedef " + D({su, sl, st, tu, tl});
                    if (st == 255)
                        m.t = Timerange::createTimedef(sl, (TimedefUnit)su);
                    else
                        m.t = Timerange::createTimedef(sl, (TimedefUnit)su, st, tl, (TimedefUnit)tu);
                    unsigned nsu = su != 255 && sl == 0 ? 13 : su, ntu = tu != 255 && tl == 0 ? 13 : tu;
                    m.ref.u(4, 1).u(nsu, 1);
                    if (nsu != 255)
                        m.ref.var(sl);
                    m.ref.u(st, 1);
                    if (st != 255)
                    {
                        m.ref.u(ntu, 1);
                        if (ntu != 255)
                            m.ref.var(tl);
                    }
                    m.getters = [=](Case& c, const Type& x) {
                        TimedefUnit rsu, rtu;
                        unsigned rsl, rst, rtl;
                        dynamic_cast<const Timerange&>(x).get_Timedef(rsu, rsl, rst, rtu, rtl);
                        CK(rsu == nsu && (nsu == 255 || rsl == sl) && rst == st);
                        if (st != 255)
                            CK(rtu == ntu && (ntu == 255 || rtl == tl));
                    };
                    break;
                }
                default: {
                    static const std::vector<int> units = {1, 0, 2, 3, 4, 5, 6, 7, 10, 11, 12, 254};
                    unsigned v = g.edgy(1u << 25), u = g.pick(units);
                    desc = "timerange BUFR " + D({v, u});
                    m.t  = Timerange::createBUFR(v, u);
                    m.ref.u(3, 1).u(u, 1).var(v);
                    m.getters = [=](Case& c, const Type& x) {
                        unsigned rv, ru;
                        dynamic_cast<const Timerange&>(x).get_BUFR(ru, rv);
                        CK(rv == v && ru == u);
                    };
                }
            }
            break;
        case TYPE_AREA:
            switch (g.below(3))
            {
                case 0: {
                    Bag b = gen_bag(g, o, 6);
                    desc  = "area GRIB " + show_bag(b);
                    m.t   = area::GRIB::create(build_bag(g, b));
                    m.ref.u(1, 1);
                    ref_bag(m.ref, b);
                    m.getters = [=](Case& c, const Type& x) { check_bag(c, dynamic_cast<const area::GRIB&>(x).get_GRIB(), b); };
                    break;
                }
                case 1: {
                    Bag b = gen_bag(g, o, 6);
                    desc  = "area ODIMH5 " + show_bag(b);
                    m.t   = area::ODIMH5::create(build_bag(g, b));
                    m.ref.u(2, 1);
                    ref_bag(m.ref, b);
                    m.getters = [=](Case& c, const Type& x) {
                        check_bag(c, dynamic_cast<const area::ODIMH5&>(x).get_ODIMH5(), b);
                    };
                    break;
                }
                default: {
                    unsigned a = num(g, 4);
                    desc       = "area VM2 " + D({a});
                    m.t        = area::VM2::create(a);
                    m.ref.u(3, 1).u(a, 4);
                    m.getters = [=](Case& c, const Type& x) { CK(dynamic_cast<const area::VM2&>(x).get_VM2() == a); };
                }
            }
            break;
        case TYPE_PRODDEF: {
            Bag b = gen_bag(g, o, 6);
            desc  = "proddef GRIB " + show_bag(b);
            m.t   = Proddef::createGRIB(build_bag(g, b));
            m.ref.u(1, 1);
            ref_bag(m.ref, b);
            m.getters = [=](Case& c, const Type& x) { check_bag(c, dynamic_cast<const Proddef&>(x).get_GRIB(), b); };
            break;
        }
        case TYPE_RUN: {
            unsigned h = g.below(24), mi = g.flip() ? 0 : g.below(60);
            desc = "run " + D({h, mi});
            m.t  = Run::createMinute(h, mi);
            m.ref.u(1, 1).var(h * 60 + mi);
            m.getters = [=](Case& c, const Type& x) { CK(dynamic_cast<const Run&>(x).get_Minute() == h * 60 + mi); };
            break;
        }
        case TYPE_TASK: {
            std::string s = gen_text(g, o, 0, g.chance(1, 6) ? 200 : 12);
            desc          = "task " + printable(s);
            m.t           = Task::create(s);
            m.ref.vs(s);
            m.getters = [=](Case& c, const Type& x) { CK(dynamic_cast<const Task&>(x).get() == s); };
            break;
        }
        case TYPE_QUANTITY: {
            std::set<std::string> s;
            unsigned n = g.range(1, 5);
            for (unsigned i = 0; i < n; ++i)
                s.insert(g.str("abTHDZ1_", 1, g.chance(1, 8) ? 140 : 5));
            desc = "quantity";
            m.ref.var(s.size());
            for (auto& i : s)
            {
                desc += " " + i;
                m.ref.vs(i);
            }
            m.t       = Quantity::create(s);
            m.getters = [=](Case& c, const Type& x) { CK(dynamic_cast<const Quantity&>(x).get() == s); };
            break;
        }
        case TYPE_VALUE: {
            std::string s = gen_text(g, o, 0, g.chance(1, 6) ? 300 : 12);
            desc          = "value " + printable(s);
            m.t           = Value::create(s);
            m.ref.s(s);
            m.getters = [=](Case& c, const Type& x) { CK(dynamic_cast<const Value&>(x).buffer == s); };
            break;
        }
        case TYPE_NOTE: {
            Time t        = gen_time(g);
            std::string s = gen_text(g, o, 0, g.chance(1, 6) ? 200 : 20);
            desc          = "note " + t.to_iso8601() + " " + printable(s);
            m.t           = Note::create(t, s);
            m.ref.time(t).vs(s);
            m.getters = [=](Case& c, const Type& x) {
                Time rt;
                std::string rs;
                dynamic_cast<const Note&>(x).get(rt, rs);
                CK(rt == t && rs == s);
            };
            break;
        }
        default: throw std::runtime_error("unsupported");
    }
    return m;
}

const std::vector<TypeCode> REF_CODES = {TYPE_REFTIME, TYPE_ORIGIN,  TYPE_PRODUCT, TYPE_LEVEL,    TYPE_TIMERANGE,
                                         TYPE_AREA,    TYPE_PRODDEF, TYPE_RUN,     TYPE_TASK,     TYPE_QUANTITY,
                                         TYPE_VALUE,   TYPE_NOTE};

std::unique_ptr<Type> via_json(const Type& t, std::string& text)
{
    std::stringstream jbuf;
    structured::JSON json(jbuf);
    t.serialise(json, structured::keys_json);
    text        = jbuf.str();
    auto reader = core::BufferedReader::from_string(text);
    structured::Memory parsed;
    structured::JSON::parse(*reader, parsed);
    return types::decode_structure(structured::keys_json, parsed.root());
}

std::unique_ptr<Type> via_memory(const Type& t, const structured::Keys& keys)
{
    structured::Memory mem;
    t.serialise(mem, keys);
    return types::decode_structure(keys, mem.root());
}

} // namespace

PROPERTY("T01", "binary", 3,
         "an item is built from generated field values (boundary-biased); non-trivial: at least one field is not zero/empty")
{
    auto& g = c.g;
    auto m  = make(g, g.pick(REF_CODES));
    c.log(m.desc);
    c.mix(m.desc);
    if (m.desc.find_first_of("123456789abcdefxyz", m.desc.find(' ')) != std::string::npos)
        c.mark();
    m.getters(c, *m.t);
    std::vector<uint8_t> inner, outer;
    core::BinaryEncoder ei(inner), eo(outer);
    m.t->encodeWithoutEnvelope(ei);
    m.t->encodeBinary(eo);
    if (!m.ref.b.empty() && inner != m.ref.b)
        c.fail("wire-format", m.desc + " encodes to " + hexdump(inner) + " instead of " + hexdump(m.ref.b));
    Ref env;
    env.var((unsigned)m.code).var(inner.size());
    env.b.insert(env.b.end(), inner.begin(), inner.end());
    if (outer != env.b)
        c.fail("envelope", m.desc + " enveloped as " + hexdump(outer) + " instead of " + hexdump(env.b));
    for (int reuse = 0; reuse < 3; ++reuse)
    {
        std::vector<uint8_t> buf = outer;
        // Trailing bytes must be left alone
        buf.push_back(0xAA);
        core::BinaryDecoder dec(buf);
        std::unique_ptr<Type> d;
        if (reuse == 2)
            d = Type::decode(dec);
        else
        {
            TypeCode code;
            auto in = dec.pop_type_envelope(code);
            c.check(code == m.code, "envelope", "decoded type code differs for " + m.desc);
            d = Type::decode_inner(code, in, reuse == 1);
        }
        c.check(dec.size == 1, "envelope", "decoder did not stop at the end of " + m.desc);
        c.check(d->type_code() == m.code, "decode", "decoded code differs");
        c.check(d->equals(*m.t) && m.t->equals(*d), "roundtrip-binary",
                m.desc + " decodes to " + show(*d));
        c.check(d->compare(*m.t) == 0, "roundtrip-binary", m.desc + " decoded compares different");
        m.getters(c, *d);
        std::vector<uint8_t> again;
        core::BinaryEncoder ea(again);
        d->encodeBinary(ea);
        if (again != outer)
            c.fail("roundtrip-binary", m.desc + " re-encodes to " + hexdump(again) + " instead of " + hexdump(outer));
        std::unique_ptr<Type> cl(d->clone());
        c.check(cl->equals(*m.t), "clone", m.desc + " clone differs");
        m.getters(c, *cl);
    }
    // Several encoded in sequence
}

PROPERTY("T01", "text", 2, "as binary, the text form of the item is parsed back; non-trivial: always (a text form was produced and parsed)")
{
    auto& g = c.g;
    TypeCode code = g.pick(REF_CODES);
    if (code == TYPE_VALUE || code == TYPE_NOTE || code == TYPE_TASK || code == TYPE_QUANTITY)
        code = TYPE_AREA;
    auto m = make(g, code);
    c.log(m.desc);
    c.mix(m.desc);
    c.mark();
    std::string text = m.t->to_string();
    c.log("text: " + printable(text));
    std::unique_ptr<Type> d;
    try
    {
        d = types::decodeString(m.code, text);
    }
    catch (std::exception& e)
    {
        c.fail("text-unparsable", m.desc + " has text form '" + printable(text) + "' that does not parse: " + e.what());
    }
    c.check(d->equals(*m.t), "roundtrip-text",
            m.desc + " has text form '" + printable(text) + "' that parses to " + show(*d));
    c.check(d->compare(*m.t) == 0, "roundtrip-text", m.desc + " reparsed from text compares different");
    c.check(d->to_string() == text, "roundtrip-text", m.desc + " reparsed has text " + d->to_string());
    if (m.code != TYPE_TIMERANGE)
        m.getters(c, *d);
}

PROPERTY("T01", "structured", 2, "as binary, the JSON and in-memory structured forms are parsed back; non-trivial: always")
{
    auto& g = c.g;
    auto m  = make(g, g.pick(REF_CODES));
    c.log(m.desc);
    c.mix(m.desc);
    c.mark();
    std::string text;
    std::unique_ptr<Type> d;
    try
    {
        d = via_json(*m.t, text);
    }
    catch (std::exception& e)
    {
        c.fail("json-unparsable", m.desc + " as json " + printable(text) + ": " + e.what());
    }
    c.log("json: " + printable(text));
    c.check(d->equals(*m.t), "roundtrip-json", m.desc + " as json " + printable(text) + " parses to " + show(*d));
    m.getters(c, *d);
    auto e = via_memory(*m.t, structured::keys_json);
    c.check(e->equals(*m.t), "roundtrip-memory", m.desc + " via structured memory is " + show(*e));
    m.getters(c, *e);
    // In the python keys, the type field of a BUFR product shares its name with
    // the item type, so that form is write-only
    if (m.desc.rfind("product BUFR", 0) == 0)
        return;
    auto f = via_memory(*m.t, structured::keys_python);
    c.check(f->equals(*m.t), "roundtrip-python", m.desc + " via python keys is " + show(*f));
    m.getters(c, *f);
}

/*
 * T02: laws of equality and ordering
 */
namespace {
int sgn(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }

// A variation of an item, likely to be close to it: decode after changing one byte
std::unique_ptr<Type> near_item(Gen& g, TypeCode code, const ItemOpts& o) { return gen_item(g, code, o); }
} // namespace

PROPERTY("T02", "order", 3,
         "three items of the same type from small value ranges (so that collisions happen); non-trivial: at least two of them differ")
{
    auto& g       = c.g;
    TypeCode code = g.pick(ALL_CODES);
    ItemOpts o;
    o.small = g.chance(4, 5);
    o.plain = g.flip();
    std::vector<std::unique_ptr<Type>> v;
    for (unsigned i = 0; i < 3; ++i)
    {
        if (i && g.chance(1, 6))
            v.emplace_back(v[0]->clone());
        else
            v.push_back(near_item(g, code, o));
        c.log(show(*v.back()));
        auto e = enc(*v.back());
        c.mix(e.data(), e.size());
    }
    auto S = [&](unsigned i) { return show(*v[i]); };
    for (unsigned i = 0; i < 3; ++i)
    {
        c.check(v[i]->equals(*v[i]), "reflexive", S(i) + " is not equal to itself");
        c.check(v[i]->compare(*v[i]) == 0, "reflexive", S(i) + " does not compare the same as itself");
        for (unsigned j = 0; j < 3; ++j)
        {
            int cmp = v[i]->compare(*v[j]);
            bool eq = v[i]->equals(*v[j]);
            bool be = enc(*v[i]) == enc(*v[j]);
            if (i != j && !be)
                c.mark();
            c.check(sgn(cmp) == -sgn(v[j]->compare(*v[i])), "antisymmetric",
                    "compare of " + S(i) + " and " + S(j) + " is not antisymmetric");
            c.check(eq == v[j]->equals(*v[i]), "symmetric", "equality of " + S(i) + " and " + S(j) + " is not symmetric");
            if (be)
                c.check(eq, "equal-bytes", S(i) + " and " + S(j) + " have the same encoding but are different");
            // BBox is deprecated and AssignedDataset ignores its timestamp when comparing
            if (code != TYPE_BBOX)
                c.check(eq == (cmp == 0), "eq-cmp",
                        S(i) + (eq ? " equals " : " does not equal ") + S(j) + " but compare gives " +
                            std::to_string(cmp));
            // equality by value: items which are not timeranges have a single encoding
            if (code != TYPE_BBOX && code != TYPE_TIMERANGE && code != TYPE_ASSIGNEDDATASET)
                c.check(eq == be, "eq-value", S(i) + " and " + S(j) + ": equality is " + std::to_string(eq) +
                                                  " but encodings are " + (be ? "the same" : "different"));
            for (unsigned k = 0; k < 3; ++k)
            {
                if (eq && v[j]->equals(*v[k]))
                    c.check(v[i]->equals(*v[k]), "transitive-eq", S(i) + ", " + S(j) + ", " + S(k));
                if (cmp <= 0 && v[j]->compare(*v[k]) <= 0)
                    c.check(v[i]->compare(*v[k]) <= 0, "transitive-cmp",
                            "compare is not transitive on " + S(i) + ", " + S(j) + ", " + S(k));
            }
        }
    }
}

PROPERTY("T02", "across", 1, "two items of any two types; non-trivial: types differ")
{
    auto& g    = c.g;
    TypeCode a = g.pick(ALL_CODES), b = g.pick(ALL_CODES);
    ItemOpts o;
    o.small = true;
    auto x  = gen_item(g, a, o);
    auto y  = gen_item(g, b, o);
    c.log(show(*x) + " vs " + show(*y));
    c.mix(show(*x));
    c.mix(show(*y));
    if (a == b)
        return;
    c.mark();
    c.check(!x->equals(*y) && !y->equals(*x), "across", show(*x) + " equals " + show(*y));
    c.check(sgn(x->compare(*y)) == sgn((int)a - (int)b), "across",
            "compare of " + show(*x) + " and " + show(*y) + " does not follow the type order");
}

PROPERTY("T02", "reference-order", 2,
         "two items of one style with a documented field order, ordering compared with lexicographic order of the fields; "
         "non-trivial: the items differ")
{
    auto& g = c.g;
    // For types whose fields are unsigned integers, order is lexicographic on
    // fields
    auto small = [&](uint64_t max) { return g.flip() ? g.below(3) : g.edgy(max); };
    std::vector<int64_t> fa, fb;
    std::unique_ptr<Type> a, b;
    unsigned which = g.below(7);
    auto mk        = [&](std::vector<int64_t>& f) -> std::unique_ptr<Type> {
        switch (which)
        {
            case 0:
                f = {(int64_t)small(256), (int64_t)small(256), (int64_t)small(256)};
                return Origin::createGRIB1(f[0], f[1], f[2]);
            case 1:
                f = {(int64_t)small(65536), (int64_t)small(65536), (int64_t)small(256), (int64_t)small(256),
                     (int64_t)small(256)};
                return Origin::createGRIB2(f[0], f[1], f[2], f[3], f[4]);
            case 2:
                f = {(int64_t)small(256), (int64_t)small(256), (int64_t)small(256)};
                return Product::createGRIB1(f[0], f[1], f[2]);
            case 3:
                f = {(int64_t)small(256), (int64_t)small(256)};
                return Origin::createBUFR(f[0], f[1]);
            case 4: {
                Time t = g.flip() ? gen_time_near(g) : gen_time(g);
                f      = {t.ye, t.mo, t.da, t.ho, t.mi, t.se};
                return Reftime::createPosition(t);
            }
            case 5:
                f = {(int64_t)small(24), (int64_t)small(60)};
                return Run::createMinute(f[0], f[1]);
            default:
                f = {(int64_t)g.below(24) * 3600 * (g.flip() ? 1 : 3)};
                if (g.flip() && f[0] % 3600 == 0)
                    return Timerange::createTimedef(f[0] / 3600, timerange::UNIT_HOUR);
                if (g.flip() && f[0] % 60 == 0)
                    return Timerange::createTimedef(f[0] / 60, timerange::UNIT_MINUTE);
                return Timerange::createTimedef(f[0], timerange::UNIT_SECOND);
        }
    };
    a = mk(fa);
    b = mk(fb);
    c.log(show(*a) + " vs " + show(*b));
    c.mix(show(*a));
    c.mix(show(*b));
    if (fa != fb)
        c.mark();
    int exp = fa < fb ? -1 : fb < fa ? 1 : 0;
    c.check(sgn(a->compare(*b)) == exp, "order-value",
            "compare(" + show(*a) + ", " + show(*b) + ") is " + std::to_string(a->compare(*b)) + " instead of " +
                std::to_string(exp));
    c.check(a->equals(*b) == (exp == 0), "equal-value", "equality of " + show(*a) + " and " + show(*b));
}
