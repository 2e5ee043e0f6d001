#include "gen.h"
#include "arki/core/binary.h"
#include "arki/types/area.h"
#include "arki/types/assigneddataset.h"
#include "arki/types/bbox.h"
#include "arki/types/level.h"
#include "arki/types/note.h"
#include "arki/types/origin.h"
#include "arki/types/proddef.h"
#include "arki/types/product.h"
#include "arki/types/quantity.h"
#include "arki/types/reftime.h"
#include "arki/types/run.h"
#include "arki/types/task.h"
#include "arki/types/timerange.h"
#include "arki/types/value.h"
#include <set>

using namespace arki;
using namespace arki::types;
using arki::core::Time;

namespace vf {

const std::vector<TypeCode> ALL_CODES = {
    TYPE_REFTIME, TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA, TYPE_PRODDEF,
    TYPE_RUN,     TYPE_TASK,   TYPE_QUANTITY, TYPE_VALUE, TYPE_ASSIGNEDDATASET, TYPE_BBOX};
const std::vector<TypeCode> MATCHER_CODES = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA,
                                             TYPE_PRODDEF, TYPE_RUN, TYPE_TASK, TYPE_QUANTITY};

static int mdays(int ye, int mo)
{
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (mo == 2 && ((ye % 4 == 0 && ye % 100 != 0) || ye % 400 == 0))
        return 29;
    return d[mo - 1];
}

static void gen_tod(Gen& g, Time& t)
{
    switch (g.weighted({2, 2, 2, 4}))
    {
        case 0: break;
        case 1:
            t.ho = 23;
            t.mi = 59;
            t.se = 59;
            break;
        case 2: t.ho = g.below(24); break;
        default:
            t.ho = g.below(24);
            t.mi = g.below(60);
            t.se = g.below(60);
    }
}

Time gen_time(Gen& g)
{
    Time t;
    switch (g.weighted({6, 2, 1}))
    {
        case 0: t.ye = g.range(1990, 2030); break;
        case 1: t.ye = g.pick<int>({2000, 1900, 2100, 2007, 2008, 1970, 1999}); break;
        default: t.ye = g.range(1, 9999); break;
    }
    t.mo = g.range(1, 12);
    t.da = g.chance(1, 4) ? mdays(t.ye, t.mo) : g.range(1, mdays(t.ye, t.mo));
    gen_tod(g, t);
    return t;
}

Time gen_time_near(Gen& g)
{
    Time t;
    t.ye = 2007;
    t.mo = 7 + g.weighted({5, 3, 1});
    if (g.chance(1, 12))
    {
        t.ye = g.pick<int>({2008, 2006});
        t.mo = g.pick<int>({1, 2, 12});
    }
    t.da = g.pick<int>({1, 7, 8, 14, 15, 28, 31});
    if (g.chance(1, 4))
        t.da = g.range(1, mdays(t.ye, t.mo));
    if (t.da > mdays(t.ye, t.mo))
        t.da = mdays(t.ye, t.mo);
    gen_tod(g, t);
    return t;
}

std::string gen_text(Gen& g, const ItemOpts& o, size_t minlen, size_t maxlen)
{
    static const std::string plain = "abcXYZ019_-.";
    static const std::string wild  = "ab 1,;=\"\\:()[]#'\n\t\x01\xc3\xa8/%";
    if (o.plain || g.chance(2, 3))
        return g.str(plain, minlen, maxlen);
    return g.str(wild, minlen, maxlen);
}

ValueBag gen_valuebag(Gen& g, const ItemOpts& o, unsigned maxsize)
{
    static const std::vector<std::string> keys = {"ct", "nn", "lat", "lon", "a", "b", "foo", "unit", "cc", "ab"};
    values::ValueBagBuilder b;
    unsigned n = g.below(maxsize + 1);
    for (unsigned i = 0; i < n; ++i)
    {
        std::string key = keys[g.below(keys.size())];
        if (!o.small && g.chance(1, 10))
            key = g.str("abcdefgh_", 1, 30);
        switch (g.weighted({3, 2, 2}))
        {
            case 0: b.add(key, (int)g.range(0, 40)); break;
            case 1:
                if (o.small)
                    b.add(key, (int)g.range(-100, 100000));
                else
                    b.add(key, (int)((int64_t)g.edgy(1ull << 32) - (1ll << 31)));
                break;
            default: {
                std::string v = gen_text(g, o, 0, o.small ? 6 : 63);
                if (g.chance(1, 6))
                    v = g.pick<std::string>({"12", "-5", "0x10", "1.5", "", "007", "1e3"});
                b.add(key, v);
            }
        }
    }
    return b.build();
}

static uint8_t b8(Gen& g, const ItemOpts& o) { return o.small ? g.below(6) : g.edgy(256); }
static uint16_t b16(Gen& g, const ItemOpts& o) { return o.small ? g.below(6) : g.edgy(65536); }
static uint32_t b32(Gen& g, const ItemOpts& o) { return o.small ? g.below(6) : g.edgy(1ull << 32); }

static double dbl(Gen& g, const ItemOpts& o)
{
    switch (g.below(3))
    {
        case 0: return g.range(-10, 90);
        case 1: return g.range(-1000, 10000) / 10.0;
        default: return o.small ? g.range(0, 20) : g.range(-100000, 100000) / 1000.0;
    }
}

std::unique_ptr<Type> gen_item(Gen& g, TypeCode code, const ItemOpts& o)
{
    using timerange::TimedefUnit;
    switch (code)
    {
        case TYPE_REFTIME: return Reftime::createPosition(o.small ? gen_time_near(g) : gen_time(g));
        case TYPE_ORIGIN:
            switch (g.below(4))
            {
                case 0: {
                    auto a = b8(g, o), b = b8(g, o), c = b8(g, o);
                    return Origin::createGRIB1(a, b, c);
                }
                case 1: {
                    auto a = b16(g, o), b = b16(g, o);
                    auto c = b8(g, o), d = b8(g, o), e = b8(g, o);
                    return Origin::createGRIB2(a, b, c, d, e);
                }
                case 2: {
                    auto a = b8(g, o), b = b8(g, o);
                    return Origin::createBUFR(a, b);
                }
                default: {
                    auto a = g.str("abcd019", 0, 4), b = g.str("RADX1", 0, 4), c = g.str("itplace", 0, 5);
                    return Origin::createODIMH5(a, b, c);
                }
            }
        case TYPE_PRODUCT:
            switch (g.below(6))
            {
                case 0: {
                    auto a = b8(g, o), b = b8(g, o), c = b8(g, o);
                    return Product::createGRIB1(a, b, c);
                }
                case 1: {
                    auto a = b16(g, o);
                    auto b = b8(g, o), c = b8(g, o), d = b8(g, o);
                    if (g.flip())
                    {
                        uint8_t tv = g.pick<int>({4, 4, 5, 0, 255}), ltv = g.pick<int>({255, 255, 1, 0});
                        return Product::createGRIB2(a, b, c, d, tv, ltv);
                    }
                    return Product::createGRIB2(a, b, c, d);
                }
                case 2: {
                    auto a = b8(g, o), b = b8(g, o), c = b8(g, o);
                    return Product::createBUFR(a, b, c);
                }
                case 3: {
                    auto a = b8(g, o), b = b8(g, o), c = b8(g, o);
                    auto v = gen_valuebag(g, o, 3);
                    return Product::createBUFR(a, b, c, v);
                }
                case 4: {
                    auto a = g.str("PVOLSCAN1", o.plain, 5), b = g.str("CAPIPX", o.plain, 5);
                    return Product::createODIMH5(a, b);
                }
                default: return Product::createVM2(b32(g, o));
            }
        case TYPE_LEVEL:
            switch (g.below(6))
            {
                case 0: {
                    static const std::vector<int> t0 = {1, 2, 3, 4, 5, 6, 7, 8, 102, 200, 201};
                    return Level::createGRIB1(g.pick(t0));
                }
                case 1: {
                    static const std::vector<int> t1 = {100, 103, 105, 107, 109, 111, 113, 115, 117, 160};
                    uint8_t t = g.pick(t1);
                    return Level::createGRIB1(t, b16(g, o));
                }
                case 2: {
                    static const std::vector<int> t2 = {101, 104, 106, 108, 110, 112, 114, 116, 141};
                    uint8_t t = g.pick(t2);
                    auto a = b8(g, o), b = b8(g, o);
                    return Level::createGRIB1(t, a, b);
                }
                case 3: {
                    auto t = b8(g, o), s = b8(g, o);
                    uint32_t v = b32(g, o);
                    if (g.chance(1, 5))
                        t = 255;
                    if (g.chance(1, 5))
                        s = 255;
                    if (g.chance(1, 5))
                        v = 0xffffffff;
                    return Level::createGRIB2S(t, s, v);
                }
                case 4: {
                    auto t = b8(g, o), s = b8(g, o);
                    auto v  = b32(g, o);
                    auto t2 = b8(g, o), s2 = b8(g, o);
                    auto v2 = b32(g, o);
                    if (g.chance(1, 5))
                        t = 255;
                    if (g.chance(1, 5))
                        s2 = 255;
                    if (g.chance(1, 5))
                        v2 = 0xffffffff;
                    return Level::createGRIB2D(t, s, v, t2, s2, v2);
                }
                default: {
                    double a = dbl(g, o);
                    if (g.flip())
                        return Level::createODIMH5(a);
                    double b = dbl(g, o);
                    return Level::createODIMH5(a, b);
                }
            }
        case TYPE_TIMERANGE:
            switch (g.below(4))
            {
                case 0: {
                    static const std::vector<int> types = {0, 1, 2, 3, 4, 5, 7, 10, 51, 113, 114, 115, 118, 123, 124};
                    static const std::vector<int> units = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 254};
                    uint8_t t = g.pick(types), u = g.pick(units);
                    auto p1 = b8(g, o), p2 = b8(g, o);
                    // the text form of an analysis has no unit
                    if (t == 1 && u >= 3 && u <= 7)
                        u = 0;
                    // intervals that end before they start make no sense to matchers
                    if (o.ordered_timerange && t >= 2 && t <= 5 && p2 < p1)
                        std::swap(p1, p2);
                    return Timerange::createGRIB1(t, u, p1, p2);
                }
                case 1: {
                    static const std::vector<int> units = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 254};
                    auto t    = b8(g, o);
                    uint8_t u = g.pick(units);
                    long p1   = o.small ? g.range(-2, 12) : (int32_t)b32(g, o);
                    long p2   = o.small ? g.range(-2, 12) : (int32_t)b32(g, o);
                    return Timerange::createGRIB2(t, u, p1, p2);
                }
                case 2: {
                    static const std::vector<int> units = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13};
                    auto u1    = (TimedefUnit)g.pick(units);
                    uint32_t s = o.small ? g.below(13) : g.edgy(1u << 22);
                    if (o.missing_step && g.chance(1, 8))
                    {
                        u1 = timerange::UNIT_MISSING;
                        s  = 0;
                    }
                    switch (g.below(3))
                    {
                        case 0: return Timerange::createTimedef(s, u1);
                        case 1: {
                            uint8_t st = g.below(10);
                            if (g.chance(1, 6))
                                st = 254;
                            return Timerange::createTimedef(s, u1, st, 0, timerange::UNIT_MISSING);
                        }
                        default: {
                            uint8_t st = g.below(10);
                            uint32_t sl = o.small ? g.below(13) : g.edgy(1u << 22);
                            return Timerange::createTimedef(s, u1, st, sl, (TimedefUnit)g.pick(units));
                        }
                    }
                }
                default: {
                    static const std::vector<int> units = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 254};
                    uint32_t v = o.small ? g.below(13) : g.edgy(100000);
                    return Timerange::createBUFR(v, g.pick(units));
                }
            }
        case TYPE_AREA:
            switch (g.below(3))
            {
                case 0: return area::GRIB::create(gen_valuebag(g, o));
                case 1: return area::ODIMH5::create(gen_valuebag(g, o));
                default: return area::VM2::create(b32(g, o));
            }
        case TYPE_PRODDEF: return Proddef::createGRIB(gen_valuebag(g, o));
        case TYPE_RUN: {
            auto h = g.below(24);
            return Run::createMinute(h, g.flip() ? 0 : g.below(60));
        }
        case TYPE_TASK: return Task::create(gen_text(g, o, 1, o.small ? 5 : 40));
        case TYPE_QUANTITY: {
            std::set<std::string> s;
            unsigned n = g.range(1, 4);
            for (unsigned i = 0; i < n; ++i)
                s.insert(g.str("abTHDZ1_", 1, 5));
            return Quantity::create(s);
        }
        case TYPE_VALUE: return Value::create(gen_text(g, o, 0, 30));
        case TYPE_ASSIGNEDDATASET: {
            auto t = gen_time(g);
            auto n = g.str("abctest_", 1, 10);
            auto i = g.str("abc123/:", 0, 12);
            struct AD : public AssignedDataset
            {
                static std::unique_ptr<Type> make(const Time& t, const std::string& n, const std::string& i)
                {
                    return create(t, n, i);
                }
            };
            return AD::make(t, n, i);
        }
        case TYPE_BBOX: return types::BBox::createInvalid();
        case TYPE_NOTE: {
            auto t = gen_time(g);
            return Note::create(t, gen_text(g, o, 0, 30));
        }
        default: throw std::runtime_error("gen_item: unsupported code");
    }
}

std::shared_ptr<Metadata> gen_md(Gen& g, const ItemOpts& o, bool near_time)
{
    auto md = std::make_shared<Metadata>();
    if (!g.chance(1, 12))
        md->test_set(Reftime::createPosition(near_time ? gen_time_near(g) : gen_time(g)));
    for (auto c : ALL_CODES)
    {
        if (c == TYPE_REFTIME)
            continue;
        bool rare = c == TYPE_VALUE || c == TYPE_ASSIGNEDDATASET || c == TYPE_BBOX || c == TYPE_TASK || c == TYPE_QUANTITY;
        if (!g.chance(1, rare ? 6 : 2))
            continue;
        md->test_set(gen_item(g, c, o));
    }
    return md;
}

std::string show(const Type& t)
{
    try
    {
        return tag(t.type_code()) + ":" + printable(t.to_string());
    }
    catch (std::exception& e)
    {
        return tag(t.type_code()) + ":<" + hexdump(enc(t)) + ">";
    }
}

std::string show(const Metadata& md)
{
    std::string res;
    for (auto c : ALL_CODES)
        if (auto t = md.get(c))
        {
            if (!res.empty())
                res += "; ";
            res += show(*t);
        }
    return res;
}

std::vector<uint8_t> enc(const Type& t)
{
    std::vector<uint8_t> buf;
    core::BinaryEncoder e(buf);
    t.encodeBinary(e);
    return buf;
}

std::string items_fingerprint(const Metadata& md)
{
    std::string res;
    for (auto c : ALL_CODES)
        if (auto t = md.get(c))
        {
            auto e = enc(*t);
            res.append((const char*)e.data(), e.size());
            res += '|';
        }
    return res;
}

} // namespace vf
