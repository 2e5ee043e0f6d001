#ifndef VERIF_EXPRGEN_H
#define VERIF_EXPRGEN_H
#include "gen.h"
#include <functional>
#include <map>
#include <memory>
namespace vf {
/*
 * Generation of matcher expressions together with a reference evaluator,
 * written from doc/matcher/ and independent from arki/matcher.
 */

// Seconds on the proleptic gregorian calendar
int64_t civil_secs(int ye, int mo, int da, int ho, int mi, int se);
int64_t civil_secs(const arki::core::Time& t);
arki::core::Time secs_civil(int64_t s);

/// One alternative for a given item type
struct MAlt
{
    std::string text;
    std::function<bool(const arki::types::Type&)> match;
};

/// Alternatives of a type, ORed
struct MOr
{
    std::vector<MAlt> alts;
    bool match(const arki::types::Type& t) const;
    std::string text(Gen* g = nullptr) const;
};

struct MExpr
{
    std::map<arki::TypeCode, MOr> parts;
    bool match(const arki::Metadata& md) const;
    /// Canonical rendition, or with random blanks and separators if g is given
    std::string text(Gen* g = nullptr) const;
};

/// Reference time expression: a conjunction of tests
struct RTest
{
    // absolute interval [begin, end)
    bool has_lo = false, has_hi = false;
    int64_t lo = 0, hi = 0;
    // time of day interval, inclusive
    bool has_tod = false;
    int tod_lo = 0, tod_hi = 86399;
    // time steps
    bool has_step = false;
    int step_base = 0, step_rep = 0;
    bool match(int64_t t) const;
};

struct RTOpts
{
    /// reference "now", or -1 if relative dates cannot be used
    int64_t now = -1;
    /// no time steps or times of day
    bool only_dates = false;
    /// dates close to the ones of gen_time_near
    bool near_dates = true;
    unsigned max_terms = 3;
};

struct RTExpr
{
    std::string text;
    std::vector<RTest> tests;
    bool match(int64_t t) const;
};

RTExpr gen_reftime(Gen& g, const RTOpts& o, const arki::core::Time* hint = nullptr);
MAlt gen_alt(Gen& g, arki::TypeCode code, const arki::types::Type* hint, const ItemOpts& o);
/// Expression likely to match some of the given metadata
MExpr gen_expr(Gen& g, const std::vector<std::shared_ptr<arki::Metadata>>& pool, const ItemOpts& o,
               bool with_reftime = true, unsigned maxtypes = 3);
const char* tag_of(arki::TypeCode code);
} // namespace vf
#endif
