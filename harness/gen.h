#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include "engine.h"
#include "arki/core/time.h"
#include "arki/defs.h"
#include "arki/metadata.h"
#include "arki/types.h"
#include "arki/types/values.h"
#include <memory>

namespace vf {

/// Options restricting which items are generated
struct ItemOpts
{
    /// strings limited to plain identifier-like text
    bool plain = false;
    /// numbers limited to the small ranges found in real data
    bool small = false;
    /// allow the UNIT_MISSING/undefined step of Timedef timeranges
    bool missing_step = true;
    /// GRIB1 timeranges have p1 <= p2
    bool ordered_timerange = false;
};

extern const std::vector<arki::TypeCode> ALL_CODES;      // all item types of a metadata, not Note/Source
extern const std::vector<arki::TypeCode> MATCHER_CODES;  // with matcher support (not reftime)

arki::core::Time gen_time(Gen& g);
/// Time in a small window around 2007-07-01..2007-09-01, likely to collide
arki::core::Time gen_time_near(Gen& g);
arki::types::ValueBag gen_valuebag(Gen& g, const ItemOpts& o, unsigned maxsize = 5);
std::string gen_text(Gen& g, const ItemOpts& o, size_t minlen, size_t maxlen);
std::unique_ptr<arki::types::Type> gen_item(Gen& g, arki::TypeCode code, const ItemOpts& o = ItemOpts());
/// A small mutation of an item: an item of the same type, likely similar
std::shared_ptr<arki::Metadata> gen_md(Gen& g, const ItemOpts& o = ItemOpts(), bool near_time = false);
std::string show(const arki::types::Type& t);
std::string show(const arki::Metadata& md);
std::vector<uint8_t> enc(const arki::types::Type& t);

/// Items equal ignoring Source and Notes, by comparing encoded forms
std::string items_fingerprint(const arki::Metadata& md);

} // namespace vf
#endif
