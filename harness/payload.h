#ifndef VERIF_PAYLOAD_H
#define VERIF_PAYLOAD_H
#include "arki/metadata.h"
#include "arki/types.h"
#include <memory>
#include <vector>
namespace vf {
/*
 * Self-describing test data: the payload carries its own (encoded) metadata,
 * so that scanning any segment reproduces exactly the metadata it was
 * generated with, for every data format.
 */
std::vector<uint8_t> make_payload(arki::DataFormat format, const arki::Metadata& items, unsigned usn,
                                  const std::vector<uint8_t>& filler);
/// Metadata with inline source with the given payload
std::shared_ptr<arki::Metadata> make_inline(arki::DataFormat format, const arki::Metadata& items, unsigned usn,
                                            const std::vector<uint8_t>& filler);
/// Metadata items contained in a payload; throws if it is not valid
std::shared_ptr<arki::Metadata> scan_payload(arki::DataFormat format, const uint8_t* buf, size_t size);
void setup_scanners();
} // namespace vf
#endif
