From 253bc3f07a682db41f568357f07ecfd81685f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 01/62] fix: quote ValueBag string values containing
 separators, so their text form parses back

---
 arki/types/values.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index ef47a35..c486b46 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -57,6 +57,11 @@ static bool needsQuoting(const std::string& str)
     if (str.find('\0', 0) != std::string::npos)
         return true;
 
+    // Strings containing separators need quoting, since an unquoted value ends
+    // at the first one
+    if (str.find_first_of(",; \t\n\v\f\r") != std::string::npos)
+        return true;
+
     // Otherwise, no quoting is neeed as decoding should be unambiguous
     return false;
 }
-- 
2.43.0


From 47e792a7c4c56b2910600c3a524fb5dcc03c26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 02/62] fix: decode_cstring: parse \xNN escapes as hexadecimal

---
 arki/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/utils/string.cc b/arki/utils/string.cc
index 067ed10..6591013 100644
--- a/arki/utils/string.cc
+++ b/arki/utils/string.cc
@@ -391,7 +391,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                          ++j)
                         buf[2 + j] = *(i + 2 + j);
                     i += j;
-                    res += static_cast<char>(atoi(buf));
+                    res += static_cast<char>(strtol(buf, nullptr, 16));
                     break;
                 }
                 default: res += *(i + 1); break;
-- 
2.43.0


From 9a37043cdb69b1a13eb59291c9db12896516e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 03/62] fix: parse back the text form of zero-valued BUFR
 timeranges

---
 arki/types/timerange.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 25515f7..68188ae 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -683,6 +683,10 @@ std::unique_ptr<Timerange> Timerange::decodeString(const std::string& val)
         }
         case timerange::Style::BUFR: {
             const char* start = inner.c_str();
+            // A zero forecast is formatted as an empty value
+            skipCommasAndSpaces(start);
+            if (!*start)
+                return createBUFR();
             unsigned value    = getNumber(start, "forecast seconds");
             unsigned unit     = parseTimeUnit(start);
             return createBUFR(value, unit);
@@ -1911,7 +1915,7 @@ std::ostream& BUFR::writeToOstream(std::ostream& o) const
     utils::SaveIOState sios(o);
     std::string suffix = formatTimeUnit((t_enum_GRIB_TIMEUNIT)un);
     o << formatStyle(Style::BUFR) << "(";
-    if (va != 0)
+    if (va != 0 || !is_seconds(un))
         o << va << suffix;
     return o << ")";
 }
-- 
2.43.0


From cc77a9ca561dc9dfaf3414ac60406315c4fdfdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 04/62] fix: format and parse Timedef timeranges with a missing
 step

---
 arki/types/timerange.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 68188ae..d5b142c 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1723,7 +1723,10 @@ bool Timedef::timeunit_conversion(TimedefUnit unit, int& timemul)
 
 void Timedef::timeunit_output(TimedefUnit unit, uint32_t val, std::ostream& out)
 {
-    out << val << timeunit_suffix(unit);
+    if (unit == UNIT_MISSING)
+        out << "-";
+    else
+        out << val << timeunit_suffix(unit);
 }
 
 bool Timedef::timeunit_parse_suffix(const char*& str, TimedefUnit& unit)
@@ -1818,6 +1821,7 @@ bool Timedef::timeunit_parse(const char*& str, TimedefUnit& unit, uint32_t& val)
         unit = UNIT_MISSING;
         val  = 0;
 
+        ++str;
         skipCommasAndSpaces(str);
         return true;
     }
-- 
2.43.0


From 296ab6c968be7e80f60b3cb65ee99439f4782722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 05/62] fix: integer overflow when comparing metadata items

---
 arki/types/area.cc      |  8 +++++++-
 arki/types/timerange.cc | 35 ++++++++++++++++++++---------------
 arki/types/timerange.h  |  4 ++--
 arki/types/values.cc    |  4 +++-
 4 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/arki/types/area.cc b/arki/types/area.cc
index 201948b..7309ab3 100644
--- a/arki/types/area.cc
+++ b/arki/types/area.cc
@@ -346,7 +346,13 @@ bool VM2::equals(const Type& o) const
     return memcmp(data, v->data, std::min(size, 5u)) == 0;
 }
 
-int VM2::compare_local(const VM2& o) const { return get_VM2() - o.get_VM2(); }
+int VM2::compare_local(const VM2& o) const
+{
+    // Do not subtract: the difference may not fit an int
+    auto a = get_VM2();
+    auto b = o.get_VM2();
+    return (a > b) - (a < b);
+}
 
 std::ostream& VM2::writeToOstream(std::ostream& o) const
 {
diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index d5b142c..19b76f7 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1371,9 +1371,10 @@ int GRIB2::compare_local(const GRIB2& o) const
         return res;
     if (int res = un - vun)
         return res;
-    if (int res = p1 - vp1)
-        return res;
-    return p2 - vp2;
+    // Do not subtract: the difference may not fit an int
+    if (p1 != vp1)
+        return p1 < vp1 ? -1 : 1;
+    return (p2 > vp2) - (p2 < vp2);
 }
 
 std::ostream& GRIB2::writeToOstream(std::ostream& o) const
@@ -1457,7 +1458,7 @@ bool Timedef::equals(const Type& o) const
         bool is2 = timeunit_conversion(vstep_unit, timemul2);
         if (is1 != is2)
             return false;
-        if (step_len * timemul1 != vstep_len * timemul2)
+        if ((int64_t)step_len * timemul1 != (int64_t)vstep_len * timemul2)
             return false;
     }
 
@@ -1478,7 +1479,7 @@ bool Timedef::equals(const Type& o) const
         bool is2 = timeunit_conversion(vstat_unit, timemul2);
         if (is1 != is2)
             return false;
-        if (stat_len * timemul1 != vstat_len * timemul2)
+        if ((int64_t)stat_len * timemul1 != (int64_t)vstat_len * timemul2)
             return false;
     }
 
@@ -1507,8 +1508,10 @@ int Timedef::compare_local(const Timedef& o) const
             return -1;
         if (is2 && !is1)
             return 1;
-        if (int res = step_len * timemul1 - vstep_len * timemul2)
-            return res;
+        int64_t norm1 = (int64_t)step_len * timemul1;
+        int64_t norm2 = (int64_t)vstep_len * timemul2;
+        if (norm1 != norm2)
+            return norm1 < norm2 ? -1 : 1;
     }
 
     // Compare type of statistical processing
@@ -1530,8 +1533,10 @@ int Timedef::compare_local(const Timedef& o) const
             return -1;
         if (is2 && !is1)
             return 1;
-        if (int res = stat_len * timemul1 - vstat_len * timemul2)
-            return res;
+        int64_t norm1 = (int64_t)stat_len * timemul1;
+        int64_t norm2 = (int64_t)vstat_len * timemul2;
+        if (norm1 != norm2)
+            return norm1 < norm2 ? -1 : 1;
     }
 
     return 0;
@@ -1905,10 +1910,10 @@ int BUFR::compare_local(const BUFR& o) const
 
     if (int res = (is_seconds(un) ? 0 : 1) - (o.is_seconds(vun) ? 0 : 1))
         return res;
-    if (is_seconds(un))
-        return seconds(un, va) - o.seconds(vun, vva);
-    else
-        return months(un, va) - o.months(vun, vva);
+    // Do not subtract: the difference may not fit an int
+    uint64_t a = is_seconds(un) ? seconds(un, va) : months(un, va);
+    uint64_t b = is_seconds(un) ? o.seconds(vun, vva) : o.months(vun, vva);
+    return (a > b) - (a < b);
 }
 
 std::ostream& BUFR::writeToOstream(std::ostream& o) const
@@ -1993,7 +1998,7 @@ bool BUFR::is_seconds(unsigned unit)
     }
 }
 
-unsigned BUFR::seconds(unsigned unit, unsigned value)
+uint64_t BUFR::seconds(unsigned unit, uint64_t value)
 {
     if (value == 0)
         return 0;
@@ -2019,7 +2024,7 @@ unsigned BUFR::seconds(unsigned unit, unsigned value)
     }
 }
 
-unsigned BUFR::months(unsigned unit, unsigned value)
+uint64_t BUFR::months(unsigned unit, uint64_t value)
 {
     if (value == 0)
         return 0;
diff --git a/arki/types/timerange.h b/arki/types/timerange.h
index a5fb629..86fcf0d 100644
--- a/arki/types/timerange.h
+++ b/arki/types/timerange.h
@@ -398,8 +398,8 @@ processing:
     bool get_proc_duration(int& duration, bool& is_seconds) const override;
 
     static bool is_seconds(unsigned unit);
-    static unsigned seconds(unsigned unit, unsigned value);
-    static unsigned months(unsigned unit, unsigned value);
+    static uint64_t seconds(unsigned unit, uint64_t value);
+    static uint64_t months(unsigned unit, uint64_t value);
 };
 
 } // namespace timerange
diff --git a/arki/types/values.cc b/arki/types/values.cc
index c486b46..5ad0cfc 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -351,7 +351,9 @@ public:
             return res;
         switch (type_id())
         {
-            case 1: return as_int() - v.as_int();
+            case 1:
+                // Do not subtract: the difference may overflow
+                return (as_int() > v.as_int()) - (as_int() < v.as_int());
             case 2: return as_string().compare(v.as_string());
             default:
                 throw std::runtime_error(
-- 
2.43.0


From 75add67e9a8a5e7812d1f602ce521ae6e55278f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 06/62] fix: handle short reads when reading metadata from
 abstract input files

---
 arki/metadata.cc     | 13 +++++++++++--
 arki/types/bundle.cc | 13 +++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 669de8b..ec636f3 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -584,8 +584,17 @@ size_t Metadata::read_inline_data(core::AbstractInputFile& fd)
 
     iotrace::trace_file(fd, 0, si->size, "read inline data");
 
-    // Read the inline data
-    fd.read(buf.data(), si->size);
+    // Read the inline data. AbstractInputFile::read can return less than what
+    // was requested
+    for (size_t pos = 0; pos < si->size;)
+    {
+        size_t res = fd.read(buf.data() + pos, si->size - pos);
+        if (res == 0)
+            throw std::runtime_error(
+                fd.path().native() +
+                ": inline data not found after arkimet metadata");
+        pos += res;
+    }
     m_data = metadata::DataManager::get().to_data(s.format, std::move(buf));
 
     return si->size;
diff --git a/arki/types/bundle.cc b/arki/types/bundle.cc
index 515ee6f..a734dc9 100644
--- a/arki/types/bundle.cc
+++ b/arki/types/bundle.cc
@@ -95,10 +95,15 @@ size_t Bundle::read_header(AbstractInputFile& fd)
 
     // Read the rest of the first 8 bytes
     unsigned char hdr[8];
-    hdr[0]     = c;
-    size_t res = fd.read(hdr + 1, 7);
-    if (res < 7)
-        return false; // EOF
+    hdr[0] = c;
+    for (size_t pos = 1; pos < 8;)
+    {
+        // AbstractInputFile::read can return less than what was requested
+        size_t res = fd.read(hdr + pos, 8 - pos);
+        if (res == 0)
+            return 0; // EOF
+        pos += res;
+    }
     count_read += 7;
 
     core::BinaryDecoder dec(hdr, 8);
-- 
2.43.0


From c352d9c9d49b679df588b4851692e17dfc813a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 07/62] fix: decode ODIMH5 products with empty strings

---
 arki/types/product.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/types/product.cc b/arki/types/product.cc
index 6f973d8..bb6c409 100644
--- a/arki/types/product.cc
+++ b/arki/types/product.cc
@@ -206,7 +206,7 @@ unique_ptr<Product> Product::decode(core::BinaryDecoder& dec, bool reuse_buffer)
             dec.skip(dec.size);
             break;
         case product::Style::ODIMH5:
-            dec.ensure_size(4, "ODIMH5 data");
+            dec.ensure_size(3, "ODIMH5 data");
             if (reuse_buffer)
                 res.reset(new product::ODIMH5(dec.buf, dec.size, false));
             else
-- 
2.43.0


From 69e1bcf28b4c18382b4238bf7858ae3f3bd24a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 08/62] fix: write multiple notes in YAML metadata in a form
 that can be parsed back

---
 arki/metadata.cc | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index ec636f3..6de2ee0 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -685,20 +685,9 @@ std::string Metadata::to_yaml(const Formatter* formatter) const
         buf << endl;
     }
 
-    if (i != notes_end)
-    {
-        buf << "Note: ";
-        if (i + 1 == notes_end)
-            buf << **i << endl;
-        else
-        {
-            for (; i != notes_end; ++i)
-            {
-                buf << endl;
-                buf << " " << **i << endl;
-            }
-        }
-    }
+    // Repeat the field for each note, as that is what can be parsed back
+    for (; i != notes_end; ++i)
+        buf << "Note: " << **i << endl;
 
     return buf.str();
 }
-- 
2.43.0


From d6c1a2a64cf8f892773031250d145fdee8ac7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 09/62] fix: reftime alternatives select the union of their
 intervals, not their intersection

---
 arki/matcher/utils.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index d0ed774..0e9b3e0 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -1,6 +1,7 @@
 #include "utils.h"
 #include "aliases.h"
 #include "arki/core/binary.h"
+#include "arki/core/time.h"
 #include "arki/metadata.h"
 #include "arki/types.h"
 #include "arki/types/itemset.h"
@@ -193,14 +194,30 @@ std::string OR::toStringValueOnlyExpanded() const
 
 bool OR::intersect_interval(core::Interval& interval) const
 {
+    if (components.empty())
+        return true;
+
+    // Any of the components can match: compute the smallest interval that
+    // contains the intersections with each of them
+    core::Interval result;
+    bool found = false;
     for (auto i : components)
     {
         const matcher::MatchReftime* rt =
             dynamic_cast<const matcher::MatchReftime*>(i.get());
         assert(rt != nullptr);
-        if (!rt->intersect_interval(interval))
-            return false;
+        core::Interval part(interval);
+        if (!rt->intersect_interval(part))
+            continue;
+        if (found)
+            result.extend(part);
+        else
+            result = part;
+        found = true;
     }
+    if (!found)
+        return false;
+    interval = result;
     return true;
 }
 
-- 
2.43.0


From 12ca91f4311af16000d1dc53e6974f2d813e64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 10/62] fix: Timedef matchers of missing steps also check the
 statistical processing

---
 arki/matcher/timerange.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 9866f5c..1af26b0 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -470,8 +470,11 @@ bool MatchTimerangeTimedef::matchItem(const Type& o) const
         int v_step;
         bool v_is_seconds;
         if (!v->get_forecast_step(v_step, v_is_seconds))
-            return step.value == -1;
-        if (step.value != v_step || step_is_seconds != v_is_seconds)
+        {
+            if (step.value != -1)
+                return false;
+        }
+        else if (step.value != v_step || step_is_seconds != v_is_seconds)
             return false;
     }
 
-- 
2.43.0


From 5472fb2390a8370a91b2dacf728b778b6ed679dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 11/62] fix: do not divide by zero on reftime expressions with
 a zero time step

---
 arki/matcher/reftime/parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 8d026ac..9e7a4e4 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -4,6 +4,7 @@
 #include <memory>
 #include <set>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 using arki::core::FuzzyTime;
@@ -496,6 +497,8 @@ DTMatch* Parser::createStep(int val, int idx, const int* tt)
 
     std::set<int> times;
     int repetition = timesecs(val, idx);
+    if (repetition <= 0)
+        throw std::invalid_argument("time step must be greater than zero");
 
     for (int step = timebase % repetition; step < 3600 * 24; step += repetition)
         times.emplace(step);
-- 
2.43.0


From 75037aae1c43d0f648f2d917fe9ea61caa7fe586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 12/62] fix: format reftime time steps with a single unit, so
 that they can be parsed back

---
 arki/matcher/reftime/parser.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 9e7a4e4..d761bd8 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -52,13 +52,14 @@ static std::string tosqlTime(const int& tt)
 
 static std::string tostringInterval(const int& tt)
 {
+    // The parser only accepts one value with its unit
     std::stringstream res;
-    if (tt / 3600)
+    if (tt % 3600 == 0)
         res << (tt / 3600) << "h";
-    if ((tt % 3600) / 60)
-        res << ((tt % 3600) / 60) << "m";
-    if (tt % 60)
-        res << (tt % 60) << "s";
+    else if (tt % 60 == 0)
+        res << (tt / 60) << "m";
+    else
+        res << tt << "s";
     return res.str();
 }
 
-- 
2.43.0


From f0831e74f768338921be33036497a7ad505435ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 13/62] fix: do not exceed the sqlite expression depth on
 reftime expressions with short time steps

---
 arki/matcher/reftime/parser.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index d761bd8..77e504c 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -345,6 +345,20 @@ struct TimeExact : public DTMatch
     {
         string res = "(";
         bool first = true;
+        if (times.size() > 100)
+        {
+            // Long chains of OR exceed the maximum expression depth of sqlite
+            res += "TIME(" + column + ") IN (";
+            for (const auto& t : times)
+            {
+                if (first)
+                    first = false;
+                else
+                    res += ",";
+                res += tosqlTime(t);
+            }
+            return res + "))";
+        }
         for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
         {
             if (first)
-- 
2.43.0


From 0e465b08d56ce53936b6933fbb3072166ae2fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 14/62] fix: forecast step of GRIB1 timeranges of type 10 uses
 both octets of P1

---
 arki/types/timerange.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 19b76f7..047f577 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1047,12 +1047,15 @@ bool GRIB1::get_forecast_step(int& step, bool& is_seconds) const
     {
         case GRIB_TIMERANGE_FORECAST_AT_REFTIME_PLUS_P1: // = 0
         case GRIB_TIMERANGE_ANALYSIS_AT_REFTIME:         // = 1
-        case GRIB_TIMERANGE_VALID_AT_REFTIME_PLUS_P1P2:  // = 10
                                                          // statproc = 254
             // CALL gribtr_to_second(unit, p1_g1, p1)
             // p2 = 0
             step = p1 * timemul;
             return true;
+        case GRIB_TIMERANGE_VALID_AT_REFTIME_PLUS_P1P2: // = 10
+            // P1 occupies both octets
+            step = (p1 << 8 | p2) * timemul;
+            return true;
         case GRIB_TIMERANGE_VALID_IN_REFTIME_PLUS_P1_REFTIME_PLUS_P2: // = 2
             // ELSE IF (tri == 2) THEN ! somewhere between p1 and p2, not good
             // for grib2 standard
-- 
2.43.0


From 671c3557c21eb8fc890fabf107055c8a4f0fcf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 15/62] fix: stop the query when the consumer refuses an
 element of a sorted stream

---
 arki/dataset/simple/reader.cc | 6 ++++--
 arki/metadata/sort.cc         | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index 17d1a80..a923bf3 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -67,8 +67,10 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
         auto segment = dataset().segment_session->segment_from_relpath(
             segmentinfo.relpath);
         auto reader = segment->reader(lock);
-        reader->query_data(
-            q, [&](std::shared_ptr<Metadata> md) { return sorter.add(md); });
+        if (!reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
+                return sorter.add(md);
+            }))
+            return track.done(false);
         if (!sorter.flush())
             return track.done(false);
     }
diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 43c985b..19df1f6 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -203,7 +203,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
         auto time = rt->get_Position();
         if (hasInterval && (!endofperiod.get() || time > *endofperiod))
         {
-            flush();
+            if (!flush())
+                return false;
             buffer.push_back(m);
             setEndOfPeriod(time);
         }
@@ -212,8 +213,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
     }
     else
     {
-        if (hasInterval)
-            flush();
+        if (hasInterval && !flush())
+            return false;
         buffer.push_back(m);
     }
     return true;
-- 
2.43.0


From 82484a9ab698898dbbbc728da596c0693ec831d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 16/62] fix: weekly and biweekly steps know the timespan of
 their segments and can list them

---
 arki/dataset/step.cc | 128 +++++++++++++++++++++++++++++++++----------
 1 file changed, 100 insertions(+), 28 deletions(-)

diff --git a/arki/dataset/step.cc b/arki/dataset/step.cc
index 62cb1a0..6670a3f 100644
--- a/arki/dataset/step.cc
+++ b/arki/dataset/step.cc
@@ -251,6 +251,88 @@ struct MonthDayFiles : public BaseFiles
     }
 };
 
+/// Timespan of the given half of a month, as used by the biweekly step
+static bool biweek_timespan(int ye, int mo, int biweek,
+                            core::Interval& interval)
+{
+    switch (biweek)
+    {
+        case 1:
+            interval.begin = core::Time(ye, mo, 1);
+            interval.end   = core::Time(ye, mo, 16);
+            return true;
+        case 2:
+            interval.begin = core::Time(ye, mo, 16);
+            interval.end   = interval.begin.start_of_next_month();
+            return true;
+        default: return false;
+    }
+}
+
+/**
+ * Timespan of the given group of 7 days since the beginning of a month, as
+ * used by the weekly step.
+ *
+ * The last one ends with the month.
+ */
+static bool week_timespan(int ye, int mo, int week, core::Interval& interval)
+{
+    if (week < 1 || week > 5)
+        return false;
+    core::Time end_of_month = core::Time(ye, mo, 1).start_of_next_month();
+    interval.begin          = core::Time(ye, mo, (week - 1) * 7 + 1);
+    interval.end            = week == 5 ? end_of_month
+                                        : core::Time(ye, mo, week * 7 + 1);
+    interval.end.normalise();
+    return true;
+}
+
+/// Files named after a subdivision of a month: mm-n.format
+struct MonthPartFiles : public BaseFiles
+{
+    using BaseFiles::BaseFiles;
+
+    std::unique_ptr<Regexp> make_regexp() const override
+    {
+        string re = "^(([[:digit:]]{2})-([[:digit:]])\\.([^.]+))" +
+                    dirs.query.extension_re;
+        return unique_ptr<Regexp>(new ERegexp(re, 5));
+    }
+
+    DataFormat to_format(const Regexp& re) const override
+    {
+        return format_from_string(re[4]);
+    }
+    std::filesystem::path to_relpath(const Regexp& re) const override
+    {
+        return re[1];
+    }
+};
+
+struct BiweekFiles : public MonthPartFiles
+{
+    using MonthPartFiles::MonthPartFiles;
+
+    core::Interval to_period(const Regexp& re) const override
+    {
+        core::Interval res;
+        biweek_timespan(value, std::stoul(re[2]), std::stoul(re[3]), res);
+        return res;
+    }
+};
+
+struct WeekFiles : public MonthPartFiles
+{
+    using MonthPartFiles::MonthPartFiles;
+
+    core::Interval to_period(const Regexp& re) const override
+    {
+        core::Interval res;
+        week_timespan(value, std::stoul(re[2]), std::stoul(re[3]), res);
+        return res;
+    }
+};
+
 Dirs::Dirs(const SegmentQuery& query) : query(query) {}
 
 struct BaseDirs : public Dirs
@@ -648,27 +730,20 @@ struct Biweekly : public BaseStep
 {
     static const char* name() { return "biweekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::BiweekFiles>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
         int ye, mo = -1, biweek = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 2)
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 3)
             return false;
-
-        switch (biweek)
-        {
-            case 1:
-                interval.begin.set_lowerbound(ye, mo, 1);
-                interval.end.set_lowerbound(ye, mo, 15);
-                break;
-            case 2:
-                interval.begin.set_lowerbound(ye, mo, 15);
-                interval.end.set_lowerbound(ye, mo + 1, 1);
-                interval.end.normalise();
-                break;
-            default: break;
-        }
-        return true;
+        return step::biweek_timespan(ye, mo, biweek, interval);
     }
 
     std::filesystem::path operator()(const core::Time& time) const override
@@ -687,23 +762,20 @@ struct Weekly : public BaseStep
 {
     static const char* name() { return "weekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::WeekFiles>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
         int ye, mo = -1, week = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 2)
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 3)
             return false;
-        int min_da = -1;
-        int max_da = -1;
-        if (week != -1)
-        {
-            min_da = (week - 1) * 7 + 1;
-            max_da = min_da + 7;
-        }
-        // TODO: are these normalised?
-        interval.begin.set_lowerbound(ye, mo, min_da);
-        interval.end.set_lowerbound(ye, mo, max_da);
-        return true;
+        return step::week_timespan(ye, mo, week, interval);
     }
 
     std::filesystem::path operator()(const core::Time& time) const override
-- 
2.43.0


From 25e513d5b16357ec722c0c097061d122713f2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 17/62] fix: iseg checker invalidates cached summaries when
 segments are removed, archived, unarchived or rescanned

---
 arki/dataset/iseg/checker.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index f119fed..f68fdd8 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -65,6 +65,25 @@ public:
             dataset_checker.archive());
     }
 
+    /// Delete the cached summaries that can contain data from this segment
+    void invalidate_summary_cache()
+    {
+        if (!std::filesystem::exists(dataset().summary_cache_pathname))
+            return;
+        index::SummaryCache scache(dataset().summary_cache_pathname);
+        core::Interval interval;
+        if (dataset().step().path_timespan(segment->relpath(), interval) &&
+            interval.end.ye - interval.begin.ye <= 100)
+            scache.invalidate(interval.begin, interval.end);
+        else
+            scache.invalidate();
+    }
+
+    void pre_remove(std::shared_ptr<segment::Fixer>) override
+    {
+        invalidate_summary_cache();
+    }
+
     segmented::SegmentState fsck(dataset::Reporter& reporter,
                                  bool quick = true) override
     {
@@ -114,6 +133,7 @@ public:
         // Remove .metadata and .summary files
         std::filesystem::remove(segment->abspath_metadata());
         std::filesystem::remove(segment->abspath_summary());
+        invalidate_summary_cache();
     }
 
     void rescan(dataset::Reporter& reporter) override
@@ -130,6 +150,7 @@ public:
 
         auto fixer = segment_checker->fixer();
         fixer->reindex(mds);
+        invalidate_summary_cache();
     }
 
     arki::metadata::Collection
@@ -140,6 +161,7 @@ public:
         auto fixer               = segment_checker->fixer();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
+        invalidate_summary_cache();
         return mds;
     }
 };
-- 
2.43.0


From cc0d35f0c73d93608c81331d75c05afc1b62fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 18/62] fix: simple checker deletes the dataset summary when
 segments are removed

---
 arki/dataset/simple/checker.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 6568bed..800c8d7 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -160,6 +160,7 @@ public:
     {
         dataset_checker.manifest.remove(segment->relpath());
         dataset_checker.manifest.flush();
+        invalidate_dataset_summary();
     }
 
     void post_convert(std::shared_ptr<segment::Fixer>,
-- 
2.43.0


From ef6a153c2f168d5d49b99b00dc6716514be8202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 19/62] fix: data that cannot be appended to an archived
 segment is reported as an error, without losing track of the rest of the
 batch

---
 arki/segment/iseg.cc     | 18 ++++++++++++------
 arki/segment/metadata.cc |  3 ++-
 arki/segment/scan.cc     |  3 ++-
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 506d37a..9b6cfe6 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -184,11 +184,13 @@ Writer::acquire_batch_replace_never(arki::metadata::InboundBatch& batch,
                                     const WriterConfig& config)
 {
     AcquireResult res;
-    auto data_writer    = get_data_writer(config);
-    core::Pending p_idx = index->begin_transaction();
+    std::shared_ptr<segment::data::Writer> data_writer;
+    core::Pending p_idx;
 
     try
     {
+        data_writer = get_data_writer(config);
+        p_idx       = index->begin_transaction();
         for (auto& e : batch)
         {
             e->destination.clear();
@@ -233,11 +235,13 @@ Writer::acquire_batch_replace_always(arki::metadata::InboundBatch& batch,
                                      const WriterConfig& config)
 {
     AcquireResult res;
-    auto data_writer    = get_data_writer(config);
-    core::Pending p_idx = index->begin_transaction();
+    std::shared_ptr<segment::data::Writer> data_writer;
+    core::Pending p_idx;
 
     try
     {
+        data_writer = get_data_writer(config);
+        p_idx       = index->begin_transaction();
         for (auto& e : batch)
         {
             e->destination.clear();
@@ -268,11 +272,13 @@ Writer::acquire_batch_replace_higher_usn(arki::metadata::InboundBatch& batch,
                                          const WriterConfig& config)
 {
     AcquireResult res;
-    auto data_writer    = get_data_writer(config);
-    core::Pending p_idx = index->begin_transaction();
+    std::shared_ptr<segment::data::Writer> data_writer;
+    core::Pending p_idx;
 
     try
     {
+        data_writer = get_data_writer(config);
+        p_idx       = index->begin_transaction();
         for (auto& e : batch)
         {
             e->destination.clear();
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 0e37b2e..d0b0550 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -361,9 +361,10 @@ void Writer::write_metadata()
 Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
                                       const WriterConfig& config)
 {
-    auto data_writer = get_data_writer(config);
+    std::shared_ptr<segment::data::Writer> data_writer;
     try
     {
+        data_writer = get_data_writer(config);
         for (auto& e : batch)
         {
             e->destination.clear();
diff --git a/arki/segment/scan.cc b/arki/segment/scan.cc
index aa1c279..f31a6ac 100644
--- a/arki/segment/scan.cc
+++ b/arki/segment/scan.cc
@@ -133,9 +133,10 @@ Writer::get_data_writer(const segment::WriterConfig& config) const
 Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
                                       const WriterConfig& config)
 {
-    auto data_writer = get_data_writer(config);
+    std::shared_ptr<segment::data::Writer> data_writer;
     try
     {
+        data_writer = get_data_writer(config);
         for (auto& e : batch)
         {
             e->destination.clear();
-- 
2.43.0


From 7120d699ebb7057b77574076404eac1f1215be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:56 +0000
Subject: [PATCH 20/62] fix: time of day matches on intervals shorter than a
 day look at all the instants in the interval

---
 arki/matcher/reftime/parser.cc | 92 +++++++++++-----------------------
 1 file changed, 28 insertions(+), 64 deletions(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 77e504c..f051330 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -68,6 +68,25 @@ static int time_to_seconds(const Time& t)
     return t.ho * 3600 + t.mi * 60 + t.se;
 }
 
+/**
+ * Check if any instant in interval (end excluded) has a time of day between
+ * min and max seconds (both included)
+ */
+static bool has_time_of_day(const Interval& interval, int min, int max)
+{
+    if (!interval.begin.is_set() || !interval.end.is_set())
+        return true;
+    long long int duration = Time::duration(interval);
+    if (duration >= 3600 * 24)
+        return true;
+    long long int first = time_to_seconds(interval.begin);
+    long long int last  = first + (duration > 0 ? duration - 1 : 0);
+    if (first <= max && min <= last)
+        return true;
+    // The interval continues in the next day
+    return last >= 3600 * 24 && min <= last - 3600 * 24;
+}
+
 struct DateInterval : public DTMatch
 {
     Interval interval;
@@ -155,13 +174,7 @@ struct TimeLE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) <= ref)
-            return true;
-        if (time_to_seconds(interval.end) <= ref)
-            return true;
-        return false;
+        return has_time_of_day(interval, 0, ref);
     }
     string sql(const std::string& column) const override
     {
@@ -180,13 +193,7 @@ struct TimeLT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) < ref)
-            return true;
-        if (time_to_seconds(interval.end) < ref)
-            return true;
-        return false;
+        return ref > 0 && has_time_of_day(interval, 0, ref - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -205,13 +212,8 @@ struct TimeGT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) > ref)
-            return true;
-        if (time_to_seconds(interval.end) > ref)
-            return true;
-        return false;
+        return ref < 24 * 3600 - 1 &&
+               has_time_of_day(interval, ref + 1, 24 * 3600 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -230,13 +232,7 @@ struct TimeGE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) >= ref)
-            return true;
-        if (time_to_seconds(interval.end) >= ref)
-            return true;
-        return false;
+        return has_time_of_day(interval, ref, 24 * 3600 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -262,25 +258,7 @@ struct TimeEQ : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        // If the times are more than 24hours apart, then we necessarily cover a
-        // whole day
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        if (rb <= re)
-        {
-            if (rb <= geref && leref <= re)
-                return true;
-        }
-        else
-        {
-            if (leref <= re || rb <= geref)
-                return true;
-        }
-
-        return false;
+        return has_time_of_day(interval, geref, leref);
     }
     string sql(const std::string& column) const override
     {
@@ -322,23 +300,9 @@ struct TimeExact : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
-        {
-            if (rb <= re)
-            {
-                if (*i >= rb && *i <= re)
-                    return true;
-            }
-            else
-            {
-                if (*i >= rb || *i <= re)
-                    return true;
-            }
-        }
+        for (const auto& t : times)
+            if (has_time_of_day(interval, t, t))
+                return true;
         return false;
     }
     string sql(const std::string& column) const override
-- 
2.43.0


From 7fe6806e0d6af7797553234fd19cf8c54a86158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 21/62] fix: importing only duplicates in a directory segment
 does not make it newer than its index

---
 arki/segment/data/dir.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 639c0ef..2da5b25 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -513,7 +513,10 @@ template <typename Data> void BaseWriter<Data>::commit()
 {
     if (this->fired)
         return;
-    seqfile.write_sequence(current_pos - 1);
+    // Do not touch the segment if nothing was added to it, since its timestamp
+    // is the one of the sequence file
+    if (!pending.empty())
+        seqfile.write_sequence(current_pos - 1);
     for (auto& p : pending)
         p.set_source();
     pending.clear();
-- 
2.43.0


From bebfffbeff825647cf5760c2c888824fa80ec1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 22/62] fix: accurate checks look for unexpected files inside
 the directory segment

---
 arki/segment/data/dir.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 2da5b25..c20a6f9 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -220,7 +220,7 @@ struct CheckBackend : public AppendCheckBackend
                     SequenceFile::data_fname(idx, segment.format());
                 try
                 {
-                    scanner->scan_file_single(fname);
+                    scanner->scan_file_single(segment.abspath() / fname);
                 }
                 catch (std::exception& e)
                 {
-- 
2.43.0


From 7da263d8cb9520f03842894c22c0987a9b303c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 23/62] fix: removing old data deletes only old data from the
 archives, not all of them

---
 arki/dataset/archive.cc   | 2 +-
 arki/dataset/segmented.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index 50b8cfb..236e080 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -400,7 +400,7 @@ void Checker::segments_recursive(
 void Checker::remove_old(CheckerConfig& opts)
 {
     archives->iter([&](dataset::Checker& a) {
-        a.remove_all(opts);
+        a.remove_old(opts);
         return true;
     });
 }
diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 134e204..14790d6 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -377,7 +377,7 @@ void Checker::remove_old(CheckerConfig& opts)
         }
     });
 
-    local::Checker::remove_all(opts);
+    local::Checker::remove_old(opts);
 }
 
 void Checker::remove_all(CheckerConfig& opts)
-- 
2.43.0


From ed4d35a0a75b06fec88ab0e44389b64ad106c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 24/62] fix: invalidating months in the summary cache always
 invalidates the global summary

---
 arki/dataset/index/summarycache.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index e20446a..4dd6f0b 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -132,14 +132,9 @@ void SummaryCache::invalidate(const metadata::InboundBatch& batch)
 
 void SummaryCache::invalidate(const Time& tmin, const Time& tmax)
 {
-    bool deleted = false;
     for (Time t = tmin; t <= tmax; t = t.start_of_next_month())
-    {
-        if (std::filesystem::remove(summary_pathname(t.ye, t.mo)))
-            deleted = true;
-    }
-    if (deleted)
-        std::filesystem::remove(m_scache_root / "all.summary");
+        std::filesystem::remove(summary_pathname(t.ye, t.mo));
+    std::filesystem::remove(m_scache_root / "all.summary");
 }
 
 bool SummaryCache::check(const dataset::Base& ds, Reporter& reporter) const
-- 
2.43.0


From 662e83d6d63d65145222049c512e8bb13de513ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 25/62] fix: unarchive segments stored in a compressed form

---
 arki/dataset/segmented.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 14790d6..f272b73 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -299,6 +299,8 @@ void CheckerSegment::unarchive()
     auto arcrelpath          = "last" / segment->relpath();
     metadata::Collection mdc = archives()->release_segment(
         arcrelpath, dataset().segment_session, segment->relpath());
+    // The data that has been moved in place can be of a different kind
+    segment_checker = segment->checker(lock);
     index(std::move(mdc));
 }
 
-- 
2.43.0


From a754a94b044909f246eda931d2f406f79fa9d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 26/62] fix: repacking a gzip segment with an index replaces
 the compressed file

---
 arki/segment/data/gz.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 0bab34b..43f32f6 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -271,7 +271,7 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
         finalize->tmpfiles.push_back(tmpidxabspath);
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
-                std::filesystem::rename(tmpfiles[0], this->segment().abspath());
+                std::filesystem::rename(tmpfiles[0], gzabspath);
                 if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
                     std::filesystem::remove(gzidxabspath);
             };
-- 
2.43.0


From 23d79c397274321e1b3e9ec1008beac2c05100f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 27/62] fix: checking tar segments finds out that they are
 truncated to less than 1024 bytes

---
 arki/segment/data/tar.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index a81cd5a..e2bba32 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -80,7 +80,10 @@ struct CheckBackend : public AppendCheckBackend
         validator->validate_file(data, source.offset, source.size);
     }
 
-    size_t offset_end() const override { return st.st_size - 1024; }
+    size_t offset_end() const override
+    {
+        return st.st_size > 1024 ? st.st_size - 1024 : 0;
+    }
 
     size_t actual_start(off_t offset, size_t size) const override
     {
-- 
2.43.0


From 531bab185445b054850765de8d6c70ea9b582454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 28/62] fix: maintenance ignores unrelated zip, gz and tar
 files found in a dataset

---
 arki/segment/session.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/arki/segment/session.cc b/arki/segment/session.cc
index 4c1ca54..2eb0de3 100644
--- a/arki/segment/session.cc
+++ b/arki/segment/session.cc
@@ -58,24 +58,24 @@ bool Session::is_segment(const std::filesystem::path& relpath) const
     {
         if (S_ISDIR(st->st_mode))
             return false;
-        auto format = arki::data::format_from_filename(abspath.stem());
-        return segment::data::zip::Data::can_store(format);
+        auto format = arki::data::detect_format(abspath.stem());
+        return format && segment::data::zip::Data::can_store(format.value());
     }
 
     if (extension == ".gz")
     {
         if (S_ISDIR(st->st_mode))
             return false;
-        return segment::data::gz::Data::can_store(
-            arki::data::format_from_filename(abspath.stem()));
+        auto format = arki::data::detect_format(abspath.stem());
+        return format && segment::data::gz::Data::can_store(format.value());
     }
 
     if (extension == ".tar")
     {
         if (S_ISDIR(st->st_mode))
             return false;
-        return segment::data::tar::Data::can_store(
-            arki::data::format_from_filename(abspath.stem()));
+        auto format = arki::data::detect_format(abspath.stem());
+        return format && segment::data::tar::Data::can_store(format.value());
     }
 
     auto format = arki::data::detect_format(abspath);
-- 
2.43.0


From 60625dde426a61d8b5d90f4d0d70a89d8aea06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 29/62] fix: sort segments read from legacy SQLite manifests,
 since they are looked up by binary search

---
 arki/dataset/simple/manifest.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index a939abd..f0e02e4 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -123,6 +123,11 @@ std::vector<SegmentInfo> read_sqlite(const std::filesystem::path& path)
         res.emplace_back(SegmentInfo{relpath, mtime, interval});
     }
 
+    // Lookups need segments sorted by relpath
+    std::sort(
+        res.begin(), res.end(),
+        [](const auto& a, const auto& b) { return a.relpath < b.relpath; });
+
     return res;
 }
 
-- 
2.43.0


From 67ea9cba25d4f227cdf21abb6aafd5aca9c79b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 30/62] fix: do not consider a iseg segment as deleted when
 building its index was interrupted

---
 arki/segment/iseg.cc       | 19 ++++++++++-
 arki/segment/iseg/index.cc | 66 ++++++++++++++++++++++++++------------
 arki/segment/iseg/index.h  | 19 +++++++++++
 3 files changed, 82 insertions(+), 22 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 9b6cfe6..2a099cd 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -423,7 +423,7 @@ arki::metadata::Collection Checker::scan()
 {
     arki::metadata::Collection res;
 
-    if (has_valid_iseg_index(m_segment))
+    if (has_valid_iseg_index(m_segment) && index().has_tables())
     {
         auto reader = segment().reader(lock);
 
@@ -487,6 +487,23 @@ Checker::FsckResult Checker::fsck(segment::Reporter& reporter, bool quick)
         return res;
     }
 
+    if (!index().has_tables())
+    {
+        // Indexing the segment was interrupted before it could complete
+        if (data->is_empty())
+        {
+            reporter.info(segment(),
+                          "empty segment found on disk with an empty index");
+            res.state = SEGMENT_DELETED;
+        }
+        else
+        {
+            reporter.info(segment(), "segment index is incomplete");
+            res.state = SEGMENT_UNALIGNED;
+        }
+        return res;
+    }
+
     /**
      * Although iseg could detect if the data of a segment is newer than its
      * index, the timestamp of the index is updated by various kinds of sqlite
diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index d16e8a0..e7e0ea9 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -67,6 +67,16 @@ template <typename LockType> Index<LockType>::~Index()
     delete m_others;
 }
 
+template <typename LockType> bool Index<LockType>::has_tables() const
+{
+    Query q("has_tables", m_db);
+    q.compile("SELECT name FROM sqlite_master WHERE type='table' AND name='md'");
+    bool res = false;
+    while (q.step())
+        res = true;
+    return res;
+}
+
 template <typename LockType> core::Pending Index<LockType>::begin_transaction()
 {
     return core::Pending(new SqliteTransaction(m_db));
@@ -160,6 +170,9 @@ template <typename LockType>
 bool Index<LockType>::scan(metadata_dest_func dest,
                            const std::string& order_by) const
 {
+    if (!has_tables())
+        return true;
+
     std::string query = "SELECT m.offset, m.size, m.notes, m.reftime";
     if (m_uniques)
         query += ", m.uniq";
@@ -195,6 +208,9 @@ core::Interval Index<LockType>::query_data_timespan() const
 {
     core::Interval interval;
 
+    if (!has_tables())
+        return interval;
+
     // SQLite can compute min and max of an indexed column very fast,
     // provided that it is the ONLY thing queried.
     Query q1("min_date", m_db);
@@ -337,6 +353,9 @@ arki::metadata::Collection Index<LockType>::query_data(const Matcher& matcher)
     // possible
     arki::metadata::Collection res;
 
+    if (!has_tables())
+        return res;
+
     std::string query = "SELECT m.offset, m.size, m.notes, m.reftime";
 
     if (m_uniques)
@@ -378,6 +397,9 @@ template <typename LockType>
 bool Index<LockType>::query_summary_from_db(const Matcher& m,
                                             Summary& summary) const
 {
+    if (!has_tables())
+        return true;
+
     std::string query =
         "SELECT COUNT(1), SUM(size), MIN(reftime), MAX(reftime)";
 
@@ -467,32 +489,33 @@ WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
     : Index<LockType>(segment, lock), m_get_current("get_current", this->m_db),
       m_insert(this->m_db), m_replace("replace", this->m_db)
 {
-    bool need_create = !sys::access(index_pathname, F_OK);
-
-    if (need_create)
-    {
-        m_db.open(index_pathname);
-        if (session().trace_sql)
-            m_db.trace();
-        this->setup_pragmas();
-        if (!m_others)
-        {
-            std::set<types::Code> other_members = this->all_other_tables();
-            if (not other_members.empty())
-                m_others = new Aggregate(m_db, "mdother", other_members);
-        }
-        init_db();
-    }
+    m_db.open(index_pathname);
+    if (session().trace_sql)
+        m_db.trace();
+    this->setup_pragmas();
+    if (this->has_tables())
+        this->init_others();
     else
     {
-        m_db.open(index_pathname);
-        if (session().trace_sql)
-            m_db.trace();
-        this->setup_pragmas();
-        this->init_others();
+        std::set<types::Code> other_members = this->all_other_tables();
+        if (not other_members.empty())
+            m_others = new Aggregate(m_db, "mdother", other_members);
     }
 }
 
+template <typename LockType> core::Pending WIndex<LockType>::begin_transaction()
+{
+    auto res = Index<LockType>::begin_transaction();
+    ensure_tables();
+    return res;
+}
+
+template <typename LockType> void WIndex<LockType>::ensure_tables()
+{
+    if (!this->has_tables())
+        init_db();
+}
+
 template <typename LockType> void WIndex<LockType>::init_db()
 {
     if (m_uniques)
@@ -718,6 +741,7 @@ template <typename LockType> void WIndex<LockType>::flush()
 
 template <typename LockType> void WIndex<LockType>::reset()
 {
+    ensure_tables();
     m_db.exec("DELETE FROM md");
 }
 
diff --git a/arki/segment/iseg/index.h b/arki/segment/iseg/index.h
index 9fe996b..1bddecf 100644
--- a/arki/segment/iseg/index.h
+++ b/arki/segment/iseg/index.h
@@ -120,6 +120,14 @@ public:
      */
     std::set<types::Code> unique_codes() const;
 
+    /**
+     * Check if the index contains its tables.
+     *
+     * If indexing a new segment was interrupted, the index file can exist but
+     * contain nothing.
+     */
+    bool has_tables() const;
+
     /// Begin a transaction and return the corresponding Pending object
     core::Pending begin_transaction();
 
@@ -183,6 +191,9 @@ protected:
     /// Create the tables in the database
     void init_db();
 
+    /// Create the tables in the database, unless they already exist
+    void ensure_tables();
+
     void compile_insert();
 
     WIndex(std::shared_ptr<const Segment> segment,
@@ -192,6 +203,14 @@ public:
     using Index<LockType>::session;
     using Index<LockType>::segment;
 
+    /**
+     * Begin a transaction and return the corresponding Pending object.
+     *
+     * The tables of a new index are created as part of the transaction: the
+     * index of a segment is not considered valid until it has been filled.
+     */
+    core::Pending begin_transaction();
+
     /**
      * Completely reindex the segment using the given metadata.
      *
-- 
2.43.0


From 8e632e814702ac03ed7b026bf6ba41f45c5ed0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 31/62] fix: detect and repair directory segments whose
 sequence file was never written

---
 arki/segment/data/dir.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index c20a6f9..e2d4bfb 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -182,13 +182,16 @@ struct CheckBackend : public AppendCheckBackend
         }
 
         size_t cur_sequence = 0;
+        bool new_sequence   = false;
         {
             SequenceFile sf(segment.abspath());
             sf.open();
             cur_sequence = sf.read_sequence();
+            new_sequence = sf.new_file;
         }
 
         scanner.list_files();
+        bool has_files = !scanner.on_disk.empty();
 
         bool dirty  = false;
         State state = AppendCheckBackend::check();
@@ -200,7 +203,7 @@ struct CheckBackend : public AppendCheckBackend
                 return state;
         }
 
-        if (cur_sequence < scanner.max_sequence)
+        if (cur_sequence < scanner.max_sequence || (new_sequence && has_files))
         {
             stringstream out;
             out << "sequence file has value " << cur_sequence
@@ -583,7 +586,10 @@ bool BaseChecker<Data>::rescan_data(
 
         // FIXME: this is a write done while holding a read lock, and needs to
         // be moved to a fix method
-        if (cur_sequence < scanner.max_sequence)
+        // If the sequence file was never written, the next append would start
+        // from 0, even if that file already exists
+        if (cur_sequence < scanner.max_sequence ||
+            (sf.new_file && !scanner.on_disk.empty()))
         {
             stringstream out;
             out << "sequence file value set to " << scanner.max_sequence
-- 
2.43.0


From e65a986816d7978fdef3979cea42b2dcba13f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 32/62] fix: leftovers of interrupted metadata writes do not
 block later ones

---
 arki/metadata/collection.cc | 2 +-
 arki/segment/metadata.cc    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index f02b687..3264d47 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -81,7 +81,7 @@ struct AtomicWriter
 
     explicit AtomicWriter(const std::filesystem::path& fname)
         : destfname(fname),
-          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index d0b0550..bcaaea0 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -93,9 +93,9 @@ struct AtomicWriterWithSummary
 
     explicit AtomicWriterWithSummary(const Segment& segment)
         : segment(segment), out_md(path_tmp(segment.abspath_metadata()),
-                                   O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666),
+                                   O_WRONLY | O_TRUNC | O_CREAT, 0666),
           out_sum(path_tmp(segment.abspath_summary()),
-                  O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+                  O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
-- 
2.43.0


From 7b86e0392ddf3d9058375d9bf3d21e7113cba8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 33/62] fix: maintenance does not take for segments the
 directories left by interrupted repacks

---
 arki/dataset/segmented.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index f272b73..244c369 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -605,6 +605,11 @@ void Checker::scan_dir(
             return false;
 
         string name = entry->d_name;
+
+        // Skip temporary directories left by interrupted repacks
+        if (std::filesystem::path(name).extension() == ".repack")
+            return false;
+
         if (dataset().segment_session->is_segment(relpath / name))
         {
             auto basename = Segment::basename(name);
-- 
2.43.0


From e1681e39cf849530a758645fe7a7392534ece8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 34/62] fix: interrupted repacks of directory segments leave
 neither a missing segment nor files that block later repacks

---
 arki/segment/data/dir.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index e2d4bfb..9032233 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -699,6 +699,16 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
             if (fired)
                 return;
 
+            // Exchange the two directories, if the file system can do it:
+            // there is no moment in which the segment is missing
+            if (renameat2(AT_FDCWD, tmpabspath.c_str(), AT_FDCWD,
+                          abspath.c_str(), RENAME_EXCHANGE) == 0)
+            {
+                fired = true;
+                sys::rmtree(tmpabspath);
+                return;
+            }
+
             // It is impossible to make this atomic, so we just try to make it
             // as quick as possible
 
@@ -771,6 +781,9 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
     filesystem::path tmpabspath =
         sys::with_suffix(this->segment().abspath(), ".repack");
 
+    // Remove leftovers from a previous repack that was interrupted
+    sys::rmtree_ifexists(tmpabspath);
+
     core::Pending p(new Rename(tmpabspath, this->segment().abspath()));
 
     Creator creator(this->segment(), mds, tmpabspath);
-- 
2.43.0


From 87fa1e96010bb60be45cae74ff3dd6e0c5cd49af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 35/62] fix: interrupted conversions of directory segments do
 not leave a partial directory hiding the converted segment

---
 arki/segment/data/dir.cc | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 9032233..4a472b7 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -656,17 +656,35 @@ void BaseChecker<Data>::foreach_datafile(std::function<void(const char*)> f)
 
 template <typename Data> size_t BaseChecker<Data>::remove()
 {
-    size_t size = 0;
-    foreach_datafile([&](const char* name) {
-        filesystem::path pathname = this->segment().abspath() / name;
-        size += sys::size(pathname);
-        sys::unlink(pathname);
-    });
-    std::filesystem::remove(this->segment().abspath() / ".sequence");
-    std::filesystem::remove(this->segment().abspath() / ".write-lock");
-    std::filesystem::remove(this->segment().abspath() / ".repack-lock");
-    // Also remove the directory if it is empty
-    rmdir(this->segment().abspath().c_str());
+    size_t size  = 0;
+    auto abspath = this->segment().abspath();
+    auto tmppath = sys::with_suffix(abspath, ".repack");
+
+    // Move the directory out of the way before deleting its contents, so that
+    // an interruption does not leave part of the segment in place
+    sys::rmtree_ifexists(tmppath);
+    std::filesystem::rename(abspath, tmppath);
+
+    std::string ext(".");
+    ext += format_name(this->segment().format());
+    {
+        sys::Path dir(tmppath);
+        for (sys::Path::iterator i = dir.begin(); i != dir.end(); ++i)
+        {
+            if (!i.isreg() || !str::endswith(i->d_name, ext))
+                continue;
+            auto pathname = tmppath / i->d_name;
+            size += sys::size(pathname);
+            sys::unlink(pathname);
+        }
+    }
+    std::filesystem::remove(tmppath / ".sequence");
+    std::filesystem::remove(tmppath / ".write-lock");
+    std::filesystem::remove(tmppath / ".repack-lock");
+    // Also remove the directory if it is empty, else leave what is still there
+    // where it was
+    if (rmdir(tmppath.c_str()) < 0)
+        std::filesystem::rename(tmppath, abspath);
     return size;
 }
 
-- 
2.43.0


From 4e49bb9c3905751724ef0074445719bd34b3fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 36/62] fix: an interrupted conversion does not leave a partial
 file that takes the place of the segment

---
 arki/segment/data/gz.cc  | 34 ++++++++++++++++++++++++----------
 arki/segment/data/tar.cc |  6 +++++-
 arki/segment/data/zip.cc |  6 +++++-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 43f32f6..0ac80be 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -367,18 +367,25 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
+    // Do not leave partial files in place if we are interrupted
+    auto gzabspath     = sys::with_suffix(segment.abspath(), ".gz");
+    auto gzidxabspath  = sys::with_suffix(segment.abspath(), ".gz.idx");
+    auto tmpabspath    = sys::with_suffix(gzabspath, ".tmp");
+    auto tmpidxabspath = sys::with_suffix(gzidxabspath, ".tmp");
     if (cfg.gz_group_size == 0)
     {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
+        gz::Creator creator(segment, mds, tmpabspath);
         creator.create();
+        std::filesystem::rename(tmpabspath, gzabspath);
     }
     else
     {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
+        std::filesystem::remove(tmpidxabspath);
+        gz::Creator creator(segment, mds, tmpabspath, tmpidxabspath,
+                            cfg.gz_group_size);
         creator.create();
+        std::filesystem::rename(tmpabspath, gzabspath);
+        sys::rename_ifexists(tmpidxabspath, gzidxabspath);
     }
 
     return std::make_shared<const Data>(segment.shared_from_this());
@@ -410,20 +417,27 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
+    // Do not leave partial files in place if we are interrupted
+    auto gzabspath     = sys::with_suffix(segment.abspath(), ".gz");
+    auto gzidxabspath  = sys::with_suffix(segment.abspath(), ".gz.idx");
+    auto tmpabspath    = sys::with_suffix(gzabspath, ".tmp");
+    auto tmpidxabspath = sys::with_suffix(gzidxabspath, ".tmp");
     if (cfg.gz_group_size == 0)
     {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
+        gz::Creator creator(segment, mds, tmpabspath);
         creator.padding.push_back('\n');
         creator.create();
+        std::filesystem::rename(tmpabspath, gzabspath);
     }
     else
     {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
+        std::filesystem::remove(tmpidxabspath);
+        gz::Creator creator(segment, mds, tmpabspath, tmpidxabspath,
+                            cfg.gz_group_size);
         creator.padding.push_back('\n');
         creator.create();
+        std::filesystem::rename(tmpabspath, gzabspath);
+        sys::rename_ifexists(tmpidxabspath, gzidxabspath);
     }
     return std::make_shared<const Data>(segment.shared_from_this());
 }
diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index e2bba32..ceaf96c 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -166,8 +166,12 @@ bool Data::can_store(DataFormat format) { return true; }
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".tar"));
+    // Do not leave a partial tar file in place if we are interrupted
+    auto abspath    = sys::with_suffix(segment.abspath(), ".tar");
+    auto tmpabspath = sys::with_suffix(abspath, ".tmp");
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    std::filesystem::rename(tmpabspath, abspath);
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/zip.cc b/arki/segment/data/zip.cc
index 4bfa45e..83a566b 100644
--- a/arki/segment/data/zip.cc
+++ b/arki/segment/data/zip.cc
@@ -276,8 +276,12 @@ bool Data::can_store(DataFormat) { return true; }
 std::shared_ptr<const Data> Data::create(const Segment& segment,
                                          Collection& mds, const RepackConfig&)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".zip"));
+    // Do not leave a partial zip file in place if we are interrupted
+    auto abspath    = sys::with_suffix(segment.abspath(), ".zip");
+    auto tmpabspath = sys::with_suffix(abspath, ".tmp");
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    std::filesystem::rename(tmpabspath, abspath);
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
-- 
2.43.0


From c0456d33992e184597857b3bbd68edab7d9da336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 37/62] fix: converting a segment whose data are all deleted
 failed because it has no summary

---
 arki/segment/metadata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index bcaaea0..f6c4b76 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -723,7 +723,7 @@ Fixer::ConvertResult Fixer::tar()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -769,7 +769,7 @@ Fixer::ConvertResult Fixer::zip()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -817,7 +817,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
-- 
2.43.0


From 04f6892e6c98c1d20e303ceb616fdd527ad9531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 38/62] fix: partial writes silently truncated metadata and
 summary files

---
 arki/metadata/collection.cc | 6 +++---
 arki/summary.cc             | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index 3264d47..c3f9764 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -139,12 +139,12 @@ static void compressAndWrite(const std::vector<uint8_t>& buf,
         enc.add_unsigned(0u, 2);              // Version 0: LZO compressed
         enc.add_unsigned(obuf.size() + 4, 4); // Compressed len
         enc.add_unsigned(buf.size(), 4);      // Uncompressed len
-        out.write(tmp.data(), tmp.size());
-        out.write((const char*)obuf.data(), obuf.size());
+        out.write_all_or_retry(tmp.data(), tmp.size());
+        out.write_all_or_retry(obuf.data(), obuf.size());
     }
     else
         // Write the plain metadata
-        out.write(buf.data(), buf.size());
+        out.write_all_or_retry(buf.data(), buf.size());
 }
 
 static stream::SendResult compressAndWrite(const std::vector<uint8_t>& buf,
diff --git a/arki/summary.cc b/arki/summary.cc
index 8fccee6..4ed911e 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -243,7 +243,7 @@ void Summary::write(NamedFileDescriptor& out) const
     iotrace::trace_file(out, 0, encoded.size(), "write summary");
 
     // Write out
-    out.write(encoded.data(), encoded.size());
+    out.write_all_or_retry(encoded.data(), encoded.size());
 }
 
 stream::SendResult Summary::write(StreamOutput& out) const
-- 
2.43.0


From 373adeca53c1afe4dab47614340dfaf16dbf7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 39/62] fix: failing to save the manifest of a simple dataset
 terminated the program

---
 arki/dataset/simple/checker.cc | 14 +++++++++++++-
 arki/dataset/simple/writer.cc  | 15 ++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 800c8d7..35cdfba 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -242,7 +242,19 @@ Checker::Checker(std::shared_ptr<simple::Dataset> dataset)
     manifest.reread();
 }
 
-Checker::~Checker() { manifest.flush(); }
+Checker::~Checker()
+{
+    // Errors cannot be raised from a destructor without terminating the program
+    try
+    {
+        manifest.flush();
+    }
+    catch (std::exception& e)
+    {
+        nag::warning("%s: cannot save the manifest: %s",
+                     dataset().path.c_str(), e.what());
+    }
+}
 
 std::string Checker::type() const { return "simple"; }
 
diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index 3ca89b8..cf46ade 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -5,6 +5,7 @@
 #include "arki/dataset/step.h"
 #include "arki/metadata.h"
 #include "arki/metadata/collection.h"
+#include "arki/nag.h"
 #include "arki/summary.h"
 #include "arki/types/reftime.h"
 #include "arki/types/source/blob.h"
@@ -33,7 +34,19 @@ Writer::Writer(std::shared_ptr<simple::Dataset> dataset)
         files::createDontpackFlagfile(dataset->path);
 }
 
-Writer::~Writer() { flush(); }
+Writer::~Writer()
+{
+    // Errors cannot be raised from a destructor without terminating the program
+    try
+    {
+        flush();
+    }
+    catch (std::exception& e)
+    {
+        nag::warning("%s: cannot save the manifest: %s",
+                     dataset().path.c_str(), e.what());
+    }
+}
 
 std::string Writer::type() const { return "simple"; }
 
-- 
2.43.0


From b46ba545d9e4690133060012c1702ef53378456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 40/62] fix: statistics whose sizes differ by multiples of 4GiB
 did not compare as different

---
 arki/summary/stats.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/arki/summary/stats.cc b/arki/summary/stats.cc
index b3bf29b..2277cbc 100644
--- a/arki/summary/stats.cc
+++ b/arki/summary/stats.cc
@@ -43,10 +43,12 @@ Stats* Stats::clone() const { return new Stats(*this); }
 
 int Stats::compare(const Stats& o) const
 {
-    if (int res = count - o.count)
-        return res;
-    if (int res = size - o.size)
-        return res;
+    // Do not use the difference between the values, which can be too big for
+    // an int
+    if (count != o.count)
+        return count < o.count ? -1 : 1;
+    if (size != o.size)
+        return size < o.size ? -1 : 1;
     if (int res = begin.compare(o.begin))
         return res;
     return end.compare(o.end);
-- 
2.43.0


From 95ac879b8811fc2ed63b7dce10521185d634feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 41/62] fix: ignore files which are not of a known data format
 when listing segments by step

---
 arki/dataset/step.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/arki/dataset/step.cc b/arki/dataset/step.cc
index 6670a3f..65d335d 100644
--- a/arki/dataset/step.cc
+++ b/arki/dataset/step.cc
@@ -53,6 +53,20 @@ struct BaseFiles : public Files
     virtual std::filesystem::path to_relpath(const Regexp& re) const = 0;
     virtual DataFormat to_format(const utils::Regexp& re) const      = 0;
 
+    /// Check if the matched file name has the format we are looking for
+    bool has_queried_format(const utils::Regexp& re) const
+    {
+        try
+        {
+            return dirs.query.format == to_format(re);
+        }
+        catch (std::runtime_error&)
+        {
+            // Not a data format: the file is not a segment
+            return false;
+        }
+    }
+
     void list(std::function<void(std::filesystem::path&& relpath)> dest)
         const override
     {
@@ -64,7 +78,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!has_queried_format(*re))
                 continue;
 
             // Its period must match the matcher in q
@@ -92,7 +106,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!has_queried_format(*re))
                 continue;
 
             if (res_name.empty() || f->d_name < res_name)
@@ -121,7 +135,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!has_queried_format(*re))
                 continue;
             if (res_name.empty() || res_name < f->d_name)
             {
-- 
2.43.0


From 06c681159edc24066fab506b5b333ed962595dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 42/62] fix: summaries of data that changes while they are
 being computed are not cached

---
 arki/dataset/index/summarycache.cc | 96 +++++++++++++++++++++---------
 arki/dataset/index/summarycache.h  | 44 +++++++++++---
 arki/dataset/iseg/reader.cc        |  8 ++-
 arki/dataset/simple/checker.cc     |  2 +
 arki/dataset/simple/reader.cc      |  9 ++-
 arki/dataset/simple/writer.cc      |  6 ++
 6 files changed, 123 insertions(+), 42 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index 4dd6f0b..778beae 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -8,6 +8,8 @@
 #include "arki/utils/string.h"
 #include "arki/utils/sys.h"
 #include <fcntl.h>
+#include <sys/stat.h>
+#include <unistd.h>
 
 using namespace std;
 using namespace arki::types;
@@ -18,6 +20,59 @@ namespace arki {
 namespace dataset {
 namespace index {
 
+/// Prefix of the names of the files reserved for summaries being computed
+static const char* pending_prefix = ".pending-summary-";
+
+PendingSummary::PendingSummary(const std::filesystem::path& pathname)
+    : pathname(pathname)
+{
+    auto dir = pathname.parent_path();
+    if (sys::access(dir, W_OK))
+        out.reset(new sys::File(sys::File::mkstemp(dir / pending_prefix)));
+}
+
+PendingSummary::~PendingSummary()
+{
+    if (out)
+        ::unlink(out->path().c_str());
+}
+
+bool PendingSummary::save(const Summary& s)
+{
+    if (!out)
+        return false;
+
+    // Set the file permissions, honoring umask
+    mode_t mask = umask(0777);
+    umask(mask);
+    out->fchmod(0666 & ~mask);
+
+    s.write(*out);
+    out->close();
+
+    if (::rename(out->path().c_str(), pathname.c_str()) < 0)
+    {
+        // Canceled
+        if (errno == ENOENT)
+            return false;
+        throw std::system_error(errno, std::system_category(),
+                                "cannot rename " + out->path().native() +
+                                    " to " + pathname.native());
+    }
+    out.reset();
+    return true;
+}
+
+void PendingSummary::cancel(const std::filesystem::path& dir)
+{
+    if (!std::filesystem::exists(dir))
+        return;
+    sys::Path path(dir);
+    for (sys::Path::iterator i = path.begin(); i != path.end(); ++i)
+        if (str::startswith(i->d_name, pending_prefix))
+            sys::unlink_ifexists(dir / i->d_name);
+}
+
 SummaryCache::SummaryCache(const std::filesystem::path& root)
     : m_scache_root(root)
 {
@@ -25,6 +80,11 @@ SummaryCache::SummaryCache(const std::filesystem::path& root)
 
 SummaryCache::~SummaryCache() {}
 
+std::filesystem::path SummaryCache::summary_pathname() const
+{
+    return m_scache_root / "all.summary";
+}
+
 std::filesystem::path SummaryCache::summary_pathname(int year, int month) const
 {
     char buf[32];
@@ -46,7 +106,7 @@ void SummaryCache::openRW()
 
 bool SummaryCache::read(Summary& s)
 {
-    auto sum_file = m_scache_root / "all.summary";
+    auto sum_file = summary_pathname();
     sys::File fd(sum_file);
     if (!fd.open_ifexists(O_RDONLY))
         return false;
@@ -64,43 +124,22 @@ bool SummaryCache::read(Summary& s, int year, int month)
     return true;
 }
 
-bool SummaryCache::write(Summary& s)
-{
-    auto sum_file = m_scache_root / "all.summary";
-
-    // Write back to the cache directory, if allowed
-    if (!sys::access(m_scache_root, W_OK))
-        return false;
-
-    s.writeAtomically(sum_file);
-    return true;
-}
-
-bool SummaryCache::write(Summary& s, int year, int month)
-{
-    auto sum_file = summary_pathname(year, month);
-
-    // Write back to the cache directory, if allowed
-    if (!sys::access(m_scache_root, W_OK))
-        return false;
-
-    s.writeAtomically(sum_file);
-    return true;
-}
-
 void SummaryCache::invalidate()
 {
+    PendingSummary::cancel(m_scache_root);
+
     // Delete all files *.summary in the cache directory
     sys::Path dir(m_scache_root);
     for (sys::Path::iterator i = dir.begin(); i != dir.end(); ++i)
         if (str::endswith(i->d_name, ".summary"))
-            sys::unlink(m_scache_root / i->d_name);
+            sys::unlink_ifexists(m_scache_root / i->d_name);
 }
 
 void SummaryCache::invalidate(int year, int month)
 {
+    PendingSummary::cancel(m_scache_root);
     std::filesystem::remove(summary_pathname(year, month));
-    std::filesystem::remove(m_scache_root / "all.summary");
+    std::filesystem::remove(summary_pathname());
 }
 
 void SummaryCache::invalidate(const Metadata& md)
@@ -132,9 +171,10 @@ void SummaryCache::invalidate(const metadata::InboundBatch& batch)
 
 void SummaryCache::invalidate(const Time& tmin, const Time& tmax)
 {
+    PendingSummary::cancel(m_scache_root);
     for (Time t = tmin; t <= tmax; t = t.start_of_next_month())
         std::filesystem::remove(summary_pathname(t.ye, t.mo));
-    std::filesystem::remove(m_scache_root / "all.summary");
+    std::filesystem::remove(summary_pathname());
 }
 
 bool SummaryCache::check(const dataset::Base& ds, Reporter& reporter) const
diff --git a/arki/dataset/index/summarycache.h b/arki/dataset/index/summarycache.h
index ca82ff3..beff54e 100644
--- a/arki/dataset/index/summarycache.h
+++ b/arki/dataset/index/summarycache.h
@@ -6,7 +6,9 @@
 #include <arki/core/time.h>
 #include <arki/dataset/fwd.h>
 #include <arki/metadata/fwd.h>
+#include <arki/utils/sys.h>
 #include <filesystem>
+#include <memory>
 
 namespace arki {
 class Summary;
@@ -16,15 +18,41 @@ class Base;
 
 namespace index {
 
+/**
+ * Summary that is being computed in order to be cached.
+ *
+ * It reserves a temporary file in the directory of the cache since before the
+ * data is read: if the data changes in the meantime, cancel() deletes it, and
+ * the summary, which would be out of date, does not get to the cache.
+ */
+class PendingSummary
+{
+    std::filesystem::path pathname;
+    std::unique_ptr<utils::sys::File> out;
+
+public:
+    /// Prepare to write a summary to the given pathname
+    explicit PendingSummary(const std::filesystem::path& pathname);
+    PendingSummary(const PendingSummary&)            = delete;
+    PendingSummary& operator=(const PendingSummary&) = delete;
+    ~PendingSummary();
+
+    /**
+     * Write the summary; returns false if the directory is not writable, or if
+     * the data changed since this object was created.
+     */
+    bool save(const Summary& s);
+
+    /// Cancel all the summaries that are being computed for the given directory
+    static void cancel(const std::filesystem::path& dir);
+};
+
 class SummaryCache
 {
 protected:
     /// Absolute path to the summary cache directory
     std::filesystem::path m_scache_root;
 
-    /// Return the pathname for the summary file for a given year and month
-    std::filesystem::path summary_pathname(int year, int month) const;
-
 public:
     explicit SummaryCache(const std::filesystem::path& root);
     ~SummaryCache();
@@ -40,13 +68,11 @@ public:
     /// cache
     bool read(Summary& s, int year, int month);
 
-    /// Write the global cache file; returns false if the cache dir is not
-    /// writable.
-    bool write(Summary& s);
+    /// Pathname of the global cache file
+    std::filesystem::path summary_pathname() const;
 
-    /// Write the cache file for the given month; returns false if the cache dir
-    /// is not writable.
-    bool write(Summary& s, int year, int month);
+    /// Pathname of the cache file for a given year and month
+    std::filesystem::path summary_pathname(int year, int month) const;
 
     /// Remove all contents of the cache
     void invalidate();
diff --git a/arki/dataset/iseg/reader.cc b/arki/dataset/iseg/reader.cc
index ff1d16d..a843413 100644
--- a/arki/dataset/iseg/reader.cc
+++ b/arki/dataset/iseg/reader.cc
@@ -79,12 +79,14 @@ void Reader::summary_for_month(int year, int month, Summary& out)
     if (scache.read(out, year, month))
         return;
 
+    index::PendingSummary pending(scache.summary_pathname(year, month));
+
     Matcher matcher = Matcher::for_month(year, month);
 
     Summary summary;
     summary_from_indices(matcher, summary);
 
-    scache.write(summary, year, month);
+    pending.save(summary);
     out.add(summary);
 }
 
@@ -93,6 +95,8 @@ void Reader::summary_for_all(Summary& out)
     if (scache.read(out))
         return;
 
+    index::PendingSummary pending(scache.summary_pathname());
+
     // Find the datetime extremes in the database
     core::Interval interval;
     dataset().step().time_extremes(
@@ -118,7 +122,7 @@ void Reader::summary_for_all(Summary& out)
         }
     }
 
-    scache.write(out);
+    pending.save(out);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 35cdfba..9d2f786 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -1,5 +1,6 @@
 #include "checker.h"
 #include "arki/dataset/archive.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/reporter.h"
 #include "arki/dataset/session.h"
@@ -61,6 +62,7 @@ public:
     /// Delete the dataset summary (if present)
     void invalidate_dataset_summary()
     {
+        index::PendingSummary::cancel(dataset().path);
         std::filesystem::remove(dataset().path / "summary");
     }
 
diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index a923bf3..f6f3914 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -1,4 +1,5 @@
 #include "reader.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/simple/manifest.h"
 #include "arki/metadata.h"
@@ -112,20 +113,22 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
     // global summary
     auto cache_pathname = dataset().path / "summary";
 
-    if (sys::access(cache_pathname, R_OK))
+    sys::File cache(cache_pathname);
+    if (sys::access(cache_pathname, R_OK) && cache.open_ifexists(O_RDONLY))
     {
         Summary s;
-        s.read_file(cache_pathname);
+        s.read(cache);
         s.filter(matcher, summary);
     }
     else if (sys::access(dataset().path, W_OK))
     {
         // Rebuild the cache
+        index::PendingSummary pending(cache_pathname);
         Summary s;
         query_segments_for_summary(Matcher(), s, lock);
 
         // Save the summary
-        s.writeAtomically(cache_pathname);
+        pending.save(s);
 
         // Query the newly generated summary that we still have
         // in memory
diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index cf46ade..1f9dfa4 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -1,4 +1,5 @@
 #include "arki/dataset/simple/writer.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/session.h"
 #include "arki/dataset/simple/manifest.h"
@@ -52,6 +53,7 @@ std::string Writer::type() const { return "simple"; }
 
 void Writer::invalidate_summary()
 {
+    index::PendingSummary::cancel(dataset().path);
     std::filesystem::remove(dataset().path / "summary");
 }
 
@@ -84,7 +86,11 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
         }
     }
     if (changed)
+    {
         manifest.flush();
+        // The summary can have been rebuilt before the changes to the manifest
+        invalidate_summary();
+    }
 }
 
 void Writer::test_acquire(std::shared_ptr<Session> session,
-- 
2.43.0


From 35718de873020aaeeaeefc5000b18219612e364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 43/62] fix: imports to iseg datasets could fail when their
 index was opened by another process

The transaction of the import was a deferred one, starting with a read: if
another connection changes the database, or recovers its WAL file, before its
first write, sqlite cannot upgrade it, and fails immediately with SQLITE_BUSY
without calling the busy handler. All data in the batch was then reported as
failed to import.
---
 arki/segment/iseg/index.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index e7e0ea9..4486512 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -505,7 +505,10 @@ WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
 
 template <typename LockType> core::Pending WIndex<LockType>::begin_transaction()
 {
-    auto res = Index<LockType>::begin_transaction();
+    // Become a writer right away: a transaction that starts by reading cannot
+    // wait for other connections, and fails if they change the database, or
+    // recover its WAL file, before its first write
+    auto res = core::Pending(new SqliteTransaction(this->m_db, "IMMEDIATE"));
     ensure_tables();
     return res;
 }
-- 
2.43.0


From 6216340bbf9f819b28b22973ef2e062287c19dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 44/62] fix: queries running during the first import to an iseg
 segment could return data without metadata

If the index was opened before the first import was committed, and queried
after, the tables with the metadata were not considered.
---
 arki/segment/iseg/index.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index 4486512..809720b 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -480,7 +480,16 @@ RIndex::RIndex(std::shared_ptr<const Segment> segment,
     if (session().trace_sql)
         m_db.trace();
 
-    init_others();
+    if (has_tables())
+        init_others();
+    else
+    {
+        // The first import to the segment has not finished yet: if it finishes
+        // before we are used, it will have created all the tables
+        std::set<types::Code> other_members = all_other_tables();
+        if (not other_members.empty())
+            m_others = new Aggregate(m_db, "mdother", other_members);
+    }
 }
 
 template <typename LockType>
-- 
2.43.0


From 491c6e55b972bb892c42677d97277760a63dff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 45/62] fix: queries of iseg segments could see only part of
 the data imported together

The statements used for a query could run on different states of the index, if
data was imported while they were running.
---
 arki/segment/iseg.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 2a099cd..2c82a54 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -136,7 +136,11 @@ bool Reader::read_all(metadata_dest_func dest)
 
 bool Reader::query_data(const query::Data& q, metadata_dest_func dest)
 {
-    auto mdbuf = m_index->query_data(q.matcher);
+    // Querying takes several statements: run them all on the same state of the
+    // index, even if data is being imported
+    auto transaction = m_index->begin_transaction();
+    auto mdbuf       = m_index->query_data(q.matcher);
+    transaction.commit();
 
     // TODO: if using smallfiles there is no need to lock the source
     if (q.with_data)
@@ -156,7 +160,9 @@ bool Reader::query_data(const query::Data& q, metadata_dest_func dest)
 
 void Reader::query_summary(const Matcher& matcher, Summary& summary)
 {
+    auto transaction = m_index->begin_transaction();
     m_index->query_summary_from_db(matcher, summary);
+    transaction.commit();
 }
 
 /*
-- 
2.43.0


From 1803800bdbba8626fb63c4cfb3d5304aea3aa614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 46/62] fix: dispatch ignored error and duplicates datasets
 with other names, or a missing duplicates dataset

Dispatch used the datasets named "error" and "duplicates", ignoring use= and
type= settings: it failed for example if the error dataset had another name,
or if there was a duplicate and no duplicates dataset was configured.
---
 arki/dispatcher.cc                | 16 ++++++++++------
 arki/python/arki-scan/dispatch.cc |  5 +++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/arki/dispatcher.cc b/arki/dispatcher.cc
index 8303dc9..1350000 100644
--- a/arki/dispatcher.cc
+++ b/arki/dispatcher.cc
@@ -23,7 +23,7 @@ Dispatcher::Dispatcher(std::shared_ptr<dataset::Pool> pool)
     // Validate the configuration, and split normal datasets from outbound
     // datasets
     pool->foreach_dataset([&](std::shared_ptr<dataset::Dataset> ds) {
-        if (ds->name() == "error" or ds->name() == "duplicates")
+        if (ds->use() != DatasetUse::DEFAULT)
             return true;
         else if (ds->config->value("type") == "outbound")
         {
@@ -168,15 +168,19 @@ void Dispatcher::dispatch(metadata::InboundBatch& batch,
             }
     }
 
-    raw_dispatch_dataset("duplicates", duplicate_batch,
-                         drop_cached_data_on_commit);
+    if (!duplicate_batch.empty())
+        raw_dispatch_dataset(
+            pool->dataset_for_use(DatasetUse::DUPLICATES)->name(),
+            duplicate_batch, drop_cached_data_on_commit);
     for (auto& e : duplicate_batch)
         if (e->result != metadata::Inbound::Result::OK)
             // If insertion in the duplicates dataset failed, insert in the
             // error dataset
             error_batch.emplace_back(e);
 
-    raw_dispatch_dataset("error", error_batch, drop_cached_data_on_commit);
+    if (!error_batch.empty())
+        raw_dispatch_dataset(pool->dataset_for_use(DatasetUse::ERRORS)->name(),
+                             error_batch, drop_cached_data_on_commit);
 }
 
 RealDispatcher::RealDispatcher(std::shared_ptr<dataset::Pool> pool)
@@ -202,8 +206,8 @@ void RealDispatcher::flush() { pool.flush(); }
 TestDispatcher::TestDispatcher(std::shared_ptr<dataset::Pool> pool)
     : Dispatcher(pool)
 {
-    if (!pool->has_dataset("error"))
-        throw std::runtime_error("no [error] dataset found");
+    // Throws if there is no error dataset
+    pool->dataset_for_use(DatasetUse::ERRORS);
 }
 TestDispatcher::~TestDispatcher() {}
 
diff --git a/arki/python/arki-scan/dispatch.cc b/arki/python/arki-scan/dispatch.cc
index 8d6f654..cff80c1 100644
--- a/arki/python/arki-scan/dispatch.cc
+++ b/arki/python/arki-scan/dispatch.cc
@@ -121,12 +121,13 @@ void MetadataDispatch::process_partial_batch(const std::filesystem::path& name,
                 "WARNING: The data has not been imported in ANY dataset");
             ++stats.not_imported;
         }
-        else if (e->destination == "error")
+        else if (pool->dataset(e->destination)->use() == DatasetUse::ERRORS)
         {
             do_copyko(*e->md);
             ++stats.in_error_dataset;
         }
-        else if (e->destination == "duplicates")
+        else if (pool->dataset(e->destination)->use() ==
+                 DatasetUse::DUPLICATES)
         {
             do_copyko(*e->md);
             ++stats.duplicates;
-- 
2.43.0


From 7181adbc93d9ddd9ad20b81846c9a49512ca8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 47/62] fix: data queried with an interval in their sort order
 were not grouped by interval

Segments longer than the interval were sorted as a whole, and so were the
data merged from several datasets.
---
 arki/metadata/sort.cc | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 19df1f6..7421483 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -113,9 +113,39 @@ struct IntervalCompare : public Items
 
     int compare(const Metadata& a, const Metadata& b) const override
     {
+        // Only data in the same interval are sorted with the given items
+        const auto* rta = a.get<types::Reftime>();
+        const auto* rtb = b.get<types::Reftime>();
+        if (!rta || !rtb)
+        {
+            if (rta || rtb)
+                return rta ? 1 : -1;
+        }
+        else
+        {
+            int res = beginning_of_period(rta->get_Position())
+                          .compare(beginning_of_period(rtb->get_Position()));
+            if (res != 0)
+                return res;
+        }
         return Items::compare(a, b);
     }
 
+    Time beginning_of_period(const Time& time) const
+    {
+        Time res(time);
+        switch (m_interval)
+        {
+            case YEAR:   res.mo = 1; // Falls through
+            case MONTH:  res.da = 1; // Falls through
+            case DAY:    res.ho = 0; // Falls through
+            case HOUR:   res.mi = 0; // Falls through
+            case MINUTE: res.se = 0; break;
+            default:     break;
+        }
+        return res;
+    }
+
     std::string toString() const override
     {
         switch (m_interval)
-- 
2.43.0


From 8a9110026fcd743cf8ac03f0ed1f832e22a31e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 48/62] fix: stopping a query of several datasets together
 threw an exception

The query also returned false when it was completed.
---
 arki/dataset/merged.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index ce85994..3a3192a 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -329,7 +329,6 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
     // exception before the join further down, we get
     // https://stackoverflow.com/questions/7381757/c-terminate-called-without-an-active-exception
 
-    bool canceled = false;
     while (true)
     {
         auto md = readers.pop();
@@ -341,20 +340,27 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
         {
             ok = dest(md);
         }
-        catch (std::exception& e)
+        catch (...)
         {
-            readers.cancel();
+            try
+            {
+                readers.cancel();
+            }
+            catch (std::exception&)
+            {
+                // Report the first problem found
+            }
             throw;
         }
 
         if (!ok)
         {
-            canceled = true;
             readers.cancel();
+            return track.done(false);
         }
     }
 
-    return track.done(canceled);
+    return track.done(true);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
-- 
2.43.0


From a76a12764935575466be81d23bead994f4028f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 49/62] fix: querying a file dataset more than once returned
 nothing

FdFile kept reading from where the previous query had stopped.
---
 arki/dataset/file.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arki/dataset/file.cc b/arki/dataset/file.cc
index f91cebc..84d2c97 100644
--- a/arki/dataset/file.cc
+++ b/arki/dataset/file.cc
@@ -15,8 +15,10 @@
 #include "arki/utils/files.h"
 #include "arki/utils/string.h"
 #include "arki/utils/sys.h"
+#include <cerrno>
 #include <fcntl.h>
 #include <sstream>
+#include <unistd.h>
 
 using namespace std;
 using namespace arki::core;
@@ -307,6 +309,11 @@ void FdFile::ensure_data_is_accessible(Metadata& md)
 bool FdFile::scan_reader(metadata::BaseReader& reader, const query::Data& q,
                          metadata_dest_func dest)
 {
+    // Restart from the beginning, in case it is not the first query, unless it
+    // is something like a pipe
+    if (::lseek(fd, 0, SEEK_SET) == -1 && errno != ESPIPE)
+        fd.throw_error("cannot seek to the beginning of the file");
+
     auto sorter = wrap_with_query(q, dest);
     if (!q.with_data)
     {
-- 
2.43.0


From 6095bc42fb23ee443ce269f24bd6157166304c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 50/62] fix: threads writing summary caches changed the umask
 of each other

Reading the umask sets it for the whole process for a moment: files created
meanwhile by other threads could not be read or written any more, and two
threads doing it together could leave the process with an umask of 0777.
---
 arki/dataset/index/summarycache.cc |  8 ++------
 arki/utils/sys.cc                  | 29 +++++++++++++++++++++--------
 arki/utils/sys.h                   | 10 ++++++++++
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index 778beae..a46049a 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -28,7 +28,8 @@ PendingSummary::PendingSummary(const std::filesystem::path& pathname)
 {
     auto dir = pathname.parent_path();
     if (sys::access(dir, W_OK))
-        out.reset(new sys::File(sys::File::mkstemp(dir / pending_prefix)));
+        out.reset(new sys::File(
+            sys::File::create_temporary(dir / pending_prefix, 0666)));
 }
 
 PendingSummary::~PendingSummary()
@@ -42,11 +43,6 @@ bool PendingSummary::save(const Summary& s)
     if (!out)
         return false;
 
-    // Set the file permissions, honoring umask
-    mode_t mask = umask(0777);
-    umask(mask);
-    out->fchmod(0666 & ~mask);
-
     s.write(*out);
     out->close();
 
diff --git a/arki/utils/sys.cc b/arki/utils/sys.cc
index 05c7f37..ac955fe 100644
--- a/arki/utils/sys.cc
+++ b/arki/utils/sys.cc
@@ -1,6 +1,7 @@
 #include "sys.h"
 #include "string.h"
 #include <algorithm>
+#include <atomic>
 #include <cerrno>
 #include <csignal>
 #include <cstddef>
@@ -14,6 +15,7 @@
 #include <sys/time.h>
 #include <sys/types.h>
 #include <system_error>
+#include <unistd.h>
 #include <utime.h>
 
 using namespace std::literals;
@@ -965,6 +967,24 @@ bool File::open_ifexists(int flags, mode_t mode)
                             "cannot open file "s + path_.native());
 }
 
+File File::create_temporary(const std::filesystem::path& prefix, mode_t mode)
+{
+    static std::atomic<unsigned> counter(0);
+    while (true)
+    {
+        auto path = prefix;
+        path += "." + std::to_string(::getpid()) + "-" +
+                std::to_string(counter++) + ".tmp";
+        int fd =
+            ::open(path.c_str(), O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, mode);
+        if (fd != -1)
+            return File(fd, path);
+        if (errno != EEXIST)
+            throw std::system_error(errno, std::system_category(),
+                                    "cannot create file "s + path.native());
+    }
+}
+
 File File::mkstemp(const std::filesystem::path& prefix)
 {
     TempBuffer fbuf(prefix.native().size() + 7);
@@ -1147,14 +1167,7 @@ void write_file_atomically(const std::string& file, const void* data,
 void write_file_atomically(const std::filesystem::path& file, const void* data,
                            size_t size, mode_t mode)
 {
-    File out = File::mkstemp(file);
-
-    // Read the umask
-    mode_t mask = umask(0777);
-    umask(mask);
-
-    // Set the file permissions, honoring umask
-    out.fchmod(mode & ~mask);
+    File out = File::create_temporary(file, mode);
 
     out.write_all_or_retry(data, size);
     out.close();
diff --git a/arki/utils/sys.h b/arki/utils/sys.h
index 54b5800..0a9040a 100644
--- a/arki/utils/sys.h
+++ b/arki/utils/sys.h
@@ -590,6 +590,16 @@ public:
      */
     bool open_ifexists(int flags, mode_t mode = 0777);
 
+    /**
+     * Create a new file with a name starting with prefix, and with the given
+     * permissions, honoring the umask.
+     *
+     * This does not use umask(), which would change the umask of the whole
+     * process, even if temporarily, while other threads may be creating files.
+     */
+    static File create_temporary(const std::filesystem::path& prefix,
+                                 mode_t mode);
+
     static File mkstemp(const std::filesystem::path& prefix);
     [[deprecated("Use mkstemp(const std::filesysten::path&)")]] static File
     mkstemp(const std::string& prefix);
-- 
2.43.0


From 41306ebceef0fc0e06ab4ac83b680b4a9b58bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 51/62] fix: stream outputs did not report progress of
 unfiltered writes to files, or of filtered output

---
 arki/stream/concrete-parts.tcc | 6 ++++--
 arki/stream/loops.tcc          | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index e48d9b3..d6343ce 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -401,8 +401,8 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
     {
         auto pre = to_output.pos;
         auto res = to_output.transfer_available(destination);
-        if (this->stream.progress_callback)
-            this->stream.progress_callback(pre - to_output.pos);
+        if (this->stream.progress_callback && to_output.pos > pre)
+            this->stream.progress_callback(to_output.pos - pre);
         return res;
     }
 
@@ -534,6 +534,8 @@ struct FromFilterAbstract : public FromFilter<Backend>
         {
             AbstractStreamOutput<Backend>* stream = reinterpret_cast<AbstractStreamOutput<Backend>*>(&(this->stream));
             stream->_write_output_buffer(buffer.data(), res);
+            if (this->stream.progress_callback)
+                this->stream.progress_callback(res);
             this->stream.filter_process->size_stdout += res;
             return TransferResult::WOULDBLOCK;
         }
diff --git a/arki/stream/loops.tcc b/arki/stream/loops.tcc
index 137a54a..97a4dbd 100644
--- a/arki/stream/loops.tcc
+++ b/arki/stream/loops.tcc
@@ -44,6 +44,7 @@ template<typename Backend> template<typename ToOutput>
 stream::SendResult UnfilteredLoop<Backend>::loop(ToOutput to_output)
 {
     stream::SendResult result;
+    to_output.progress_callback = stream.progress_callback;
     while (true)
     {
         pollinfo.revents = 0;
-- 
2.43.0


From 36e9c9fbbddac444483f88f50a5c51e2ae2542e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 52/62] fix: output of filters could be lost when they ended
 before it was all read

---
 arki/stream/concrete-parts.tcc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index d6343ce..e618ccf 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -216,10 +216,13 @@ struct FromFilter
 
     bool setup_poll()
     {
+        // Do not poll while there is data waiting to be read: when the filter
+        // closes its stdout, POLLHUP would be reported continuously
         if (filter_stdout_available)
-            pfd_filter_stdout->events = 0;
+            pfd_filter_stdout->fd = -1;
         else
-            pfd_filter_stdout->events = POLLIN;
+            pfd_filter_stdout->fd = stream.filter_process->cmd.get_stdout();
+        pfd_filter_stdout->events = POLLIN;
 
         trace_streaming("  FromFilter.setup_poll: filter_stdout: %d:%x\n", stream.filter_process->cmd.get_stdout(), (int)pfd_filter_stdout->events);
         return stream.filter_process->cmd.get_stdout() != -1;
@@ -350,7 +353,7 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::WOULDBLOCK:
                     break;
             }
-        } else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        } else if (!this->filter_stdout_available && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
             trace_streaming("  FromFilterSplice.on_poll: filter stdout closed\n");
             // Filter stdout closed its endpoint
             this->stream.filter_process->cmd.close_stdout();
@@ -408,7 +411,7 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
 
     bool setup_poll()
     {
-        bool res = FromFilter<Backend>::setup_poll();
+        bool res = FromFilterConcrete<Backend>::setup_poll();
         trace_streaming("  FromFilterReadWrite.setup_poll: parent: %d, %zd/%zd\n", res, to_output.pos, to_output.size);
         res = res or (to_output.size > 0 && to_output.pos < to_output.size);
         return res;
@@ -465,7 +468,7 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
             moved_data = true;
         }
 
-        if (!moved_data && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        if (!moved_data && !this->filter_stdout_available && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
             // Filter stdout closed its endpoint
             trace_streaming("  FromFilterReadWrite.on_poll: POLLERR|POLLUP on filter_stdout: closing it\n");
             this->stream.filter_process->cmd.close_stdout();
@@ -565,8 +568,7 @@ struct FromFilterAbstract : public FromFilter<Backend>
                     break;
             }
         }
-
-        if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
+        else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
         {
             // Filter stdout closed its endpoint
             this->stream.filter_process->cmd.close_stdout();
-- 
2.43.0


From fb1bb6e7f7db94e2797af20454f9ff7a052256cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 53/62] fix: data was sent twice to a filter when its output
 could not be spliced to the destination

---
 arki/stream/concrete.cc | 15 +++++++++------
 arki/stream/loops.h     |  4 ++++
 arki/stream/loops.tcc   | 14 ++++++++++----
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/arki/stream/concrete.cc b/arki/stream/concrete.cc
index 5449ae6..f0017cc 100644
--- a/arki/stream/concrete.cc
+++ b/arki/stream/concrete.cc
@@ -111,12 +111,13 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
         {
             return filter_sender->send_buffer(data, size);
         }
-        catch (SpliceNotAvailable&)
+        catch (SpliceNotAvailable& e)
         {
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_buffer(data, size);
+            return filter_sender->send_buffer(
+                static_cast<const uint8_t*>(data) + e.sent, size - e.sent);
         }
     }
     else
@@ -139,12 +140,13 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
         {
             return filter_sender->send_line(data, size);
         }
-        catch (SpliceNotAvailable&)
+        catch (SpliceNotAvailable& e)
         {
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_line(data, size);
+            return filter_sender->send_line(
+                static_cast<const uint8_t*>(data) + e.sent, size - e.sent);
         }
     }
     else
@@ -168,12 +170,13 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
         {
             return filter_sender->send_file_segment(fd, offset, size);
         }
-        catch (SpliceNotAvailable&)
+        catch (SpliceNotAvailable& e)
         {
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_file_segment(fd, offset, size);
+            return filter_sender->send_file_segment(fd, offset + e.sent,
+                                                    size - e.sent);
         }
     }
     else
diff --git a/arki/stream/loops.h b/arki/stream/loops.h
index 7664e39..e9516db 100644
--- a/arki/stream/loops.h
+++ b/arki/stream/loops.h
@@ -26,6 +26,10 @@ class SendfileNotAvailable : std::exception
 class SpliceNotAvailable : std::exception
 {
     using std::exception::exception;
+
+public:
+    /// How much of the data being sent had already been sent to the filter
+    size_t sent = 0;
 };
 
 static const unsigned POLLINFO_FILTER_STDIN  = 0;
diff --git a/arki/stream/loops.tcc b/arki/stream/loops.tcc
index 97a4dbd..3518cc8 100644
--- a/arki/stream/loops.tcc
+++ b/arki/stream/loops.tcc
@@ -112,8 +112,13 @@ struct FilterLoop : public Sender
     template<typename Source>
     stream::SendResult send(Source&& source)
     {
-        return loop(ToFilter<Backend, Source>(stream, std::move(source)));
-
+        ToFilter<Backend, Source> part_to_filter(stream, std::move(source));
+        try {
+            return loop(part_to_filter);
+        } catch (SpliceNotAvailable& e) {
+            e.sent = part_to_filter.to_pipe.pos;
+            throw;
+        }
     }
 
     stream::SendResult send_buffer(const void* data, size_t size) override final
@@ -137,11 +142,12 @@ struct FilterLoop : public Sender
 
     stream::SendResult flush() override final
     {
-        return loop(Flusher<Backend>(stream));
+        Flusher<Backend> flusher(stream);
+        return loop(flusher);
     }
 
     template<typename ToFilter>
-    stream::SendResult loop(ToFilter part_to_filter)
+    stream::SendResult loop(ToFilter& part_to_filter)
     {
         part_to_filter.set_output(pollinfo);
 
-- 
2.43.0


From a161e9c405bdc1fb3a383d38fbff4a20c55d8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 54/62] fix: waiting for a filter to end could hang when it was
 aborted or its output was not read to the end

---
 arki/stream/filter.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arki/stream/filter.cc b/arki/stream/filter.cc
index 2f29fa5..797ea6b 100644
--- a/arki/stream/filter.cc
+++ b/arki/stream/filter.cc
@@ -37,6 +37,15 @@ void FilterProcess::start()
 
 void FilterProcess::stop()
 {
+    // We are done exchanging data with the process: close what is still open,
+    // or it could wait forever for input, or for its output to be read
+    if (cmd.get_stdin() != -1)
+        cmd.close_stdin();
+    if (cmd.get_stdout() != -1)
+        cmd.close_stdout();
+    if (cmd.get_stderr() != -1)
+        cmd.close_stderr();
+
     if (timeout_ms == -1)
     {
         cmd.wait();
-- 
2.43.0


From 59a7d725277fd114328ec2353fdc30025d75e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 55/62] fix: metadata files whose data is elsewhere in the file
 system could not be queried with data

---
 arki/dataset/file.cc | 25 +++++++++++++++++++------
 arki/dataset/file.h  |  6 ++++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/arki/dataset/file.cc b/arki/dataset/file.cc
index 84d2c97..9be8ae1 100644
--- a/arki/dataset/file.cc
+++ b/arki/dataset/file.cc
@@ -294,14 +294,27 @@ void FdFile::ensure_data_is_accessible(Metadata& md)
     if (!md.has_source_blob())
         return;
     const auto& blob = md.sourceBlob();
-    std::shared_ptr<segment::Session> session;
-    if (blob.basedir == segment_session->root)
-        session = segment_session;
-    else
-        session = std::make_shared<SegmentSession>(blob.basedir);
+    std::filesystem::path root(blob.basedir);
+    std::filesystem::path relpath(blob.filename);
+    if (relpath.is_absolute())
+    {
+        // The data can be anywhere, also outside of the directory of the
+        // metadata file
+        root    = relpath.parent_path();
+        relpath = relpath.filename();
+    }
+
+    auto& session = blob_sessions[root];
+    if (!session)
+    {
+        if (root == segment_session->root)
+            session = segment_session;
+        else
+            session = std::make_shared<SegmentSession>(root);
+    }
 
     auto segment =
-        session->segment_from_relpath_and_format(blob.filename, blob.format);
+        session->segment_from_relpath_and_format(relpath, blob.format);
     auto reader = segment->reader(std::make_shared<core::lock::NullReadLock>());
     md.sourceBlob().lock(reader);
 }
diff --git a/arki/dataset/file.h b/arki/dataset/file.h
index 6be7d33..ed84eaf 100644
--- a/arki/dataset/file.h
+++ b/arki/dataset/file.h
@@ -9,6 +9,9 @@
 #include <arki/defs.h>
 #include <arki/metadata/fwd.h>
 #include <arki/segment.h>
+#include <filesystem>
+#include <map>
+#include <memory>
 #include <string>
 
 namespace arki::dataset::file {
@@ -86,6 +89,9 @@ class FdFile : public Dataset
 {
 protected:
     std::shared_ptr<segment::Session> segment_session;
+    /// Sessions used to access data, by root directory
+    std::map<std::filesystem::path, std::shared_ptr<segment::Session>>
+        blob_sessions;
     core::File fd;
 
     void ensure_data_is_accessible(Metadata& md);
-- 
2.43.0


From 98268edcc8f438f0a3499e03e8521833de361675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 56/62] fix: metadata.md in archives could not be read if data
 was inline

---
 arki/metadata/archive.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/archive.cc b/arki/metadata/archive.cc
index e79d6ae..f04335d 100644
--- a/arki/metadata/archive.cc
+++ b/arki/metadata/archive.cc
@@ -139,9 +139,6 @@ size_t LibarchiveOutput::append(const Metadata& md)
                  format_name);
     auto stored_md          = md.clone();
     const auto& stored_data = stored_md->get_data().read();
-    std::unique_ptr<types::Source> stored_source =
-        types::Source::createBlobUnlocked(md.source().format, "", filename_buf,
-                                          0, stored_data.size());
 
     archive_entry_clear(entry);
     archive_entry_set_pathname(entry, filename_buf);
@@ -156,6 +153,14 @@ size_t LibarchiveOutput::append(const Metadata& md)
 
     write_buffer(stored_data);
 
+    // Inline data would be expected to follow the metadata in metadata.md:
+    // refer to the file next to it instead
+    if (stored_md->source().style() == types::Source::Style::INLINE)
+        stored_md->set_source(types::Source::createBlobUnlocked(
+            md.source().format, "",
+            std::filesystem::path(filename_buf).filename(), 0,
+            stored_data.size()));
+
     stored_md->drop_cached_data();
     mds.acquire(std::move(stored_md));
     return ofs;
-- 
2.43.0


From 0d36db90f08cb6b642d37a02941cb7b7bf769f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 57/62] fix: splitting batches by time range crashed on data
 without time range

---
 arki/metadata/clusterer.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/arki/metadata/clusterer.cc b/arki/metadata/clusterer.cc
index 5ca9290..a705a09 100644
--- a/arki/metadata/clusterer.cc
+++ b/arki/metadata/clusterer.cc
@@ -52,11 +52,11 @@ bool Clusterer::exceeds_timerange(const Metadata& md) const
 {
     if (not split_timerange)
         return false;
-    if (not last_timerange)
-        return false;
-    if (*last_timerange == *md.get<types::Timerange>())
-        return false;
-    return true;
+    const auto* timerange = md.get<types::Timerange>();
+    // Data without a timerange do not go with data that have one
+    if (not last_timerange or not timerange)
+        return last_timerange != timerange;
+    return *last_timerange != *timerange;
 }
 
 void Clusterer::start_batch(DataFormat new_format)
@@ -73,12 +73,11 @@ void Clusterer::add_to_batch(std::shared_ptr<Metadata> md)
     ++count;
     if (cur_interval[0] == -1 && max_interval != 0)
         md_to_interval(*md, cur_interval);
-    const Reftime* rt = md->get<types::Reftime>();
-    if (!rt)
-        return;
-    rt->expand_date_range(timespan);
     if (split_timerange and not last_timerange)
-        last_timerange = md->get<types::Timerange>()->clone();
+        if (const auto* timerange = md->get<types::Timerange>())
+            last_timerange = timerange->clone();
+    if (const Reftime* rt = md->get<types::Reftime>())
+        rt->expand_date_range(timespan);
 }
 
 void Clusterer::flush_batch()
-- 
2.43.0


From 7d0ac06e58bd098dda80f20b7cc118dd9fb39ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 58/62] fix: programs killed by a signal were taken as
 successful

---
 arki/utils/subprocess.cc | 7 ++++++-
 arki/utils/subprocess.h  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/arki/utils/subprocess.cc b/arki/utils/subprocess.cc
index d1b355d..12b6a1e 100644
--- a/arki/utils/subprocess.cc
+++ b/arki/utils/subprocess.cc
@@ -45,7 +45,12 @@ Child::~Child()
     }
 }
 
-int Child::returncode() const { return WEXITSTATUS(m_returncode); }
+int Child::returncode() const
+{
+    if (WIFSIGNALED(m_returncode))
+        return -WTERMSIG(m_returncode);
+    return WEXITSTATUS(m_returncode);
+}
 
 int Child::get_stdin() const { return m_stdin[1]; }
 
diff --git a/arki/utils/subprocess.h b/arki/utils/subprocess.h
index 77ef539..81c3011 100644
--- a/arki/utils/subprocess.h
+++ b/arki/utils/subprocess.h
@@ -118,6 +118,8 @@ public:
     /**
      * Return the return code of the subprocess; this is undefined if it has
      * not terminated yet.
+     *
+     * If it was killed by signal N, this is -N.
      */
     int returncode() const;
 
-- 
2.43.0


From 28c5bbb70b597b5943d6767201d194ba7edc36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 59/62] fix: arki-xargs left behind the temporary file of an
 incomplete batch

---
 arki/metadata/xargs.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arki/metadata/xargs.cc b/arki/metadata/xargs.cc
index f033200..8cc8183 100644
--- a/arki/metadata/xargs.cc
+++ b/arki/metadata/xargs.cc
@@ -31,7 +31,12 @@ Xargs::Xargs() : metadata::Clusterer(), filename_argument(-1)
     }
 }
 
-Xargs::~Xargs() {}
+Xargs::~Xargs()
+{
+    // Do not leave the data of an incomplete batch behind
+    if (tempfile && tempfile->is_open())
+        ::unlink(tempfile->path().c_str());
+}
 
 void Xargs::start_batch(DataFormat new_format)
 {
-- 
2.43.0


From 47706b7194c3aaa9e28ed9a72faa40d24f669113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 60/62] fix: truncated summaries and groups of metadata were
 read past the end of the data

---
 arki/core/binary.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/arki/core/binary.cc b/arki/core/binary.cc
index 70e1fbc..c22ef0e 100644
--- a/arki/core/binary.cc
+++ b/arki/core/binary.cc
@@ -100,13 +100,7 @@ BinaryDecoder BinaryDecoder::pop_metadata_bundle(std::string& signature,
     // Get length from next 4 bytes
     size_t len = pop_uint(4, "size of metadata bundle");
 
-    BinaryDecoder res(buf, len);
-
-    // Move to the end of the inner data
-    buf += len;
-    size -= len;
-
-    return res;
+    return pop_data(len, "metadata bundle");
 }
 
 } // namespace core
-- 
2.43.0


From 1f631ab45a5eb55d113cfb4eb0d45aa4f0b18d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 61/62] fix: results of remote queries cut in the middle of an
 element were taken as complete

---
 arki/dataset/http.cc   | 6 ++++++
 arki/metadata/stream.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/arki/dataset/http.cc b/arki/dataset/http.cc
index 99bc3bc..55ee8e7 100644
--- a/arki/dataset/http.cc
+++ b/arki/dataset/http.cc
@@ -116,6 +116,12 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
         request.post_data.add_string("style", "inline");
     request.perform();
 
+    // The server can stop without notice if something goes wrong after it
+    // started to send results
+    if (!request.mdc.consumer_canceled() && request.mdc.is_incomplete())
+        throw std::runtime_error(request.actual_url +
+                                 ": incomplete data received from the server");
+
     return track.done(!request.mdc.consumer_canceled());
 }
 
diff --git a/arki/metadata/stream.h b/arki/metadata/stream.h
index bfd4cd2..3d0e9da 100644
--- a/arki/metadata/stream.h
+++ b/arki/metadata/stream.h
@@ -44,6 +44,12 @@ public:
      */
     size_t countBytesUnprocessed() const { return buffer.size(); }
 
+    /**
+     * Return true if what was received so far ends in the middle of a metadata
+     * or of its inline data
+     */
+    bool is_incomplete() const { return state != METADATA || !buffer.empty(); }
+
     /**
      * Send some data to the stream.
      *
-- 
2.43.0


From 5989baf0e68c936b3b7a3488abbd2a04d6d03efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 62/62] fix: remote queries never ended if the server kept
 redirecting them

---
 arki/core/curl.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arki/core/curl.cc b/arki/core/curl.cc
index 4ca5d08..c638ff3 100644
--- a/arki/core/curl.cc
+++ b/arki/core/curl.cc
@@ -7,6 +7,9 @@ namespace arki {
 namespace core {
 namespace curl {
 
+/// Maximum number of redirects followed for a request
+static const unsigned max_redirects = 50;
+
 #define checked(context, stmt)                                                 \
     do                                                                         \
     {                                                                          \
@@ -95,7 +98,8 @@ void Request::set_method(const std::string& method) { this->method = method; }
 
 void Request::perform()
 {
-    actual_url = url;
+    actual_url         = url;
+    unsigned redirects = 0;
     while (true)
     {
         arkimet_exception_message.clear();
@@ -161,7 +165,10 @@ void Request::perform()
             char* url = nullptr;
             checked("reading redirect url",
                     curl_easy_getinfo(curl, CURLINFO_REDIRECT_URL, &url));
-            if (url)
+            if (url && ++redirects > max_redirects)
+                throw std::runtime_error(method + " " + this->url +
+                                         ": too many redirects");
+            else if (url)
                 actual_url = url;
             else
                 throw std::runtime_error(
-- 
2.43.0

