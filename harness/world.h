#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
/*
 * A local dataset driven through histories of operations, next to a model of
 * its contents.
 */
#include "engine.h"
#include "exprgen.h"
#include "gen.h"
#include "payload.h"
#include "arki/core/cfg.h"
#include "arki/dataset.h"
#include "arki/dataset/reporter.h"
#include "arki/dataset/segmented.h"
#include "arki/dataset/session.h"
#include "arki/dataset/time.h"
#include "arki/metadata/collection.h"
#include "arki/metadata/inbound.h"
#include "arki/query.h"
#include "arki/segment.h"
#include "arki/summary.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace vf {

/// One message, as given to the dataset
struct Elem
{
    unsigned id = 0;
    arki::DataFormat format;
    std::shared_ptr<arki::Metadata> items;
    std::vector<uint8_t> payload;
    unsigned usn = 0;
    int64_t t    = 0;
    std::string seg;  // relpath of the segment
    std::string fp;   // items visible when querying
    std::string key;  // items making it unique
    std::vector<uint8_t> filler;
};
typedef std::shared_ptr<Elem> ElemP;

/// Model of the physical layout of a segment
struct SegModel
{
    std::string relpath;
    arki::DataFormat format;
    // in append order; alive ones are visible
    std::vector<std::pair<ElemP, bool>> phys;
    bool packed   = false; // tar, zip or gz: cannot append
    bool isdir    = false;
    bool has_live() const
    {
        for (const auto& p : phys)
            if (p.second)
                return true;
        return false;
    }
    bool sorted() const
    {
        int64_t last = INT64_MIN;
        for (const auto& p : phys)
        {
            if (!p.second)
                continue;
            if (p.first->t < last)
                return false;
            last = p.first->t;
        }
        return true;
    }
    bool holes() const
    {
        for (const auto& p : phys)
            if (!p.second)
                return true;
        return false;
    }
    bool dirty() const { return holes() || !sorted(); }
    /// What repack does
    void pack();
};

typedef std::map<std::string, std::tuple<uint64_t, uint64_t, int64_t, int64_t>> SumMap;

struct WorldOpts
{
    bool iseg_only = false, simple_only = false;
    bool allow_step_all  = true;
    bool allow_multi_fmt = true;
    bool ages         = false; // archive age and delete age, and the current time changing
    int force_replace = -1; // 0 no 1 yes 2 USN
    bool bufr_usn     = false;
    bool small        = false; // few distinct elements, so that they collide
    bool no_dirs      = false;
    bool durable      = false; // never eatmydata
    std::string name;          // name of the dataset
    int force_format  = -1;    // data format
    int force_dirs    = -1;    // use directory segments
};

struct CaptureReporter : public arki::dataset::NullReporter
{
    std::vector<std::string> lines;
    bool aborted = false, manual = false;
    std::set<std::string> aborted_ds;
    std::map<std::string, std::vector<std::string>> acts; // relpath -> actions
    void operation_aborted(const std::string& ds, const std::string& op, const std::string& m) override
    {
        aborted = true;
        aborted_ds.insert(ds);
        lines.push_back("aborted " + op + ": " + m);
    }
    void add(const std::filesystem::path& p, const char* what, const std::string& m)
    {
        acts[p.native()].push_back(what);
        lines.push_back(p.native() + ": " + what + ": " + m);
    }
    void segment_info(const std::string&, const std::filesystem::path& p, const std::string& m) override
    {
        lines.push_back(p.native() + ": info: " + m);
    }
    void segment_repack(const std::string&, const std::filesystem::path& p, const std::string& m) override { add(p, "repack", m); }
    void segment_archive(const std::string&, const std::filesystem::path& p, const std::string& m) override { add(p, "archive", m); }
    void segment_remove(const std::string&, const std::filesystem::path& p, const std::string& m) override { add(p, "remove", m); }
    void segment_deindex(const std::string&, const std::filesystem::path& p, const std::string& m) override { add(p, "deindex", m); }
    void segment_rescan(const std::string&, const std::filesystem::path& p, const std::string& m) override { add(p, "rescan", m); }
    void segment_tar(const std::string&, const std::filesystem::path& p, const std::string& m) override { add(p, "tar", m); }
    void segment_compress(const std::string&, const std::filesystem::path& p, const std::string& m) override { add(p, "compress", m); }
    void segment_issue51(const std::string&, const std::filesystem::path& p, const std::string& m) override { add(p, "issue51", m); }
    void segment_manual_intervention(const std::string&, const std::filesystem::path& p, const std::string& m) override
    {
        manual = true;
        add(p, "manual", m);
    }
    std::string all() const
    {
        std::string r;
        for (const auto& l : lines)
            r += l + "\n";
        return r;
    }
};

class World
{
public:
    Case& c;
    Gen& g;
    WorldOpts o;
    std::filesystem::path root;   // parent of the dataset
    std::filesystem::path path;   // the dataset
    std::string name = "testds";
    arki::core::cfg::Section cfg;
    std::shared_ptr<arki::dataset::Session> session;
    bool iseg      = false;
    std::string step;
    arki::DataFormat format;
    bool smallfiles = false;
    bool dir_segments = false;  // GRIB, BUFR... stored in directories
    bool formats_multi = false;
    std::string replace;
    std::set<arki::TypeCode> unique;
    unsigned next_id = 0;
    unsigned count_duplicates = 0; // elements refused because already present
    unsigned count_replaced = 0;   // elements replaced by a newer one

    // pool of item values, and the base date
    std::map<arki::TypeCode, std::vector<std::shared_ptr<arki::types::Type>>> pool;
    int64_t base_day;
    std::vector<int> day_offsets;
    std::vector<ElemP> history;

    std::map<std::string, SegModel> segs;          // online
    std::map<std::string, SegModel> arch;          // archives, by archive name and segment
    std::map<std::string, int> archives;           // archives: 0 normal, 1 read only, 2 offline
    std::vector<ElemP> offline_elems;              // only present in the summaries of offline archives
    int archive_age = -1, delete_age = -1;
    int64_t now = 0;                               // current time, if o.ages
    std::unique_ptr<arki::dataset::SessionTimeOverride> now_override;
    bool finished = false;                         // nothing more can be done with this dataset
    unsigned count_archived = 0, count_deleted = 0, count_aged_out = 0;
    bool summaries_fresh = false;

    World(Case& c, const WorldOpts& o);

    std::shared_ptr<arki::dataset::Dataset> dataset();

    // model
    std::string step_path(int64_t t) const;
    static std::string step_path(const std::string& step, int64_t t);
    static std::pair<int64_t, int64_t> step_span(const std::string& step, int64_t t);
    std::vector<ElemP> visible() const;
    std::string visible_fp(const arki::Metadata& md) const;
    std::string key_of(const arki::Metadata& md) const;
    ElemP new_elem();
    ElemP make_elem(const std::shared_ptr<arki::Metadata>& items, unsigned usn, arki::DataFormat fmt,
                    const std::vector<uint8_t>& filler);
    std::shared_ptr<arki::Metadata> elem_md(const Elem& e) const;
    /// Notes that come with an element when it is imported: time and text
    static std::vector<std::pair<arki::core::Time, std::string>> notes_of(const std::vector<uint8_t>& payload);
    /// Elements are imported with notes, and are expected to keep them
    bool notes = false;
    std::string show(const Elem& e) const;

    // expected results of importing one batch
    struct Expected
    {
        std::vector<int> results; // 0 OK, 1 duplicate, 2 error, 3 unknown
    };
    Expected model_import(const std::vector<ElemP>& batch, const std::string& strategy);

    // operations
    void op_import(std::shared_ptr<arki::dataset::Writer> writer = nullptr);
    void import(const std::vector<ElemP>& batch, const std::string& strategy,
                std::shared_ptr<arki::dataset::Writer> writer = nullptr);
    void op_remove();
    /// Choose elements to remove, and remove them from the model
    void select_remove(arki::metadata::Collection& mds);
    void op_repack();
    void op_check();
    void op_convert();
    void op_remove_all();
    void op_readonly();
    void op_age(time_t min_delta = 1);
    void op_time();
    void op_remove_old();
    void op_unarchive();
    void op_archives();
    void set_now(int64_t t);
    int64_t threshold(int age) const;
    int age_state(const SegModel& s) const; // 0 nothing, 1 archive, 2 delete

    // audits
    void audit_query();
    void audit_all();
    void audit_bytes();
    void audit_stop();
    void audit_summary();
    void audit_state();

    std::vector<std::shared_ptr<arki::Metadata>> query(const std::string& expr, bool with_data,
                                                       const std::string& sort = std::string());
    std::vector<std::shared_ptr<arki::Metadata>> mpool() const;
    SumMap model_summary(const std::vector<ElemP>& els) const;
    SumMap read_summary(const arki::Summary& s) const;
    void compare(const std::vector<ElemP>& expected, const std::vector<std::shared_ptr<arki::Metadata>>& got,
                 const std::string& what, bool with_data);
    std::map<std::string, std::string> snapshot() const;
    std::map<std::string, arki::segment::State> states(CaptureReporter& rep, bool quick);
};

/// Reference comparison for a sort order
int ref_sort(const std::string& order, const arki::Metadata& a, const arki::Metadata& b);
/// Start of the interval that t belongs to; 0 if there is no interval in the sort order
int64_t ref_sort_period(const std::string& order, int64_t t);
std::string summap_diff(const SumMap& got, const SumMap& expected);
std::map<std::string, std::string> tree_snapshot(const std::filesystem::path& root);
std::string tree_diff(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b);

} // namespace vf
#endif
