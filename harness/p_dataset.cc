#include "world.h"
#include <typeinfo>
using namespace vf;
using namespace arki;

static void history(Case& c, const WorldOpts& o, unsigned what)
{
    World w(c, o);
    w.notes = true;
    unsigned n        = c.g.range(2, (c.thorough ? 12 : 7) + (o.ages ? 5 : 0));
    unsigned imports  = 0;
    unsigned others   = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned op = i == 0     ? 0
                      : o.ages ? c.g.weighted({6, 2, 6, 1, 2, 1, 2, 6, 2, 2, 3})
                               : c.g.weighted({6, 3, 3, 2, 2, 1, 2});
        switch (op)
        {
            case 0: w.op_import(); ++imports; break;
            case 1: w.op_remove(); ++others; break;
            case 2: w.op_repack(); ++others; break;
            case 3: w.op_check(); break;
            case 4: w.op_convert(); ++others; break;
            case 5: w.op_remove_all(); ++others; break;
            case 6: w.op_readonly(); break;
            case 7:
                w.op_time();
                if (c.g.chance(2, 3))
                {
                    w.op_repack();
                    ++others;
                }
                break;
            case 8: w.op_remove_old(); ++others; break;
            case 9: w.op_unarchive(); break;
            case 10: w.op_archives(); break;
        }
        if (w.finished)
            break;
        if (c.g.chance(1, 3))
            w.op_age();
        if (what & 1)
        {
            w.audit_all();
            if (c.g.chance(1, 2))
                w.audit_query();
            if (c.g.chance(1, 4))
                w.audit_bytes();
            if (c.g.chance(1, 5))
                w.audit_stop();
        }
        if (what & 2)
            w.audit_summary();
        if (what & 4)
            w.audit_state();
    }
    c.count("imports", imports);
    c.count("maintenance operations", others);
    c.count("elements", w.history.size());
    if (o.ages)
    {
        c.count("segments archived", w.count_archived);
        c.count("old segments deleted", w.count_deleted);
        c.count("old elements not stored", w.count_aged_out);
        if (w.count_archived || w.count_deleted || w.count_aged_out)
            c.mark();
    }
    else if (imports && others && w.history.size() > 1)
        c.mark();
    c.mix(w.history.size());
    for (const auto& e : w.history)
        c.mix(e->payload.data(), e->payload.size());
}

PROPERTY("D01", "history", 1, "at least two elements imported and one maintenance operation done")
{
    WorldOpts o;
    o.small = c.g.chance(1, 3);
    history(c, o, 1);
}

PROPERTY("D02", "summaries", 1, "at least two elements imported and one maintenance operation done")
{
    WorldOpts o;
    o.small = c.g.chance(1, 2);
    history(c, o, 2);
}

PROPERTY("D04", "state", 1, "at least two elements imported and one maintenance operation done")
{
    WorldOpts o;
    o.small = c.g.chance(1, 2);
    history(c, o, 4);
}

PROPERTY("D06", "ages", 1, "at least a segment was archived or deleted, or an element too old to be stored")
{
    WorldOpts o;
    o.ages  = true;
    o.small = c.g.chance(1, 2);
    history(c, o, c.g.pick({1, 3, 7, 4}));
}

PROPERTY("D03", "replace", 1, "at least one element was refused or replaced another")
{
    WorldOpts o;
    o.small         = c.g.chance(2, 3);
    o.iseg_only     = c.g.chance(5, 6);
    o.bufr_usn      = c.g.chance(2, 3);
    o.force_replace = c.g.below(3);
    World w(c, o);
    w.notes = true;
    unsigned n = c.g.range(2, c.thorough ? 10 : 6);
    std::shared_ptr<dataset::Writer> writer;
    unsigned replaced = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        switch (i == 0 ? 0 : c.g.weighted({8, 1, 1, 1, 1}))
        {
            case 0:
            {
                // Also use one writer for many batches
                std::shared_ptr<dataset::Writer> wr;
                if (c.g.flip())
                {
                    if (!writer)
                        writer = w.dataset()->create_writer();
                    wr = writer;
                }
                w.op_import(wr);
                break;
            }
            case 1: writer.reset(); w.op_remove(); break;
            case 2: writer.reset(); w.op_repack(); break;
            case 3: writer.reset(); w.op_check(); break;
            case 4: writer.reset(); w.op_age(); break;
        }
        w.audit_all();
    }
    replaced = w.count_duplicates + w.count_replaced;
    c.count("refused", w.count_duplicates);
    c.count("replaced", w.count_replaced);
    if (replaced)
        c.mark();
    c.mix(w.history.size());
    for (const auto& e : w.history)
        c.mix(e->payload.data(), e->payload.size());
}
