/*
 * Checks and repacks of datasets whose files have been damaged
 */
#include "world.h"
#include "arki/dataset/simple/manifest.h"
#include "arki/metadata/data.h"
#include "arki/types/reftime.h"
#include "arki/types/source/blob.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
#include <sqlite3.h>

using namespace vf;
using namespace arki;
namespace fs = std::filesystem;
using segment::State;

namespace {

enum Damage
{
    NONE,
    INDEX_LOST,
    DATA_NEWER,
    DATA_LOST,
    TRUNCATED,
    BAD_BYTES,
    SUMMARY_LOST,
    MTIME_OFF,
    ENTRY_LOST,
    FILE_LOST,
    FILE_SHORT,
    FILE_LONG,
    SEQ_LOW,
    UNKNOWN_FILE,
    EMPTY_FILE,
};

const char* NAMES[] = {"none",         "index lost", "data newer", "data lost",  "truncated",    "bad bytes", "summary lost",
                       "mtime off",    "entry lost", "file lost",  "file short", "file long", "sequence low", "unknown file",
                       "empty file"};

void touch(const fs::path& p, time_t t)
{
    struct timespec ts[2] = {{t, 0}, {t, 0}};
    ::utimensat(AT_FDCWD, p.c_str(), ts, 0);
}

time_t mtime(const fs::path& p)
{
    struct stat st;
    if (::stat(p.c_str(), &st) < 0)
        return 0;
    return st.st_mtime;
}

struct Loc
{
    ElemP e;
    uint64_t offset, size;
};

std::string slurp(const fs::path& p)
{
    std::string res;
    int fd = ::open(p.c_str(), O_RDONLY);
    char buf[65536];
    ssize_t r;
    while ((r = ::read(fd, buf, sizeof buf)) > 0)
        res.append(buf, r);
    ::close(fd);
    return res;
}

void spew(const fs::path& p, const std::string& s)
{
    fs::create_directories(p.parent_path());
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    size_t pos = 0;
    while (pos < s.size())
    {
        ssize_t r = ::write(fd, s.data() + pos, s.size() - pos);
        if (r <= 0)
            break;
        pos += r;
    }
    ::close(fd);
}

struct Bench
{
    Case& c;
    Gen& g;
    World& w;
    std::map<std::string, Damage> dmg;
    std::map<std::string, std::vector<Loc>> locs;
    std::map<std::string, std::string> strays;
    bool dontpack = false;

    Bench(World& w) : c(w.c), g(w.g), w(w) {}

    fs::path abs(const std::string& rel, const char* ext = "") const { return w.path / (rel + ext); }
    fs::path data_path(const std::string& rel) const
    {
        for (const char* ext : {"", ".gz", ".tar", ".zip"})
            if (fs::exists(abs(rel, ext)))
                return abs(rel, ext);
        c.fail("no-data", "segment " + rel + " has no data on disk");
    }

    void locate()
    {
        auto all = w.query("", true);
        std::map<std::string, std::vector<bool>> used;
        for (const auto& md : all)
        {
            const auto& b = md->sourceBlob();
            auto rel      = b.filename.native();
            auto d        = md->get_data().read();
            auto fp       = w.visible_fp(*md);
            auto& s       = w.segs[rel];
            auto& u       = used[rel];
            u.resize(s.phys.size());
            bool found = false;
            for (unsigned i = 0; i < s.phys.size() && !found; ++i)
                if (!u[i] && s.phys[i].second && s.phys[i].first->payload == d && s.phys[i].first->fp == fp)
                {
                    u[i]  = true;
                    found = true;
                    locs[rel].push_back(Loc{s.phys[i].first, b.offset, b.size});
                }
            c.check(found, "extra", "query returned data that is not in the model");
        }
    }

    /// Elements that a scan of the data would find, after duplicates are dropped
    void revive(SegModel& s)
    {
        for (auto& p : s.phys)
            p.second = true;
        if (w.iseg)
            for (size_t i = 0; i < s.phys.size(); ++i)
                for (size_t j = i + 1; j < s.phys.size(); ++j)
                    if (s.phys[i].first->key == s.phys[j].first->key)
                        s.phys[i].second = false;
    }

    bool indexed(const std::string& rel) const
    {
        if (w.iseg)
            return fs::exists(abs(rel, ".index"));
        dataset::simple::manifest::Writer mf(w.path, true);
        mf.reread();
        for (const auto& f : mf.file_list())
            if (f.relpath.native() == rel)
                return true;
        return false;
    }

    void damage(SegModel& s)
    {
        auto rel  = s.relpath;
        bool live = s.has_live();
        auto data = data_path(rel);
        auto ext  = data.extension().native();
        bool gz = ext == ".gz", tar = ext == ".tar", zip = ext == ".zip", dir = fs::is_directory(data);
        bool plain = !gz && !tar && !zip && !dir;
        auto index = abs(rel, w.iseg ? ".index" : ".metadata");
        std::vector<Damage> opts{};
        // Nobody would notice the loss of a deleted segment that is not indexed anywhere
        if (s.phys.empty())
            return;
        if (live || indexed(rel))
            opts.push_back(DATA_LOST);
        if (!tar && !(gz && s.isdir))
        {
            opts.push_back(INDEX_LOST);
            opts.push_back(DATA_NEWER);
        }
        if (live)
        {
            if (plain || tar)
                opts.push_back(TRUNCATED);
            // VM2 lines can be rebuilt from their metadata
            if ((plain || tar || dir) && s.format != DataFormat::VM2)
                opts.push_back(BAD_BYTES);
            if (dir)
            {
                opts.push_back(FILE_LOST);
                opts.push_back(FILE_SHORT);
                opts.push_back(FILE_LONG);
                opts.push_back(SEQ_LOW);
            }
            if (!w.iseg && !tar && !(gz && s.isdir))
            {
                opts.push_back(SUMMARY_LOST);
                opts.push_back(MTIME_OFF);
                opts.push_back(ENTRY_LOST);
            }
        }
        if (opts.empty())
            return;
        Damage d = g.pick(opts);
        struct stat st;
        ::stat(data.c_str(), &st);
        struct timespec ts[2] = {st.st_atim, st.st_mtim};
        auto datafile         = [&](uint64_t idx) {
            char buf[64];
            snprintf(buf, 64, "%06zu.%s", (size_t)idx, format_name(s.format).c_str());
            return data / buf;
        };
        switch (d)
        {
            case INDEX_LOST:
                fs::remove(index);
                if (w.iseg)
                {
                    fs::remove(abs(rel, ".index-wal"));
                    fs::remove(abs(rel, ".index-shm"));
                }
                else if (g.flip())
                    fs::remove(abs(rel, ".summary"));
                break;
            case DATA_NEWER: touch(dir ? data / ".sequence" : data, mtime(index) + 10); break;
            case DATA_LOST:
                fs::remove_all(data);
                fs::remove(abs(rel, ".gz.idx"));
                break;
            case TRUNCATED:
            {
                const Loc* last = nullptr;
                for (const auto& l : locs[rel])
                    if (!last || l.offset > last->offset)
                        last = &l;
                auto ofs = last->offset + g.below(last->size);
                if (::truncate(data.c_str(), ofs) < 0)
                    c.fail("harness", "cannot truncate");
                ::utimensat(AT_FDCWD, data.c_str(), ts, 0);
                break;
            }
            case BAD_BYTES:
            {
                const auto& l = g.pick(locs[rel]);
                auto file     = dir ? datafile(l.offset) : data;
                int fd        = ::open(file.c_str(), O_WRONLY);
                if (::pwrite(fd, "\0\0\0\0", 4, (dir ? 0 : l.offset)) != 4)
                    c.fail("harness", "cannot write");
                ::close(fd);
                if (!dir)
                    ::utimensat(AT_FDCWD, data.c_str(), ts, 0);
                break;
            }
            case SUMMARY_LOST: fs::remove(abs(rel, ".summary")); break;
            case MTIME_OFF:
            {
                time_t t = mtime(dir ? data / ".sequence" : data) - 1 - g.below(5);
                touch(dir ? data / ".sequence" : data, t);
                touch(abs(rel, ".metadata"), t);
                touch(abs(rel, ".summary"), t);
                break;
            }
            case ENTRY_LOST:
            {
                dataset::simple::manifest::Writer mf(w.path, true);
                mf.reread();
                mf.remove(rel);
                mf.flush();
                break;
            }
            case FILE_LOST: fs::remove(datafile(g.pick(locs[rel]).offset)); break;
            case FILE_SHORT:
            {
                const auto& l = g.pick(locs[rel]);
                if (::truncate(datafile(l.offset).c_str(), g.below(l.size)) < 0)
                    c.fail("harness", "cannot truncate");
                break;
            }
            case FILE_LONG:
            {
                int fd = ::open(datafile(g.pick(locs[rel]).offset).c_str(), O_WRONLY | O_APPEND);
                auto n = g.range(1, 5);
                if (::write(fd, "garbage", n) != (ssize_t)n)
                    c.fail("harness", "cannot write");
                ::close(fd);
                break;
            }
            case SEQ_LOW:
            {
                auto f = data / ".sequence";
                ::stat(f.c_str(), &st);
                struct timespec ts[2] = {st.st_atim, st.st_mtim};
                uint64_t val = 0, max = 0;
                for (const auto& l : locs[rel])
                    max = std::max(max, l.offset);
                if (max == 0)
                {
                    d = NONE;
                    break;
                }
                val    = g.below(max);
                int fd = ::open(f.c_str(), O_WRONLY);
                if (::pwrite(fd, &val, sizeof val, 0) != sizeof val)
                    c.fail("harness", "cannot write");
                ::close(fd);
                ::utimensat(AT_FDCWD, f.c_str(), ts, 0);
                break;
            }
            default: break;
        }
        if (d != NONE)
        {
            dmg[rel] = d;
            c.log(rel + " damaged: " + NAMES[d]);
            c.count(std::string("damage: ") + NAMES[d]);
        }
    }

    void unknown()
    {
        // A segment that the dataset does not know about
        auto e = w.new_elem();
        if (w.segs.count(e->seg) || dmg.count(e->seg))
            return;
        if (w.iseg && e->format != w.format)
            return;
        SegModel s;
        s.relpath = e->seg;
        s.format  = e->format;
        s.isdir   = w.dir_segments || e->format == DataFormat::ODIMH5 || e->format == DataFormat::NETCDF ||
                  e->format == DataFormat::JPEG;
        if (!s.isdir && g.chance(1, 4))
        {
            spew(abs(e->seg), "");
            s.phys.clear();
            dmg[e->seg]    = EMPTY_FILE;
            w.segs[e->seg] = s;
            c.log(e->seg + ": new empty file");
            c.count("damage: empty file");
            return;
        }
        s.phys.emplace_back(e, true);
        auto span  = World::step_span(w.step, e->t);
        unsigned n = g.below(4);
        for (unsigned i = 0; i < n; ++i)
        {
            auto md = e->items->clone();
            if (g.chance(1, 3))
                md = g.pick(s.phys).first->items->clone();
            else
                md->test_set(types::Reftime::createPosition(secs_civil(span.first + g.below(span.second - span.first))));
            std::vector<uint8_t> filler{(uint8_t)'u', (uint8_t)w.next_id};
            s.phys.emplace_back(w.make_elem(md, g.below(4), e->format, filler), true);
        }
        bool gz = !s.isdir && g.chance(1, 3);
        if (s.isdir)
        {
            fs::create_directories(abs(e->seg));
            uint64_t seq = 0;
            for (const auto& p : s.phys)
            {
                char buf[64];
                snprintf(buf, 64, "%06zu.%s", (size_t)seq++, format_name(s.format).c_str());
                spew(abs(e->seg) / buf, std::string(p.first->payload.begin(), p.first->payload.end()));
            }
            --seq;
            spew(abs(e->seg) / ".sequence", std::string((const char*)&seq, sizeof seq));
        }
        else
        {
            std::string data;
            for (const auto& p : s.phys)
            {
                data.append(p.first->payload.begin(), p.first->payload.end());
                if (s.format == DataFormat::VM2)
                    data += "\n";
            }
            if (gz)
            {
                fs::create_directories(abs(e->seg).parent_path());
                gzFile f = gzopen(abs(e->seg, ".gz").c_str(), "wb");
                gzwrite(f, data.data(), data.size());
                gzclose(f);
                s.packed = true;
            }
            else
                spew(abs(e->seg), data);
        }
        for (const auto& p : s.phys)
            w.history.push_back(p.first);
        w.segs[e->seg] = s;
        dmg[e->seg]    = UNKNOWN_FILE;
        c.log(e->seg + (gz ? ".gz" : "") + ": new unknown segment with " + std::to_string(s.phys.size()) + " elements");
        c.count("damage: unknown file");
    }

    /// Lose the MANIFEST of a simple dataset, or go back to an old version of it
    void manifest()
    {
        if (w.iseg || !fs::exists(w.path / "MANIFEST"))
            return;
        if (g.flip())
        {
            dataset::simple::manifest::Writer mf(w.path, true);
            mf.reread();
            sqlite3* db;
            if (sqlite3_open((w.path / "index.sqlite").c_str(), &db) != SQLITE_OK)
                c.fail("harness", "cannot create index.sqlite");
            sqlite3_exec(db,
                         "CREATE TABLE files (id INTEGER PRIMARY KEY, file TEXT NOT NULL, mtime INTEGER NOT NULL, "
                         "start_time TEXT NOT NULL, end_time TEXT NOT NULL, UNIQUE(file))",
                         nullptr, nullptr, nullptr);
            auto files = mf.file_list();
            g.shuffle(files);
            for (const auto& f : files)
            {
                auto q = "INSERT INTO files (file, mtime, start_time, end_time) VALUES ('" + f.relpath.native() + "', " +
                         std::to_string(f.mtime) + ", '" + f.time.begin.to_sql() + "', '" + f.time.end.to_sql() + "')";
                if (sqlite3_exec(db, q.c_str(), nullptr, nullptr, nullptr) != SQLITE_OK)
                    c.fail("harness", "cannot write to index.sqlite");
            }
            sqlite3_close(db);
            fs::remove(w.path / "MANIFEST");
            c.log("MANIFEST is an old SQLite one");
            c.count("damage: legacy MANIFEST");
            return;
        }
        if (corrupted())
            return;
        for (const auto& s : w.segs)
            if (fs::exists(abs(s.first, ".tar")) || (fs::exists(abs(s.first, ".gz")) && s.second.isdir))
                return;
        c.log("MANIFEST lost");
        c.count("damage: MANIFEST lost");
        fs::remove(w.path / "MANIFEST");
        dontpack = true;
        for (auto i = w.segs.begin(); i != w.segs.end();)
        {
            auto d = dmg.find(i->first);
            if (d != dmg.end() && d->second == DATA_LOST)
            {
                // Nothing is left that knows about the segment: leftover metadata must not influence a new segment
                fs::remove(abs(i->first, ".metadata"));
                fs::remove(abs(i->first, ".summary"));
                fs::remove(w.path / "summary");
                dmg.erase(d);
                i = w.segs.erase(i);
                continue;
            }
            if (i->second.has_live() && (d == dmg.end() || d->second == SUMMARY_LOST || d->second == MTIME_OFF))
                dmg[i->first] = ENTRY_LOST;
            ++i;
        }
    }

    void stray()
    {
        static const std::vector<std::string> names = {"README",        "notes.txt",         ".hidden",       "2007/notes.txt",
                                                       "2007/copy.bak", "2007/07-07.grib.bak", "2007/x.issue51", "lost+found/a",
                                                       "2007/.nfs001",  "backup.tar.bz2",
                                                       "2007/old.zip",  "backup.tar",        "2007/data.gz",        "2007/07-08.txt",
                                                       "2007/07.bak",   "2007/07-2.orig",    "07.txt",              "2007/07/08.txt"};
        auto n = g.pick(names);
        if (fs::exists(w.path / n))
            return;
        auto content = "stray file " + n;
        spew(w.path / n, content);
        strays[n] = content;
    }

    void check_strays()
    {
        for (const auto& s : strays)
        {
            c.check(fs::exists(w.path / s.first), "stray-lost", s.first + ", which is not part of the dataset, was deleted");
            c.check(slurp(w.path / s.first) == s.second, "stray-changed", s.first + ", which is not part of the dataset, was changed");
        }
    }

    State expected(const SegModel& s, bool quick) const
    {
        auto i   = dmg.find(s.relpath);
        Damage d = i == dmg.end() ? NONE : i->second;
        State base;
        if (!s.has_live())
            base = segment::SEGMENT_DELETED;
        else if (s.dirty())
            base = segment::SEGMENT_DIRTY;
        switch (d)
        {
            case NONE: return base;
            case INDEX_LOST:
            case UNKNOWN_FILE:
            case DATA_NEWER: return segment::SEGMENT_UNALIGNED;
            case SEQ_LOW: return segment::SEGMENT_UNALIGNED;
            case EMPTY_FILE: return segment::SEGMENT_DELETED;
            case DATA_LOST: return segment::SEGMENT_MISSING;
            case TRUNCATED:
            case FILE_LOST:
            case FILE_SHORT:
            case FILE_LONG: return segment::SEGMENT_CORRUPTED;
            case BAD_BYTES:
                if (quick)
                    return base;
                return segment::SEGMENT_CORRUPTED;
            case SUMMARY_LOST:
            case MTIME_OFF:
            case ENTRY_LOST: return base + segment::SEGMENT_UNOPTIMIZED;
            default: return base;
        }
    }

    void audit_states()
    {
        bool quick = g.flip();
        CaptureReporter rep;
        auto st = w.states(rep, quick);
        for (const auto& s : w.segs)
        {
            auto i = st.find(s.first);
            c.check(i != st.end(), "damage-unseen", "segment " + s.first + " is not listed by the checker (" + name(s.first) + ")");
            auto exp = expected(s.second, quick);
            if (!(i->second == exp))
                c.fail("damage-state", "segment " + s.first + " (" + name(s.first) + ") has state " + i->second.to_string() +
                                           " instead of " + exp.to_string() + (quick ? " (quick)\n" : " (accurate)\n") + rep.all());
        }
        for (const auto& s : st)
            c.check(w.segs.count(s.first), "damage-extra", "the checker lists segment " + s.first + " which is not there");
    }

    std::string name(const std::string& rel) const
    {
        auto i = dmg.find(rel);
        return i == dmg.end() ? NAMES[NONE] : NAMES[i->second];
    }

    std::map<std::string, std::string> seg_files(const std::string& rel) const
    {
        std::map<std::string, std::string> res;
        for (const char* ext : {"", ".gz", ".gz.idx", ".tar", ".zip"})
        {
            auto p = abs(rel, ext);
            if (!fs::exists(p))
                continue;
            if (fs::is_directory(p))
            {
                for (const auto& i : tree_snapshot(p))
                    // The sequence file is not data
                    if (i.first != "/.sequence")
                        res[std::string(ext) + i.first] = i.second;
            }
            else
                res[ext] = slurp(p);
        }
        return res;
    }

    std::map<std::string, std::map<std::string, std::string>> all_files() const
    {
        std::map<std::string, std::map<std::string, std::string>> res;
        for (const auto& s : w.segs)
            res[s.first] = seg_files(s.first);
        return res;
    }

    void op_check()
    {
        auto rep = std::make_shared<CaptureReporter>();
        dataset::CheckerConfig opts(rep, false);
        opts.accurate = g.flip();
        c.log(std::string("check") + (opts.accurate ? " accurate" : ""));
        auto before = all_files();
        w.dataset()->create_checker()->check(opts);
        if (c.verbose)
            c.log(rep->all());
        for (auto i = w.segs.begin(); i != w.segs.end();)
        {
            auto& s         = i->second;
            auto exp        = expected(s, !opts.accurate);
            auto d          = dmg.find(i->first);
            std::string acts;
            for (const auto& a : rep->acts[i->first])
                acts += (acts.empty() ? "" : ",") + a;
            std::string expacts;
            bool erased = false;
            if (exp.has(segment::SEGMENT_CORRUPTED))
                expacts = "manual";
            if (exp.has(segment::SEGMENT_UNALIGNED))
            {
                expacts = "rescan";
                revive(s);
                dmg.erase(d);
            }
            if (exp.has(segment::SEGMENT_MISSING))
            {
                expacts = "deindex";
                erased  = true;
                dmg.erase(d);
            }
            if (acts != expacts)
                c.fail("check-act", "segment " + i->first + " in state " + exp.to_string() + ": check did " + acts + " instead of " +
                                        expacts + "\n" + rep->all());
            if (!erased && seg_files(i->first) != before[i->first])
                c.fail("check-data", "check changed the data of segment " + i->first + " in state " + exp.to_string());
            if (erased)
                i = w.segs.erase(i);
            else
                ++i;
        }
        dontpack = false;
        c.check(!fs::exists(w.path / "needs-check-do-not-pack"), "dontpack", "check left the needs-check-do-not-pack flag");
    }

    void op_repack()
    {
        auto rep = std::make_shared<CaptureReporter>();
        dataset::CheckerConfig opts(rep, false);
        c.log("repack");
        auto before = all_files();
        auto tree   = w.snapshot();
        // It may refuse to go on when it finds damaged data
        bool may_fail = false;
        for (const auto& s : w.segs)
        {
            auto n = dmg.find(s.first);
            if (n != dmg.end() && s.second.dirty() && s.second.has_live() && (n->second == BAD_BYTES || n->second == ENTRY_LOST))
                may_fail = true;
        }
        try
        {
            w.dataset()->create_checker()->repack(opts);
        }
        catch (std::exception& e)
        {
            c.log(std::string("repack: ") + e.what());
            if (!may_fail)
                throw;
            c.check(fs::exists(w.path / "needs-check-do-not-pack"), "dontpack",
                    "repack failed, but did not leave the needs-check-do-not-pack flag");
            // Data on disk must all be there
            for (const auto& s : w.segs)
            {
                auto exp = expected(s.second, true);
                if (exp.has(segment::SEGMENT_DELETED) || exp.has(segment::SEGMENT_MISSING))
                    continue;
                auto n = dmg.find(s.first);
                if (n != dmg.end() && (n->second == BAD_BYTES || exp.has(segment::SEGMENT_CORRUPTED)))
                    continue;
                auto files = seg_files(s.first);
                c.check(!files.empty(), "repack-lost", "a failed repack lost segment " + s.first);
                std::string all;
                for (const auto& f : files)
                    all += f.second;
                if (!s.second.packed)
                    for (const auto& p : s.second.phys)
                        if (p.second)
                            c.check(all.find(std::string(p.first->payload.begin(), p.first->payload.end())) != std::string::npos,
                                    "repack-lost", "a failed repack lost " + w.show(*p.first));
            }
            w.finished = true;
            return;
        }
        if (c.verbose)
            c.log(rep->all());
        if (dontpack)
        {
            c.check(rep->aborted, "dontpack", "repack went on on a dataset that needs checking first");
            for (const auto& a : rep->acts)
                c.fail("dontpack", "repack changed segment " + a.first + " of a dataset that needs checking first");
            if (all_files() != before)
                c.fail("dontpack", "repack changed data in a dataset that needs checking first");
            // The toplevel files may be upgraded when opening the dataset
            auto tree1    = w.snapshot();
            bool upgraded = !tree.count("/MANIFEST") || tree.count("/index.sqlite");
            for (auto t : {&tree, &tree1})
                for (auto i = t->begin(); i != t->end();)
                    if (i->first.rfind('/') == 0 && (upgraded || i->first != "/MANIFEST"))
                        i = t->erase(i);
                    else
                        ++i;
            auto diff = tree_diff(tree, tree1);
            if (!diff.empty())
                c.fail("dontpack", "repack changed a dataset that needs checking first: " + diff);
            return;
        }
        c.check(!rep->aborted, "repack-abort", "repack refused to run: " + rep->all());
        for (auto i = w.segs.begin(); i != w.segs.end();)
        {
            auto& s  = i->second;
            auto exp = expected(s, true);
            auto d   = dmg.find(i->first);
            std::string acts;
            for (const auto& a : rep->acts[i->first])
                acts += (acts.empty() ? "" : ",") + a;
            std::string expacts;
            bool erased = false;
            if (exp.has(segment::SEGMENT_DIRTY))
            {
                expacts = "repack";
                s.pack();
                // Repacking updates the timestamps
                if (d != dmg.end() && d->second == MTIME_OFF)
                    dmg.erase(d);
            }
            if (exp.has(segment::SEGMENT_DELETED))
            {
                expacts = "remove";
                erased  = true;
            }
            if (exp.has(segment::SEGMENT_MISSING))
            {
                expacts = "deindex";
                erased  = true;
            }
            if (acts != expacts)
                c.fail("repack-act", "segment " + i->first + " (" + name(i->first) + ") in state " + exp.to_string() +
                                         ": repack did " + acts + " instead of " + expacts + "\n" + rep->all());
            if (expacts.empty() && seg_files(i->first) != before[i->first])
                c.fail("repack-data", "repack changed the data of segment " + i->first + " in state " + exp.to_string());
            if (erased)
            {
                if (d != dmg.end())
                    dmg.erase(d);
                i = w.segs.erase(i);
            }
            else
                ++i;
        }
    }

    bool corrupted() const
    {
        for (const auto& d : dmg)
            if (d.second == TRUNCATED || d.second == BAD_BYTES || d.second == FILE_LOST || d.second == FILE_SHORT || d.second == FILE_LONG)
                return true;
        return false;
    }

    /// Data which is still there is returned as it was, or not at all
    void audit_damaged()
    {
        std::multiset<std::vector<uint8_t>> live;
        for (const auto& s : w.segs)
        {
            auto d = dmg.find(s.first);
            // What was written over the data is not detected by reading it
            if (d != dmg.end() && d->second == BAD_BYTES)
                return;
            for (const auto& p : s.second.phys)
                if (p.second)
                    live.insert(p.first->payload);
        }
        unsigned read = 0, failed = 0;
        try
        {
            query::Data q(w.session->matcher(""), g.flip());
            w.dataset()->create_reader()->query_data(q, [&](std::shared_ptr<Metadata> md) {
                std::vector<uint8_t> got;
                try
                {
                    got = md->get_data().read();
                }
                catch (std::exception& e)
                {
                    ++failed;
                    return true;
                }
                auto i = live.find(got);
                c.check(i != live.end(), "read", "reading a damaged dataset returned wrong data for " + md->sourceBlob().filename.native() + ":" +
                        std::to_string(md->sourceBlob().offset) + "+" + std::to_string(md->sourceBlob().size));
                live.erase(i);
                ++read;
                return true;
            });
        }
        catch (Failure&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            c.log(std::string("query of damaged data: ") + e.what());
            ++failed;
        }
        if (failed)
            c.count("damaged queries that failed");
        else if (read)
            c.count("damaged queries read");
    }

    /// Data in healthy segments is not affected by the others
    void audit_healthy()
    {
        for (const auto& s : w.segs)
        {
            if (dmg.count(s.first) || s.second.phys.empty())
                continue;
            auto span = World::step_span(w.step, s.second.phys[0].first->t);
            bool bad  = false;
            for (const auto& d : dmg)
                if (w.segs.count(d.first) && d.second != EMPTY_FILE &&
                    World::step_span(w.step, w.segs[d.first].phys[0].first->t) == span)
                    bad = true;
            if (bad)
                continue;
            std::vector<ElemP> exp;
            for (const auto& s1 : w.segs)
                for (const auto& p : s1.second.phys)
                    if (p.second && p.first->t >= span.first && p.first->t < span.second)
                        exp.push_back(p.first);
            auto expr = "reftime:>=" + secs_civil(span.first).to_iso8601(' ') + ",<" + secs_civil(span.second).to_iso8601(' ');
            auto got  = w.query(expr, true);
            w.compare(exp, got, "query of the healthy segment " + s.first, true);
            c.count("healthy segments read");
        }
    }
};

} // namespace

PROPERTY("D05", "damage", 1, "at least one segment with data was damaged")
{
    WorldOpts o;
    o.small = c.g.chance(1, 2);
    World w(c, o);
    Bench b(w);
    unsigned n = c.g.range(1, c.thorough ? 6 : 4);
    for (unsigned i = 0; i < n; ++i)
        switch (i == 0 ? 0 : c.g.weighted({6, 3, 1, 1}))
        {
            case 0: w.op_import(); break;
            case 1: w.op_remove(); break;
            case 2: w.op_repack(); break;
            case 3: w.op_convert(); break;
        }
    if (w.segs.empty())
        throw Discard();
    // Clear the flag set on new datasets
    w.op_check();
    w.op_age(100);
    b.locate();
    unsigned rounds = c.g.range(1, 2);
    for (unsigned r = 0; r < rounds; ++r)
    {
        std::vector<std::string> names;
        for (const auto& s : w.segs)
            names.push_back(s.first);
        for (const auto& s : names)
            if (!b.dmg.count(s) && c.g.chance(1, 2))
                b.damage(w.segs[s]);
        if (c.g.chance(1, 3))
            b.unknown();
        while (c.g.chance(1, 3))
            b.stray();
        if (c.g.chance(1, 5))
            b.manifest();
        if (c.g.chance(1, 6))
        {
            c.log("needs-check-do-not-pack created");
            spew(w.path / "needs-check-do-not-pack", "");
            b.dontpack = true;
        }
        if (!b.dmg.empty())
            c.mark();
        if (c.g.flip())
            b.audit_damaged();
        unsigned ops = c.g.range(1, 4);
        for (unsigned i = 0; i < ops; ++i)
        {
            switch (c.g.weighted({3, 3, 3, 1}))
            {
                case 0: b.op_check(); break;
                case 1: b.audit_states(); break;
                case 2: b.op_repack(); break;
                case 3: w.op_readonly(); break;
            }
            b.check_strays();
            if (w.finished)
                return;
        }
        // In the end, put everything in order
        if (c.g.flip())
            b.op_repack();
        if (w.finished)
            return;
        b.op_check();
        if (c.g.flip())
            b.op_repack();
        if (w.finished)
            return;
        b.audit_states();
        b.check_strays();
        b.audit_healthy();
        if (b.corrupted())
        {
            c.count("left corrupted");
            break;
        }
        if (r + 1 < rounds && std::any_of(b.dmg.begin(), b.dmg.end(), [](const auto& d) { return d.second == EMPTY_FILE; }))
            b.op_repack();
        b.dmg.clear();
        b.dontpack = false;
        w.audit_all();
        w.audit_summary();
        w.audit_state();
        c.count("repaired");
        if (r + 1 < rounds)
        {
            if (c.g.flip())
                w.op_import();
            else
                w.op_remove();
            w.op_age(100);
            b.locs.clear();
            b.locate();
        }
    }
    c.mix(w.history.size());
    for (const auto& d : b.dmg)
        c.mix(d.second);
    for (const auto& e : w.history)
        c.mix(e->payload.data(), e->payload.size());
}
