/*
 * Operations on datasets interrupted by crashes and by I/O errors
 */
#include "faults.h"
#include "world.h"
#include "arki/core/lock.h"
#include "arki/metadata/data.h"
#include "arki/types/source/blob.h"
#include <archive.h>
#include <archive_entry.h>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;
using namespace arki;
namespace fs = std::filesystem;
using segment::State;

namespace {

typedef std::pair<std::string, std::string> Key; // items, payload

Key key(const ElemP& e) { return Key(e->fp, std::string(e->payload.begin(), e->payload.end())); }

void copy_tree(const fs::path& a, const fs::path& b)
{
    struct stat st;
    if (::lstat(a.c_str(), &st) < 0)
        return;
    if (S_ISDIR(st.st_mode))
    {
        ::mkdir(b.c_str(), 0777);
        for (const auto& i : fs::directory_iterator(a))
            copy_tree(i.path(), b / i.path().filename());
    }
    else
    {
        int in  = ::open(a.c_str(), O_RDONLY);
        int out = ::open(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        char buf[65536];
        ssize_t r;
        while ((r = ::read(in, buf, sizeof buf)) > 0)
            if (::write(out, buf, r) != r)
                break;
        ::close(in);
        ::close(out);
    }
    struct timespec ts[2] = {st.st_atim, st.st_mtim};
    ::utimensat(AT_FDCWD, b.c_str(), ts, AT_SYMLINK_NOFOLLOW);
}

struct Plan
{
    std::string name;
    bool rewrites = false;    // moves data around
    std::vector<ElemP> batch; // elements imported
    std::string strategy;
    std::string only; // only segment changed
    std::vector<ElemP> batch2; // elements imported later with the same writer
    std::vector<ElemP> removed;
    std::function<std::string()> run; // in the child
};

struct Outcome
{
    int status = 0;
    bool crashed = false, hit = false, threw = false;
    long count = 0;
    std::string what, results, fault;
};

struct Bench
{
    Case& c;
    Gen& g;
    World& w;
    Plan plan;
    Outcome out, dry;
    std::multiset<Key> may, must;
    std::set<std::pair<std::string, std::string>> must_keys; // segment, unique key

    Bench(World& w) : c(w.c), g(w.g), w(w) {}

    std::string strat() const { return plan.strategy == "default" ? w.replace : plan.strategy; }

    void make_plan()
    {
        switch (g.weighted({6, 2, 4, 2, 2, 1}))
        {
            case 0: plan_import(); break;
            case 1: plan_remove(); break;
            case 2: plan_repack(); break;
            case 3: plan_convert(); break;
            case 4: plan_archive(); break;
            case 5: plan_rescan(); break;
        }
    }

    void plan_import()
    {
        plan.name  = "import";
        unsigned n = g.range(1, 5);
        for (unsigned i = 0; i < n; ++i)
        {
            if (!w.history.empty() && g.chance(1, 4))
            {
                auto e = g.pick(w.history);
                std::vector<uint8_t> filler{'r', (uint8_t)w.next_id};
                plan.batch.push_back(w.make_elem(e->items, g.below(4), e->format, filler));
            }
            else
                plan.batch.push_back(w.new_elem());
        }
        plan.strategy = w.iseg && g.chance(1, 2) ? g.pick(std::vector<std::string>{"no", "yes", "USN"}) : "default";
        plan.run      = [this] {
            dataset::AcquireConfig acfg;
            if (plan.strategy == "no")
                acfg.replace = ReplaceStrategy::NEVER;
            else if (plan.strategy == "yes")
                acfg.replace = ReplaceStrategy::ALWAYS;
            else if (plan.strategy == "USN")
                acfg.replace = ReplaceStrategy::HIGHER_USN;
            auto writer = w.dataset()->create_writer();
            auto import = [&](const std::vector<ElemP>& els) {
                metadata::InboundBatch b;
                for (const auto& e : els)
                    b.add(w.elem_md(*e));
                writer->acquire_batch(b, acfg);
                writer->flush();
                std::string res;
                for (const auto& i : b)
                    res += i->result == metadata::Inbound::Result::OK          ? 'o'
                           : i->result == metadata::Inbound::Result::DUPLICATE ? 'd'
                                                                               : 'e';
                return res;
            };
            auto res = import(plan.batch);
            faults::disarm();
            if (!plan.batch2.empty())
                res += import(plan.batch2);
            writer.reset();
            return res;
        };
    }

    void plan_remove()
    {
        plan.name = "remove";
        std::set<const void*> taken;
        auto mds  = std::make_shared<metadata::Collection>();
        auto all  = w.query("", true);
        for (const auto& md : all)
        {
            const auto& b = md->sourceBlob();
            auto i        = w.segs.find(b.filename.native());
            if (b.basedir != w.path || i == w.segs.end() || i->second.packed || !g.flip())
                continue;
            auto d     = md->get_data().read();
            auto fp    = w.visible_fp(*md);
            bool found = false;
            for (auto& p : i->second.phys)
                if (!found && p.second && p.first->payload == d && p.first->fp == fp && !taken.count(&p))
                {
                    plan.removed.push_back(p.first);
                    taken.insert(&p);
                    found = true;
                }
            c.check(found, "remove-model", "query returned data that is not in the model");
            mds->acquire(md->clone());
        }
        for (const auto& md : *mds)
            md->sourceBlob().unlock();
        plan.run = [this, mds] {
            w.dataset()->create_checker()->remove(*mds);
            return "";
        };
    }

    void plan_repack()
    {
        plan.name     = "repack";
        plan.rewrites = true;
        plan.run      = [this] {
            auto rep = std::make_shared<CaptureReporter>();
            dataset::CheckerConfig opts(rep, false);
            opts.online = opts.offline = true;
            w.dataset()->create_checker()->repack(opts);
            return "";
        };
    }

    void plan_convert()
    {
        unsigned k    = g.below(3);
        // Compressed segments of formats with one file per message cannot be
        // scanned again
        if (k == 0)
            for (auto m : {&w.arch, &w.segs})
                for (const auto& s : *m)
                    if (s.second.format != DataFormat::GRIB && s.second.format != DataFormat::BUFR && s.second.format != DataFormat::VM2)
                        k = 2;
        unsigned grp  = g.pick({0, 1, 2, 512});
        plan.name     = k == 0 ? "compress" : k == 1 ? "tar" : "zip";
        plan.rewrites = true;
        plan.run      = [this, k, grp] {
            auto rep = std::make_shared<CaptureReporter>();
            dataset::CheckerConfig opts(rep, false);
            opts.online = opts.offline = true;
            auto checker = w.dataset()->create_checker();
            if (k == 0)
                checker->compress(opts, grp);
            else if (k == 1)
                checker->tar(opts);
            else
                checker->zip(opts);
            return "";
        };
    }

    void plan_archive()
    {
        if (w.segs.empty())
            throw Discard();
        plan.name     = "archive";
        plan.rewrites = true;
        std::vector<std::string> names;
        for (const auto& s : w.segs)
            if (s.second.has_live())
                names.push_back(s.first);
        if (names.empty())
            throw Discard();
        auto n    = g.pick(names);
        plan.only = n;
        bool back = g.flip();
        plan.run  = [this, n, back] {
            auto ck = std::dynamic_pointer_cast<dataset::segmented::Checker>(w.dataset()->create_checker());
            ck->segment(ck->dataset().segment_session->segment_from_relpath(n))->archive();
            if (back)
                ck->segment(ck->dataset().segment_session->segment_from_relpath(n))->unarchive();
            return "";
        };
    }

    void plan_rescan()
    {
        plan.name = "check";
        plan.rewrites = true;
        for (const auto& s : w.segs)
        {
            if (s.second.packed || !g.flip())
                continue;
            for (const char* ext : {".index", ".index-wal", ".index-shm", ".metadata", ".summary"})
                fs::remove(w.path / (s.first + ext));
        }
        plan.run = [this] {
            auto rep = std::make_shared<CaptureReporter>();
            dataset::CheckerConfig opts(rep, false);
            w.dataset()->create_checker()->check(opts);
            return "";
        };
    }

    /// Run the operation in a process of its own
    Outcome run(faults::Mode mode, long at, uint64_t seed)
    {
        int pfd[2];
        if (::pipe(pfd) < 0)
            c.fail("harness", "pipe");
        pid_t pid = ::fork();
        if (pid < 0)
            c.fail("harness", "fork");
        if (pid == 0)
        {
            ::prctl(PR_SET_PDEATHSIG, SIGKILL);
            ::close(pfd[0]);
            std::string what, results;
            bool threw = false;
            faults::arm(mode, at, seed);
            try
            {
                results = plan.run();
            }
            catch (std::exception& e)
            {
                threw = true;
                what  = e.what();
            }
            faults::disarm();
            auto msg = std::to_string(faults::count()) + "\n" + (threw ? "1" : "0") + "\n" + (faults::hit() ? "1" : "0") + "\n" +
                       faults::what() + "\n" + results + "\n" + what;
            if (::write(pfd[1], msg.data(), msg.size()) < 0)
                _exit(78);
            _exit(0);
        }
        ::close(pfd[1]);
        std::string msg;
        char buf[4096];
        ssize_t r;
        while ((r = ::read(pfd[0], buf, sizeof buf)) > 0)
            msg.append(buf, r);
        ::close(pfd[0]);
        Outcome res;
        ::waitpid(pid, &res.status, 0);
        if (WIFEXITED(res.status) && WEXITSTATUS(res.status) == faults::CRASH_STATUS)
        {
            res.crashed = true;
            res.hit     = true;
            return res;
        }
        if (WIFSIGNALED(res.status))
            c.fail("died", plan.name + " was killed by signal " + std::to_string(WTERMSIG(res.status)));
        c.check(WIFEXITED(res.status) && WEXITSTATUS(res.status) == 0, "died", plan.name + " terminated the process");
        std::vector<std::string> f;
        size_t pos = 0;
        while (f.size() < 5)
        {
            auto e = msg.find('\n', pos);
            if (e == std::string::npos)
                c.fail("harness", "bad message from child");
            f.push_back(msg.substr(pos, e - pos));
            pos = e + 1;
        }
        res.count   = atol(f[0].c_str());
        res.threw   = f[1] == "1";
        res.hit     = f[2] == "1";
        res.fault   = f[3];
        res.results = f[4];
        res.what    = msg.substr(pos);
        return res;
    }

    /// How many calls does the operation do?
    long dry_run()
    {
        auto bak = w.root / "backup";
        bool had = fs::exists(w.path);
        if (had)
            copy_tree(w.path, bak);
        auto o = run(faults::COUNT, 0, 1);
        dry = o;
        c.check(!o.threw, "dry-run", plan.name + " failed without faults: " + o.what);
        fs::remove_all(w.path);
        if (had)
            fs::rename(bak, w.path);
        return o.count;
    }

    void log_plan()
    {
        if (!c.verbose)
            return;
        c.log("operation: " + plan.name + (plan.strategy.empty() ? "" : " strategy=" + plan.strategy));
        for (const auto& e : plan.batch)
            c.log("   " + w.show(*e));
        for (const auto& e : plan.removed)
            c.log("   removes " + w.show(*e));
    }

    /// Update the model with the results reported for the import
    void apply(const std::string& results)
    {
        std::map<std::string, std::vector<unsigned>> by_seg;
        for (unsigned i = 0; i < plan.batch.size(); ++i)
            by_seg[plan.batch[i]->seg].push_back(i);
        for (auto& s : by_seg)
        {
            std::stable_sort(s.second.begin(), s.second.end(), [&](unsigned a, unsigned b) { return plan.batch[a]->t < plan.batch[b]->t; });
            for (auto i : s.second)
            {
                const auto& e = plan.batch[i];
                if (results[i] == 'd')
                    c.check(w.iseg, "results", "a simple dataset reported a duplicate");
                if (results[i] != 'o')
                    continue;
                auto& seg   = w.segs[s.first];
                seg.relpath = s.first;
                seg.format  = e->format;
                seg.isdir = w.dir_segments || e->format == DataFormat::ODIMH5 || e->format == DataFormat::NETCDF || e->format == DataFormat::JPEG;
                if (w.iseg)
                    for (auto& p : seg.phys)
                        if (p.first->key == e->key)
                            p.second = false;
                seg.phys.emplace_back(e, true);
            }
        }
    }

    /// What can and what must be there after an interruption
    void expect(bool pending = true)
    {
        for (auto m : {&w.arch, &w.segs})
            for (const auto& s : *m)
                for (const auto& p : s.second.phys)
                {
                    may.insert(key(p.first));
                    if (!p.second)
                        continue;
                    bool replaced = false, removed = false;
                    if (w.iseg && strat() != "no" && pending)
                        for (const auto& e : plan.batch)
                            if (e->seg == p.first->seg && e->key == p.first->key)
                                replaced = true;
                    for (const auto& e : plan.removed)
                        if (e == p.first)
                            removed = true;
                    if (removed)
                        continue;
                    if (w.iseg)
                        must_keys.emplace(p.first->seg, p.first->key);
                    if (!replaced)
                        must.insert(key(p.first));
                }
        for (unsigned i = 0; i < plan.batch.size(); ++i)
            if (pending || out.results[i] != 'o')
                may.insert(key(plan.batch[i]));
    }

    std::string show_key(const Key& k) const
    {
        for (const auto& e : plan.batch)
            if (key(e) == k)
                return w.show(*e);
        for (auto m : {&w.arch, &w.segs})
            for (const auto& s : *m)
                for (const auto& p : s.second.phys)
                    if (key(p.first) == k)
                        return w.show(*p.first);
        return printable(k.second);
    }

    std::multiset<Key> read_all()
    {
        std::multiset<Key> res;
        std::set<std::pair<std::string, std::string>> keys;
        for (const auto& md : w.query("", true))
        {
            auto d = md->get_data().read();
            Key k(w.visible_fp(*md), std::string(d.begin(), d.end()));
            res.insert(k);
            if (w.iseg)
                for (const auto& h : history())
                    if (key(h) == k)
                    {
                        keys.emplace(h->seg, h->key);
                        break;
                    }
        }
        last_keys = keys;
        return res;
    }
    std::set<std::pair<std::string, std::string>> last_keys;

    std::vector<ElemP> history() const
    {
        std::vector<ElemP> res = plan.batch;
        for (auto m : {&w.arch, &w.segs})
            for (const auto& s : *m)
                for (const auto& p : s.second.phys)
                    res.push_back(p.first);
        return res;
    }

    /// Segments that the operation may change
    bool touched(const std::string& seg) const
    {
        if (plan.rewrites)
            return plan.only.empty() || seg == plan.only;
        for (const auto& e : plan.batch)
            if (e->seg == seg)
                return true;
        for (const auto& e : plan.removed)
            if (e->seg == seg)
                return true;
        return false;
    }

    void verify(const std::string& when, bool complete = true)
    {
        auto got  = read_all();
        auto left = may;
        for (const auto& k : got)
        {
            auto i = left.find(k);
            if (i == left.end())
                c.fail("extra", when + ": a query returned " + (may.count(k) ? "more copies of " : "damaged or misplaced data: ") +
                                    show_key(k) + " items " + k.first);
            left.erase(i);
        }
        if (!complete)
        {
            // The rest of the dataset is not affected
            std::multiset<Key> others;
            for (auto m : {&w.arch, &w.segs})
                for (const auto& s : *m)
                    if (m == &w.arch ? !plan.rewrites || !plan.only.empty() : !touched(s.first))
                        for (const auto& p : s.second.phys)
                            if (p.second)
                                others.insert(key(p.first));
            for (const auto& k : others)
                c.check(got.count(k) >= others.count(k), "lost-other",
                        when + ": a query does not return " + show_key(k) + ", which is in another segment");
            return;
        }
        for (const auto& k : must)
            c.check(got.count(k) >= must.count(k), "lost", when + ": a query does not return " + show_key(k));
        for (const auto& k : must_keys)
            c.check(last_keys.count(k), "lost-key", when + ": a query returns neither the old nor the new version of an element of " + k.first);
    }

    bool any_bad(const std::map<std::string, State>& st)
    {
        for (const auto& s : st)
            if (s.second.has(segment::SEGMENT_UNALIGNED) || s.second.has(segment::SEGMENT_MISSING) ||
                s.second.has(segment::SEGMENT_CORRUPTED))
                return true;
        return false;
    }

    std::map<std::string, State> all_states(bool quick)
    {
        std::map<std::string, State> res;
        auto ck   = std::dynamic_pointer_cast<dataset::segmented::Checker>(w.dataset()->create_checker());
        auto rep  = std::make_shared<CaptureReporter>();
        dataset::CheckerConfig opts(rep, true);
        opts.online = opts.offline = true;
        ck->segments_recursive(opts, [&](dataset::segmented::Checker& sc, dataset::segmented::CheckerSegment& s) {
            auto k = sc.dataset().path == w.path ? s.path_relative().native()
                                                 : ".archive/" + sc.dataset().path.filename().native() + "/" + s.path_relative().native();
            res[k] = s.fsck(*rep, quick).state;
        });
        if (c.verbose)
        {
            c.log(rep->all());
            for (const auto& s : res)
                c.log("  state of " + s.first + ": " + s.second.to_string());
        }
        return res;
    }

    /// Sizes of the data files of the dataset
    std::map<fs::path, size_t> data_sizes() const
    {
        std::map<fs::path, size_t> res;
        if (!fs::exists(w.path))
            return res;
        for (const auto& e : fs::recursive_directory_iterator(w.path))
            if (e.is_regular_file() && data_format(e.path()))
                res[e.path()] = e.file_size();
        return res;
    }
    std::map<fs::path, size_t> sizes_before;

    static bool data_format(const fs::path& p)
    {
        auto x = p.extension();
        return x == ".grib" || x == ".bufr" || x == ".vm2";
    }

    /// Segments whose last write was interrupted halfway, and the size that
    /// they have without it
    std::map<fs::path, size_t> torn()
    {
        std::map<fs::path, size_t> res;
        if (plan.batch.empty())
            return res;
        for (const auto& f : data_sizes())
        {
            auto b       = sizes_before.find(f.first);
            size_t start = b == sizes_before.end() ? 0 : b->second;
            if (f.second <= start)
                continue;
            auto seg   = fs::relative(f.first, w.path).native();
            std::string tail(f.second - start, 0);
            std::ifstream in(f.first);
            in.seekg(start);
            in.read(tail.data(), tail.size());
            size_t pos = 0;
            for (bool found = true; found;)
            {
                found = false;
                for (const auto& e : plan.batch)
                {
                    std::string d(e->payload.begin(), e->payload.end());
                    if (f.first.extension() == ".vm2")
                        d += "\n";
                    if (e->seg != seg || tail.compare(pos, d.size(), d) != 0)
                        continue;
                    pos += d.size();
                    found = true;
                    break;
                }
            }
            pos += start;
            if (pos < f.second)
                res[f.first] = pos;
        }
        return res;
    }

    /// Data found in a tar file
    std::multiset<std::string> read_tar(const fs::path& p)
    {
        std::multiset<std::string> res;
        struct archive* a = archive_read_new();
        archive_read_support_format_tar(a);
        if (archive_read_open_filename(a, p.c_str(), 10240) != ARCHIVE_OK)
            c.fail("tar-unreadable", p.native() + " cannot be opened");
        struct archive_entry* entry;
        int r;
        while ((r = archive_read_next_header(a, &entry)) == ARCHIVE_OK)
        {
            std::string buf(archive_entry_size(entry), 0);
            if (archive_read_data(a, buf.data(), buf.size()) != (ssize_t)buf.size())
                c.fail("tar-unreadable", p.native() + " is truncated");
            res.insert(buf);
        }
        if (r != ARCHIVE_EOF)
            c.fail("tar-unreadable", p.native() + " is not a valid tar file");
        archive_read_free(a);
        return res;
    }

    /**
     * Tar segments cannot be scanned: if the process ends when their metadata
     * are being replaced, the data are there but they are not used.
     */
    bool tar_without_metadata(const std::string& what)
    {
        if (what.find("tar scanning") == std::string::npos || !plan.rewrites)
            return false;
        bool found = false;
        for (const auto& e : fs::recursive_directory_iterator(w.path))
        {
            auto p = e.path();
            if (p.extension() != ".tar")
                continue;
            found       = true;
            auto stored = read_tar(p);
            auto name   = fs::relative(p.parent_path() / p.stem(), w.path).native();
            for (auto m : {&w.arch, &w.segs})
                for (const auto& s : *m)
                    if (s.first == name || ".archive/" + s.first == name)
                        for (const auto& ph : s.second.phys)
                            if (ph.second)
                                c.check(stored.count(std::string(ph.first->payload.begin(), ph.first->payload.end())), "tar-lost",
                                        name + ".tar does not contain " + w.show(*ph.first));
        }
        return found && c.known("KF-TAR-SCAN");
    }

    std::string check_error;
    bool try_check(bool accurate, std::shared_ptr<CaptureReporter>& rep)
    {
        try
        {
            rep = check(accurate);
            return true;
        }
        catch (Failure&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            check_error = e.what();
            c.log(std::string("check failed: ") + e.what());
            return false;
        }
    }

    std::shared_ptr<CaptureReporter> check(bool accurate)
    {
        auto rep = std::make_shared<CaptureReporter>();
        dataset::CheckerConfig opts(rep, false);
        opts.accurate = accurate;
        opts.online = opts.offline = true;
        w.dataset()->create_checker()->check(opts);
        c.log("check: " + rep->all());
        return rep;
    }

    /// The dataset can be repaired, nothing was lost, and it can be used again
    void recover()
    {
        auto st   = all_states(false);
        bool good = !any_bad(st);
        if (good)
        {
            c.count("consistent before check");
            verify("after " + plan.name + " was interrupted, with a check that finds no problem");
        }
        auto t = torn();
        for (const auto& f : t)
            if (f.first.extension() == ".vm2" && c.known("KF-TORN-WRITE"))
            {
                c.log("truncate " + f.first.native() + " to " + std::to_string(f.second));
                fs::resize_file(f.first, f.second);
            }
        std::shared_ptr<CaptureReporter> rep;
        if (!try_check(g.flip(), rep))
        {
            if (tar_without_metadata(check_error))
                return;
            if (t.empty() || !c.known("KF-TORN-WRITE"))
                c.fail("check-fails", "after " + plan.name + " was interrupted, check fails: " + check_error);
            for (const auto& f : t)
            {
                c.log("truncate " + f.first.native() + " to " + std::to_string(f.second));
                fs::resize_file(f.first, f.second);
            }
            check(g.flip());
        }
        rep = check(true);
        c.check(!rep->manual, "corrupted", "after " + plan.name + " was interrupted, segments need manual intervention:\n" + rep->all());
        for (const auto& a : rep->acts)
            c.fail("check-twice", "a second check still changes " + a.first + ":\n" + rep->all());
        verify("after " + plan.name + " was interrupted, and a check");

        // It can be used again
        {
            auto rep = std::make_shared<CaptureReporter>();
            dataset::CheckerConfig opts(rep, false);
            opts.online = opts.offline = true;
            w.dataset()->create_checker()->repack(opts);
            c.log("repack: " + rep->all());
            c.check(!rep->aborted, "repack-refused", "repack still refuses to run: " + rep->all());
        }
        verify("after " + plan.name + " was interrupted, a check and a repack");
        if (plan.batch.empty())
            return;
        metadata::InboundBatch b;
        for (const auto& e : plan.batch)
            b.add(w.elem_md(*e));
        {
            auto writer = w.dataset()->create_writer();
            writer->acquire_batch(b, dataset::AcquireConfig());
            writer->flush();
        }
        std::map<std::pair<std::string, std::string>, int> count;
        for (size_t i = 0; i < plan.batch.size(); ++i)
        {
            auto s      = w.segs.find(plan.batch[i]->seg);
            bool packed = s != w.segs.end() && s->second.packed;
            bool error  = packed || plan.batch[i]->format != plan.batch[0]->format;
            c.check((b[i]->result == metadata::Inbound::Result::ERROR) == error, "import-again",
                    "after the interrupted import, importing the same data again fails with an error on " + w.show(*plan.batch[i]));
            if (!error && !w.iseg)
                must.insert(key(plan.batch[i]));
            if (!error && w.iseg)
                must_keys.emplace(plan.batch[i]->seg, plan.batch[i]->key);
            may.insert(key(plan.batch[i]));
        }
        if (w.iseg)
            for (auto i = must.begin(); i != must.end();)
            {
                // Replaced by the new import
                bool repl = false;
                for (const auto& h : history())
                    if (key(h) == *i)
                        for (const auto& e : plan.batch)
                            if (e->seg == h->seg && e->key == h->key)
                                repl = true;
                if (repl)
                    i = must.erase(i);
                else
                    ++i;
            }
        verify("after " + plan.name + " was interrupted, a check, a repack and another import");
    }
};

WorldOpts crash_opts(Case& c)
{
    WorldOpts o;
    o.small   = c.g.chance(2, 3);
    o.durable = true;
    return o;
}

void setup(World& w, Case& c)
{
    unsigned n = c.g.range(0, c.thorough ? 5 : 3);
    for (unsigned i = 0; i < n; ++i)
        switch (c.g.weighted({6, 2, 1, 1}))
        {
            case 0: w.op_import(); break;
            case 1: w.op_remove(); break;
            case 2: w.op_repack(); break;
            case 3: w.op_convert(); break;
        }
    // Compressed segments of formats with one file per message cannot be
    // scanned again
    if (fs::exists(w.path))
        for (const auto& e : fs::recursive_directory_iterator(w.path))
            if (e.path().extension() == ".gz" && e.path().stem().extension() != ".grib" && e.path().stem().extension() != ".bufr" &&
                e.path().stem().extension() != ".vm2")
                throw Discard();
    // Clear the flag set on new datasets
    if (fs::exists(w.path))
        w.op_check();
}

/// Let time pass since the last operation
void let_time_pass(Bench& b)
{
    // Operations that move data around do not rely on timestamps
    if (!b.plan.rewrites || b.w.iseg || b.c.g.flip())
        b.w.op_age(100);
}

void mix_case(World& w, Case& c, const Bench& b, long at)
{
    c.mix(b.plan.name);
    c.mix((uint64_t)at);
    for (const auto& e : w.history)
        c.mix(e->payload.data(), e->payload.size());
    for (const auto& e : b.plan.batch)
        c.mix(e->payload.data(), e->payload.size());
}

} // namespace

PROPERTY("F01", "crash", 1, "the operation was interrupted before its end, on a dataset with data")
{
    World w(c, crash_opts(c));
    setup(w, c);
    Bench b(w);
    b.make_plan();
    let_time_pass(b);
    b.log_plan();
    b.expect();
    long total = b.dry_run();
    if (!total)
        throw Discard();
    b.sizes_before = b.data_sizes();
    long at = c.g.below(total);
    c.log("crash at call " + std::to_string(at) + " of " + std::to_string(total));
    b.out = b.run(faults::CRASH, at, c.g.below(1000000));
    if (b.out.crashed)
    {
        if (!b.must.empty())
            c.mark();
        c.count("crash in " + b.plan.name);
    }
    else if (b.out.threw)
        c.fail("exception", b.plan.name + " failed: " + b.out.what);
    if ((!b.plan.rewrites || !w.iseg) && fs::exists(w.path))
    {
        c.log("query before any check");
        // Segments of simple datasets with data newer than their metadata are
        // not used until they are checked
        b.verify("after " + b.plan.name + " was interrupted", w.iseg);
    }
    if (fs::exists(w.path))
        b.recover();
    mix_case(w, c, b, at);
}

PROPERTY("F02", "errors", 1, "a fault was injected in the operation, on a dataset with data")
{
    World w(c, crash_opts(c));
    setup(w, c);
    Bench b(w);
    b.make_plan();
    let_time_pass(b);
    if (b.plan.name == "import" && c.g.flip())
    {
        unsigned n = c.g.range(1, 3);
        for (unsigned i = 0; i < n; ++i)
            b.plan.batch2.push_back(w.new_elem());
    }
    b.log_plan();
    long total = b.dry_run();
    if (!total)
        throw Discard();
    auto expected     = b.dry.results;
    b.sizes_before    = b.data_sizes();
    static const char* names[] = {"I/O error", "disk full", "partial writes"};
    unsigned k        = c.g.below(3);
    auto mode         = k == 0 ? faults::FAIL_ONCE : k == 1 ? faults::DISK_FULL : faults::SHORT;
    long at           = c.g.below(total);
    c.log(std::string(names[k]) + " at call " + std::to_string(at) + " of " + std::to_string(total));
    b.out = b.run(mode, at, c.g.below(1000000));
    if (b.out.hit)
        c.count(std::string(names[k]) + " in " + b.plan.name + (b.out.threw ? ", reported" : ""));
    c.log(std::string("  ") + (b.out.threw ? "it failed: " + b.out.what : "it ended normally") + "; results " + b.out.results + " fault: " + b.out.fault);
    if (!b.out.hit)
    {
        c.check(!b.out.threw, "exception", b.plan.name + " failed without faults: " + b.out.what);
        c.eq(b.out.results, expected, "results", b.plan.name + " without faults had different results");
    }
    std::string when = std::string("after ") + names[k] + " in " + b.plan.name;
    if (b.plan.name == "import" && !b.out.threw)
    {
        b.apply(b.out.results);
        if (!b.plan.batch2.empty())
        {
            auto e = w.model_import(b.plan.batch2, b.strat());
            std::string er;
            for (auto r : e.results)
                er += r == 0 ? 'o' : r == 1 ? 'd' : 'e';
            c.eq(b.out.results.substr(b.plan.batch.size()), er, "results-later", "results of importing more data with the same writer " + when);
        }
        b.expect(false);
        w.audit_all();
        c.count("import with exact results");
    }
    else
    {
        b.expect();
        if ((!b.plan.rewrites || !w.iseg) && fs::exists(w.path))
            b.verify(when, w.iseg);
    }
    if (!b.must.empty() && b.out.hit)
        c.mark();
    if (fs::exists(w.path))
        b.recover();
    mix_case(w, c, b, at);
    c.mix((uint64_t)k);
}
