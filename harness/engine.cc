#include "engine.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <grp.h>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

void vf_process_init();

namespace vf {

static const size_t MAXCH = 400000;

struct Shared
{
    std::atomic<uint64_t> case_start_ms;
    std::atomic<uint64_t> case_index;
    std::atomic<uint64_t> prop_index;
    uint64_t nch;
    char msg[8192];
    uint64_t ch[MAXCH];
};

static uint64_t now_ms()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t Gen::next_raw() { return splitmix(state); }

uint64_t Gen::below(uint64_t n)
{
    if (n == 0)
        n = 1;
    uint64_t v;
    if (replay)
    {
        v = drawn < replay->size() ? (*replay)[drawn] : 0;
        if (v >= n)
            v = n - 1;
    }
    else
        v = n == 1 ? 0 : next_raw() % n;
    if (drawn >= rec_max)
        throw Discard();
    rec[drawn++] = v;
    *rec_count   = drawn;
    return v;
}

unsigned Gen::weighted(std::initializer_list<unsigned> w)
{
    unsigned total = 0;
    for (auto x : w)
        total += x;
    uint64_t v   = below(total);
    unsigned idx = 0;
    for (auto x : w)
    {
        if (v < x)
            return idx;
        v -= x;
        ++idx;
    }
    return 0;
}

uint64_t Gen::edgy(uint64_t n)
{
    switch (below(4))
    {
        case 0: return below(std::min<uint64_t>(n, 8));
        case 1: return n - 1 - below(std::min<uint64_t>(n, 4));
        case 2: {
            // around a power of two
            unsigned bits = 0;
            while (bits < 63 && (1ull << bits) < n)
                ++bits;
            uint64_t b = 1ull << below(bits + 1);
            uint64_t v = b + below(3) - 1;
            return v < n ? v : n - 1;
        }
        default: return below(n);
    }
}

std::string Gen::str(const std::string& alphabet, size_t minlen, size_t maxlen)
{
    size_t len = minlen + below(maxlen - minlen + 1);
    std::string res;
    for (size_t i = 0; i < len; ++i)
        res += alphabet[below(alphabet.size())];
    return res;
}

std::vector<uint8_t> Gen::bytes(size_t minlen, size_t maxlen)
{
    size_t len = minlen + below(maxlen - minlen + 1);
    std::vector<uint8_t> res;
    for (size_t i = 0; i < len; ++i)
        res.push_back(below(256));
    return res;
}

void Case::mix(const void* data, size_t size)
{
    const uint8_t* p = (const uint8_t*)data;
    for (size_t i = 0; i < size; ++i)
        key = (key ^ p[i]) * 1099511628211ull;
    key ^= key >> 29;
}

std::filesystem::path Case::newdir()
{
    auto p = std::filesystem::path(scratch_root) / ("d" + std::to_string(dir_seq++));
    std::filesystem::create_directories(p);
    return p;
}

bool Case::known(const std::string& id)
{
    const char* v = getenv("VF_KNOWN");
    if (!v || ("," + std::string(v) + ",").find("," + id + ",") == std::string::npos)
        return false;
    count("known:" + id);
    return true;
}

void Case::fail(const std::string& cat, const std::string& msg)
{
    throw Failure(cat, msg);
}

std::vector<Prop>& registry()
{
    static std::vector<Prop> r;
    return r;
}

std::string hexdump(const std::vector<uint8_t>& v, size_t max)
{
    std::string res;
    char b[4];
    for (size_t i = 0; i < v.size() && i < max; ++i)
    {
        snprintf(b, 4, "%02x", v[i]);
        res += b;
    }
    if (v.size() > max)
        res += "...";
    return res;
}

std::string printable(const std::string& s)
{
    std::string res;
    char b[8];
    for (unsigned char c : s)
        if (c == '\n')
            res += "\\n";
        else if (c < 32 || c > 126)
        {
            snprintf(b, 8, "\\x%02x", c);
            res += b;
        }
        else
            res += c;
    return res;
}

namespace {

struct Opts
{
    std::string prop, out, scratch;
    uint64_t seed  = 1;
    unsigned jobs  = 8;
    unsigned time  = 20;
    uint64_t cases = 0;
    bool thorough  = false;
    unsigned shrink_time = 40;
    std::string only;
};

struct Outcome
{
    enum Status { PASS, FAIL, DISCARD } status = PASS;
    std::string cat, msg;
    bool nontrivial = false;
    uint64_t key    = 0;
    std::vector<std::string> trace;
    std::vector<std::pair<std::string, uint64_t>> counters;
};

void wipe(const std::string& dir)
{
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
}

// Run one case in this process
Outcome execute(const Prop& p, const Opts& o, const std::string& scratch, uint64_t* rec,
                uint64_t* rec_count, const std::vector<uint64_t>* replay, uint64_t seed, bool verbose)
{
    Outcome res;
    *rec_count = 0;
    Case c;
    c.g.rec       = rec;
    c.g.rec_count = rec_count;
    c.g.rec_max   = MAXCH;
    c.g.replay    = replay;
    c.g.state     = seed;
    c.verbose     = verbose;
    c.thorough    = o.thorough;
    c.scratch_root = scratch;
    try
    {
        p.fn(c);
    }
    catch (Discard&)
    {
        res.status = Outcome::DISCARD;
    }
    catch (Failure& f)
    {
        res.status = Outcome::FAIL;
        res.cat    = f.cat;
        res.msg    = f.msg;
    }
    catch (std::exception& e)
    {
        res.status = Outcome::FAIL;
        res.cat    = "unexpected-exception";
        res.msg    = e.what();
    }
    res.nontrivial = c.nontrivial;
    res.key        = c.key;
    for (size_t i = 0; i < *rec_count; ++i)
        res.key = (res.key ^ rec[i]) * 1099511628211ull;
    res.trace    = c.trace;
    res.counters = c.counters;
    if (chdir(scratch.c_str()) != 0) {}
    std::error_code ec;
    if (c.dir_seq)
        for (unsigned i = 0; i < c.dir_seq; ++i)
            std::filesystem::remove_all(std::filesystem::path(scratch) / ("d" + std::to_string(i)), ec);
    return res;
}

std::string json_escape(const std::string& s)
{
    std::string r;
    char b[8];
    for (unsigned char ch : s)
        if (ch == '"' || ch == '\\')
        {
            r += '\\';
            r += ch;
        }
        else if (ch < 32 || ch > 126)
        {
            snprintf(b, 8, "\\u%04x", ch);
            r += b;
        }
        else
            r += ch;
    return r;
}

Shared* make_shared_mem()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(2);
    }
    return new (p) Shared;
}

void enter_scratch(const std::string& scratch)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(scratch.c_str()) != 0)
    {
        perror(scratch.c_str());
        _exit(2);
    }
    setenv("TMPDIR", scratch.c_str(), 1);
    setenv("HOME", scratch.c_str(), 1);
    setenv("TZ", "UTC", 1);
    // No core dumps
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    // Containment: everything runs as an unprivileged user which only owns
    // its scratch directory
    if (geteuid() == 0)
    {
        if (chown(scratch.c_str(), 65534, 65534) == 0)
        {
            if (setgroups(0, nullptr) == 0 && setgid(65534) == 0 && setuid(65534) == 0)
                prctl(PR_SET_PDEATHSIG, SIGKILL);
        }
    }
    signal(SIGPIPE, SIG_IGN);
    umask(022);
    vf_process_init();
}

/// Run a replay in a forked child, with a time limit
struct Runner
{
    const Prop& p;
    const Opts& o;
    Shared* sh;
    std::string scratch;
    std::vector<uint64_t> consumed;
    unsigned limit_ms;

    Runner(const Prop& p, const Opts& o, const std::string& scratch)
        : p(p), o(o), sh(make_shared_mem()), scratch(scratch), limit_ms(p.hang_s * 1000)
    {
    }
    ~Runner() { munmap(sh, sizeof(Shared)); }

    Outcome run(const std::vector<uint64_t>& seq, bool verbose, std::vector<std::string>* trace = nullptr)
    {
        wipe(scratch);
        std::filesystem::create_directories(scratch);
        sh->nch    = 0;
        sh->msg[0] = 0;
        int pfd[2];
        if (pipe(pfd) != 0)
        {
            perror("pipe");
            exit(2);
        }
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(pfd[0]);
            setpgid(0, 0);
            if (!getenv("VF_DEBUG"))
            {
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 2);
                dup2(nul, 1);
            }
            enter_scratch(scratch);
            Outcome r = execute(p, o, scratch, sh->ch, &sh->nch, &seq, 0, verbose);
            std::string s;
            s += (char)('0' + (int)r.status);
            s += r.cat + "\n" + r.msg;
            s += '\0';
            for (auto& t : r.trace)
            {
                s += t;
                s += '\0';
            }
            const char* d = s.data();
            size_t left   = s.size();
            while (left)
            {
                ssize_t w = ::write(pfd[1], d, left);
                if (w <= 0)
                    break;
                d += w;
                left -= w;
            }
            _exit(0);
        }
        close(pfd[1]);
        setpgid(pid, pid);
        std::string got;
        uint64_t deadline = now_ms() + limit_ms;
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        int status  = 0;
        bool hang   = false;
        while (true)
        {
            char buf[65536];
            ssize_t r = ::read(pfd[0], buf, sizeof(buf));
            if (r > 0)
            {
                got.append(buf, r);
                continue;
            }
            pid_t w = waitpid(pid, &status, WNOHANG);
            if (w == pid)
            {
                while ((r = ::read(pfd[0], buf, sizeof(buf))) > 0)
                    got.append(buf, r);
                break;
            }
            if (now_ms() > deadline)
            {
                hang = true;
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                break;
            }
            usleep(r == 0 ? 500 : 1000);
        }
        kill(-pid, SIGKILL);
        close(pfd[0]);
        consumed.assign(sh->ch, sh->ch + sh->nch);
        Outcome res;
        if (hang)
        {
            res.status = Outcome::FAIL;
            res.cat    = "hang";
            res.msg    = "case did not complete in " + std::to_string(limit_ms) + "ms";
        }
        else if (got.empty() || !WIFEXITED(status) || WEXITSTATUS(status) != 0)
        {
            res.status = Outcome::FAIL;
            res.cat    = "crash";
            std::ostringstream ss;
            if (WIFSIGNALED(status))
                ss << "process killed by signal " << WTERMSIG(status);
            else
                ss << "process exited with status " << WEXITSTATUS(status);
            res.msg = ss.str();
        }
        else
        {
            res.status    = (Outcome::Status)(got[0] - '0');
            std::string m = got.substr(1, got.find('\0') - 1);
            auto nl       = m.find('\n');
            res.cat       = m.substr(0, nl);
            res.msg       = nl == std::string::npos ? "" : m.substr(nl + 1);
            size_t pos    = got.find('\0') + 1;
            while (pos < got.size())
            {
                auto e = got.find('\0', pos);
                res.trace.push_back(got.substr(pos, e - pos));
                pos = e + 1;
            }
        }
        wipe(scratch);
        return res;
    }
};

std::vector<uint64_t> shrink(Runner& r, std::vector<uint64_t> seq, const std::string& cat, unsigned seconds)
{
    uint64_t deadline = now_ms() + seconds * 1000;
    auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
        if (now_ms() > deadline)
            return false;
        Outcome o = r.run(cand, false);
        if (o.status != Outcome::FAIL || o.cat != cat)
            return false;
        auto used = r.consumed;
        // Trim trailing zeros: missing choices read as 0
        while (!used.empty() && used.back() == 0)
            used.pop_back();
        std::vector<uint64_t> c = cand;
        while (!c.empty() && c.back() == 0)
            c.pop_back();
        const auto& best = (used.size() <= c.size()) ? used : c;
        // Accept only if simpler (shortlex)
        if (best.size() < seq.size() || (best.size() == seq.size() && best < seq))
        {
            seq = best;
            return true;
        }
        return false;
    };
    if (cat == "hang")
        return seq;
    bool progress = true;
    while (progress && now_ms() < deadline)
    {
        progress = false;
        for (size_t block = std::max<size_t>(1, seq.size() / 2); block >= 1; block /= 2)
        {
            for (size_t i = 0; i + block <= seq.size() && now_ms() < deadline;)
            {
                std::vector<uint64_t> cand = seq;
                cand.erase(cand.begin() + i, cand.begin() + i + block);
                if (attempt(cand))
                {
                    progress = true;
                    continue;
                }
                i += block;
            }
            if (block == 1)
                break;
        }
        for (size_t block = 16; block >= 1; block /= 4)
        {
            for (size_t i = 0; i < seq.size() && now_ms() < deadline; i += block)
            {
                std::vector<uint64_t> cand = seq;
                bool any                   = false;
                for (size_t j = i; j < std::min(i + block, cand.size()); ++j)
                    if (cand[j])
                    {
                        cand[j] = 0;
                        any     = true;
                    }
                if (any && attempt(cand))
                    progress = true;
            }
            if (block == 1)
                break;
        }
        for (size_t i = 0; i < seq.size() && now_ms() < deadline; ++i)
        {
            if (seq[i] == 0)
                continue;
            uint64_t lo = 0, hi = seq[i];
            while (lo + 1 < hi && i < seq.size() && now_ms() < deadline)
            {
                uint64_t mid               = lo + (hi - lo) / 2;
                std::vector<uint64_t> cand = seq;
                cand[i]                    = mid;
                if (attempt(cand))
                {
                    progress = true;
                    hi       = mid;
                    if (i >= seq.size())
                        break;
                }
                else
                    lo = mid;
            }
            if (i < seq.size() && seq[i] > 0)
            {
                std::vector<uint64_t> cand = seq;
                cand[i] -= 1;
                if (attempt(cand))
                    progress = true;
            }
        }
    }
    return seq;
}

void write_replay(const std::string& path, const Prop& p, const Opts& o, const std::vector<uint64_t>& seq,
                  const Outcome& r)
{
    std::ofstream out(path);
    out << "{\"property\": \"" << p.id << "\", \"check\": \"" << p.name << "\", \"thorough\": " << (o.thorough ? 1 : 0)
        << ", \"category\": \"" << json_escape(r.cat) << "\",\n \"message\": \"" << json_escape(r.msg) << "\",\n"
        << " \"trace\": [";
    for (size_t i = 0; i < r.trace.size(); ++i)
        out << (i ? ",\n  " : "\n  ") << "\"" << json_escape(r.trace[i]) << "\"";
    out << "],\n \"choices\": [";
    for (size_t i = 0; i < seq.size(); ++i)
        out << (i ? ", " : "") << seq[i];
    out << "]}\n";
}

struct WorkerResult
{
    bool failed = false;
    unsigned prop;
    std::vector<uint64_t> seq;
    std::string cat, msg;
};

int do_run(const Opts& o)
{
    std::vector<unsigned> sel;
    for (unsigned i = 0; i < registry().size(); ++i)
        if (registry()[i].id == o.prop && (o.only.empty() || o.only == registry()[i].name))
            sel.push_back(i);
    if (sel.empty())
    {
        fprintf(stderr, "no such property: %s\n", o.prop.c_str());
        return 2;
    }
    std::vector<unsigned> sched;
    for (auto i : sel)
        for (unsigned w = 0; w < registry()[i].weight; ++w)
            sched.push_back(i);

    std::filesystem::create_directories(o.scratch);
    chmod(o.scratch.c_str(), 0755);
    uint64_t t0       = now_ms();
    uint64_t deadline = t0 + (uint64_t)o.time * 1000;

    std::vector<Shared*> sh;
    std::vector<pid_t> pids;
    std::vector<bool> running;
    fflush(stdout);
    for (unsigned w = 0; w < o.jobs; ++w)
    {
        sh.push_back(make_shared_mem());
        sh[w]->case_start_ms = now_ms();
        std::string wdir     = o.scratch + "/w" + std::to_string(w);
        std::filesystem::create_directories(wdir);
        std::ofstream(o.scratch + "/stats" + std::to_string(w));
        std::ofstream(o.scratch + "/fail" + std::to_string(w));
        chmod((o.scratch + "/stats" + std::to_string(w)).c_str(), 0666);
        std::ofstream(o.scratch + "/stats" + std::to_string(w) + ".keys");
        chmod((o.scratch + "/stats" + std::to_string(w) + ".keys").c_str(), 0666);
        chmod((o.scratch + "/fail" + std::to_string(w)).c_str(), 0666);
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            int efd = open((o.scratch + "/stderr" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
            if (efd >= 0 && !getenv("VF_DEBUG"))
            {
                dup2(efd, 2);
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 1);
            }
            enter_scratch(wdir);
            struct PS
            {
                uint64_t evals = 0, nontriv = 0, discards = 0;
                std::map<std::string, uint64_t> counters;
                std::vector<std::string> samples;
            };
            std::map<unsigned, PS> stats;
            std::unordered_set<uint64_t> keys;
            uint64_t idx = 0;
            while (true)
            {
                if (o.cases && idx >= o.cases)
                    break;
                if (now_ms() >= deadline && idx >= sched.size())
                    break;
                unsigned pi   = sched[idx % sched.size()];
                const Prop& p = registry()[pi];
                PS& ps        = stats[pi];
                uint64_t seed = o.seed * 0x2545F4914F6CDD1Dull + w * 0x9E3779B97F4A7C15ull + idx * 0xD1B54A32D192ED03ull;
                splitmix(seed);
                sh[w]->prop_index    = pi;
                sh[w]->case_index    = idx;
                sh[w]->case_start_ms = now_ms();
                bool verbose         = w == 0 && ps.samples.size() < 3;
                Outcome r = execute(p, o, wdir, sh[w]->ch, &sh[w]->nch, nullptr, seed, verbose);
                ++idx;
                if (r.status == Outcome::DISCARD)
                {
                    ps.discards++;
                    continue;
                }
                ps.evals++;
                for (auto& c : r.counters)
                    ps.counters[c.first] += c.second;
                if (r.nontrivial)
                {
                    ps.nontriv++;
                    if (keys.size() < 1000000)
                        keys.insert(r.key);
                    if (verbose && !r.trace.empty())
                    {
                        std::string s;
                        for (auto& t : r.trace)
                        {
                            if (!s.empty())
                                s += " | ";
                            s += t;
                            if (s.size() > 900)
                                break;
                        }
                        ps.samples.push_back(s.substr(0, 1000));
                    }
                }
                if (r.status == Outcome::FAIL)
                {
                    std::ofstream f(o.scratch + "/fail" + std::to_string(w));
                    f << r.cat << "\n" << r.msg;
                    f.close();
                    _exit(3);
                }
            }
            {
                std::vector<uint64_t> kv(keys.begin(), keys.end());
                std::ofstream kf(o.scratch + "/stats" + std::to_string(w) + ".keys", std::ios::binary);
                kf.write((const char*)kv.data(), kv.size() * 8);
            }
            std::ofstream f(o.scratch + "/stats" + std::to_string(w));
            f << "{\"props\": [";
            bool first = true;
            for (auto& s : stats)
            {
                f << (first ? "" : ",") << "{\"name\": \"" << registry()[s.first].name << "\", \"evals\": " << s.second.evals
                  << ", \"nontrivial\": " << s.second.nontriv << ", \"discards\": " << s.second.discards
                  << ", \"counters\": {";
                bool f2 = true;
                for (auto& c : s.second.counters)
                {
                    f << (f2 ? "" : ",") << "\"" << json_escape(c.first) << "\": " << c.second;
                    f2 = false;
                }
                f << "}, \"samples\": [";
                f2 = true;
                for (auto& c : s.second.samples)
                {
                    f << (f2 ? "" : ",") << "\"" << json_escape(c) << "\"";
                    f2 = false;
                }
                f << "]}";
                first = false;
            }
            f << "], \"distinct\": " << keys.size() << "}\n";
            f.close();
            _exit(0);
        }
        setpgid(pid, pid);
        pids.push_back(pid);
        running.push_back(true);
    }

    int failed_worker = -1;
    bool hang         = false;
    int fstatus       = 0;
    unsigned left     = o.jobs;
    while (left)
    {
        bool progress = false;
        for (unsigned w = 0; w < o.jobs; ++w)
        {
            if (!running[w])
                continue;
            int status;
            pid_t r = waitpid(pids[w], &status, WNOHANG);
            if (r == pids[w])
            {
                running[w] = false;
                --left;
                progress = true;
                if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0) && failed_worker == -1)
                {
                    failed_worker = w;
                    fstatus       = status;
                }
                continue;
            }
            uint64_t start = sh[w]->case_start_ms;
            uint64_t now   = now_ms();
            if (now > start && now - start > registry()[sh[w]->prop_index].hang_s * 1000ull && failed_worker == -1)
            {
                failed_worker = w;
                hang          = true;
            }
        }
        if (failed_worker != -1)
            break;
        if (!progress)
            usleep(20000);
    }
    for (unsigned w = 0; w < o.jobs; ++w)
    {
        kill(-pids[w], SIGKILL);
        if (running[w])
        {
            kill(pids[w], SIGKILL);
            int st;
            waitpid(pids[w], &st, 0);
        }
    }

    std::ofstream out(o.out);
    out << "{\"seed\": " << o.seed << ", \"wall_s\": " << (now_ms() - t0) / 1000.0 << ", \"stats\": [";
    bool first = true;
    for (unsigned w = 0; w < o.jobs; ++w)
    {
        std::ifstream in(o.scratch + "/stats" + std::to_string(w));
        std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        if (s.empty())
            continue;
        out << (first ? "" : ",") << s;
        first = false;
    }
    {
        std::vector<uint64_t> all;
        for (unsigned w = 0; w < o.jobs; ++w)
        {
            std::ifstream in(o.scratch + "/stats" + std::to_string(w) + ".keys", std::ios::binary);
            uint64_t k;
            while (in.read((char*)&k, 8))
                all.push_back(k);
        }
        std::sort(all.begin(), all.end());
        size_t n = std::unique(all.begin(), all.end()) - all.begin();
        out << "], \"distinct\": " << n;
    }
    out << ", \"rules\": {";
    first = true;
    for (auto i : sel)
    {
        out << (first ? "" : ",") << "\"" << registry()[i].name << "\": \"" << json_escape(registry()[i].rule) << "\"";
        first = false;
    }
    out << "}";

    int rc = 0;
    if (failed_worker != -1)
    {
        Shared* s     = sh[failed_worker];
        const Prop& p = registry()[s->prop_index];
        std::vector<uint64_t> seq(s->ch, s->ch + s->nch);
        std::ifstream in(o.scratch + "/fail" + std::to_string(failed_worker));
        std::string m((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        Outcome orig;
        orig.status = Outcome::FAIL;
        if (hang)
            orig.cat = "hang";
        else if (m.empty())
        {
            orig.cat = "crash";
            std::ostringstream ss;
            if (WIFSIGNALED(fstatus))
                ss << "worker killed by signal " << WTERMSIG(fstatus);
            else
                ss << "worker exited with status " << WEXITSTATUS(fstatus);
            std::ifstream ein(o.scratch + "/stderr" + std::to_string(failed_worker));
            std::string e((std::istreambuf_iterator<char>(ein)), std::istreambuf_iterator<char>());
            auto pos = e.find("ERROR: AddressSanitizer");
            if (pos == std::string::npos)
                pos = e.find("runtime error:");
            if (pos != std::string::npos)
                ss << ": " << e.substr(pos > 200 ? pos - 200 : 0, 1500);
            orig.msg = ss.str();
        }
        else
        {
            orig.cat = m.substr(0, m.find('\n'));
            orig.msg = m.substr(m.find('\n') + 1);
        }
        // Confirm
        Runner r(p, o, o.scratch + "/shrink");
        // A case that hangs takes a long time to run
        unsigned tries = orig.cat == "hang" ? 2 : p.nondet ? 10 : 3, hits = 0;
        Outcome last;
        for (unsigned i = 0; i < tries; ++i)
        {
            last = r.run(seq, false);
            if (last.status == Outcome::FAIL)
                ++hits;
        }
        bool confirmed = p.nondet ? hits >= 1 : hits == tries;
        // A case that is not reproducible in isolation is reported as
        // unconfirmed, unless it was a violation of an order-independent
        // oracle observed by a nondeterministic property
        if (!confirmed && p.nondet && orig.cat != "hang" && orig.cat != "crash")
            confirmed = true;
        std::vector<uint64_t> small = seq;
        Outcome fin                 = orig;
        if (hits == tries && last.cat != "hang")
        {
            small = shrink(r, seq, last.cat, o.shrink_time);
            fin   = r.run(small, true);
            if (fin.status != Outcome::FAIL)
            {
                small = seq;
                fin   = r.run(small, true);
            }
        }
        else if (hits)
        {
            Outcome v = r.run(seq, true);
            if (v.status == Outcome::FAIL)
                fin = v;
        }
        if (fin.status != Outcome::FAIL || fin.cat == "crash")
        {
            std::string t = orig.msg;
            auto tr       = fin.trace;
            fin           = orig;
            fin.trace     = tr;
        }
        std::string rpath = o.out + ".replay.json";
        write_replay(rpath, p, o, small, fin);
        out << ",\n \"failure\": {\"confirmed\": " << (confirmed ? "true" : "false") << ", \"hits\": " << hits
            << ", \"tries\": " << tries << ", \"check\": \"" << p.name << "\", \"category\": \"" << json_escape(fin.cat)
            << "\", \"message\": \"" << json_escape(fin.msg) << "\", \"orig_category\": \"" << json_escape(orig.cat)
            << "\", \"orig_message\": \"" << json_escape(orig.msg) << "\", \"replay\": \"" << json_escape(rpath) << "\"}";
        rc = 1;
    }
    out << "}\n";
    out.close();
    wipe(o.scratch);
    return rc;
}

// Parse the "choices" array and names from a replay file
int do_replay(const Opts& o, const std::string& file)
{
    std::ifstream in(file);
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    auto field = [&](const char* name) {
        std::string k = std::string("\"") + name + "\": \"";
        auto p        = s.find(k);
        if (p == std::string::npos)
            return std::string();
        p += k.size();
        return s.substr(p, s.find('"', p) - p);
    };
    std::string id = field("property"), check = field("check");
    auto p = s.rfind("\"choices\": [");
    if (p == std::string::npos)
    {
        fprintf(stderr, "%s: not a replay file\n", file.c_str());
        return 2;
    }
    std::vector<uint64_t> seq;
    std::istringstream ss(s.substr(p + 12));
    uint64_t v;
    char ch;
    while (ss >> v)
    {
        seq.push_back(v);
        if (!(ss >> ch) || ch != ',')
            break;
    }
    Opts oo     = o;
    oo.thorough = s.find("\"thorough\": 1") != std::string::npos;
    for (const auto& pr : registry())
        if (id == pr.id && check == pr.name)
        {
            std::filesystem::create_directories(o.scratch);
            chmod(o.scratch.c_str(), 0755);
            Runner r(pr, oo, o.scratch + "/replay");
            Outcome res = r.run(seq, true);
            for (auto& t : res.trace)
                printf("  %s\n", t.c_str());
            wipe(o.scratch);
            if (res.status == Outcome::FAIL)
            {
                printf("FAIL %s/%s %s: %s\n", pr.id, pr.name, res.cat.c_str(), res.msg.c_str());
                return 1;
            }
            printf("%s %s/%s\n", res.status == Outcome::PASS ? "PASS" : "DISCARD", pr.id, pr.name);
            return 0;
        }
    fprintf(stderr, "unknown property %s/%s\n", id.c_str(), check.c_str());
    return 2;
}

} // namespace

int driver_main(int argc, char** argv)
{
    Opts o;
    std::string mode = argc > 1 ? argv[1] : "";
    std::string arg  = argc > 2 ? argv[2] : "";
    for (int i = 3; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val      = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--seed")
            o.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--jobs")
            o.jobs = atoi(val().c_str());
        else if (a == "--time")
            o.time = atoi(val().c_str());
        else if (a == "--cases")
            o.cases = strtoull(val().c_str(), 0, 10);
        else if (a == "--out")
            o.out = val();
        else if (a == "--scratch")
            o.scratch = val();
        else if (a == "--thorough")
            o.thorough = true;
        else if (a == "--only")
            o.only = val();
        else if (a == "--shrink")
            o.shrink_time = atoi(val().c_str());
    }
    if (o.scratch.empty())
    {
        char t[64];
        strcpy(t, access("/dev/shm", W_OK) == 0 ? "/dev/shm/vfXXXXXX" : "/tmp/vfXXXXXX");
        if (!mkdtemp(t))
        {
            perror("mkdtemp");
            return 2;
        }
        o.scratch = t;
    }
    if (mode == "run")
    {
        o.prop = arg;
        if (o.out.empty())
            o.out = "result.json";
        return do_run(o);
    }
    if (mode == "replay")
        return do_replay(o, arg);
    if (mode == "list")
    {
        for (auto& p : registry())
            printf("%s\t%s\t%s\n", p.id, p.name, p.rule);
        return 0;
    }
    fprintf(stderr, "usage: check run|replay|list ...\n");
    return 2;
}

} // namespace vf
