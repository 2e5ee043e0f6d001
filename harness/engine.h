#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H
/*
 * A small property-based testing engine.
 *
 * A case is a deterministic function of a sequence of bounded choices. Choices
 * are drawn from a seeded PRNG while searching, and from a recorded sequence
 * while shrinking and replaying. Shrinking works on the choice sequence.
 */
#include <cstdint>
#include <cstdio>
#include <filesystem>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

struct Discard
{
};

struct Failure : public std::exception
{
    std::string cat, msg, full;
    Failure(std::string cat, std::string msg)
        : cat(cat), msg(msg), full(cat + ": " + msg)
    {
    }
    const char* what() const noexcept override { return full.c_str(); }
};

struct Shared;

class Gen
{
public:
    // recording buffer (possibly shared memory)
    uint64_t* rec       = nullptr;
    uint64_t* rec_count = nullptr;
    size_t rec_max      = 0;
    size_t drawn        = 0;
    const std::vector<uint64_t>* replay = nullptr;
    uint64_t state                      = 0;

    uint64_t next_raw();
    /// uniform in [0, n)
    uint64_t below(uint64_t n);
    /// uniform in [lo, hi], simplest is lo
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool flip() { return below(2); }
    /// index chosen with the given weights (0 is the simplest)
    unsigned weighted(std::initializer_list<unsigned> w);
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    /// integer in [0,n) biased to boundary values
    uint64_t edgy(uint64_t n);
    template <typename T> void shuffle(std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; --i)
        {
            size_t j = i - 1 - below(i);
            if (j != i - 1)
                std::swap(v[i - 1], v[j]);
        }
    }
    std::string str(const std::string& alphabet, size_t minlen, size_t maxlen);
    std::vector<uint8_t> bytes(size_t minlen, size_t maxlen);
};

class Case
{
public:
    Gen g;
    bool verbose    = false;
    bool nontrivial = false;
    uint64_t key    = 1469598103934665603ull;
    std::vector<std::string> trace;
    std::string scratch_root;
    unsigned dir_seq = 0;
    bool thorough    = false;
    // extra counters reported in the evidence
    std::vector<std::pair<std::string, uint64_t>> counters;

    void log(const std::string& s)
    {
        if (verbose)
            trace.push_back(s);
    }
    void count(const std::string& name, uint64_t n = 1)
    {
        for (auto& c : counters)
            if (c.first == name)
            {
                c.second += n;
                return;
            }
        counters.emplace_back(name, n);
    }
    void mix(const void* data, size_t size);
    void mix(const std::string& s) { mix(s.data(), s.size()); }
    void mix(uint64_t v) { mix(&v, sizeof(v)); }
    void mark() { nontrivial = true; }
    /// New empty scratch directory, removed at the end of the case
    std::filesystem::path newdir();

    [[noreturn]] void fail(const std::string& cat, const std::string& msg);
    /// Check if a finding is listed as known, and count it if it is
    bool known(const std::string& id);
    void check(bool cond, const std::string& cat, const std::string& msg)
    {
        if (!cond)
            fail(cat, msg);
    }
    template <typename A, typename B>
    void eq(const A& a, const B& b, const std::string& cat, const std::string& what)
    {
        if (a == b)
            return;
        std::ostringstream ss;
        ss << what << ": got [" << a << "] expected [" << b << "]";
        fail(cat, ss.str());
    }
};

struct Prop
{
    const char* id;
    const char* name;
    std::function<void(Case&)> fn;
    const char* rule;
    unsigned weight  = 1;
    unsigned hang_s  = 120;
    bool nondet      = false;
};

std::vector<Prop>& registry();

struct Register
{
    Register(Prop p) { registry().push_back(p); }
};

int driver_main(int argc, char** argv);

std::string hexdump(const std::vector<uint8_t>& v, size_t max = 200);
std::string printable(const std::string& s);

} // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define PROPERTY(ID, NAME, WEIGHT, RULE)                                       \
    static void VF_CAT(prop_fn_, __LINE__)(vf::Case & c);                      \
    static vf::Register VF_CAT(prop_reg_, __LINE__)(                           \
        vf::Prop{ID, NAME, VF_CAT(prop_fn_, __LINE__), RULE, WEIGHT});         \
    static void VF_CAT(prop_fn_, __LINE__)(vf::Case & c)

#endif
