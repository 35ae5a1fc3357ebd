// Small property-based-testing engine: a recorded choice tape drives every generator, so that any
// failing case (wrong answer, exception, sanitizer report, crash, hang) can be shrunk and replayed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt
{
struct Fail : std::exception
{
    std::string msg;
    explicit Fail(std::string m) : msg(std::move(m)) {}
    const char *what() const noexcept override { return msg.c_str(); }
};
struct Discard
{
};
class Case
{
public:
    // value in [0, max]; smaller is simpler
    uint64_t draw(uint64_t max);
    bool chance(unsigned num, unsigned den); // true with probability num/den; shrinks to false
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi) - uint64_t(lo))); }
    template <class C> const auto &pick(const C &c) { return c[size_t(draw(c.size() - 1))]; }
    // small numbers are likely, large ones possible
    uint64_t small(uint64_t max);

    void label(const std::string &l) { labels.push_back(l); }
    // the case exercised the property in a way which counts (see the sub-check's rule); hash identifies it
    void nontrivial(uint64_t hash) { nt = true; nthash = hash ? hash : 1; }
    void note(const std::string &s) { if (keep_notes) notes += s + "\n"; }
    bool noting() const { return keep_notes; }
    [[noreturn]] void fail(const std::string &m) const { throw Fail(m); }
    void check(bool ok, const std::string &m) const { if (!ok) throw Fail(m); }
    [[noreturn]] void discard() const { throw Discard(); }
    const std::string &tier() const;

    // engine
    uint64_t rng = 0;
    const uint64_t *in = nullptr; // replay tape
    size_t in_n = 0, in_pos = 0;
    bool replay = false;
    const uint8_t *bytes = nullptr; // coverage-guided mode: numbers are taken from the fuzzer's input
    size_t bytes_n = 0, bytes_pos = 0;
    uint64_t *out = nullptr; // record (shared memory)
    volatile uint64_t *out_n = nullptr;
    size_t out_cap = 0;
    bool keep_notes = false;
    bool nt = false;
    uint64_t nthash = 0;
    std::string notes;
    std::vector<std::string> labels;
};
struct Sub
{
    const char *prop;
    const char *name;
    const char *rule; // what makes a case non-trivial
    uint64_t quick, thorough;
    void (*fn)(Case &);
};
std::vector<Sub> &subs();
struct Reg
{
    Reg(Sub s) { subs().push_back(s); }
};
// work done once in the parent, before any case runs
std::vector<void (*)()> &inits();
struct Init
{
    explicit Init(void (*f)()) { inits().push_back(f); }
};
#define PBT(prop, name, quick, thorough, rule) \
    static void prop##_##name(pbt::Case &); \
    static pbt::Reg reg_##prop##_##name({#prop, #name, rule, quick, thorough, &prop##_##name}); \
    static void prop##_##name([[maybe_unused]] pbt::Case &c)

uint64_t mix(uint64_t x);

// ---- allocation accounting (sanitizer malloc hooks) ----
struct AllocScope
{
    AllocScope();
    ~AllocScope();
    size_t count() const, bytes() const, largest() const;
    size_t c0, b0;
};
} // namespace pbt
