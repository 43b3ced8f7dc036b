// Property-based testing engine: every case is a pure function of a recorded sequence of choices, which makes
// every failure shrinkable and replayable no matter which generators were involved.
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

/// Thrown to skip a case whose precondition does not hold; counted separately, never as evaluation.
struct Discard {
    std::string why;
};

/// Thrown when the oracle rejects what the code under test did.
struct Failure {
    std::string key; // stable name of what failed (for known findings and for shrinking towards the same failure)
    std::string message;
};

class Gen {
public:
    explicit Gen(std::uint64_t seed);
    explicit Gen(std::vector<std::uint64_t> replay);

    std::uint64_t below(std::uint64_t n); // [0, n), 0 is the simplest
    std::int64_t range(std::int64_t lo, std::int64_t hi); // [lo, hi], lo is the simplest
    bool chance(unsigned num, unsigned den); // false is the simplest
    bool flip()
    {
        return chance(1, 2);
    }
    template <class T> T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
    template <class C> const typename C::value_type &pickFrom(const C &c)
    {
        auto it = c.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(below(c.size())));
        return *it;
    }
    std::size_t weighted(std::initializer_list<unsigned> w); // index, 0 is the simplest
    std::string bytes(std::size_t n); // one choice, expanded pseudo-randomly
    std::uint64_t bits(unsigned maxBits); // value with a random bit width (log-uniform, boundaries likely)
    std::size_t length(std::size_t max); // length biased towards small ones and boundaries
    char32_t codePoint(unsigned kind);
    /// Unicode text as UTF-8; kind: 0 ASCII, 1 Latin-1, 2 BMP, 3 everything; no NUL, no leading BOM
    std::string text(std::size_t maxChars, unsigned kind, std::size_t minChars = 0);
    std::string asciiWord(std::size_t maxChars, std::size_t minChars = 1);

    // classification
    void label(const std::string &l)
    {
        ++m_labels[l];
    }
    void nontrivial()
    {
        m_nontrivial = true;
    }
    void describe(const std::string &s)
    {
        m_description += s;
    }
    [[noreturn]] void discard(const std::string &why = std::string())
    {
        throw Discard{ why };
    }

    std::string dir; // existing, empty scratch directory of this case
    std::map<std::string, unsigned> m_labels;
    std::string m_description;
    bool m_nontrivial = false;
    std::vector<std::uint64_t> m_choices;
    bool thorough = false;

private:
    std::uint64_t draw(std::uint64_t max);
    bool m_replaying = false;
    std::vector<std::uint64_t> m_replay;
    std::size_t m_pos = 0;
    std::uint64_t m_state[4];
    std::uint64_t next();
};

[[noreturn]] void fail(const std::string &key, const std::string &message);

using Body = void (*)(Gen &);
struct TestReg {
    TestReg(const char *name, unsigned quick, unsigned thorough, Body body);
};
#define PBT_TEST(name, quick, thorough)                                                                                                    \
    static void pbt_body_##name(pbt::Gen &);                                                                                               \
    static pbt::TestReg pbt_reg_##name(#name, quick, thorough, pbt_body_##name);                                                           \
    static void pbt_body_##name([[maybe_unused]] pbt::Gen &g)

/// A known finding: fixed reproduction which throws Failure{key} as long as the defect exists.
struct KnownReg {
    KnownReg(const char *key, Body body);
};
#define PBT_KNOWN(ident, key)                                                                                                              \
    static void pbt_known_##ident(pbt::Gen &);                                                                                             \
    static pbt::KnownReg pbt_kreg_##ident(key, pbt_known_##ident);                                                                         \
    static void pbt_known_##ident([[maybe_unused]] pbt::Gen &g)

/// Rule text and level for the evidence; set by each check.
extern const char *g_property;
extern const char *g_rule;
extern const char *g_level;
extern double g_cpuLimitPerCase;

/// Raises the limit for the size of files of the current case.
void limitFileSize(std::uint64_t size);
std::string hex(const std::string &data, std::size_t max = 64);
std::string quote(const std::string &data, std::size_t max = 120);

} // namespace pbt

#define CHECK_MSG(cond, key, msg)                                                                                                          \
    do {                                                                                                                                   \
        if (!(cond)) {                                                                                                                     \
            ::pbt::fail(key, std::string(#cond " does not hold: ") + (msg));                                                               \
        }                                                                                                                                  \
    } while (false)
