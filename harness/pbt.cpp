#include "pbt.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" __attribute__((weak)) int __llvm_profile_write_file(void); // only there when measuring coverage

namespace fs = std::filesystem;

namespace pbt {

double g_cpuLimitPerCase = 60.0;

// --- random choices ---------------------------------------------------------------------------------------

// shared-memory mirror of the choices of the case being run, so that they survive a crash: [0] is the count
static std::uint64_t *s_mirror = nullptr;
static const std::size_t s_mirrorCap = 1 << 20;

static std::uint64_t splitmix(std::uint64_t &x)
{
    std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static std::uint64_t hashStr(const std::string &s, std::uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}

Gen::Gen(std::uint64_t seed)
{
    for (auto &s : m_state) {
        s = splitmix(seed);
    }
}
Gen::Gen(std::vector<std::uint64_t> replay)
    : Gen(0)
{
    m_replaying = true;
    m_replay = std::move(replay);
}
static std::uint64_t rotl(std::uint64_t x, int k)
{
    return (x << k) | (x >> (64 - k));
}
std::uint64_t Gen::next()
{
    auto *s = m_state;
    const auto result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return result;
}
std::uint64_t Gen::draw(std::uint64_t max)
{
    std::uint64_t v;
    if (m_replaying) {
        v = m_pos < m_replay.size() ? m_replay[m_pos] : 0;
        ++m_pos;
        if (v > max) {
            v = max;
        }
    } else {
        v = next();
        if (max != UINT64_MAX) {
            v %= max + 1;
        }
    }
    m_choices.push_back(v);
    if (s_mirror && s_mirror[0] + 1 < s_mirrorCap) {
        s_mirror[++s_mirror[0]] = v;
    }
    return v;
}
std::uint64_t Gen::below(std::uint64_t n)
{
    return n <= 1 ? 0 : draw(n - 1);
}
std::int64_t Gen::range(std::int64_t lo, std::int64_t hi)
{
    if (hi <= lo) {
        return lo;
    }
    return static_cast<std::int64_t>(static_cast<std::uint64_t>(lo) + draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
}
bool Gen::chance(unsigned num, unsigned den)
{
    return draw(den - 1) >= den - num;
}
std::size_t Gen::weighted(std::initializer_list<unsigned> w)
{
    std::uint64_t sum = 0;
    for (auto x : w) {
        sum += x;
    }
    auto v = draw(sum - 1);
    std::size_t i = 0;
    for (auto x : w) {
        if (v < x) {
            return i;
        }
        v -= x;
        ++i;
    }
    return 0;
}
std::string Gen::bytes(std::size_t n)
{
    auto seed = draw(UINT64_MAX);
    std::string r(n, '\0');
    if (!seed) {
        return r;
    }
    std::uint64_t v = 0;
    for (std::size_t i = 0; i < n; ++i) {
        if (i % 8 == 0) {
            v = splitmix(seed);
        }
        r[i] = static_cast<char>(v >> (8 * (i % 8)));
    }
    return r;
}
std::uint64_t Gen::bits(unsigned maxBits)
{
    const auto width = below(maxBits + 1);
    if (!width) {
        return 0;
    }
    const auto top = width >= 64 ? UINT64_MAX : ((std::uint64_t(1) << width) - 1);
    switch (weighted({ 4, 1, 1, 1 })) {
    case 1:
        return top;
    case 2:
        return top ? top - 1 : 0;
    case 3:
        return std::uint64_t(1) << (width - 1);
    default:
        return draw(top);
    }
}
std::size_t Gen::length(std::size_t max)
{
    std::size_t v = 0;
    switch (weighted({ 8, 6, 3, 2 })) {
    case 0:
        v = below(8);
        break;
    case 1:
        v = below(64);
        break;
    case 2:
        v = pick<std::size_t>({ 15, 16, 27, 28, 29, 30, 31, 32, 63, 64, 125, 126, 127, 128, 129, 191, 254, 255, 256, 257, 509, 510, 511, 512, 1023, 1024, 4095, 4096 });
        break;
    default:
        v = bits(17);
    }
    return std::min(v, max);
}
char32_t Gen::codePoint(unsigned kind)
{
    switch (kind) {
    case 0:
        return static_cast<char32_t>(range(0x20, 0x7e));
    case 1:
        return static_cast<char32_t>(chance(1, 2) ? range(0xa0, 0xff) : range(0x20, 0x7e));
    case 2:
    case 3:
        switch (weighted({ 4, 2, 2, 2, kind == 3 ? 2u : 0u, 1 })) {
        case 0:
            return static_cast<char32_t>(range(0x20, 0x7e));
        case 1:
            return static_cast<char32_t>(range(0xa0, 0x24f));
        case 2:
            return static_cast<char32_t>(range(0x250, 0x7ff));
        case 3:
            if (chance(1, 3)) {
                const auto c = static_cast<char32_t>(range(0xe000, 0xfffd - 2));
                return c == 0xfeff ? 0xfefe : c; // would be taken for a byte order mark
            }
            return static_cast<char32_t>(range(0x800, 0xd7ff));
        case 4:
            return static_cast<char32_t>(range(0x10000, 0x10ffff));
        default:
            return pick<char32_t>({ 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0x2028, 0x100, 0x3000, 0x0a, 0x0d, 0x09, 0x00a9, 0x0141 });
        }
    }
    return 'x';
}
static void appendUtf8(std::string &s, char32_t c)
{
    if (c < 0x80) {
        s += static_cast<char>(c);
    } else if (c < 0x800) {
        s += static_cast<char>(0xc0 | (c >> 6));
        s += static_cast<char>(0x80 | (c & 0x3f));
    } else if (c < 0x10000) {
        s += static_cast<char>(0xe0 | (c >> 12));
        s += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
        s += static_cast<char>(0x80 | (c & 0x3f));
    } else {
        s += static_cast<char>(0xf0 | (c >> 18));
        s += static_cast<char>(0x80 | ((c >> 12) & 0x3f));
        s += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
        s += static_cast<char>(0x80 | (c & 0x3f));
    }
}
std::string Gen::text(std::size_t maxChars, unsigned kind, std::size_t minChars)
{
    auto n = std::max(length(maxChars), minChars);
    std::string r;
    const auto individually = std::min<std::size_t>(n, 12);
    std::vector<char32_t> seen;
    for (std::size_t i = 0; i < individually; ++i) {
        auto c = codePoint(kind ? static_cast<unsigned>(below(kind + 1)) : 0);
        seen.push_back(c);
        appendUtf8(r, c);
    }
    // continue longer texts with a rotation of what was drawn so that they stay cheap to shrink
    for (std::size_t i = individually; i < n; ++i) {
        appendUtf8(r, seen[(i * 7 + i / 12) % individually]);
    }
    return r;
}
std::string Gen::asciiWord(std::size_t maxChars, std::size_t minChars)
{
    auto n = static_cast<std::size_t>(range(static_cast<std::int64_t>(minChars), static_cast<std::int64_t>(maxChars)));
    std::string r;
    for (std::size_t i = 0; i < n; ++i) {
        r += static_cast<char>('a' + below(26));
    }
    return r;
}

void fail(const std::string &key, const std::string &message)
{
    throw Failure{ key, message };
}
std::string hex(const std::string &data, std::size_t max)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (std::size_t i = 0; i < std::min(data.size(), max); ++i) {
        r += d[static_cast<unsigned char>(data[i]) >> 4];
        r += d[static_cast<unsigned char>(data[i]) & 15];
    }
    if (data.size() > max) {
        r += "...(" + std::to_string(data.size()) + " bytes)";
    }
    return r;
}
std::string quote(const std::string &data, std::size_t max)
{
    std::string r = "\"";
    for (std::size_t i = 0; i < std::min(data.size(), max); ++i) {
        const auto c = static_cast<unsigned char>(data[i]);
        if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') {
            r += static_cast<char>(c);
        } else {
            char b[8];
            std::snprintf(b, sizeof(b), "\\x%02x", c);
            r += b;
        }
    }
    r += '"';
    if (data.size() > max) {
        r += "...(" + std::to_string(data.size()) + " bytes)";
    }
    return r;
}

// --- registry ---------------------------------------------------------------------------------------------

struct Test {
    std::string name;
    unsigned quick, thorough;
    Body body;
};
static std::vector<Test> &tests()
{
    static std::vector<Test> t;
    return t;
}
static std::vector<std::pair<std::string, Body>> &knowns()
{
    static std::vector<std::pair<std::string, Body>> t;
    return t;
}
TestReg::TestReg(const char *name, unsigned quick, unsigned thorough, Body body)
{
    tests().push_back(Test{ name, quick, thorough, body });
}
KnownReg::KnownReg(const char *key, Body body)
{
    knowns().emplace_back(key, body);
}

// --- running ----------------------------------------------------------------------------------------------

static std::string s_scratch;
static std::set<std::string> s_knownKeys; // keys listed for this property
static bool s_thorough = false;
static std::uint64_t s_seed = 1;

struct Outcome {
    enum Kind { Ok, Discarded, Failed, Crashed, Hung, Known } kind = Ok;
    std::string key, message;
    std::vector<std::uint64_t> choices;
    bool bad() const
    {
        return kind == Failed || kind == Crashed || kind == Hung;
    }
};

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static timer_t s_timer;
static bool s_haveTimer = false;
static void onCpuLimit(int)
{
    static const char msg[] = "\nPBT-HANG: CPU time limit of the case exceeded\n";
    [[maybe_unused]] auto r = write(2, msg, sizeof(msg) - 1);
    _exit(78);
}
static void armTimer(double seconds)
{
    if (!s_haveTimer) {
        struct sigevent ev;
        std::memset(&ev, 0, sizeof(ev));
        ev.sigev_notify = SIGEV_SIGNAL;
        ev.sigev_signo = SIGUSR1;
        std::signal(SIGUSR1, onCpuLimit);
        if (timer_create(CLOCK_PROCESS_CPUTIME_ID, &ev, &s_timer) == 0) {
            s_haveTimer = true;
        }
    }
    if (s_haveTimer) {
        struct itimerspec ts;
        std::memset(&ts, 0, sizeof(ts));
        ts.it_value.tv_sec = static_cast<time_t>(seconds);
        ts.it_value.tv_nsec = static_cast<long>((seconds - static_cast<double>(ts.it_value.tv_sec)) * 1e9);
        timer_settime(s_timer, 0, &ts, nullptr);
    }
}

void limitFileSize(std::uint64_t size)
{
    struct rlimit rl;
    getrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = size;
    setrlimit(RLIMIT_FSIZE, &rl);
}

static void limitProcess()
{
    std::signal(SIGXFSZ, SIG_IGN);
    limitFileSize(256ull << 20); // no single file may grow beyond this: contains runaway writes
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
}

/// Runs one case in the current process.
static Outcome runHere(const Test &t, Gen &g, const std::string &dir)
{
    Outcome o;
    limitFileSize(256ull << 20);
    std::error_code ec;
    if (!fs::is_directory(dir, ec) || !fs::is_empty(dir, ec)) {
        fs::remove_all(dir, ec);
        fs::create_directories(dir, ec);
    }
    g.dir = dir;
    g.thorough = s_thorough;
    armTimer(g_cpuLimitPerCase);
    try {
        t.body(g);
    } catch (const Discard &d) {
        o.kind = Outcome::Discarded;
        o.message = d.why;
    } catch (const Failure &f) {
        o.kind = s_knownKeys.count(f.key) ? Outcome::Known : Outcome::Failed;
        o.key = f.key;
        o.message = f.message;
    } catch (const std::exception &e) {
        o.kind = Outcome::Failed;
        o.key = std::string("unexpected-exception:") + typeid(e).name();
        o.message = std::string("exception escaped: ") + typeid(e).name() + ": " + e.what();
    }
    armTimer(0);
    o.choices = g.m_choices;
    return o;
}

static std::string slurp(const std::string &path, std::size_t max = 1 << 20)
{
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > max) {
        s.resize(max);
    }
    return s;
}

static std::string crashKey(const std::string &err, int status)
{
    // stable part of a sanitizer report: kind of the error and function name
    auto p = err.find("SUMMARY: ");
    if (p != std::string::npos) {
        auto e = err.find('\n', p);
        auto line = err.substr(p, e - p);
        auto in = line.find(" in ");
        std::istringstream ss(line);
        std::string a, b, c;
        ss >> a >> b >> c;
        std::string rest;
        ss >> rest;
        return "crash:" + c + (in != std::string::npos ? ":" + line.substr(in + 4) : ":" + rest.substr(rest.rfind('/') + 1));
    }
    p = err.find("runtime error: ");
    if (p != std::string::npos) {
        auto e = err.find('\n', p);
        return "crash:ubsan:" + err.substr(p + 15, std::min<std::size_t>(40, e - p - 15));
    }
    if (WIFSIGNALED(status)) {
        return "crash:signal" + std::to_string(WTERMSIG(status));
    }
    return "crash:exit" + std::to_string(WEXITSTATUS(status));
}

/// Runs one case in a child process of its own (crashes become outcomes).
static Outcome runForked(const Test &t, const std::vector<std::uint64_t> &choices, const std::string &tag)
{
    const auto dir = s_scratch + "/f" + tag, out = s_scratch + "/out" + tag, err = s_scratch + "/err" + tag;
    std::error_code ec;
    fs::remove(out, ec);
    const auto pid = fork();
    if (pid == 0) {
        limitProcess();
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        Gen g(choices);
        auto o = runHere(t, g, dir);
        std::ofstream f(out, std::ios::binary);
        f << static_cast<int>(o.kind) << '\n' << o.key << '\n' << o.choices.size() << '\n';
        for (auto c : o.choices) {
            f << c << ' ';
        }
        f << '\n' << o.message << "\nCASE: " << g.m_description;
        f.close();
        _exit(0);
    }
    int status = 0;
    const auto start = now();
    for (;;) {
        const auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            break;
        }
        if (now() - start > g_cpuLimitPerCase * 5 + 30) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            break;
        }
        usleep(200);
    }
    Outcome o;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        std::ifstream f(out, std::ios::binary);
        int kind = 0;
        std::size_t n = 0;
        std::string line;
        f >> kind;
        std::getline(f, line);
        std::getline(f, o.key);
        f >> n;
        o.choices.resize(n);
        for (auto &c : o.choices) {
            f >> c;
        }
        std::getline(f, line);
        o.kind = static_cast<Outcome::Kind>(kind);
        o.message.assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    } else {
        const auto text = slurp(err, 20000);
        o.choices = choices;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 78) {
            o.kind = Outcome::Hung;
            o.key = "hang";
        } else {
            o.kind = Outcome::Crashed;
            o.key = crashKey(text, status);
        }
        o.message = text;
    }
    fs::remove_all(dir, ec);
    return o;
}

static std::vector<std::uint64_t> shrink(const Test &t, Outcome first, double seconds, unsigned &tries)
{
    auto best = first.choices;
    const auto end = now() + seconds;
    auto attempt = [&](const std::vector<std::uint64_t> &cand) {
        if (now() > end || cand == best) {
            return false;
        }
        ++tries;
        auto o = runForked(t, cand, "s");
        if (o.bad() && o.key == first.key) {
            auto better = o.kind == Outcome::Failed ? o.choices : cand;
            if (better.size() < best.size() || (better.size() == best.size() && better < best)) {
                best = better;
                return true;
            }
        }
        return false;
    };
    for (bool progress = true; progress && now() < end;) {
        progress = false;
        for (std::size_t chunk = std::max<std::size_t>(1, best.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
            for (std::size_t i = 0; i + chunk <= best.size() && now() < end;) {
                auto c = best;
                c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + chunk));
                if (attempt(c)) {
                    progress = true;
                    continue;
                }
                c = best;
                if (std::any_of(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + chunk), [](auto v) { return v != 0; })) {
                    std::fill(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + chunk), 0);
                    if (attempt(c)) {
                        progress = true;
                    }
                }
                i += chunk;
            }
        }
        for (std::size_t i = 0; i < best.size() && now() < end; ++i) {
            // binary search for a smaller value of this choice
            std::uint64_t lo = 0;
            while (i < best.size() && best[i] > lo && now() < end) {
                auto c = best;
                c[i] = lo + (best[i] - lo) / 2;
                if (c[i] == best[i]) {
                    break;
                }
                if (attempt(c)) {
                    progress = true;
                } else {
                    lo = c[i] + 1;
                }
            }
        }
    }
    return best;
}

// --- evidence ---------------------------------------------------------------------------------------------

static std::string jsonStr(const std::string &s)
{
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size(); ++i) {
        const auto c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + '"';
}

struct Stats {
    std::uint64_t evaluations = 0, discarded = 0, known = 0;
    std::map<std::string, std::uint64_t> perTest, labels;
    std::unordered_set<std::uint64_t> nontrivial;
    std::vector<std::string> samples;
    bool complete = true;

    void write(const std::string &path) const
    {
        const auto tmp = path + ".tmp";
        {
            std::ofstream f(tmp, std::ios::binary);
            f << evaluations << ' ' << discarded << ' ' << known << ' ' << complete << '\n';
            f << perTest.size() << '\n';
            for (const auto &p : perTest) {
                f << p.second << ' ' << p.first << '\n';
            }
            f << labels.size() << '\n';
            for (const auto &p : labels) {
                f << p.second << ' ' << p.first << '\n';
            }
            f << nontrivial.size() << '\n';
            for (auto h : nontrivial) {
                f << h << '\n';
            }
            f << samples.size() << '\n';
            for (const auto &s : samples) {
                f << s << '\n';
            }
        }
        rename(tmp.c_str(), path.c_str());
    }
    void merge(const std::string &path)
    {
        std::ifstream f(path, std::ios::binary);
        if (!f) {
            return;
        }
        std::uint64_t e = 0, d = 0, k = 0;
        bool c = true;
        f >> e >> d >> k >> c;
        evaluations += e;
        discarded += d;
        known += k;
        complete = complete && c;
        for (auto *m : { &perTest, &labels }) {
            std::size_t n = 0;
            f >> n;
            for (; n; --n) {
                std::uint64_t v;
                std::string s;
                f >> v;
                f.get();
                std::getline(f, s);
                (*m)[s] += v;
            }
        }
        std::size_t n = 0;
        f >> n;
        for (; n; --n) {
            std::uint64_t v;
            f >> v;
            nontrivial.insert(v);
        }
        f >> n;
        std::string s;
        std::getline(f, s);
        for (; n; --n) {
            std::getline(f, s);
            samples.push_back(s);
        }
    }
};

struct Shared {
    volatile std::uint64_t current[64]; // 1 + position in the plan of the case being run
    volatile std::uint64_t done[64];
    volatile int stop;
};

static std::uint64_t caseSeed(const Test &t, std::uint64_t idx)
{
    std::uint64_t x = hashStr(std::string(g_property) + "/" + t.name) ^ (s_seed * 0x9e3779b97f4a7c15ull);
    x = splitmix(x) + idx * 0xd1342543de82ef95ull;
    return splitmix(x);
}

static void writeEvidence(const Stats &st, double wall, int violations, const std::vector<std::string> &notes)
{
    std::error_code ec;
    fs::create_directories("evidence", ec);
    std::ofstream f(std::string("evidence/") + g_property + ".json", std::ios::binary);
    f << "{\"property\": " << jsonStr(g_property) << ", \"tier\": \"" << (s_thorough ? "thorough" : "quick") << "\", \"seed\": " << s_seed
      << ", \"level\": " << jsonStr(g_level) << ",\n \"coverage\": {\"evaluations\": " << st.evaluations
      << ", \"distinct_nontrivial\": " << st.nontrivial.size() << ",\n  \"rule\": " << jsonStr(g_rule) << ",\n  \"discarded\": " << st.discarded
      << ", \"known_finding_cases\": " << st.known << ", \"plan_completed\": " << (st.complete ? "true" : "false") << ",\n  \"cases_per_test\": {";
    const char *sep = "";
    for (const auto &p : st.perTest) {
        f << sep << jsonStr(p.first) << ": " << p.second;
        sep = ", ";
    }
    f << "},\n  \"classes\": {";
    sep = "";
    for (const auto &p : st.labels) {
        f << sep << jsonStr(p.first) << ": " << p.second;
        sep = ", ";
    }
    f << "},\n  \"samples\": [";
    sep = "";
    std::map<std::string, int> perTest;
    int n = 0;
    for (const auto &s : st.samples) {
        if (++perTest[s.substr(0, s.find(':'))] > 4 || ++n > 24) {
            continue;
        }
        f << sep << "\n   " << jsonStr(s);
        sep = ",";
    }
    f << "]},\n \"assumptions\": [";
    sep = "";
    for (const auto &s : notes) {
        f << sep << jsonStr(s);
        sep = ", ";
    }
    f << "],\n \"wall_s\": " << wall << ", \"violations\": " << violations << "}\n";
}

static std::vector<std::pair<std::string, std::string>> readKnown()
{
    // lines: "known: property=<id> key=<key> <what fails>"
    std::vector<std::pair<std::string, std::string>> r;
    std::ifstream f("known_findings.txt");
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream ss(line);
        std::string kind, prop, key;
        ss >> kind >> prop >> key;
        if (kind != "known:" || prop != std::string("property=") + g_property || key.rfind("key=", 0) != 0) {
            continue;
        }
        std::string what;
        std::getline(ss, what);
        r.emplace_back(key.substr(4), what.empty() ? what : what.substr(1));
    }
    return r;
}

static int report(const Test &t, const Outcome &o, const std::vector<std::uint64_t> &choices)
{
    std::error_code ec;
    fs::create_directories("replays", ec);
    const auto path = std::string("replays/") + g_property + "-" + t.name + "-" + std::to_string(s_seed) + ".replay";
    {
        std::ofstream f(path, std::ios::binary);
        f << g_property << ' ' << t.name << ' ' << (s_thorough ? "thorough" : "quick") << '\n' << choices.size() << '\n';
        for (auto c : choices) {
            f << c << ' ';
        }
        f << "\n# key: " << o.key << "\n# " << o.message << '\n';
    }
    std::cout << "failed test: " << t.name << "\nkey: " << o.key << "\n" << o.message.substr(0, 4000) << "\n";
    std::cout << "VIOLATION property=" << g_property << " replay=" << fs::absolute(path, ec).string() << std::endl;
    return 1;
}

static int replayFile(const std::string &path)
{
    std::ifstream f(path, std::ios::binary);
    std::string prop, name, tier;
    std::size_t n = 0;
    f >> prop >> name >> tier >> n;
    s_thorough = tier == "thorough";
    std::vector<std::uint64_t> choices(n);
    for (auto &c : choices) {
        f >> c;
    }
    for (const auto &t : tests()) {
        if (t.name == name) {
            auto o = runForked(t, choices, "r");
            if (o.bad()) {
                std::cout << "key: " << o.key << "\n" << o.message << "\nVIOLATION property=" << g_property << " replay=" << path << std::endl;
                return 1;
            }
            std::cout << "held (kind " << o.kind << ") " << o.message << std::endl;
            return 0;
        }
    }
    std::cerr << "no test " << name << std::endl;
    return 2;
}

static int runAll(int argc, char **argv)
{
    const auto start = now();
    unsigned workers = 8;
    double budget = 0, scale = 1;
    std::string only, replay;
    bool keepGoing = false;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc) {
            replay = argv[++i];
        } else if (a == "--only" && i + 1 < argc) {
            only = argv[++i];
        } else if (a == "--workers" && i + 1 < argc) {
            workers = static_cast<unsigned>(std::atoi(argv[++i]));
        } else if (a == "--budget" && i + 1 < argc) {
            budget = std::atof(argv[++i]);
        } else if (a == "--scale" && i + 1 < argc) {
            scale = std::atof(argv[++i]);
        } else if (a == "--keep-going") {
            keepGoing = true;
        }
    }
    if (const char *s = std::getenv("VERIF_SEED")) {
        s_seed = std::strtoull(s, nullptr, 10);
    }
    if (const char *s = std::getenv("VERIF_TIER")) {
        s_thorough = std::string(s) == "thorough";
    }
    if (!budget) {
        budget = s_thorough ? 600 : 150;
    }
    if (!replay.empty()) {
        return replayFile(replay);
    }

    // known findings: reproduce each one, so that the line is only printed while the defect exists
    const auto listed = readKnown();
    for (const auto &k : listed) {
        bool reproduced = false;
        std::string what = "no reproduction registered";
        for (const auto &r : knowns()) {
            if (r.first != k.first) {
                continue;
            }
            Test t{ "known-" + k.first, 1, 1, r.second };
            auto o = runForked(t, {}, "k");
            reproduced = o.bad() && o.key == k.first;
            what = o.message;
        }
        if (reproduced) {
            std::cout << "KNOWN-FINDING: property=" << g_property << " " << k.first << ": " << k.second << std::endl;
        } else {
            std::cout << "note: known finding " << k.first << " did not reproduce (" << what.substr(0, 200) << ")" << std::endl;
        }
        s_knownKeys.insert(k.first);
    }

    // plan
    struct Item {
        double order;
        unsigned test;
        std::uint64_t idx;
    };
    std::vector<Item> plan;
    for (unsigned t = 0; t < tests().size(); ++t) {
        if (!only.empty() && tests()[t].name != only) {
            continue;
        }
        const auto n = static_cast<std::uint64_t>((s_thorough ? tests()[t].thorough : tests()[t].quick) * scale);
        for (std::uint64_t i = 0; i < n; ++i) {
            plan.push_back(Item{ (static_cast<double>(i) + 0.5) / static_cast<double>(n), t, i });
        }
    }
    std::stable_sort(plan.begin(), plan.end(), [](const Item &a, const Item &b) { return a.order < b.order; });

    auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::memset(static_cast<void *>(sh), 0, sizeof(Shared));
    const auto deadline = start + budget;
    std::vector<std::uint64_t *> mirrors(workers);
    for (auto &m : mirrors) {
        m = static_cast<std::uint64_t *>(mmap(nullptr, s_mirrorCap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }

    struct Found {
        std::size_t pos;
        Outcome o;
    };
    std::vector<Found> found;
    std::set<std::string> foundKeys;

    auto workerMain = [&](unsigned w, std::size_t from) {
        limitProcess();
        const auto err = s_scratch + "/werr" + std::to_string(w);
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        Stats st;
        const auto statPath = s_scratch + "/stat" + std::to_string(w) + "." + std::to_string(from);
        const auto dir = s_scratch + "/w" + std::to_string(w);
        std::size_t counter = 0;
        for (std::size_t pos = from; pos < plan.size(); pos += workers) {
            if (sh->stop || now() > deadline) {
                st.complete = sh->stop ? st.complete : false;
                break;
            }
            sh->current[w] = pos + 1;
            s_mirror = mirrors[w];
            s_mirror[0] = 0;
            const auto &item = plan[pos];
            const auto &t = tests()[item.test];
            Gen g(caseSeed(t, item.idx));
            auto o = runHere(t, g, dir);
            if (o.kind == Outcome::Discarded) {
                ++st.discarded;
                st.labels["discarded: " + t.name + ": " + o.message] += 1;
            } else if (o.kind == Outcome::Known) {
                ++st.known;
            } else {
                ++st.evaluations;
                ++st.perTest[t.name];
                for (const auto &l : g.m_labels) {
                    st.labels[t.name + ": " + l.first] += 1;
                }
                if (g.m_nontrivial) {
                    std::uint64_t h = hashStr(t.name);
                    for (auto c : g.m_choices) {
                        h = (h ^ c) * 1099511628211ull;
                        h ^= h >> 29;
                    }
                    st.nontrivial.insert(h);
                }
                if (g.m_nontrivial && st.samples.size() < 12 && !g.m_description.empty()) {
                    auto d = t.name + ": " + g.m_description.substr(0, 600);
                    for (auto &c : d) {
                        if (c == '\n' || c == '\r') {
                            c = ' ';
                        }
                    }
                    st.samples.push_back(d);
                }
            }
            if (o.bad()) {
                std::ofstream f(s_scratch + "/fail" + std::to_string(w), std::ios::binary);
                f << o.key << '\n' << o.choices.size() << '\n';
                for (auto c : o.choices) {
                    f << c << ' ';
                }
                f << '\n' << o.message << "\nCASE: " << g.m_description;
                f.close();
                st.write(statPath);
                _exit(79);
            }
            if (++counter % 64 == 0) {
                st.write(statPath);
            }
            sh->done[w] = pos + 1;
        }
        st.write(statPath);
        if (__llvm_profile_write_file) {
            __llvm_profile_write_file();
        }
        _exit(0);
    };

    std::map<pid_t, unsigned> running;
    auto spawn = [&](unsigned w, std::size_t from) {
        std::cout.flush();
        const auto pid = fork();
        if (pid == 0) {
            workerMain(w, from);
        }
        running[pid] = w;
    };
    if (plan.empty()) {
        std::cerr << "nothing to run" << std::endl;
        return 2;
    }
    for (unsigned w = 0; w < workers; ++w) {
        sh->current[w] = w + 1;
        spawn(w, w);
    }
    bool wedged = false;
    while (!running.empty()) {
        int status = 0;
        const auto pid = waitpid(-1, &status, WNOHANG);
        if (pid <= 0) {
            if (now() > deadline + g_cpuLimitPerCase * 3 + 60) {
                for (const auto &r : running) {
                    kill(r.first, SIGKILL);
                }
                wedged = true;
            }
            usleep(2000);
            continue;
        }
        const auto it = running.find(pid);
        if (it == running.end()) {
            continue;
        }
        const auto w = it->second;
        running.erase(it);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            continue;
        }
        if (wedged) {
            continue;
        }
        const auto pos = static_cast<std::size_t>(sh->current[w] - 1);
        const auto &t = tests()[plan[pos].test];
        Outcome o;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 79) {
            std::ifstream f(s_scratch + "/fail" + std::to_string(w), std::ios::binary);
            std::string line;
            std::size_t n = 0;
            std::getline(f, o.key);
            f >> n;
            o.choices.resize(n);
            for (auto &c : o.choices) {
                f >> c;
            }
            std::getline(f, line);
            o.message.assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            o.kind = Outcome::Failed;
        } else {
            const auto text = slurp(s_scratch + "/werr" + std::to_string(w), 20000);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 78) {
                o.kind = Outcome::Hung;
                o.key = "hang";
            } else {
                o.kind = Outcome::Crashed;
                o.key = crashKey(text, status);
            }
            o.message = text;
            const auto *buf = mirrors[w];
            o.choices.assign(buf + 1, buf + 1 + std::min<std::uint64_t>(buf[0], s_mirrorCap - 1));
        }
        const bool isNew = foundKeys.insert(t.name + "/" + o.key).second;
        if (isNew) {
            found.push_back(Found{ pos, o });
            if (keepGoing) {
                std::cout << "FOUND " << t.name << " key=" << o.key << "\n" << o.message.substr(0, 1500) << std::endl;
            }
        }
        if (keepGoing) {
            if (pos + workers < plan.size()) {
                sh->current[w] = pos + workers + 1;
                spawn(w, pos + workers);
            }
        } else {
            sh->stop = 1;
        }
    }

    Stats total;
    for (const auto &e : fs::directory_iterator(s_scratch)) {
        if (e.path().filename().string().rfind("stat", 0) == 0 && e.path().extension() != ".tmp") {
            total.merge(e.path().string());
        }
    }
    std::sort(total.samples.begin(), total.samples.end());
    std::vector<std::string> notes;
    if (wedged) {
        notes.push_back("a worker had to be stopped after the time budget was used up");
        total.complete = false;
    }

    // confirm, shrink, report: earliest position first for reproducibility
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.pos < b.pos; });
    int violations = 0;
    for (auto &f : found) {
        const auto &t = tests()[plan[f.pos].test];
        int confirmed = 0;
        Outcome last;
        for (int i = 0; i < 3; ++i) {
            auto o = runForked(t, f.o.choices, "v");
            if (o.bad()) {
                ++confirmed;
                last = o;
            }
        }
        if (confirmed < 3) {
            std::cout << "note: failure of " << t.name << " (" << f.o.key << ") was not reproducible (" << confirmed << "/3), not reported\n"
                      << f.o.message.substr(0, 1500) << std::endl;
            notes.push_back("unreproducible: " + t.name + ": " + f.o.key);
            continue;
        }
        unsigned tries = 0;
        last.choices = last.kind == Outcome::Failed ? last.choices : f.o.choices;
        auto best = shrink(t, last, std::getenv("PBT_SHRINK") ? std::atof(std::getenv("PBT_SHRINK")) : keepGoing ? 15 : 40, tries);
        auto o = runForked(t, best, "v");
        if (!o.bad()) {
            best = f.o.choices;
            o = last;
        }
        std::cout << "shrunk from " << f.o.choices.size() << " to " << best.size() << " choices in " << tries << " runs" << std::endl;
        ++violations;
        report(t, o, best);
        if (!keepGoing) {
            break;
        }
    }
    writeEvidence(total, now() - start, violations, notes);
    std::cout << g_property << ": " << total.evaluations << " cases, " << total.nontrivial.size() << " distinct non-trivial, " << total.discarded
              << " discarded, " << (total.complete ? "complete" : "stopped by time budget") << ", " << (now() - start) << " s" << std::endl;
    if (keepGoing || std::getenv("PBT_VERBOSE")) {
        for (const auto &l : total.labels) {
            std::cout << "   " << l.second << "  " << l.first << "\n";
        }
    }
    return violations ? 1 : 0;
}

} // namespace pbt

int main(int argc, char **argv)
{
    using namespace pbt;
    for (const char *base : { "/dev/shm", "/tmp" }) {
        std::string tmpl = std::string(base) + "/vt.XXXXXX";
        if (char *d = mkdtemp(tmpl.data())) {
            s_scratch = d;
            break;
        }
    }
    if (s_scratch.empty()) {
        std::cerr << "no scratch directory" << std::endl;
        return 2;
    }
    int rc = 2;
    try {
        rc = runAll(argc, argv);
    } catch (const std::exception &e) {
        std::cerr << "engine error: " << e.what() << std::endl;
    }
    std::error_code ec;
    fs::remove_all(s_scratch, ec);
    std::cout.flush();
    _exit(rc);
}
