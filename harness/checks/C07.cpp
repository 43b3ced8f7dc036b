// C07: saved files are structurally valid.
#include "scenario.h"
#include <algorithm>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C07";
const char *g_rule = "well-formed files of all formats whose tags and attachments are edited randomly and saved one to three times with random layout settings; the result is validated by "
                     "strict independent parsers and parsed again by the library (full parse) whose warnings are compared with those about the original; non-trivial: the file's bytes have changed";
const char *g_level = "exploration";
}

namespace {
std::string normalize(std::string s)
{
    // numbers (offsets, sizes) may differ
    std::string r;
    for (const auto c : s) {
        if (c >= '0' && c <= '9') {
            if (r.empty() || r.back() != '#') {
                r += '#';
            }
        } else {
            r += c;
        }
    }
    return r;
}

std::vector<std::string> problemsOf(const std::string &path)
{
    Session s(path);
    s.file.setForceFullParse(true);
    s.parse();
    std::vector<std::string> r;
    for (const auto &d : s.diag) {
        if (d.level() >= DiagLevel::Warning) {
            r.push_back(normalize(d.context() + ": " + d.message()));
        }
    }
    return r;
}
} // namespace

PBT_TEST(result_is_valid, 60000, 300000)
{
    auto s = sc::make(g);
    const auto had = problemsOf(s.path);
    std::optional<Session> session;
    const auto rounds = g.range(1, 3);
    auto before = s.before;
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        sc::editSome(g, session->file, s, 4);
        const auto settings = sc::genSettings(g, before);
        settings.apply(session->file);
        g.describe(settings.describe());
        sc::save(*session);
        before = sc::analyze(s.kind, s.path, "saved file");
        if (!before.problems.empty()) {
            pbt::fail(std::string("invalid-") + fmt::name(s.kind), fmt::problemsText(before) + diagText(session->diag));
        }
        for (const auto &p : problemsOf(s.path)) {
            if (p == "parsing ID#v# tag: ID#v# tag seems to be empty." || p.find("frame: The frame is only supported in ID#v") != std::string::npos) {
                continue; // explicitly requested by removing all fields or adding a field the tag version does not support
            }
            if (std::find(had.begin(), had.end(), p) == had.end()) {
                pbt::fail(std::string("library-reports-problem-") + fmt::name(s.kind), p);
            }
        }
    }
    if (readFile(s.path) != s.file.bytes) {
        g.nontrivial();
    }
}
