// C12: saving is idempotent and the object in memory matches the file.
#include "scenario.h"

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C12";
const char *g_rule = "files of all formats which are edited and saved; saving again without changes must not change a byte, and one object which is parsed, edited and saved up to five times must show "
                     "the same as a fresh object opened on the file after each step; non-trivial: the first save changed the file";
const char *g_level = "exploration";
}

namespace {

void compareWithFresh(Session &session, const std::string &path, const char *when)
{
    Session fresh(path);
    fresh.parse();
    const auto a = sc::snapshot(session.file), b = sc::snapshot(fresh.file);
    CHECK_MSG(a == b, "object-differs", std::string(when) + "\nobject: " + a + "\nfresh: " + b);
    const auto c = diagText(session.diag), d = diagText(fresh.diag);
    CHECK_MSG(c == d, "diagnostics-differ", std::string(when) + "\nobject: " + c + "\nfresh: " + d);
}

} // namespace

PBT_TEST(saving_is_idempotent, 24000, 200000)
{
    auto s = sc::make(g);
    Session session(s.path);
    session.parse();
    sc::editSome(g, session.file, s, 4);
    const auto settings = sc::genSettings(g, s.before);
    settings.apply(session.file);
    g.describe(settings.describe());
    sc::save(session);
    session.file.close();
    const auto first = readFile(s.path);
    if (first != s.file.bytes) {
        g.nontrivial();
    }
    const auto n = g.range(1, 3);
    for (std::int64_t i = 0; i != n; ++i) {
        if (g.flip()) {
            g.label("same object");
            session.diag.clear();
            session.parse();
            sc::save(session);
            session.file.close();
        } else {
            Session other(s.path);
            other.parse();
            settings.apply(other.file);
            sc::save(other);
        }
        const auto next = readFile(s.path);
        CHECK_MSG(next == first, "second-save-differs", firstDifference(first, next));
        session.file.invalidate();
    }
}

PBT_TEST(object_matches_file, 24000, 200000)
{
    auto s = sc::make(g);
    Session session(s.path);
    session.parse();
    const auto rounds = g.range(1, 5);
    for (std::int64_t i = 0; i != rounds; ++i) {
        sc::editSome(g, session.file, s, 3);
        const auto settings = sc::genSettings(g, sc::analyze(s.kind, s.path, "file"));
        settings.apply(session.file);
        g.describe(settings.describe());
        if (g.chance(1, 5)) {
            s.path = g.dir + "/round" + toStr(static_cast<std::uint64_t>(i)) + fmt::extension(s.kind);
            session.file.setSaveFilePath(s.path);
            g.label("save as");
        }
        sc::save(session);
        session.diag.clear();
        if (g.chance(1, 4)) {
            session.file.clearParsingResults();
        }
        session.parse();
        compareWithFresh(session, s.path, "after saving");
        // the result is also what has been expected
        const auto after = sc::analyze(s.kind, s.path, "saved file");
        if (const auto d = fmt::tagsDifference(s.model, after.tags); !d.empty()) {
            pbt::fail("tags", d + "\n" + diagText(session.diag));
        }
        if (g.chance(1, 4)) {
            session.diag.clear();
            session.parse(); // parsing once more does not change anything
            const auto again = sc::snapshot(session.file);
            Session fresh(s.path);
            fresh.parse();
            CHECK_MSG(again == sc::snapshot(fresh.file), "parsing-twice", again);
        }
    }
    if (readFile(s.path) != s.file.bytes) {
        g.nontrivial();
    }
}

// It does not matter in which order (and how often) the parts of a file are parsed.
PBT_TEST(parsing_order, 24000, 200000)
{
    auto s = sc::make(g);
    Session session(s.path);
    const auto full = g.chance(1, 4);
    session.file.setForceFullParse(full);
    sc::parsePartially(g, session);
    session.parse();
    Session fresh(s.path);
    fresh.file.setForceFullParse(full);
    fresh.parse();
    const auto a = sc::snapshot(session.file), b = sc::snapshot(fresh.file);
    CHECK_MSG(a == b, "parsing-order", "object: " + a + "\nfresh: " + b);
    g.nontrivial();
    if (g.flip()) {
        // the same results when saving
        const auto settings = sc::genSettings(g, s.before);
        for (auto *const f : { &session, &fresh }) {
            settings.apply(f->file);
        }
        auto model = s.model;
        fresh.file.setSaveFilePath(s.path + ".fresh");
        session.file.setSaveFilePath(s.path + ".session");
        sc::save(fresh);
        sc::save(session);
        fresh.file.close();
        session.file.close();
        const auto x = readFile(s.path + ".fresh"), y = readFile(s.path + ".session");
        CHECK_MSG(x == y, "parsing-order-saving", firstDifference(x, y));
    }
}
