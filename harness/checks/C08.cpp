// C08: metadata the user did not touch is kept.
#include "scenario.h"

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C08";
const char *g_rule = "files of all formats with foreign tags (also fields without a name in the library) and all kinds of further structures, of which few or no fields are changed before saving "
                     "one to three times with random settings; all other metadata found by independent parsers must be the same; non-trivial: there are at least three items of metadata";
const char *g_level = "exploration";
}

PBT_TEST(untouched_metadata_is_kept, 90000, 400000)
{
    auto s = sc::make(g);
    std::size_t items = s.before.kept.size();
    for (const auto &t : s.before.tags) {
        items += t.items.size();
    }
    if (items >= 3) {
        g.nontrivial();
    }
    std::optional<Session> session;
    const auto rounds = g.range(1, 3);
    auto before = s.before;
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        sc::editSome(g, session->file, s, 2);
        const auto settings = sc::genSettings(g, before);
        settings.apply(session->file);
        g.describe(settings.describe());
        sc::save(*session);
        const auto after = sc::analyze(s.kind, s.path, "saved file");
        if (const auto d = fmt::tagsDifference(s.model, after.tags); !d.empty()) {
            pbt::fail(std::string("tags-") + fmt::name(s.kind), d + "\n" + diagText(session->diag));
        }
        if (const auto d = fmt::itemsDifference(s.before.kept, after.kept); !d.empty()) {
            pbt::fail(std::string("kept-") + fmt::name(s.kind), d + "\n" + diagText(session->diag));
        }
        before = after;
    }
}
