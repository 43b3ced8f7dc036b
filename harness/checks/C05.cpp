// C05: Matroska tags, attachments, track settings and titles survive saving.
#include "../mkv.h"
#include "scenario.h"
#include <algorithm>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C05";
const char *g_rule = "Matroska/WebM files (own generator: tags with targets, languages, default flags, nested and binary fields, attachments, track names/languages/flags, segment titles; CRC-32, Void, "
                     "over-long and unknown sizes, omitted defaults) whose tags are created, edited via the known fields and by name or removed, whose attachments are added, changed or removed and "
                     "whose tracks and titles are changed and which are saved one to three times; the file is decoded independently and read again by the library; both are compared with a model; "
                     "non-trivial: at least two values";
const char *g_level = "exploration";
}

namespace {

fmt::Tags ofLibrary(MediaFileInfo &file)
{
    auto *const container = dynamic_cast<MatroskaContainer *>(file.container());
    CHECK_MSG(container, "no-container", "");
    return mkv::ofLibrary(*container);
}

void roundTrip(pbt::Gen &g, const fmt::EditOptions &editOptions, unsigned maxEdits)
{
    static const std::vector<fmt::Kind> kinds = { fmt::Kind::Matroska };
    fmt::GenOptions o;
    o.rich = g.chance(1, 3);
    auto s = sc::make(g, o, kinds);
    std::optional<Session> session;
    auto before = s.before;
    const auto rounds = g.range(1, 3);
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        if (auto d = fmt::tagsDifference(before.tags, ofLibrary(session->file)); !d.empty()) {
            pbt::fail("original-read-differs", d + "\n" + diagText(session->diag));
        }
        g.describe(" edits:");
        for (auto n = g.range(1, maxEdits); n; --n) {
            fmt::edit(g, session->file, s.kind, s.model, editOptions);
        }
        if (auto d = fmt::tagsDifference(s.model, ofLibrary(session->file)); !d.empty()) {
            pbt::fail("set-differs", d);
        }
        const auto settings = sc::genSettings(g, before);
        settings.apply(session->file);
        g.describe(settings.describe());
        const auto saveAs = g.chance(1, 6);
        if (saveAs) {
            session->file.setSaveFilePath(s.path + ".new");
        }
        sc::save(*session);
        if (saveAs) {
            s.path += ".new";
        }
        before = sc::analyze(s.kind, s.path, "saved file");
        if (auto d = fmt::tagsDifference(s.model, before.tags); !d.empty()) {
            pbt::fail("file-differs", d + "\n" + diagText(session->diag));
        }
        Session fresh(s.path);
        fresh.parse();
        if (auto d = fmt::tagsDifference(s.model, ofLibrary(fresh.file)); !d.empty()) {
            pbt::fail("read-differs", d + "\n" + diagText(fresh.diag));
        }
    }
    std::size_t values = 0;
    for (const auto &t : s.model) {
        values += t.type == "matroska" || t.type == "attachment" ? t.items.size() : 0;
    }
    if (values > 1) {
        g.nontrivial();
    }
}

} // namespace

PBT_TEST(tags_survive, 25000, 300000)
{
    roundTrip(g, fmt::EditOptions(), 8);
}

PBT_TEST(large_tags_survive, 2500, 40000)
{
    fmt::EditOptions o;
    o.maxText = 20000;
    o.maxPicture = 200000;
    roundTrip(g, o, 5);
}
