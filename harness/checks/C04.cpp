// C04: MP4 tags survive saving.
#include "mp4.h"
#include "scenario.h"
#include <algorithm>
#include <tagparser/mp4/mp4container.h>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C04";
const char *g_rule = "MP4 files (own generator: foreign tags with text in UTF-8 and UTF-16, integers of all sizes, positions, genres, covers, free-form fields, unknown types, several values per "
                     "field, languages) whose tag is created, edited via the known fields and free-form fields or removed and saved one to three times; the ilst box is decoded independently "
                     "and the tag is read again by the library; both are compared with a model value by value and in order; non-trivial: at least two values or a non-ASCII value";
const char *g_level = "exploration";
}

namespace {

fmt::Tags ofLibrary(MediaFileInfo &file)
{
    fmt::Tags r;
    for (std::size_t i = 0; file.container() && i != file.container()->tagCount(); ++i) {
        r.push_back({ "mp4", mp4::ofLibrary(*static_cast<Mp4Tag *>(file.container()->tag(i))), std::string() });
    }
    return r;
}

void roundTrip(pbt::Gen &g, const fmt::EditOptions &editOptions, unsigned maxEdits)
{
    static const std::vector<fmt::Kind> kinds = { fmt::Kind::Mp4 };
    fmt::GenOptions o;
    o.rich = g.chance(1, 4);
    auto s = sc::make(g, o, kinds);
    std::optional<Session> session;
    auto before = s.before;
    const auto rounds = g.range(1, 3);
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        if (auto d = fmt::tagsDifference(before.tags, ofLibrary(session->file)); !d.empty()) {
            pbt::fail("original-read-differs", d + "\n" + diagText(session->diag));
        }
        g.describe(" edits:");
        for (auto n = g.range(1, maxEdits); n; --n) {
            fmt::edit(g, session->file, s.kind, s.model, editOptions);
        }
        if (auto d = fmt::tagsDifference(s.model, ofLibrary(session->file)); !d.empty()) {
            pbt::fail("set-differs", d);
        }
        const auto settings = sc::genSettings(g, before);
        settings.apply(session->file);
        g.describe(settings.describe());
        const auto saveAs = g.chance(1, 6);
        if (saveAs) {
            session->file.setSaveFilePath(s.path + ".new");
        }
        sc::save(*session);
        if (saveAs) {
            s.path += ".new";
        }
        before = sc::analyze(s.kind, s.path, "saved file");
        if (auto d = fmt::tagsDifference(s.model, before.tags); !d.empty()) {
            pbt::fail("file-differs", d + "\n" + diagText(session->diag));
        }
        Session fresh(s.path);
        fresh.parse();
        if (auto d = fmt::tagsDifference(s.model, ofLibrary(fresh.file)); !d.empty()) {
            pbt::fail("read-differs", d + "\n" + diagText(fresh.diag));
        }
    }
    std::size_t values = 0;
    for (const auto &t : s.model) {
        for (const auto &i : t.items) {
            values += 1 + (std::any_of(i.canon.begin(), i.canon.end(), [](char c) { return c & 0x80; }) ? 1 : 0);
        }
    }
    if (values > 1) {
        g.nontrivial();
    }
}

} // namespace

PBT_TEST(tags_survive, 25000, 300000)
{
    roundTrip(g, fmt::EditOptions(), 8);
}

PBT_TEST(large_tags_survive, 2500, 40000)
{
    fmt::EditOptions o;
    o.maxText = 4000;
    o.maxPicture = 200000;
    roundTrip(g, o, 5);
}
