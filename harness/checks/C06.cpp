// C06: saving never alters the audio and video payload.
#include "scenario.h"
#include "sparse.h"
#include "sparse_writes.h"
#include <algorithm>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4track.h>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C06";
const char *g_rule = "well-formed files of all formats (built by independent generators with and without tags, padding and unusual structures) whose tags and attachments are edited "
                     "randomly and saved one to three times with random layout settings; the media data found by independent parsers (following the indexes of the file) is compared; "
                     "MP4 tracks which are removed and added from another file are considered as well; non-trivial: the file's bytes have changed";
const char *g_level = "exploration";
}

PBT_TEST(payload_is_kept, 60000, 400000)
{
    auto s = sc::make(g);
    std::optional<Session> session;
    const auto rounds = g.range(1, 3);
    auto before = s.before;
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        sc::editSome(g, session->file, s, 4);
        const auto settings = sc::genSettings(g, before);
        settings.apply(session->file);
        g.describe(settings.describe());
        const auto saveAs = g.chance(1, 6);
        if (saveAs) {
            session->file.setSaveFilePath(s.path + ".new");
            g.label("save as");
        }
        sc::save(*session);
        const auto after = sc::analyze(s.kind, saveAs ? s.path + ".new" : s.path, "saved file");
        if (const auto d = fmt::payloadDifference(s.before, after); !d.empty()) {
            pbt::fail(std::string("payload-") + fmt::name(s.kind), d + "\n" + diagText(session->diag));
        }
        if (saveAs) {
            s.path += ".new";
        }
        before = after;
    }
    if (readFile(s.path) != s.file.bytes) {
        g.nontrivial();
    }
}

// Adding and removing tracks makes the library write the media data chunk by chunk.
PBT_TEST(tracks_changed, 12000, 80000)
{
    auto s = sc::make(g, fmt::GenOptions(), { fmt::Kind::Mp4 });
    if (s.before.segmented) {
        g.discard(); // not implemented by the library
    }
    // samples by track, anything else which is not written by track
    using Payload = std::map<std::string, std::string>;
    const auto split = [](const fmt::Analysis &a, std::vector<std::pair<std::string, std::string>> &others) {
        Payload r;
        for (const auto &[name, digest] : a.payload) {
            if (name.rfind("track ", 0) == 0) {
                r[name] = digest;
            } else if (name != "mdat") {
                others.emplace_back(name, digest);
            }
        }
        return r;
    };
    std::vector<std::pair<std::string, std::string>> others, othersAfter;
    auto expected = split(s.before, others);
    const auto nameOf = [](const Payload &payload, std::uint64_t id) {
        for (const auto &[name, digest] : payload) {
            if (name.rfind("track " + toStr(id) + " (", 0) == 0) {
                return name;
            }
        }
        pbt::fail("track-id", "there is no track " + toStr(id));
    };
    // other file which provides tracks
    std::optional<sc::Scenario> other;
    std::optional<Session> otherSession;
    std::vector<std::unique_ptr<AbstractTrack>> removedTracks;
    Session session(s.path);
    session.parse();
    auto *const container = dynamic_cast<Mp4Container *>(session.file.container());
    CHECK_MSG(container && container->supportsTrackModifications(), "no-container", diagText(session.diag));
    CHECK_MSG(container->trackCount() == expected.size(), "track-count", toStr(container->trackCount()) + " != " + toStr(expected.size()));
    if (g.flip()) {
       
        other = sc::make(g, fmt::GenOptions(), { fmt::Kind::Mp4 });
        // sc::make always writes to the same path
        const auto otherPath = g.dir + "/other.m4a";
        writeFile(otherPath, other->file.bytes);
        writeFile(s.path, s.file.bytes);
        if (other->before.segmented) {
            g.discard();
        }
        otherSession.emplace(otherPath);
        otherSession->parse();
    }
    const auto changes = g.range(1, 3);
    auto changed = false;
    for (auto i = 0; i < changes; ++i) {
        if (otherSession && g.flip()) {
            auto *const from = dynamic_cast<Mp4Container *>(otherSession->file.container());
            if (!from->trackCount()) {
                continue;
            }
            auto *const track = from->tracks()[g.below(from->tracks().size())].get();
            std::vector<std::pair<std::string, std::string>> ignored;
            const auto from2 = split(other->before, ignored);
            const auto name = nameOf(from2, track->id());
            auto id = track->id();
            for (const auto &t : container->tracks()) {
                while (std::any_of(container->tracks().begin(), container->tracks().end(), [&](const auto &x) { return x->id() == id; })) {
                    ++id;
                }
                (void)t;
            }
            CHECK_MSG(from->removeTrack(track), "remove-refused", name);
            CHECK_MSG(container->addTrack(track), "add-refused", name);
            CHECK_MSG(track->id() == id, "added-id", toStr(track->id()) + " instead of " + toStr(id));
            expected["track " + toStr(id) + name.substr(name.find(" ("))] = from2.at(name);
            g.label("track added");
            g.describe(" track " + toStr(id) + " added");
        } else if (container->trackCount()) {
            auto *const track = container->tracks()[g.below(container->tracks().size())].get();
            expected.erase(nameOf(expected, track->id()));
            g.describe(" track " + toStr(track->id()) + " removed");
            CHECK_MSG(container->removeTrack(track), "remove-refused", "");
            removedTracks.emplace_back(track);
            g.label("track removed");
        } else {
            continue;
        }
        changed = true;
    }
    if (!changed) {
        g.discard();
    }
    if (g.flip()) {
        sc::editSome(g, session.file, s, 3);
    }
    const auto settings = sc::genSettings(g, s.before);
    settings.apply(session.file);
    g.describe(settings.describe());
    const auto saveAs = g.chance(1, 6);
    if (saveAs) {
        session.file.setSaveFilePath(s.path + ".new");
    }
    session.diag.clear();
    sc::save(session);
    const auto check = [&](const char *when) {
        const auto after = sc::analyze(s.kind, saveAs ? s.path + ".new" : s.path, when);
        othersAfter.clear();
        const auto actual = split(after, othersAfter);
        std::string d;
        for (const auto &[name, digest] : expected) {
            const auto a = actual.find(name);
            if (a == actual.end()) {
                d += name + " is missing\n";
            } else if (a->second != digest) {
                d += name + " differs\n";
            }
        }
        for (const auto &[name, digest] : actual) {
            if (!expected.count(name)) {
                d += name + " is unexpected\n";
            }
        }
        if (others != othersAfter) {
            d += "other media data differs\n";
        }
        if (!d.empty()) {
            pbt::fail("tracks-changed", when + std::string(": ") + d + diagText(session.diag));
        }
        CHECK_MSG(after.problems.empty(), "tracks-changed-structure", when + std::string(": ") + fmt::problemsText(after) + diagText(session.diag));
        CHECK_MSG(fmt::tagsDifference(s.model, after.tags).empty(), "tracks-changed-tags", fmt::tagsDifference(s.model, after.tags));
    };
    check("saved file");
    g.nontrivial();
    // the same object can be used further
    if (g.flip()) {
        session.diag.clear();
        session.parse();
        sc::editSome(g, session.file, s, 2);
        sc::save(session);
        check("file saved again");
    }
}

// Positions beyond 4 GiB; the (sparse) files are only modified in place.
PBT_TEST(huge_files, 400, 4000)
{
    auto s = sparse::make(g, g.pick({ fmt::Kind::Mp4, fmt::Kind::Matroska }));
    std::optional<Session> session;
    for (auto rounds = g.range(1, 2); rounds; --rounds) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        sc::editSome(g, session->file, s, 4);
        if (!sparse::save(*session, s.path)) {
            g.label("would be rewritten");
            g.discard();
        }
        const auto after = sparse::analyze(s.kind, s.path, "saved file");
        if (const auto d = fmt::payloadDifference(s.before, after); !d.empty()) {
            pbt::fail(std::string("huge-payload-") + fmt::name(s.kind), d + "\n" + diagText(session->diag));
        }
        CHECK_MSG(after.problems.empty(), "huge-structure", fmt::problemsText(after) + diagText(session->diag));
        const auto d = fmt::tagsDifference(s.model, after.tags);
        CHECK_MSG(d.empty(), "huge-tags", d + diagText(session->diag));
        g.nontrivial();
    }
}

// The same when the files are rewritten; zeros written by the library become holes again.
PBT_TEST(huge_files_rewritten, 60, 1500)
{
    auto s = sparse::make(g, g.pick({ fmt::Kind::Mp4, fmt::Kind::Matroska }), true);
    Session session(s.path);
    session.parse();
    sc::editSome(g, session.file, s, 3);
    auto settings = sc::genSettings(g, s.before);
    settings.forceRewrite = true;
    settings.apply(session.file);
    g.describe(settings.describe());
    sparse::skipZeros = true;
    struct Reset {
        ~Reset()
        {
            sparse::skipZeros = false;
        }
    } reset;
    sc::save(session);
    const auto after = sparse::analyze(s.kind, s.path, "saved file");
    if (const auto d = fmt::payloadDifference(s.before, after); !d.empty()) {
        pbt::fail(std::string("huge-payload-") + fmt::name(s.kind), d + "\n" + diagText(session.diag));
    }
    CHECK_MSG(after.problems.empty(), "huge-structure", fmt::problemsText(after) + diagText(session.diag));
    const auto d = fmt::tagsDifference(s.model, after.tags);
    CHECK_MSG(d.empty(), "huge-tags", d + diagText(session.diag));
    g.nontrivial();
}
