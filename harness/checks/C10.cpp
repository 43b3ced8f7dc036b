// C10: a failed or aborted save leaves the original file intact.
#include "fault_injection.h"
#include "mp4.h"
#include "scenario.h"
#include <algorithm>
#include <cstring>
#include <filesystem>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C10";
const char *g_rule = "files of all formats whose tags are edited; saving is aborted at every kind of progress notification or has a write operation fail (once, from then on, or partially), with and "
                     "without a backup on a different partition and with a separate output file; the number of notifications and writes is taken from a dry run of the same changes on a copy; "
                     "non-trivial: saving has been interrupted";
const char *g_level = "exploration";
}

namespace {

struct Case {
    sc::Scenario s;
    sc::Settings settings;
    std::uint64_t seed = 0;
    std::uint64_t edits = 0;
    bool saveAs = false;
    std::string backupDir;
};

Case genCase(pbt::Gen &g)
{
    Case c;
    fmt::GenOptions o;
    o.rich = g.flip();
    o.big = g.chance(1, 3) ? 30 : 1;
    c.s = sc::make(g, o);
    c.settings = sc::genSettings(g, c.s.before);
    c.seed = g.below(1000000);
    c.edits = g.below(4);
    c.saveAs = g.chance(1, 6);
    c.backupDir = g.pick<std::string>({ "", "", "bak" });
    g.describe(c.settings.describe() + (c.saveAs ? " save-as" : "") + (c.backupDir.empty() ? "" : " backup dir"));
    return c;
}

/// Applies the same changes whenever called.
void prepare(const Case &c, Session &session, const std::string &dir, bool describe, pbt::Gen &g)
{
    session.parse();
    auto model = c.s.model;
    pbt::Gen edits(c.seed);
    for (std::uint64_t i = 0; i != c.edits; ++i) {
        fmt::edit(edits, session.file, c.s.kind, model);
    }
    if (describe) {
        g.describe(edits.m_description);
    }
    c.settings.apply(session.file);
    if (c.saveAs) {
        session.file.setSaveFilePath(dir + "/saved" + fmt::extension(c.s.kind));
    }
    if (!c.backupDir.empty()) {
        std::filesystem::create_directories(dir + "/" + c.backupDir);
        session.file.setBackupDirectory(c.backupDir);
    }
}

std::string outputPath(const Case &c, const std::string &dir)
{
    return dir + (c.saveAs ? "/saved" : "/test") + fmt::extension(c.s.kind);
}

struct DryRun {
    std::string result;
    std::uint64_t writes = 0, notifications = 0;
    bool rewritten = false;
};

DryRun dryRun(const Case &c, pbt::Gen &g)
{
    DryRun r;
    const auto dir = g.dir + "/dry";
    std::filesystem::create_directory(dir);
    const auto path = dir + "/test" + fmt::extension(c.s.kind);
    writeFile(path, c.s.file.bytes);
    {
        const auto inode = sc::inode(path);
        Session session(path);
        prepare(c, session, dir, true, g);
        const auto notify = [&r](AbortableProgressFeedback &) { ++r.notifications; };
        AbortableProgressFeedback progress(notify, notify);
        session.diag.clear();
        fault::count();
        try {
            session.file.applyChanges(session.diag, progress);
        } catch (...) {
            fault::disarm();
            pbt::fail("saving-failed", currentExceptionText() + "\n" + diagText(session.diag));
        }
        session.file.close();
        r.writes = fault::disarm();
        r.rewritten = c.saveAs || sc::inode(path) != inode;
    }
    r.result = readFile(outputPath(c, dir));
    std::filesystem::remove_all(dir);
    return r;
}

/// Looks for the complete original content in the backup the diagnostics mention.
bool inReportedBackup(const std::string &dir, const std::string &content, const Diagnostics &diag)
{
    const auto text = diagText(diag, DiagLevel::Debug);
    for (const auto &e : std::filesystem::recursive_directory_iterator(dir)) {
        if (e.is_regular_file() && text.find(e.path().string()) != std::string::npos && readFile(e.path().string()) == content) {
            return true;
        }
    }
    return false;
}

/// The media data must not be affected even if tags are updated in place.
void checkMediaUntouched(const Case &c, const std::string &now)
{
    auto begin = c.s.before.mediaOffset, end = static_cast<std::uint64_t>(c.s.file.bytes.size());
    switch (c.s.kind) {
    case fmt::Kind::Mpeg:
    case fmt::Kind::Adts:
    case fmt::Kind::Flac:
        if (std::any_of(c.s.before.tags.begin(), c.s.before.tags.end(), [](const auto &t) { return t.type == "id3v1"; })) {
            end -= 128;
        }
        break;
    case fmt::Kind::Mp4:
        for (const auto &b : mp4::boxes(c.s.file.bytes, 0, true)) {
            if (b.id == "mdat" || b.id == "moof") {
                const auto size = b.data.size();
                CHECK_MSG(now.size() >= b.dataStart() + size && !std::memcmp(now.data() + b.dataStart(), b.data.data(), size), "media-damaged-in-place",
                    firstDifference(c.s.file.bytes, now));
            }
        }
        return;
    default:
        return;
    }
    if (begin == fmt::unknown || begin > end) {
        return;
    }
    CHECK_MSG(now.size() >= end && !std::memcmp(now.data() + begin, c.s.file.bytes.data() + begin, end - begin), "media-damaged-in-place",
        firstDifference(c.s.file.bytes, now));
}

void afterwards(const Case &c, const DryRun &dry, Session &session, pbt::Gen &g, bool thrown)
{
    const auto dir = g.dir;
    if (!thrown) {
        // claims to be successful, hence the result must be complete
        session.file.close();
        const auto now = readFile(outputPath(c, dir));
        CHECK_MSG(now == dry.result, "incomplete-but-successful", toStr(now.size()) + " instead of " + toStr(dry.result.size()) + " bytes\n" + diagText(session.diag));
        if (c.saveAs) {
            CHECK_MSG(readFile(c.s.path) == c.s.file.bytes, "source-changed", "");
        }
        return;
    }
    session.file.close();
    const auto there = fileExists(c.s.path);
    const auto now = there ? readFile(c.s.path) : std::string();
    if (now == c.s.file.bytes && there) {
        g.label("original in place");
    } else if (dry.rewritten) {
        g.label("original in backup");
        CHECK_MSG(inReportedBackup(dir, c.s.file.bytes, session.diag), "original-lost",
            (there ? toStr(now.size()) : "no") + " instead of " + toStr(c.s.file.bytes.size()) + " bytes\n" + diagText(session.diag, DiagLevel::Debug));
    } else {
        g.label("interrupted in place");
        CHECK_MSG(there, "original-gone", diagText(session.diag));
        checkMediaUntouched(c, now);
    }
}

} // namespace

PBT_TEST(aborting, 21000, 150000)
{
    const auto c = genCase(g);
    const auto dry = dryRun(c, g);
    const auto before = g.chance(1, 10); // before anything has been done
    const auto at = before ? 0 : g.below(dry.notifications + 1);
    g.describe(" abort at " + toStr(at) + "/" + toStr(dry.notifications) + (before ? " beforehand" : ""));
    Session session(c.s.path);
    prepare(c, session, g.dir, false, g);
    std::uint64_t notifications = 0;
    const auto notify = [&](AbortableProgressFeedback &p) {
        if (notifications++ == at) {
            p.tryToAbort();
        }
    };
    AbortableProgressFeedback progress(notify, notify);
    if (before) {
        progress.tryToAbort();
    }
    auto thrown = false;
    session.diag.clear();
    try {
        session.file.applyChanges(session.diag, progress);
    } catch (const OperationAbortedException &) {
        thrown = true;
    } catch (...) {
        pbt::fail("unexpected-exception", currentExceptionText() + "\n" + diagText(session.diag));
    }
    g.label(thrown ? "aborted" : "finished nevertheless");
    if (thrown) {
        g.nontrivial();
    }
    if (thrown && dry.rewritten) {
        CHECK_MSG(fileExists(c.s.path) && readFile(c.s.path) == c.s.file.bytes, "original-not-restored", diagText(session.diag, DiagLevel::Debug));
        for (const auto &e : std::filesystem::recursive_directory_iterator(g.dir)) {
            if (e.is_regular_file() && !(c.saveAs && e.path() == outputPath(c, g.dir))) {
                CHECK_MSG(e.path() == c.s.path, "left-over-file", e.path().string());
            }
        }
    }
    afterwards(c, dry, session, g, thrown);
    if (thrown && dry.rewritten && session.file.path() == c.s.path) {
        // the object can be used to try again
        session.diag.clear();
        try {
            prepare(c, session, g.dir, false, g);
            session.apply();
        } catch (const pbt::Failure &) {
            throw;
        } catch (const pbt::Discard &) {
            throw;
        } catch (...) {
            pbt::fail("second-attempt-failed", currentExceptionText() + "\n" + diagText(session.diag));
        }
        session.file.close();
        CHECK_MSG(readFile(outputPath(c, g.dir)) == dry.result, "second-attempt-differs", firstDifference(dry.result, readFile(outputPath(c, g.dir))));
        g.label("second attempt");
    }
}

PBT_TEST(write_errors, 27000, 200000)
{
    const auto c = genCase(g);
    const auto dry = dryRun(c, g);
    if (!dry.writes) {
        g.discard("nothing to write");
    }
    const auto at = g.below(dry.writes);
    const auto mode = g.pick({ fault::Mode::Once, fault::Mode::Persistent, fault::Mode::Short });
    const auto crossDevice = g.chance(1, 4);
    g.describe(" write " + toStr(at) + "/" + toStr(dry.writes) + " fails" + (mode == fault::Mode::Once ? " once" : mode == fault::Mode::Persistent ? "" : " after a part")
        + (crossDevice ? " cross-device" : ""));
    Session session(c.s.path);
    prepare(c, session, g.dir, false, g);
    session.diag.clear();
    auto thrown = false;
    std::string what;
    fault::arm(at, mode);
    fault::crossDevice(crossDevice);
    try {
        session.apply();
    } catch (const Failure &) {
        thrown = true;
        what = currentExceptionText();
    } catch (const std::ios_base::failure &) {
        thrown = true;
        what = currentExceptionText();
    } catch (...) {
        fault::disarm();
        pbt::fail("unexpected-exception", currentExceptionText() + "\n" + diagText(session.diag));
    }
    const auto triggered = fault::triggered();
    session.file.close(); // before disarming because the stream would otherwise write the data at the wrong offset after a partial write
    fault::disarm();
    if (!triggered) {
        g.discard("write not reached");
    }
    g.nontrivial();
    if (!thrown) {
        session.file.close();
        const auto path = outputPath(c, g.dir);
        CHECK_MSG(mode == fault::Mode::Once && fileExists(path) && readFile(path) == dry.result, "error-not-reported",
            (fileExists(path) ? toStr(readFile(path).size()) : "no") + " instead of " + toStr(dry.result.size()) + " bytes written\n" + diagText(session.diag, DiagLevel::Debug));
        g.label("successfully repeated");
    }
    if (dry.rewritten && !crossDevice) {
        CHECK_MSG(fileExists(c.s.path) && readFile(c.s.path) == c.s.file.bytes, "original-not-restored", what + "\n" + diagText(session.diag, DiagLevel::Debug));
    }
    afterwards(c, dry, session, g, thrown);
}
