// C11: save-as leaves the source untouched; rewrites keep a faithful backup.
#include "scenario.h"
#include <algorithm>
#include <filesystem>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace fs = std::filesystem;
namespace pbt {
const char *g_property = "C11";
const char *g_rule = "files of all formats with various names which are edited and saved to another path (new, existing, other directory) or in place one to three times, with existing backups and "
                     "unrelated files around and with default, relative and absolute backup directories, via plain paths and symbolic links; the same changes done by both ways must give the "
                     "same content; non-trivial: an output file has been written separately or a backup has been created";
const char *g_level = "exploration";
}

namespace {

std::uint64_t applyEdits(std::uint64_t seed, std::uint64_t count, Session &session, fmt::Kind kind, fmt::Tags &model, pbt::Gen *describe)
{
    pbt::Gen edits(seed);
    for (std::uint64_t i = 0; i != count; ++i) {
        fmt::edit(edits, session.file, kind, model);
    }
    if (describe) {
        describe->describe(edits.m_description);
    }
    return count;
}

std::map<std::string, std::string> tree(const std::string &dir)
{
    std::map<std::string, std::string> r;
    for (const auto &e : fs::recursive_directory_iterator(dir)) {
        if (e.is_symlink()) {
            r[e.path().string()] = "-> " + fs::read_symlink(e.path()).string();
        } else if (e.is_regular_file()) {
            r[e.path().string()] = readFile(e.path().string());
        }
    }
    return r;
}

void save(Session &session)
{
    session.diag.clear();
    sc::save(session);
}

std::string genName(pbt::Gen &g, const char *ext)
{
    switch (g.below(8)) {
    case 0:
        return std::string("te.st") + ext;
    case 1:
        return "noextension";
    case 2:
        return std::string("with space ä€") + ext;
    case 3:
        return std::string(".hidden") + ext;
    case 4:
        return std::string("test") + ext + ".bak";
    case 5:
        return std::string("%s%n&'\"") + ext;
    default:
        return std::string("test") + ext;
    }
}

} // namespace

PBT_TEST(save_as, 22500, 150000)
{
    fmt::GenOptions o;
    o.big = g.chance(1, 8) ? 30 : 1;
    auto s = sc::make(g, o);
    const auto ext = fmt::extension(s.kind);
    const auto settings = sc::genSettings(g, s.before);
    const auto seed = g.below(1000000), edits = g.below(4);
    const auto twinDir = g.dir + "/twin";
    fs::create_directory(twinDir);
    const auto twin = twinDir + "/test" + ext;
    writeFile(twin, s.file.bytes);
    // output
    const auto where = g.below(4);
    const auto outDir = g.dir + (where == 1 ? "/öther" : "");
    fs::create_directories(outDir);
    const auto out = outDir + "/saved" + ext;
    auto existing = std::string();
    if (where == 2) {
        writeFile(out, existing = g.bytes(static_cast<std::size_t>(g.below(2) ? s.file.bytes.size() * 2 + 1000 : 10)));
    }
    writeFile(g.dir + "/test" + ext + ".bak", "some other backup");
    writeFile(g.dir + "/unrelated" + ext, "unrelated");
    const auto sourceInode = sc::inode(s.path);
    const auto sourceTime = fs::last_write_time(s.path);
    g.describe(settings.describe() + (where == 1 ? " other dir" : where == 2 ? " existing file" : ""));

    {
        Session session(s.path);
        session.parse();
        applyEdits(seed, edits, session, s.kind, s.model, &g);
        settings.apply(session.file);
        session.file.setSaveFilePath(out);
        const auto before = tree(g.dir);
        save(session);
        CHECK_MSG(session.file.path() == out, "path-not-updated", session.file.path());
        CHECK_MSG(session.file.saveFilePath().empty(), "save-path-kept", std::string(session.file.saveFilePath()));
        session.file.close();
        auto after = tree(g.dir);
        CHECK_MSG(after.count(out), "no-output", "");
        CHECK_MSG(session.file.size() == after[out].size(), "size-not-updated", toStr(session.file.size()) + " instead of " + toStr(after[out].size()));
        for (const auto &f : before) {
            if (f.first != out) {
                CHECK_MSG(after.count(f.first) && after[f.first] == f.second, f.first == s.path ? "source-changed" : "other-file-changed", f.first);
            }
        }
        CHECK_MSG(after.size() == before.size() + (before.count(out) ? 0 : 1), "additional-files", toStr(after.size()) + " " + toStr(before.size()));
        CHECK_MSG(sc::inode(s.path) == sourceInode && fs::last_write_time(s.path) == sourceTime, "source-touched", "");
        // the object refers to the new file
        session.diag.clear();
        session.parse();
        Session fresh(out);
        fresh.parse();
        const auto a = sc::snapshot(session.file), b = sc::snapshot(fresh.file);
        CHECK_MSG(a == b, "object-differs", "object: " + a + "\nfresh: " + b);
    }
    {
        // the same in place
        Session session(twin);
        session.parse();
        auto model = s.before.tags;
        applyEdits(seed, edits, session, s.kind, model, nullptr);
        settings.apply(session.file);
        session.file.setForceRewrite(true);
        save(session);
        session.file.close();
        const auto a = readFile(out), b = readFile(twin);
        CHECK_MSG(a == b, "save-as-differs-from-rewrite", firstDifference(a, b) + diagText(session.diag));
        CHECK_MSG(readFile(twin + ".bak") == s.file.bytes, "backup-differs", "");
    }
    g.nontrivial();
}

PBT_TEST(backups, 22500, 150000)
{
    fmt::GenOptions o;
    o.big = g.chance(1, 8) ? 30 : 1;
    auto s = sc::make(g, o);
    const auto ext = fmt::extension(s.kind);
    // path of the file
    fs::create_directories(g.dir + "/sub.dir");
    const auto name = genName(g, ext);
    const auto real = g.dir + "/sub.dir/" + name;
    fs::rename(s.path, real);
    const auto link = g.chance(1, 4);
    const auto path = link ? g.dir + "/link" + ext : real;
    if (link) {
        fs::create_symlink(real, path);
        g.label("symbolic link");
    }
    // backup directory
    const auto how = g.below(3);
    auto backupDir = std::string(), backupDirPath = g.dir + "/sub.dir";
    if (how == 1) {
        backupDir = "backups";
        backupDirPath += "/backups";
        g.label("relative backup directory");
    } else if (how == 2) {
        backupDir = backupDirPath = g.dir + "/abs backups";
        g.label("absolute backup directory");
    }
    fs::create_directories(backupDirPath);
    // existing files
    const auto stem = BasicFileInfo::fileName(name, true);
    const auto ext2 = std::string(BasicFileInfo::extension(name));
    for (const auto &n : { name + ".bak", name + ".1.bak", name + ".2.bak", name, std::string(stem) + ".1" + ext2, std::string(stem) + ".2" + ext2 }) {
        if (g.chance(1, 3)) {
            const auto p = backupDirPath + "/" + n;
            if (!fs::exists(p)) {
                writeFile(p, "existing " + n);
            }
        }
    }
    writeFile(g.dir + "/unrelated" + ext, "unrelated");
    g.describe(" name " + name + (backupDir.empty() ? "" : " backups in " + backupDir));

    std::optional<Session> session;
    const auto rounds = g.range(1, 3);
    auto analysis = s.before;
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(path);
        }
        session->diag.clear();
        session->parse();
        sc::editSome(g, session->file, s, 3);
        const auto settings = sc::genSettings(g, analysis);
        settings.apply(session->file);
        session->file.setBackupDirectory(backupDir);
        g.describe(settings.describe());
        const auto before = tree(g.dir);
        const auto inode = sc::inode(real);
        save(*session);
        session->file.close();
        CHECK_MSG(session->file.path() == path, "path-changed", session->file.path());
        auto after = tree(g.dir);
        CHECK_MSG(after.count(real), "file-gone", "");
        CHECK_MSG(session->file.size() == after[real].size(), "size-not-updated", toStr(session->file.size()) + " instead of " + toStr(after[real].size()));
        const auto rewritten = sc::inode(real) != inode;
        for (const auto &f : before) {
            if (f.first != real) {
                CHECK_MSG(after.count(f.first) && after[f.first] == f.second, "other-file-changed", f.first);
            }
        }
        std::vector<std::string> created;
        for (const auto &f : after) {
            if (!before.count(f.first)) {
                created.push_back(f.first);
            }
        }
        if (settings.forceRewrite) {
            if (after.at(real) != before.at(real)) {
                CHECK_MSG(rewritten, "not-rewritten", "");
            }
        }
        if (rewritten) {
            g.label("rewritten");
            g.nontrivial();
            CHECK_MSG(created.size() == 1, "number-of-backups", toStr(created.size()));
            CHECK_MSG(fs::path(created.front()).parent_path() == backupDirPath, "location-of-backup", created.front());
            CHECK_MSG(after[created.front()] == before.at(real), "backup-differs", firstDifference(after[created.front()], before.at(real)));
        } else {
            g.label("in place");
            CHECK_MSG(created.empty(), "backup-without-rewrite", created.front());
        }
        analysis = sc::analyze(s.kind, real, "saved file");
    }
}

PBT_TEST(save_as_the_same_file, 7500, 50000)
{
    auto s = sc::make(g);
    const auto ext = fmt::extension(s.kind);
    Session session(s.path);
    session.parse();
    sc::editSome(g, session.file, s, 3);
    const auto settings = sc::genSettings(g, s.before);
    settings.apply(session.file);
    g.describe(settings.describe());
    switch (g.below(3)) {
    case 0:
        session.file.setSaveFilePath(s.path);
        break;
    case 1:
        fs::create_directory(g.dir + "/dir");
        session.file.setSaveFilePath(g.dir + "/dir/../test" + ext);
        break;
    default:
        fs::create_symlink(s.path, g.dir + "/link" + ext);
        session.file.setSaveFilePath(g.dir + "/link" + ext);
    }
    auto thrown = false;
    session.diag.clear();
    try {
        session.apply();
    } catch (const Failure &) {
        thrown = true;
    } catch (const std::ios_base::failure &) {
        thrown = true;
    }
    session.file.close();
    if (thrown) { // might be refused
        CHECK_MSG(readFile(s.path) == s.file.bytes, "original-lost", diagText(session.diag));
        return;
    }
    g.nontrivial();
    const auto after = sc::analyze(s.kind, s.path, "saved file");
    if (const auto d = fmt::tagsDifference(s.model, after.tags); !d.empty()) {
        pbt::fail("tags", d + "\n" + diagText(session.diag));
    }
    if (const auto d = fmt::payloadDifference(s.before, after); !d.empty()) {
        pbt::fail("original-lost", d + "\n" + diagText(session.diag));
    }
}

PBT_TEST(backup_impossible, 1500, 20000)
{
    // the original must be kept if no backup can be created
    auto s = sc::make(g);
    Session session(s.path);
    session.parse();
    sc::editSome(g, session.file, s, 2);
    session.file.setForceRewrite(true);
    session.file.setBackupDirectory(g.flip() ? g.dir + "/does not exist" : "does/not/exist");
    auto thrown = false;
    try {
        session.apply();
    } catch (const std::ios_base::failure &) {
        thrown = true;
    } catch (...) {
        pbt::fail("unexpected-exception", currentExceptionText());
    }
    session.file.close();
    CHECK_MSG(fileExists(s.path) && (!thrown || readFile(s.path) == s.file.bytes), "original-damaged", diagText(session.diag));
    if (!thrown) {
        // only acceptable if nothing had to be rewritten
        CHECK_MSG(readFile(s.path) == s.file.bytes, "changed-without-backup", diagText(session.diag));
    }
    g.nontrivial();
}
