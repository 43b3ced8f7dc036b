// C22: file name and path helpers are mutually consistent.
#include "pbt.h"
#include "util.h"

#include <tagparser/backuphelper.h>
#include <tagparser/basicfileinfo.h>
#include <tagparser/mediafileinfo.h>

#include <filesystem>

using namespace TagParser;
using namespace util;
namespace pbt {
const char *g_property = "C22";
const char *g_rule = "paths composed of directories, names and extensions with and without dots, slashes and backslashes; backup creation in scratch directories holding arbitrary existing files; non-trivial: a dot in a directory, several dots, no extension, or an existing backup";
const char *g_level = "exploration";
}

static std::string genName(pbt::Gen &g, bool dots)
{
    std::string r;
    const auto n = g.range(1, 3);
    for (std::int64_t i = 0; i < n; ++i) {
        switch (g.below(dots ? 5 : 4)) {
        case 0:
            r += g.asciiWord(6);
            break;
        case 1:
            r += g.pick<std::string>({ " ", "-", "_", "~", "(1)", "#", "%20" });
            break;
        case 2:
            r += g.pick<std::string>({ "\xc3\xa4", "\xe3\x81\x82", "\xf0\x9f\x8e\xb5" });
            break;
        case 3:
            r += std::to_string(g.below(100));
            break;
        default:
            r += '.';
            r += g.asciiWord(3, 0);
        }
    }
    return r;
}
static std::string decode(std::string s)
{
    return s;
}

PBT_TEST(components, 900000, 6000000)
{
    // model: directory + separator + base + extension
    std::string dir;
    const auto depth = g.below(4);
    const auto absolute = g.flip();
    bool dotInDir = false;
    for (std::uint64_t i = 0; i < depth; ++i) {
        if (i || absolute) {
            dir += g.chance(1, 8) ? '\\' : '/';
        }
        const auto name = g.chance(1, 8) ? std::string(g.flip() ? ".." : ".") : genName(g, true);
        dotInDir = dotInDir || name.find('.') != std::string::npos;
        dir += name;
    }
    const auto hasDir = depth || absolute;
    const auto sep = hasDir ? std::string(1, g.chance(1, 8) ? '\\' : '/') : std::string();
    const auto base = g.chance(1, 12) ? std::string() : genName(g, true);
    const auto ext = g.weighted({ 5, 2, 1 }) == 0 ? "." + g.asciiWord(4) : std::string();
    const auto name = base + ext;
    if (name.empty() || name == "." || name == "..") {
        g.discard("no file name");
    }
    const auto path = dir + sep + name;
    g.describe(pbt::quote(path));
    // what the extension of the name is, stated independently: from the last dot of the *file name* on
    const auto dot = name.rfind('.');
    const auto expectedExt = dot == std::string::npos ? std::string() : name.substr(dot);
    const auto expectedBase = dot == std::string::npos ? name : name.substr(0, dot);
    if (dotInDir) {
        g.label("dot in directory");
    }
    if (expectedExt.empty()) {
        g.label("no extension");
    }
    if (dotInDir || expectedExt.empty() || base.find('.') != std::string::npos) {
        g.nontrivial();
    }
    for (int viaObject = 0; viaObject < 2; ++viaObject) {
        const BasicFileInfo info(path);
        const auto fileName = viaObject ? info.fileName() : BasicFileInfo::fileName(path);
        const auto cut = viaObject ? info.fileName(true) : BasicFileInfo::fileName(path, true);
        const auto extension = viaObject ? info.extension() : BasicFileInfo::extension(path);
        const auto without = viaObject ? info.pathWithoutExtension() : BasicFileInfo::pathWithoutExtension(path);
        const auto containing = viaObject ? info.containingDirectory() : BasicFileInfo::containingDirectory(path);
        CHECK_MSG(info.path() == path, "path", info.path());
        CHECK_MSG(fileName == name, "file-name", pbt::quote(path) + " gives " + pbt::quote(fileName));
        CHECK_MSG(extension == expectedExt, "extension", pbt::quote(path) + " gives " + pbt::quote(extension));
        CHECK_MSG(cut == expectedBase, "file-name-without-extension", pbt::quote(path) + " gives " + pbt::quote(cut));
        CHECK_MSG(cut + extension == fileName, "name-composition", pbt::quote(path));
        CHECK_MSG(without + extension == path, "path-composition", pbt::quote(path) + " gives " + pbt::quote(without) + " and " + pbt::quote(extension));
        CHECK_MSG(without == dir + sep + expectedBase, "path-without-extension", pbt::quote(path) + " gives " + pbt::quote(without));
        CHECK_MSG(containing == dir, "containing-directory", pbt::quote(path) + " gives " + pbt::quote(containing));
        CHECK_MSG(containing + sep + fileName == path, "directory-composition", pbt::quote(path));
    }
    // changing the path of an object
    BasicFileInfo info{ std::string_view("/some/where.else/x.y") };
    info.setPath(std::string_view(path));
    CHECK_MSG(info.path() == path && info.fileName() == name && !info.isOpen(), "set-path", pbt::quote(path));
    CHECK_MSG(decode(info.extension()) == expectedExt, "set-path-extension", pbt::quote(path));
}

PBT_TEST(backup_names, 24000, 200000)
{
    namespace fs = std::filesystem;
    const auto own = g.dir + "/dir" + (g.flip() ? ".with.dots" : "");
    fs::create_directories(own);
    auto name = genName(g, g.flip());
    if (name[0] == '.') {
        name = "x" + name;
    }
    if (g.flip()) {
        name += "." + g.asciiWord(4);
    }
    const auto path = own + "/" + name;
    const auto content = g.bytes(g.length(100));
    writeFile(path, content);
    // where the backup goes
    std::string backupDir, expectedDir;
    const auto where = g.below(4);
    switch (where) {
    case 0:
        expectedDir = own;
        break;
    case 1:
        backupDir = expectedDir = g.dir + "/backups." + g.asciiWord(3);
        fs::create_directories(expectedDir);
        break;
    case 2:
        backupDir = "rel" + g.asciiWord(3);
        expectedDir = own + "/" + backupDir;
        fs::create_directories(expectedDir);
        break;
    default:
        backupDir = expectedDir = own; // the very directory of the file
    }
    // files which are already there
    const auto dot = name.rfind('.');
    const auto base = name.substr(0, dot), ext = dot == std::string::npos ? std::string() : name.substr(dot);
    std::map<std::string, std::string> existing;
    auto addExisting = [&](const std::string &p) {
        if (p != path) {
            existing[p] = "existing " + p;
            writeFile(p, existing[p]);
        }
    };
    const auto occupied = g.below(4);
    for (std::uint64_t i = 0; i < occupied; ++i) {
        if (backupDir.empty()) {
            addExisting(i ? path + "." + std::to_string(i) + ".bak" : path + ".bak");
        } else {
            addExisting(i ? expectedDir + "/" + base + "." + std::to_string(i) + ext : expectedDir + "/" + name);
        }
    }
    if (g.flip()) {
        addExisting(expectedDir + "/unrelated.bak");
    }
    g.describe(pbt::quote(name) + " backup dir kind " + toStr(where) + ", " + toStr(existing.size()) + " existing files");
    g.label("dir kind " + toStr(where));
    g.label("occupied " + toStr(occupied));
    if (occupied || name.find('.') == std::string::npos) {
        g.nontrivial();
    }
    std::string backupPath, original = path;
    CppUtilities::NativeFileStream originalStream, backupStream;
    if (g.flip()) {
        originalStream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        originalStream.open(path, std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    }
    const auto canonical = g.flip();
    if (canonical) {
        BackupHelper::createBackupFileCanonical(backupDir, original, backupPath, originalStream, backupStream);
    } else {
        BackupHelper::createBackupFile(backupDir, original, backupPath, originalStream, backupStream);
    }
    CHECK_MSG(!backupPath.empty() && backupPath != path && original == fs::canonical(own).string() + "/" + name, "backup-is-original", pbt::quote(backupPath));
    CHECK_MSG(!existing.count(backupPath), "backup-overwrites", pbt::quote(backupPath));
    CHECK_MSG(fs::weakly_canonical(fs::path(backupPath)).parent_path() == fs::weakly_canonical(fs::path(expectedDir)), "backup-directory", pbt::quote(backupPath) + " is not in " + expectedDir);
    CHECK_MSG(readFile(backupPath) == content, "backup-content", pbt::quote(backupPath));
    CHECK_MSG(!fileExists(path), "original-not-moved", pbt::quote(path));
    CHECK_MSG(backupStream.is_open() && !originalStream.is_open(), "backup-streams", "not open");
    for (const auto &e : existing) {
        CHECK_MSG(readFile(e.first) == e.second, "existing-file-modified", e.first);
    }
    // restoring puts it back
    if (g.flip()) {
        originalStream.open(path, std::ios_base::out | std::ios_base::binary | std::ios_base::trunc);
        originalStream << "half-written";
    }
    BackupHelper::restoreOriginalFileFromBackupFile(original, backupPath, originalStream, backupStream);
    CHECK_MSG(readFile(path) == content && !fileExists(backupPath), "restore", pbt::quote(path));
    for (const auto &e : existing) {
        CHECK_MSG(readFile(e.first) == e.second, "existing-file-modified-by-restore", e.first);
    }
}
