// C14: editing a damaged file is safe.
#include "../mutate.h"
#include "scenario.h"
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <sstream>
#include <tagparser/abstractattachment.h>
#include <tagparser/abstractcontainer.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/id3/id3v2tag.h>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C14";
const char *g_rule = "generated files of all formats which are damaged (see C13), whose tags are then created, changed or removed and which are saved with random settings, under ASan+UBSan with limits on "
                     "CPU time and file size; if saving is refused the original content must still exist at its path or in the backup, otherwise the file must not be bigger than explained by the edits and "
                     "must be readable again; non-trivial: the damage was noticed (a diagnostic message of at least level warning) and saving was attempted";
const char *g_level = "exploration";
}

namespace {

/// runs an operation; returns whether it succeeded, only documented exceptions are accepted
template <typename F> bool documented(const char *what, const Diagnostics &diag, F &&f)
{
    try {
        f();
        return true;
    } catch (const pbt::Failure &) {
        throw;
    } catch (const TagParser::Failure &) {
    } catch (const std::ios_base::failure &) {
    } catch (...) {
        const auto text = currentExceptionText();
        pbt::fail("undocumented-exception:" + text.substr(0, text.find(": ")) + ":" + what, std::string(what) + ": " + text + "\n" + diagText(diag));
    }
    return false;
}

/// changes tags without having an idea what the file contains; returns the maximum size of what has been added
std::size_t edit(pbt::Gen &g, MediaFileInfo &file)
{
    std::size_t added = 0;
    static const std::vector<KnownField> textFields = { KnownField::Title, KnownField::Artist, KnownField::Album, KnownField::Comment, KnownField::Genre, KnownField::RecordDate, KnownField::Composer,
        KnownField::Lyrics, KnownField::Description, KnownField::TrackPosition, KnownField::Encoder };
    for (auto n = g.below(5); n; --n) {
        switch (g.weighted({ 3, 8, 2, 1, 2, 2, 1, 1 })) {
        case 0: {
            TagCreationSettings s;
            if (g.flip()) {
                s.flags -= TagCreationFlags::KeepExistingId3v2Version;
            }
            s.id3v1usage = g.pick({ TagUsage::Always, TagUsage::KeepExisting, TagUsage::Never });
            s.id3v2usage = g.pick({ TagUsage::Always, TagUsage::KeepExisting, TagUsage::Never });
            s.id3v2MajorVersion = g.pick<std::uint8_t>({ 2, 3, 4 });
            for (auto t = g.below(3); t; --t) {
                s.requiredTargets.emplace_back(g.pick<std::uint64_t>({ 0, 30, 50, 70 }), std::vector<std::uint64_t>{ static_cast<std::uint64_t>(g.below(4)) });
            }
            file.createAppropriateTags(s);
            g.describe(" create-tags");
            added += 2000;
            break;
        }
        case 1: {
            const auto tags = file.tags();
            if (tags.empty()) {
                break;
            }
            auto *const tag = g.pickFrom(tags);
            const auto field = g.pickFrom(textFields);
            const auto text = field == KnownField::TrackPosition ? toStr(g.below(100)) : field == KnownField::RecordDate ? std::string("2001-02-03") : g.text(g.chance(1, 6) ? 3000 : 60, 3);
            const auto encoding = tag->proposedTextEncoding();
            if (canRepresent(text, encoding)) {
                tag->setValue(field, tp::text(text, encoding));
                added += text.size() * 3 + 200;
            }
            g.describe(" set-field");
            break;
        }
        case 2: {
            const auto tags = file.tags();
            if (!tags.empty()) {
                auto *const tag = g.pickFrom(tags);
                TagValue v;
                const auto data = g.bytes(g.length(2000));
                v.assignData(data.data(), data.size(), TagDataType::Picture);
                v.setMimeType("image/jpeg");
                tag->setValue(KnownField::Cover, v);
                added += data.size() * 3 + 1000;
                g.describe(" set-cover");
            }
            break;
        }
        case 3: {
            const auto tags = file.tags();
            if (!tags.empty()) {
                file.removeTag(g.pickFrom(tags));
                g.describe(" remove-tag");
            }
            break;
        }
        case 4: {
            const auto tags = file.tags();
            if (!tags.empty()) {
                g.pickFrom(tags)->removeAllFields();
                g.describe(" clear-tag");
            }
            break;
        }
        case 5:
            if (auto *const container = file.container()) {
                if (container->supportsTitle() && !container->titles().empty()) {
                    container->setTitle("new title", g.below(container->titles().size()));
                    added += 1000;
                }
                if (auto *const attachment = g.flip() ? container->createAttachment() : nullptr) {
                    std::istringstream data(g.bytes(g.length(2000)));
                    attachment->setMimeType("application/octet-stream");
                    attachment->setName("name");
                    attachment->setData(std::make_unique<StreamDataBlock>([stream = std::make_shared<std::istringstream>(std::move(data))]() -> std::istream & { return *stream; }, 0, std::ios_base::cur, 0, std::ios_base::end));
                    added += 4000;
                }
            }
            break;
        case 6: {
            auto *const container = file.container();
            if (container && container->supportsTrackModifications() && container->trackCount()) {
                if (g.chance(1, 4)) {
                    container->removeAllTracks();
                } else if (auto *const track = container->track(g.below(container->trackCount())); container->removeTrack(track)) {
                    delete track;
                }
                g.describe(" remove-track");
                g.label("track removed");
            }
            break;
        }
        default:
            file.removeAllTags();
            g.describe(" remove-all-tags");
        }
    }
    return added;
}

bool exists(const std::string &dir, const std::string &content)
{
    for (const auto &e : std::filesystem::recursive_directory_iterator(dir)) {
        if (e.is_regular_file() && readFile(e.path().string()) == content) {
            return true;
        }
    }
    return false;
}

} // namespace

PBT_TEST(damaged_files, 120000, 1500000)
{
    fmt::GenOptions options;
    options.rich = g.chance(2, 3);
    options.maxPicture = 500;
    const auto kind = g.pickFrom(sc::kinds());
    g.label(fmt::name(kind));
    auto file = fmt::generate(g, kind, options);
    std::string other;
    if (g.chance(1, 12)) {
        other = fmt::generate(g, g.pickFrom(sc::kinds()), options).bytes;
    }
    const auto bytes = g.chance(1, 20) ? file.bytes : mut::mutate(g, std::move(file.bytes), other);
    g.describe(file.what);
    const auto dir = g.dir + "/files";
    std::filesystem::create_directory(dir);
    const auto path = dir + "/test" + fmt::extension(kind);
    writeFile(path, bytes);

    const auto inode = sc::inode(path);
    sc::Settings settings;
    std::string failed;
    std::size_t added = 0;
    auto saved = false, noticed = false;
    {
        Session session(path);
        session.allowId3v1InContainer = true;
        if (g.chance(1, 4)) {
            session.file.setForceFullParse(true);
        }
        if (g.chance(1, 12)) {
            documented("partial parsing", session.diag, [&] { sc::parsePartially(g, session); });
            g.label("parsed partially");
        } else {
            documented("parsing", session.diag, [&] { session.parse(); });
        }
        noticed = countDiag(session.diag, DiagLevel::Warning);
        documented("editing", session.diag, [&] { added = edit(g, session.file); });
        settings = sc::genSettings(g, fmt::Analysis());
        settings.apply(session.file);
        g.describe(settings.describe());
        session.diag.clear();
        saved = documented("saving", session.diag, [&] { session.apply(); });
        failed = diagText(session.diag, DiagLevel::Information);
        session.file.close();
    }
    if (noticed) {
        g.nontrivial();
    }
    const auto now = readFile(path);
    if (!saved) {
        g.label("refused");
        CHECK_MSG(now == bytes || exists(dir, bytes), "original-lost", std::string(sc::inode(path) == inode ? "in place: " : "") + firstDifference(bytes, now) + "\n" + failed);
    } else {
        g.label(now == bytes ? "saved without change" : "saved");
        const auto limit = bytes.size() * 2 + added + settings.preferredPadding * 2 + settings.maxPadding % 10000000 + 50000;
        CHECK_MSG(now.size() <= limit, "grown", "the file grew from " + toStr(bytes.size()) + " to " + toStr(now.size()) + " bytes although only about " + toStr(added) + " bytes have been added");
        Session session(path);
        session.allowId3v1InContainer = true;
        documented("parsing again", session.diag, [&] { session.parse(); });
    }
}
