#include "scenario.h"
#include "mp4.h"
#include "vorbis.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <sys/stat.h>
#include <tagparser/abstractattachment.h>
#include <tagparser/abstractchapter.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mp4/mp4tag.h>

using namespace TagParser;
using namespace util;

namespace sc {

std::string Settings::describe() const
{
    std::string r = " [";
    r += forceRewrite ? "rewrite" : "in-place";
    r += " padding " + toStr(minPadding) + ".." + toStr(maxPadding) + " preferred " + toStr(preferredPadding);
    const auto pos = [](ElementPosition p) { return p == ElementPosition::BeforeData ? "before" : p == ElementPosition::AfterData ? "after" : "keep"; };
    r += std::string(" tags ") + (forceTagPosition ? "forced " : "") + pos(tagPosition) + " index " + (forceIndexPosition ? "forced " : "") + pos(indexPosition) + "]";
    return r;
}

void Settings::apply(MediaFileInfo &f) const
{
    f.setForceRewrite(forceRewrite);
    f.setMinPadding(minPadding);
    f.setMaxPadding(maxPadding);
    f.setPreferredPadding(preferredPadding);
    f.setTagPosition(tagPosition);
    f.setIndexPosition(indexPosition);
    f.setForceTagPosition(forceTagPosition);
    f.setForceIndexPosition(forceIndexPosition);
}

Settings genSettings(pbt::Gen &g, const fmt::Analysis &a)
{
    Settings s;
    s.forceRewrite = g.flip();
    const auto have = a.padding == fmt::unknown ? 0 : a.padding;
    switch (g.below(4)) {
    case 0: // anything is fine
        s.maxPadding = 10000000;
        break;
    case 1:
        s.maxPadding = have + g.length(500);
        s.minPadding = g.flip() ? 0 : g.length(s.maxPadding);
        break;
    case 2:
        s.minPadding = g.length(100);
        s.maxPadding = s.minPadding + g.length(2000);
        break;
    default:; // no padding at all
    }
    s.preferredPadding = g.chance(1, 4) ? g.length(20) : s.minPadding + g.length(s.maxPadding - s.minPadding > 5000 ? 5000 : s.maxPadding - s.minPadding);
    const auto pos = [&] { return g.pick({ ElementPosition::BeforeData, ElementPosition::AfterData, ElementPosition::Keep }); };
    s.tagPosition = pos();
    s.indexPosition = pos();
    s.forceTagPosition = g.flip();
    s.forceIndexPosition = g.flip();
    return s;
}

const std::vector<fmt::Kind> &kinds()
{
    static const auto list = [] {
        std::vector<fmt::Kind> r;
        const auto *const e = std::getenv("PBT_KINDS");
        for (const auto k : { fmt::Kind::Mpeg, fmt::Kind::Adts, fmt::Kind::Wav, fmt::Kind::Ivf, fmt::Kind::Flac, fmt::Kind::Ogg, fmt::Kind::Mp4, fmt::Kind::Matroska }) {
            if (!e || std::strstr(e, fmt::name(k))) {
                r.push_back(k);
            }
        }
        return r;
    }();
    return list;
}

fmt::Analysis analyze(fmt::Kind kind, const std::string &path, const char *when)
{
    try {
        return fmt::analyze(kind, readFile(path));
    } catch (const Malformed &e) {
        pbt::fail("malformed-file", std::string(when) + ": " + e.what());
    }
}

Scenario make(pbt::Gen &g, const fmt::GenOptions &o, const std::vector<fmt::Kind> &kinds)
{
    Scenario s;
    s.kind = kinds[g.below(kinds.size())];
    g.label(fmt::name(s.kind));
    s.file = fmt::generate(g, s.kind, o);
    s.path = g.dir + "/test" + fmt::extension(s.kind);
    writeFile(s.path, s.file.bytes);
    if (const auto *const copy = std::getenv("PBT_COPY")) {
        writeFile(copy, s.file.bytes); // for development
    }
    s.before = analyze(s.kind, s.path, "generated file");
    // the generator and the independent parser must agree
    CHECK_MSG(s.before.problems.empty(), "generated-file-invalid", fmt::problemsText(s.before) + s.file.what);
    s.model = s.before.tags;
    g.describe(s.file.what + " " + fmt::dump(s.model));
    return s;
}

void editSome(pbt::Gen &g, MediaFileInfo &file, Scenario &s, std::size_t max, const fmt::EditOptions &o)
{
    g.describe(" edits:");
    for (auto n = g.below(max + 1); n; --n) {
        fmt::edit(g, file, s.kind, s.model, o);
    }
}

void save(tp::Session &s)
{
    s.diag.clear();
    try {
        s.apply();
    } catch (const pbt::Failure &) {
        throw;
    } catch (...) {
        pbt::fail("saving-failed", tp::currentExceptionText() + "\n" + tp::diagText(s.diag));
    }
}

void parsePartially(pbt::Gen &g, tp::Session &session)
{
    auto &f = session.file;
    f.open();
    f.parseContainerFormat(session.diag, session.progress); // required
    for (auto n = g.length(8); n; --n) {
        const auto what = g.below(9);
        g.describe(" step " + toStr(what));
        switch (what) {
        case 0:
            f.parseContainerFormat(session.diag, session.progress);
            break;
        case 1:
            f.parseTracks(session.diag, session.progress);
            break;
        case 2:
            f.parseTags(session.diag, session.progress);
            break;
        case 3:
            f.parseChapters(session.diag, session.progress);
            break;
        case 4:
            f.parseAttachments(session.diag, session.progress);
            break;
        case 5:
            if (g.chance(1, 4)) {
                g.describe(" clear");
                f.clearParsingResults();
                f.parseContainerFormat(session.diag, session.progress);
            }
            break;
        case 6:
            if (g.chance(1, 4)) {
                g.describe(" reopen");
                f.close();
                f.open(); // discards the results
                f.parseContainerFormat(session.diag, session.progress);
            }
            break;
        case 7:
            (void)snapshot(f);
            break;
        default:
            (void)f.hasAnyTag();
            (void)f.tags();
            (void)f.vorbisComment();
            (void)f.mp4Tag();
            (void)f.technicalSummary();
            (void)f.hasTracksOfType(MediaType::Audio);
            (void)f.availableLanguages();
            (void)f.areTagsSupported();
            (void)f.effectiveSize();
            (void)f.paddingSize();
        }
    }
}

std::uint64_t inode(const std::string &path)
{
    struct stat st;
    return stat(path.data(), &st) ? 0 : st.st_ino;
}

std::string snapshot(MediaFileInfo &f)
{
    std::string r;
    r += "container " + std::string(f.containerFormatName()) + " " + std::string(f.containerFormatAbbreviation()) + " " + toStr(f.size()) + " bytes, stream at "
        + toStr(f.containerOffset()) + "\n";
    r += "status " + toStr(static_cast<unsigned>(f.containerParsingStatus())) + toStr(static_cast<unsigned>(f.tagsParsingStatus()))
        + toStr(static_cast<unsigned>(f.tracksParsingStatus())) + toStr(static_cast<unsigned>(f.chaptersParsingStatus()))
        + toStr(static_cast<unsigned>(f.attachmentsParsingStatus())) + "\n";
    r += "padding " + toStr(f.paddingSize()) + " duration " + std::to_string(f.duration().totalSeconds()) + "\n";
    if (f.container()) {
        const auto &c = *f.container();
        r += "doctype " + c.documentType() + " v" + toStr(c.version()) + "/" + toStr(c.readVersion()) + " ";
        for (const auto &t : c.titles()) {
            r += " title " + pbt::quote(t);
        }
        for (const auto &t : c.muxingApplications()) {
            r += " muxer " + pbt::quote(t);
        }
        r += " creation " + std::to_string(c.creationTime().totalTicks()) + " mod " + std::to_string(c.modificationTime().totalTicks()) + " timescale " + toStr(c.timeScale()) + "\n";
    }
    for (const auto *const t : f.tracks()) {
        r += "track " + toStr(t->trackNumber()) + " id " + toStr(t->id()) + " type " + std::string(t->mediaTypeName()) + " format " + std::string(t->formatName()) + "/"
            + t->formatId() + " name " + pbt::quote(t->name()) + " lang " + std::string(t->locale().someAbbreviatedName()) + " duration "
            + std::to_string(t->duration().totalSeconds()) + " rate " + toStr(t->samplingFrequency()) + " channels " + toStr(t->channelCount()) + " bits "
            + toStr(t->bitsPerSample()) + " samples " + toStr(t->sampleCount()) + " size " + toStr(t->size()) + " pixels " + t->pixelSize().toString() + " flags "
            + toStr((t->isEnabled() ? 1u : 0u) + (t->isDefault() ? 2u : 0u) + (t->isForced() ? 4u : 0u) + (t->isEncrypted() ? 8u : 0u)) + "\n";
    }
    for (const auto *const t : f.parsedTags()) {
        r += "tag " + std::string(t->typeName()) + " v" + t->version() + " target " + t->targetString() + " " + toStr(t->target().tracks().size()) + " fields "
            + toStr(t->fieldCount()) + " size " + toStr(t->size()) + "\n";
        if (const auto *const v2 = dynamic_cast<const Id3v2Tag *>(t)) {
            auto items = id3m::ofLibrary(*v2);
            id3m::sort(items);
            r += id3m::dump(items) + "\n";
            continue;
        }
        if (const auto *const vc = dynamic_cast<const VorbisComment *>(t)) {
            auto items = vorbis::ofLibrary(*vc);
            id3m::sort(items);
            r += id3m::dump(items) + "\n";
            continue;
        }
        if (const auto *const m = dynamic_cast<const Mp4Tag *>(t)) {
            auto items = mp4::ofLibrary(*m);
            id3m::sort(items);
            r += id3m::dump(items) + "\n";
            continue;
        }
        for (auto k = firstKnownField; k != KnownField::Invalid; k = nextKnownField(k)) {
            for (const auto *const v : t->values(k)) {
                r += "  " + toStr(static_cast<unsigned>(k)) + "=" + tp::canon(*v) + "\n";
            }
        }
        if (const auto *const m = dynamic_cast<const MatroskaTag *>(t)) {
            for (const auto &fd : m->fields()) {
                r += "  " + fd.first + "=" + tp::canon(fd.second.value()) + " nested " + toStr(fd.second.nestedFields().size()) + "\n";
            }
        }
    }
    for (const auto *const c : f.chapters()) {
        r += "chapter " + toStr(c->id()) + " " + std::to_string(c->startTime().totalSeconds()) + ".." + std::to_string(c->endTime().totalSeconds());
        for (const auto &n : c->names()) {
            r += " " + pbt::quote(n);
        }
        r += "\n";
    }
    for (const auto *const a : f.attachments()) {
        r += "attachment " + toStr(a->id()) + " " + pbt::quote(a->name()) + " " + pbt::quote(a->description()) + " " + a->mimeType();
        if (a->data()) {
            r += " " + toStr(static_cast<std::uint64_t>(a->data()->size()));
        }
        r += "\n";
    }
    return r;
}

} // namespace sc
