// C20: Technical information matches what the stream declares
#include "../fmt.h"
#include "../minimal.h"
#include "../mpeg.h"
#include "../mp4.h"
#include "../scenario.h"
#include <cmath>
#include <cstring>
#include <map>
#include <c++utilities/io/binaryreader.h>
#include <set>
#include <sstream>
#include <tagparser/abstractattachment.h>
#include <tagparser/abstractchapter.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/adts/adtsframe.h>
#include <tagparser/flac/flacmetadata.h>
#include <tagparser/mpegaudio/mpegaudioframe.h>
#include <tagparser/ogg/oggiterator.h>
#include <tagparser/opus/opusidentificationheader.h>
#include <tagparser/vorbis/vorbisidentificationheader.h>
#include <tagparser/wav/waveaudiostream.h>
#include <tagparser/matroska/matroskachapter.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskaeditionentry.h>
#include <tagparser/matroska/matroskatrack.h>
#include <tagparser/mp4/mp4track.h>
#include <tagparser/mediaformat.h>
#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/ogg/oggstream.h>

using namespace TagParser;
using namespace util;

namespace pbt {
const char *g_property = "C20";
const char *g_rule = "a file with at least one track was generated, parsed and at least three declared values of it were compared with the reported ones";
const char *g_level = "property-based testing: files whose headers declare generated values, the accessors compared with these values";
}

namespace {

const char *typeOf(MediaType t)
{
    switch (t) {
    case MediaType::Audio:
        return "audio";
    case MediaType::Video:
        return "video";
    case MediaType::Text:
        return "text";
    case MediaType::Buttons:
        return "buttons";
    case MediaType::Control:
        return "control";
    default:
        return "unknown";
    }
}

struct Comparison {
    const std::map<std::string, std::string> &declared;
    const char *kind;
    std::string prefix;
    unsigned compared = 0;

    const std::string *get(const char *key)
    {
        const auto i = declared.find(prefix + key);
        if (i == declared.end()) {
            return nullptr;
        }
        ++compared;
        return &i->second;
    }
    [[noreturn]] void fail(const char *key, const std::string &expected, const std::string &actual)
    {
        pbt::fail("wrong-" + std::string(kind) + "-" + key, std::string(kind) + ": " + prefix + key + " is " + pbt::quote(actual) + " but the file declares " + pbt::quote(expected));
    }
    void text(const char *key, std::string_view actual)
    {
        if (const auto *const e = get(key); e && *e != actual) {
            fail(key, *e, std::string(actual));
        }
    }
    void number(const char *key, std::uint64_t actual)
    {
        text(key, toStr(actual));
    }
    void real(const char *key, double actual, double relative, double absolute)
    {
        if (const auto *const e = get(key)) {
            const auto expected = std::stod(*e);
            if (!std::isfinite(actual) || std::fabs(actual - expected) > std::max(relative * std::fabs(expected), absolute)) {
                fail(key, *e, std::to_string(actual));
            }
        }
    }
};

/// what format() should be for the ID of a sample description or codec
struct Format {
    const char *id;
    GeneralMediaFormat format;
};
const Format formats[] = {
    { "mp4a", GeneralMediaFormat::Aac },
    { "avc1", GeneralMediaFormat::Avc },
    { "avc3", GeneralMediaFormat::Avc },
    { "hvc1", GeneralMediaFormat::Hevc },
    { "vp09", GeneralMediaFormat::Vp9 },
    { "alac", GeneralMediaFormat::Alac },
    { "fLaC", GeneralMediaFormat::Flac },
    { "Opus", GeneralMediaFormat::Opus },
    { "tx3g", GeneralMediaFormat::Mpeg4TimedText },
    { "VP80", GeneralMediaFormat::Vp8 },
    { "VP90", GeneralMediaFormat::Vp9 },
    { "AV01", GeneralMediaFormat::Av1 },
};

void compareTrack(Comparison &c, AbstractTrack &t)
{
    CHECK_MSG(t.isHeaderValid(), "header-not-parsed", std::string(c.kind) + ": " + c.prefix + " the header has not been parsed");
    c.text("type", typeOf(t.mediaType()));
    c.number("id", t.id());
    c.text("formatId", t.formatId());
    c.number("rate", t.samplingFrequency());
    c.number("extensionRate", t.extensionSamplingFrequency());
    c.number("channels", t.channelCount());
    c.number("channelConfig", t.channelConfig());
    c.number("bits", t.bitsPerSample());
    c.number("samples", t.sampleCount());
    c.number("size", t.size());
    c.real("seconds", t.duration().totalSeconds(), 1e-6, 2e-6);
    c.real("kbps", t.bitrate(), 1e-4, 1e-4);
    c.real("maxKbps", t.maxBitrate(), 1e-6, 1e-6);
    c.number("width", t.pixelSize().width());
    c.number("height", t.pixelSize().height());
    c.number("displayWidth", t.displaySize().width());
    c.number("displayHeight", t.displaySize().height());
    c.real("version", t.version(), 0, 1e-9);
    c.real("level", t.version(), 0, 1e-9);
    c.number("profile", t.format().sub);
    c.number("layer", t.format().sub);
    if (const auto *const e = c.get("aac")) {
        static const std::map<std::string, unsigned char> profiles = { { "1", SubFormats::AacMpeg4MainProfile }, { "2", SubFormats::AacMpeg4LowComplexityProfile },
            { "3", SubFormats::AacMpeg4ScalableSamplingRateProfile }, { "4", SubFormats::AacMpeg4LongTermPrediction }, { "5", SubFormats::AacMpeg4LowComplexityProfile },
            { "29", SubFormats::AacMpeg4LowComplexityProfile } };
        if (t.format().general != GeneralMediaFormat::Aac || t.format().sub != profiles.at(*e)) {
            c.fail("aac", *e, std::string(t.formatName()));
        }
    }
    c.number("sbr", (t.format().extension & ExtensionFormats::SpectralBandReplication) != 0);
    c.number("ps", (t.format().extension & ExtensionFormats::ParametricStereo) != 0);
    if (const auto *const e = c.get("par")) {
        const auto &p = t.pixelAspectRatio();
        if (const auto actual = toStr(p.numerator) + ":" + toStr(p.denominator); actual != *e) {
            c.fail("par", *e, actual);
        }
    }
    c.number("cropTop", t.cropping().top());
    c.number("cropLeft", t.cropping().left());
    c.number("cropBottom", t.cropping().bottom());
    c.number("cropRight", t.cropping().right());
    c.number("colorSpace", t.colorSpace());
    c.number("interlaced", t.isInterlaced());
    c.text("languageIso", t.locale().abbreviatedName(LocaleFormat::ISO_639_2_B));
    c.text("languageBcp", t.locale().abbreviatedName(LocaleFormat::BCP_47));
    c.number("timescale", t.timeScale());
    c.number("fps", t.fps());
    c.text("name", t.name());
    c.number("enabled", t.isEnabled());
    c.number("default", t.isDefault());
    c.number("forced", t.isForced());
    c.number("lacing", t.hasLacing());
    c.real("created", static_cast<double>((t.creationTime() - CppUtilities::DateTime::fromDate(1904, 1, 1)).totalSeconds()), 0, 0.5);
    c.real("modified", static_cast<double>((t.modificationTime() - CppUtilities::DateTime::fromDate(1904, 1, 1)).totalSeconds()), 0, 0.5);
    if (const auto *const e = c.get("chroma")) {
        static const char *const names[] = { "monochrome", "YUV 4:2:0", "YUV 4:2:2", "YUV 4:4:4" };
        if (t.chromaFormat() != names[std::stoul(*e) & 3]) {
            c.fail("chroma", *e, std::string(t.chromaFormat()));
        }
    }
    if (const auto *const e = c.get("language")) {
        auto actual = std::string();
        for (const auto &d : t.locale()) {
            actual = d;
            break;
        }
        if (actual != *e) {
            c.fail("language", *e, actual);
        }
    }
    if (const auto *const e = c.get("format")) {
        const auto actual = std::string(t.formatName());
        // the name may be refined by the profile
        if (actual.find(*e) == std::string::npos && !(*e == "MPEG-1 Audio" && t.format().general == GeneralMediaFormat::Mpeg1Audio)) {
            c.fail("format", *e, actual);
        }
    }
    if (const auto i = c.declared.find(c.prefix + "formatId"); i != c.declared.end()) {
        for (const auto &f : formats) {
            if (i->second == f.id && t.format().general != f.format) {
                c.fail("format", f.id, std::string(t.formatName()));
            }
        }
    }
}

std::string describeChapter(AbstractChapter &c)
{
    auto r = "chapter " + toStr(c.id()) + " from " + std::to_string(c.startTime().totalTicks())
        + (c.endTime().isNegative() ? std::string(" without end") : " to " + std::to_string(c.endTime().totalTicks())) + (c.isHidden() ? " hidden" : "")
        + (c.isEnabled() ? "" : " disabled");
    for (const auto track : c.tracks()) {
        r += " track " + toStr(track);
    }
    for (const auto &name : c.names()) {
        r += " name " + pbt::quote(name);
        for (const auto &l : name.locale()) {
            r += (l.format == LocaleFormat::ISO_639_2_B       ? " ISO "
                     : l.format == LocaleFormat::BCP_47        ? " BCP "
                     : l.format == LocaleFormat::DomainCountry ? " country "
                                                               : " unknown ")
                + l;
        }
    }
    r += " {";
    for (std::size_t i = 0; i < c.nestedChapterCount(); ++i) {
        r += describeChapter(*c.nestedChapter(i));
    }
    return r + "}";
}

std::string describeEditions(const MatroskaContainer &c)
{
    std::string r;
    for (const auto &e : c.editionEntires()) {
        r += "edition " + toStr(e->id()) + (e->isHidden() ? " hidden" : "") + (e->isDefault() ? " default" : "") + (e->isOrdered() ? " ordered" : "") + " {";
        for (const auto &chapter : e->chapters()) {
            r += describeChapter(*chapter);
        }
        r += "}";
    }
    return r;
}

/// compares what is reported about all tracks together with the tracks and what they declare
void compareSummary(MediaFileInfo &f, Comparison &c)
{
    const auto tracks = f.tracks();
    CHECK_MSG(f.trackCount() == tracks.size(), "wrong-track-count", "there are " + toStr(tracks.size()) + " tracks but the count is " + toStr(f.trackCount()));
    for (const auto type : { MediaType::Audio, MediaType::Video, MediaType::Text, MediaType::Buttons, MediaType::Control }) {
        auto has = false;
        std::set<std::string> languages;
        for (std::size_t i = 0; i < tracks.size(); ++i) {
            const auto p = "track" + toStr(i) + ".";
            const auto t = c.declared.find(p + "type");
            if (t == c.declared.end() ? tracks[i]->mediaType() != type : t->second != typeOf(type)) {
                continue;
            }
            has = true;
            const auto iso = c.declared.find(p + "languageIso"), bcp = c.declared.find(p + "languageBcp"), plain = c.declared.find(p + "language");
            if (bcp != c.declared.end()) { // preferred
                languages.insert(bcp->second);
            } else if (iso != c.declared.end()) {
                languages.insert(iso->second);
            } else if (plain != c.declared.end()) {
                languages.insert(plain->second == "und" ? std::string() : plain->second);
            } else {
                languages.insert(tracks[i]->locale().someAbbreviatedName());
            }
        }
        languages.erase(std::string());
        CHECK_MSG(f.hasTracksOfType(type) == has, "wrong-has-tracks-of-type", std::string(c.kind) + ": presence of " + typeOf(type) + " tracks is wrong");
        std::set<std::string> actual;
        for (const auto &l : f.availableLanguages(type)) {
            actual.insert(l);
        }
        if (actual != languages) {
            std::string a, e;
            for (const auto &l : actual) {
                a += l + " ";
            }
            for (const auto &l : languages) {
                e += l + " ";
            }
            pbt::fail("wrong-available-languages", std::string(c.kind) + ": languages of " + typeOf(type) + " tracks are " + a + "instead of " + e);
        }
    }
    std::string summary;
    for (std::size_t i = 0; i < tracks.size(); ++i) {
        const auto description = tracks[i]->description();
        summary += (i ? " / " : "") + description;
        const auto p = "track" + toStr(i) + ".";
        const auto channels = c.declared.find(p + "channels"), type = c.declared.find(p + "type");
        if (type != c.declared.end() && type->second == "audio" && channels != c.declared.end() && channels->second != "0") {
            CHECK_MSG(description.find("-" + channels->second + "ch") != std::string::npos, "wrong-description",
                std::string(c.kind) + ": description " + pbt::quote(description) + " lacks the " + channels->second + " channels");
        }
        const auto label = tracks[i]->label();
        CHECK_MSG(!label.compare(0, 4, "ID: ") && label.find(tracks[i]->name()) != std::string::npos, "wrong-label",
            std::string(c.kind) + ": the label is " + pbt::quote(label));
    }
    CHECK_MSG(f.technicalSummary() == summary, "wrong-summary", std::string(c.kind) + ": the technical summary is " + pbt::quote(f.technicalSummary()) + " instead of " + pbt::quote(summary));
}

/// compares everything which is reported about the parsed file
void compareFile(pbt::Gen &g, MediaFileInfo &f, fmt::Kind fileKind, std::map<std::string, std::string> declared, std::uint64_t size, const Diagnostics &diag)
{
    const auto kind = fmt::name(fileKind);
    static const std::map<fmt::Kind, ContainerFormat> containers = { { fmt::Kind::Mpeg, ContainerFormat::MpegAudioFrames }, { fmt::Kind::Adts, ContainerFormat::Adts },
        { fmt::Kind::Wav, ContainerFormat::RiffWave }, { fmt::Kind::Ivf, ContainerFormat::Ivf }, { fmt::Kind::Flac, ContainerFormat::Flac },
        { fmt::Kind::Ogg, ContainerFormat::Ogg }, { fmt::Kind::Mp4, ContainerFormat::Mp4 }, { fmt::Kind::Matroska, ContainerFormat::Matroska } };
    auto container = f.containerFormat();
    if (container == ContainerFormat::QuickTime) {
        container = ContainerFormat::Mp4;
    } else if (container == ContainerFormat::Webm) {
        container = ContainerFormat::Matroska;
    }
    CHECK_MSG(container == containers.at(fileKind), "wrong-container", std::string(kind) + " has been recognised as " + std::string(f.containerFormatName()));
    for (const auto &m : diag) {
        CHECK_MSG(m.level() < DiagLevel::Critical, "critical-diagnostic", std::string(kind) + ": parsing a well-formed file yields: " + m.message());
    }
    Comparison whole{ declared, kind, std::string() };
    whole.number("tracks", f.tracks().size());
    if (fileKind == fmt::Kind::Mpeg) {
        // the number of frames according to the Xing header is used if there's one
        const auto size = std::stod(declared.at("track0.mediaSize")), rate = std::stod(declared.at("track0.rate")), perFrame = std::stod(declared.at("track0.samplesPerFrame"));
        const auto bitrate = std::stod(declared.at("track0.frameBitrate"));
        const auto xing = declared.find("track0.xingFrames");
        const auto duration = xing != declared.end() ? std::stod(xing->second) * perFrame / rate : size / (bitrate * 125);
        declared["track0.seconds"] = std::to_string(duration);
        declared["track0.kbps"] = std::to_string(xing != declared.end() ? size / duration / 125 : bitrate);
        declared["track0.version"] = declared["track0.mpegVersion"];
        g.label(xing != declared.end() ? "Xing" : "no Xing");
    }
    if (fileKind == fmt::Kind::Mp4) { // the average if it isn't declared
        for (std::size_t i = 0; i < f.tracks().size(); ++i) {
            const auto p = "track" + toStr(i) + ".";
            const auto seconds = declared.find(p + "seconds"), size = declared.find(p + "size");
            if (!declared.count(p + "kbps") && seconds != declared.end() && size != declared.end() && std::stod(seconds->second) > 1) {
                declared[p + "kbps"] = std::to_string(std::stod(size->second) * 0.008 / std::stod(seconds->second));
            }
        }
    }
    if (f.duration().totalSeconds() > 0.001) {
        const auto expected = static_cast<double>(size) * 0.008 / f.duration().totalSeconds();
        CHECK_MSG(std::fabs(f.overallAverageBitrate() - expected) <= 1e-6 * expected, "wrong-overall-bitrate",
            std::string(kind) + ": overall bitrate is " + std::to_string(f.overallAverageBitrate()) + " instead of " + std::to_string(expected));
    }
    unsigned index = 0;
    for (auto *const t : f.tracks()) {
        Comparison c{ declared, kind, "track" + toStr(index++) + "." };
        compareTrack(c, *t);
        if (c.compared >= 3) {
            g.nontrivial();
        }
    }
    compareSummary(f, whole);
    if (auto *const c = f.container()) {
        whole.number("timescale", c->timeScale());
        whole.text("doctype", c->documentType());
        if (auto *const m = dynamic_cast<MatroskaContainer *>(c)) {
            whole.text("chapters", describeEditions(*m));
        }
        whole.real("seconds", c->duration().totalSeconds(), 1e-6, 2e-6);
        if (whole.declared.count("seconds")) {
            whole.real("seconds", f.duration().totalSeconds(), 1e-6, 2e-6);
        }
    } else if (f.tracks().size() == 1) {
        CHECK_MSG(f.duration() == f.tracks().front()->duration(), "wrong-duration", std::string(kind) + ": duration of the file differs from the one of its track");
    }
}

void parse(tp::Session &session, const char *when)
{
    try {
        session.parse();
    } catch (const pbt::Discard &) {
        throw;
    } catch (...) {
        pbt::fail("parsing-failed", std::string(when) + tp::currentExceptionText());
    }
}

/// durations of the track headers
std::vector<std::uint64_t> headerDurations(const std::string &path)
{
    std::vector<std::uint64_t> r;
    const auto bytes = readFile(path);
    const auto top = mp4::boxes(bytes, 0, true);
    const auto *const moov = mp4::find(top, "moov");
    if (!moov) {
        return r;
    }
    for (const auto &b : mp4::boxes(moov->data, moov->dataStart())) {
        if (b.id == "trak") {
            const auto children = mp4::boxes(b.data, b.dataStart());
            const auto *const tkhd = mp4::find(children, "tkhd");
            r.push_back(tkhd->data[0] ? Rd(tkhd->data.substr(28)).be(8) : Rd(tkhd->data.substr(20)).be(4));
        }
    }
    return r;
}

} // namespace

PBT_TEST(tracks, 200000, 2000000)
{
    auto options = fmt::GenOptions();
    options.rich = g.chance(3, 4);
    options.big = g.chance(1, 10) ? 10 : 1;
    auto s = sc::make(g, options, sc::kinds());
    tp::Session session(s.path);
    parse(session, "");
    compareFile(g, session.file, s.kind, s.file.declared, s.file.bytes.size(), session.diag);
}

// editing tags leaves the technical information alone
PBT_TEST(tracks_after_saving, 40000, 400000)
{
    auto options = fmt::GenOptions();
    options.rich = g.chance(3, 4);
    auto s = sc::make(g, options, sc::kinds());
    const auto settings = sc::genSettings(g, s.before);
    const auto keepRaw = g.flip();
    g.describe(settings.describe() + (keepRaw ? "" : " computed timing"));
    {
        tp::Session session(s.path);
        settings.apply(session.file);
        auto flags = session.file.fileHandlingFlags();
        CppUtilities::modFlagEnum(flags, MediaFileHandlingFlags::PreserveRawTimingValues, keepRaw);
        session.file.setFileHandlingFlags(flags);
        parse(session, "");
        sc::editSome(g, session.file, s, 3);
        sc::save(session);
    }
    tp::Session session(s.path);
    parse(session, "after saving: ");
    auto declared = s.file.declared;
    if (s.kind == fmt::Kind::Matroska) {
        // these might have been edited (the result is verified by C05) or stem from tags
        for (auto i = declared.begin(); i != declared.end();) {
            auto skip = false;
            for (const auto *const key : { ".name", ".forced", ".enabled", ".default", ".languageIso", ".languageBcp", ".samples", ".size", ".kbps" }) {
                skip = skip || (i->first.size() > std::strlen(key) && !i->first.compare(i->first.size() - std::strlen(key), std::string::npos, key));
            }
            i = skip ? declared.erase(i) : std::next(i);
        }
    }
    compareFile(g, session.file, s.kind, declared, readFile(s.path).size(), session.diag);
    if (s.kind == fmt::Kind::Mp4 && !keepRaw) {
        std::size_t i = 0;
        for (const auto duration : headerDurations(s.path)) {
            const auto seconds = declared.find("track" + toStr(i) + ".seconds");
            if (seconds != declared.end()) {
                const auto expected = std::stod(seconds->second) * std::stod(declared.at("timescale"));
                CHECK_MSG(std::fabs(static_cast<double>(duration) - expected) <= 1 + 1e-6 * expected, "wrong-track-header-duration",
                    "duration of track header is " + toStr(duration) + " instead of " + std::to_string(expected));
            }
            ++i;
        }
    }
}

namespace {

using F = GeneralMediaFormat;
namespace S = SubFormats;

struct CodecEntry {
    std::string id;
    GeneralMediaFormat general;
    unsigned sub = 0, extension = 0;
};

// Codec IDs as of the Matroska codec specification
const std::vector<CodecEntry> &matroskaCodecs()
{
    static const std::vector<CodecEntry> t = {
        { "V_UNCOMPRESSED", F::UncompressedVideoFrames }, { "V_MPEG4/ISO/SP", F::Mpeg4Video, S::Mpeg4SimpleProfile1 }, { "V_MPEG4/ISO/ASP", F::Mpeg4Video, S::Mpeg4AdvancedSimpleProfile1 },
        { "V_MPEG4/ISO/AP", F::Mpeg4Video }, { "V_MPEG4/ISO/AVC", F::Avc }, { "V_MPEG4/MS/V3", F::Mpeg4Video, S::Mpeg4SimpleProfile1 }, { "V_MPEG1", F::Mpeg1Video }, { "V_MPEG2", F::Mpeg2Video },
        { "V_REAL/RV10", F::RealVideo }, { "V_REAL/RV40", F::RealVideo }, { "V_QUICKTIME", F::QuicktimeVideo }, { "V_THEORA", F::Theora }, { "V_PRORES", F::ProRes }, { "V_VP8", F::Vp8 },
        { "V_VP9", F::Vp9 }, { "V_AV1", F::Av1 }, { "V_MPEGH/ISO/HEVC", F::Hevc }, { "A_MPEG/L1", F::Mpeg1Audio, S::Mpeg1Layer1 }, { "A_MPEG/L2", F::Mpeg1Audio, S::Mpeg1Layer2 },
        { "A_MPEG/L3", F::Mpeg1Audio, S::Mpeg1Layer3 }, { "A_PCM/INT/BIG", F::Pcm, S::PcmIntBe }, { "A_PCM/INT/LIT", F::Pcm, S::PcmIntLe }, { "A_PCM/FLOAT/IEEE", F::Pcm, S::PcmFloatIeee },
        { "A_MPC", F::Mpc }, { "A_AC3", F::Ac3 }, { "A_AC3/BSID9", F::Ac3 }, { "A_EAC3", F::EAc3 }, { "A_ALAC", F::Alac }, { "A_DTS", F::Dts }, { "A_DTS/EXPRESS", F::Dts, S::DtsExpress },
        { "A_DTS/LOSSLESS", F::Dts, S::DtsLossless }, { "A_VORBIS", F::Vorbis }, { "A_FLAC", F::Flac }, { "A_OPUS", F::Opus }, { "A_REAL/28_8", F::RealAudio }, { "A_REAL/COOK", F::RealAudio },
        { "A_AAC", F::Aac }, { "A_AAC/MPEG2/MAIN", F::Aac, S::AacMpeg2MainProfile }, { "A_AAC/MPEG2/LC", F::Aac, S::AacMpeg2LowComplexityProfile },
        { "A_AAC/MPEG2/LC/SBR", F::Aac, S::AacMpeg2LowComplexityProfile, ExtensionFormats::SpectralBandReplication }, { "A_AAC/MPEG2/SSR", F::Aac, S::AacMpeg2ScalableSamplingRateProfile },
        { "A_AAC/MPEG4/MAIN", F::Aac, S::AacMpeg4MainProfile }, { "A_AAC/MPEG4/LC", F::Aac, S::AacMpeg4LowComplexityProfile },
        { "A_AAC/MPEG4/LC/SBR", F::Aac, S::AacMpeg4LowComplexityProfile, ExtensionFormats::SpectralBandReplication }, { "A_AAC/MPEG4/SSR", F::Aac, S::AacMpeg4ScalableSamplingRateProfile },
        { "A_AAC/MPEG4/LTP", F::Aac, S::AacMpeg4LongTermPrediction }, { "A_QUICKTIME", F::QuicktimeAudio }, { "A_QUICKTIME/QDM2", F::QuicktimeAudio }, { "A_TTA1", F::Tta },
        { "A_WAVPACK4", F::WavPack }, { "S_TEXT/UTF8", F::TextSubtitle, S::PlainUtf8Subtitle }, { "S_TEXT/SSA", F::TextSubtitle, S::SubStationAlpha },
        { "S_TEXT/ASS", F::TextSubtitle, S::AdvancedSubStationAlpha }, { "S_TEXT/USF", F::TextSubtitle, S::UniversalSubtitleFormat }, { "S_TEXT/WEBVTT", F::TextSubtitle, S::WebVideoTextTracksFormat },
        { "S_IMAGE/BMP", F::ImageSubtitle, S::ImgSubBmp }, { "S_VOBSUB", F::VobSub }, { "S_VOBSUB/ZLIB", F::VobSub }, { "S_KATE", F::OggKate }, { "S_DVBSUB", F::DvbSub }, { "B_VOBBTN", F::VobBtn },
    };
    return t;
}

// FourCCs found in sample descriptions, AVI headers and IVF files
const std::vector<CodecEntry> &fourccs()
{
    static const auto asp = unsigned(S::Mpeg4AdvancedSimpleProfile0), sp = unsigned(S::Mpeg4SimpleProfile0);
    static const std::vector<CodecEntry> t = {
        { "MPEG", F::Mpeg1Video }, { "mp4v", F::Mpeg4Video }, { "tx3g", F::Mpeg4TimedText }, { "hvc1", F::Hevc }, { "hev1", F::Hevc }, { "vvc1", F::Vcc }, { "avc1", F::Avc }, { "avc2", F::Avc },
        { "avc3", F::Avc }, { "avc4", F::Avc }, { "H264", F::Avc }, { "h264", F::Avc }, { "X264", F::Avc }, { "x264", F::Avc }, { "DAVC", F::Avc }, { "VSSH", F::Avc }, { "av01", F::Av1 },
        { "AV01", F::Av1 }, { "DIVX", F::Mpeg4Video, asp }, { "divx", F::Mpeg4Video, asp }, { "XVID", F::Mpeg4Video, asp }, { "xvid", F::Mpeg4Video, asp }, { "DX50", F::Mpeg4Video, asp },
        { "h263", F::Mpeg4Video, asp }, { "s263", F::Mpeg4Video, asp }, { "DIV3", F::Mpeg4Video, sp }, { "div3", F::Mpeg4Video, sp }, { "DIV4", F::Mpeg4Video, sp }, { "div5", F::Mpeg4Video, sp },
        { "MPG3", F::Mpeg4Video, sp }, { "COL0", F::Mpeg4Video, sp }, { "AP41", F::Mpeg4Video, sp }, { "tiff", F::Tiff }, { "text", F::TimedText }, { "raw ", F::UncompressedVideoFrames },
        { "jpeg", F::Jpeg }, { "gif ", F::Gif }, { "png ", F::Png }, { std::string("ms\0\2", 4), F::AdpcmAcm }, { std::string("ms\0\x11", 4), F::ImaadpcmAcm },
        { std::string("ms\0U", 4), F::Mpeg1Audio, S::Mpeg1Layer3 }, { ".mp3", F::Mpeg1Audio, S::Mpeg1Layer3 }, { "mp4a", F::Aac }, { "alac", F::Alac }, { "ac-3", F::Ac3 }, { "ec-3", F::EAc3 },
        { "mlpa", F::DolbyMlp }, { "ac-4", F::Ac4 }, { "RV20", F::RealVideo }, { "RV30", F::RealVideo }, { "RV40", F::RealVideo }, { "in24", F::Pcm }, { "in32", F::Pcm },
        { "twos", F::Pcm, S::PcmIntBe }, { "sowt", F::Pcm, S::PcmIntLe }, { "fl32", F::Pcm, S::PcmFloatIeee }, { "fl64", F::Pcm, S::PcmFloatIeee }, { "samr", F::Amr }, { "sawb", F::Amr },
        { "dtsh", F::Dts }, { "dtsl", F::Dts }, { "dtse", F::Dts, S::DtsExpress }, { "MPG4", F::MicrosoftMpeg4, 1 }, { "MP42", F::MicrosoftMpeg4, 2 }, { "MP43", F::MicrosoftMpeg4, 3 },
        { "VP80", F::Vp8 }, { "VP90", F::Vp9 }, { "vp09", F::Vp9 }, { "WMV7", F::WindowsMediaVideo, 1 }, { "WMV8", F::WindowsMediaVideo, 2 }, { "fLaC", F::Flac }, { "Opus", F::Opus },
        { "owma", F::WindowsMediaAudio }, { "WMA1", F::WindowsMediaAudio }, { "WMA2", F::WindowsMediaAudio }, { "WMA3", F::WindowsMediaAudio }, { "WVPK", F::WavPack },
        { "mx3n", F::Mpeg2Video }, { "mx5p", F::Mpeg2Video }, { "DIV1", F::MicrosoftMpeg4, 1 }, { "DIV2", F::MicrosoftMpeg4, 2 },
    };
    return t;
}

// object type indications registered by the MP4 registration authority
const std::map<unsigned, CodecEntry> &objectTypes()
{
    static const std::map<unsigned, CodecEntry> t = {
        { 0x01, { "", F::Systems } }, { 0x02, { "", F::Systems, 2 } }, { 0x03, { "", F::InteractionStream } }, { 0x05, { "", F::AfxStream } }, { 0x06, { "", F::FontDataStream } },
        { 0x07, { "", F::SynthesizedTextureStream } }, { 0x08, { "", F::StreamingTextStream } }, { 0x20, { "", F::Mpeg4Video } }, { 0x21, { "", F::Avc } }, { 0x22, { "", F::Avc } },
        { 0x24, { "", F::Als } }, { 0x2B, { "", F::Sa0c } }, { 0x60, { "", F::Mpeg2Video, S::Mpeg2SimpleProfile } }, { 0x61, { "", F::Mpeg2Video, S::Mpeg2MainProfile } },
        { 0x62, { "", F::Mpeg2Video, S::Mpeg2SnrProfile } }, { 0x63, { "", F::Mpeg2Video, S::Mpeg2SpatialProfile } }, { 0x64, { "", F::Mpeg2Video, S::Mpeg2HighProfile } },
        { 0x65, { "", F::Mpeg2Video, S::Mpeg2422Profile } }, { 0x6A, { "", F::Mpeg1Video } }, { 0x6C, { "", F::Jpeg } }, { 0x6D, { "", F::Png } }, { 0xA0, { "", F::Evrc } }, { 0xA1, { "", F::Smv } },
        { 0xA2, { "", F::Gpp2Cmf } }, { 0xA3, { "", F::Vc1 } }, { 0xA4, { "", F::Dirac } }, { 0xA5, { "", F::Ac3 } }, { 0xA6, { "", F::EAc3 } }, { 0xA9, { "", F::Dts } },
        { 0xAA, { "", F::DtsHd, S::DtsHdHighResolution } }, { 0xAB, { "", F::DtsHd, S::DtsHdMasterAudio } }, { 0xAC, { "", F::DtsHd, S::DtsExpress } }, { 0xD1, { "", F::Evrc } }, { 0xDD, { "", F::Vorbis } },
        { 0xE0, { "", F::VobSub } }, { 0xE1, { "", F::Qcelp } },
    };
    return t;
}

// audio object types of ISO/IEC 14496-3
const std::map<unsigned, CodecEntry> &audioObjectTypes()
{
    static const std::map<unsigned, CodecEntry> t = { { 1, { "", F::Aac, S::AacMpeg4MainProfile } }, { 2, { "", F::Aac, S::AacMpeg4LowComplexityProfile } },
        { 3, { "", F::Aac, S::AacMpeg4ScalableSamplingRateProfile } }, { 4, { "", F::Aac, S::AacMpeg4LongTermPrediction } }, { 17, { "", F::Aac, S::AacMpeg4ERLowComplecityProfile } },
        { 19, { "", F::Aac, S::AacMpeg4ERLongTermPrediction } }, { 23, { "", F::Aac, S::AacMpeg4ERLowDelay } }, { 32, { "", F::Mpeg1Audio, S::Mpeg1Layer1 } },
        { 33, { "", F::Mpeg1Audio, S::Mpeg1Layer2 } }, { 34, { "", F::Mpeg1Audio, S::Mpeg1Layer3 } } };
    return t;
}

std::string formatText(const MediaFormat &f)
{
    return toStr(static_cast<unsigned>(f.general)) + "/" + toStr(f.sub) + "/" + toStr(f.extension) + " (" + std::string(f.name()) + ")";
}

void checkFormat(const char *key, const std::string &id, const CodecEntry &e, const AbstractTrack &t)
{
    const auto f = t.format();
    CHECK_MSG(f.general == e.general && f.sub == e.sub && f.extension == e.extension, key,
        "the format of a track with codec " + pbt::quote(id) + " is " + formatText(f) + " instead of "
            + formatText(MediaFormat(e.general, static_cast<unsigned char>(e.sub), static_cast<unsigned char>(e.extension))));
    if (e.general != F::Unknown && t.type() != TagParser::TrackType::MatroskaTrack) {
        CHECK_MSG(t.formatName() == f.name() && !f.name().empty(), key, "the name of the format of a track with codec " + pbt::quote(id) + " is " + pbt::quote(std::string(t.formatName())));
    }
}

AbstractTrack &onlyTrack(tp::Session &session)
{
    for (const auto &m : session.diag) {
        CHECK_MSG(m.level() < DiagLevel::Critical, "critical-diagnostic", "parsing a well-formed file yields: " + m.message());
    }
    const auto tracks = session.file.tracks();
    CHECK_MSG(tracks.size() == 1, "wrong-tracks", toStr(tracks.size()) + " tracks have been found but there's one");
    return *tracks.front();
}

std::string asText(std::uint64_t v)
{
    return toStr(v);
}
std::string asText(std::string_view v)
{
    return std::string(v);
}

template <typename A, typename B> void same(const char *key, const A &actual, const B &expected)
{
    const auto a = asText(actual), b = asText(expected);
    CHECK_MSG(a == b, std::string("wrong-") + key, std::string(key) + " is " + pbt::quote(a) + " but the file declares " + pbt::quote(b));
}

std::string riffFormat(pbt::Gen &g, unsigned tag, unsigned channels, unsigned rate, unsigned bits, const std::string &more)
{
    return le(tag, 2) + le(channels, 2) + le(rate, 4) + le(g.bits(24), 4) + le(g.bits(12), 2) + le(bits, 2) + more;
}

} // namespace

// the format follows from the codec ID, the sample description or the object type
PBT_TEST(codec_ids, 200000, 2000000)
{
    const auto path = g.dir + "/file";
    const auto unknown = CodecEntry{ "", F::Unknown };
    switch (g.below(6)) {
    case 0: { // Matroska codec IDs
        auto e = g.chance(9, 10) ? g.pickFrom(matroskaCodecs()) : unknown;
        if (e.id.empty()) {
            e.id = g.pick({ "V_", "A_", "S_", "X_" }) + std::string("Q") + g.asciiWord(8);
        }
        const auto type = e.id[0] == 'V' ? 1u : e.id[0] == 'A' ? 2u : e.id[0] == 'S' ? 0x11u : e.id[0] == 'B' ? 0x12u : 0x20u;
        std::string specific;
        if (e.general == F::Aac && g.flip()) { // the audio specific config is more precise
            const auto &a = *std::next(audioObjectTypes().begin(), static_cast<std::ptrdiff_t>(g.pick({ 0u, 1u, 3u })));
            specific = mkv::el(mkv::CodecPrivate, be(a.first << 11 | g.below(13) << 7 | static_cast<unsigned>(g.range(1, 7)) << 3, 2));
            e.sub = a.second.sub;
        }
        writeFile(path, minimal::mkvFile(mkv::el(mkv::TrackEntry,
            mkv::num(mkv::TrackNumber, 1) + mkv::num(mkv::TrackUid, 7) + mkv::num(mkv::TrackType, type) + (g.flip() ? specific : std::string()) + mkv::el(mkv::CodecId, e.id))));
        g.describe("Matroska codec " + e.id);
        const auto hasSpecific = readFile(path).find("\x63\xA2") != std::string::npos;
        if (!specific.empty() && !hasSpecific) {
            e.sub = std::find_if(matroskaCodecs().begin(), matroskaCodecs().end(), [&](const CodecEntry &c) { return c.id == e.id; })->sub;
        }
        tp::Session session(path);
        parse(session, "");
        auto &t = onlyTrack(session);
        same("formatId", t.formatId(), e.id);
        same("type", std::string(typeOf(t.mediaType())), std::string(type == 1 ? "video" : type == 2 ? "audio" : type == 0x11 ? "text" : type == 0x12 ? "buttons" : "control"));
        checkFormat("matroska-codec", e.id, e, t);
        if (e.general == F::Unknown) {
            same("formatName", std::string(t.formatName()), (e.id[0] == 'X' ? e.id : e.id.substr(2)) + " (unknown)");
        }
        g.label("Matroska");
        break;
    }
    case 1: { // FourCC in a bitmap header
        auto e = g.chance(9, 10) ? g.pickFrom(fourccs()) : CodecEntry{ "Q" + g.asciiWord(3), F::MicrosoftVideoCodecManager };
        e.id.resize(4, 'q');
        g.describe("bitmap header " + e.id);
        const auto header = le(40, 4) + le(g.bits(12), 4) + le(g.bits(12), 4) + le(1, 2) + le(24, 2) + e.id + le(g.bits(20), 4) + std::string(16, '\0') + g.bytes(g.length(20));
        writeFile(path, minimal::mkvFile(mkv::el(mkv::TrackEntry,
            mkv::num(mkv::TrackNumber, 1) + mkv::num(mkv::TrackUid, 7) + mkv::num(mkv::TrackType, 1) + mkv::el(mkv::CodecId, "V_MS/VFW/FOURCC") + mkv::el(mkv::CodecPrivate, header))));
        tp::Session session(path);
        parse(session, "");
        auto &t = onlyTrack(session);
        if (e.id.find('\0') == std::string::npos) {
            same("formatId", t.formatId(), "V_MS/VFW/FOURCC \"" + e.id + "\"");
        }
        checkFormat("bitmap-header", e.id, e, t);
        g.label("VFW");
        break;
    }
    case 2: { // WAVE header
        struct Tag {
            unsigned tag;
            CodecEntry e;
        };
        static const Tag tags[] = { { 1, { "", F::Pcm, S::PcmIntLe } }, { 3, { "", F::Pcm, S::PcmFloatIeee } }, { 0x50, { "", F::Mpeg1Audio, S::Mpeg1Layer2 } }, { 0x55, { "", F::Mpeg1Audio, S::Mpeg1Layer3 } } };
        const auto &tag = tags[g.below(4)];
        const auto channels = static_cast<unsigned>(g.range(1, 8)), rate = static_cast<unsigned>(g.range(1, 200000)), bits = g.pick({ 8u, 16u, 24u });
        auto header = riffFormat(g, tag.tag, channels, rate, bits, tag.tag > 3 ? le(12, 2) + g.bytes(12) : g.flip() ? le(0, 2) : std::string());
        if (tag.tag <= 3 && g.chance(1, 3)) { // WAVE_FORMAT_EXTENSIBLE
            header = riffFormat(g, 0xFFFE, channels, rate, bits, le(22, 2) + le(bits, 2) + le(g.bits(8), 4) + le(tag.tag, 4) + std::string("\0\0\x10\0\x80\0\0\xAA\0\x38\x9B\x71", 12));
            g.label("WAVE_FORMAT_EXTENSIBLE");
        }
        g.describe("WAVE header " + pbt::hex(header));
        writeFile(path, minimal::mkvFile(mkv::el(mkv::TrackEntry,
            mkv::num(mkv::TrackNumber, 1) + mkv::num(mkv::TrackUid, 7) + mkv::num(mkv::TrackType, 2) + mkv::el(mkv::CodecId, "A_MS/ACM") + mkv::el(mkv::CodecPrivate, header))));
        tp::Session session(path);
        parse(session, "");
        auto &t = onlyTrack(session);
        same("rate", t.samplingFrequency(), rate);
        same("channels", t.channelCount(), channels);
        same("bits", t.bitsPerSample(), bits);
        checkFormat("wave-header", "A_MS/ACM " + toStr(tag.tag), tag.e, t);
        g.label("ACM");
        break;
    }
    case 3: { // MP4 sample descriptions
        const auto e = g.chance(9, 10) ? g.pickFrom(fourccs()) : CodecEntry{ "Q" + g.asciiWord(3) + "qqq", F::Unknown };
        minimal::Mp4Track track;
        const auto id = e.id.substr(0, 4);
        track.handler = g.pick({ "soun", "vide", "text", "meta", "hint" });
        const auto channels = static_cast<unsigned>(g.range(1, 8)), bits = g.pick({ 8u, 16u, 24u });
        const auto rate = static_cast<std::uint32_t>(g.range(1, 65535));
        const auto w = static_cast<unsigned>(g.bits(16)), h = static_cast<unsigned>(g.bits(16)), resolution = static_cast<unsigned>(g.bits(16)), depth = g.pick({ 1u, 8u, 24u, 32u });
        const auto compressor = g.asciiWord(31, 0);
        static const std::map<std::string, bool> entries = { { "mp4a", true }, { "samr", true }, { "sawb", true }, { "alac", true }, { "ac-3", true }, { "ec-3", true }, { "dtsh", true },
            { "dtsl", true }, { "dtse", true }, { "fLaC", true }, { "Opus", true }, { "mp4v", false }, { "h263", false }, { "s263", false }, { "avc1", false }, { "avc2", false }, { "avc3", false },
            { "avc4", false }, { "hvc1", false }, { "hev1", false }, { "AV01", false }, { "av01", false }, { "vp09", false } };
        const auto entry = entries.find(id);
        g.describe("sample description " + id + ", handler " + track.handler);
        const auto audio = entry != entries.end() ? entry->second : g.flip();
        track.entry = audio ? minimal::audioEntry(id, channels, bits, rate) : minimal::videoEntry(id, w, h, std::string(), compressor, resolution << 16, depth);
        std::vector<minimal::Mp4Track> tracks{ track };
        writeFile(path, minimal::mp4File(tracks));
        tp::Session session(path);
        parse(session, "");
        auto &t = onlyTrack(session);
        if (id.find('\0') == std::string::npos) {
            same("formatId", t.formatId(), id);
        }
        same("type", static_cast<unsigned>(t.mediaType()),
            static_cast<unsigned>(track.handler == "soun"    ? MediaType::Audio
                    : track.handler == "vide" ? MediaType::Video
                    : track.handler == "text" ? MediaType::Text
                    : track.handler == "meta" ? MediaType::Meta
                                              : MediaType::Hint));
        checkFormat("fourcc", id, e, t);
        if (entry != entries.end()) {
            if (audio) {
                same("rate", t.samplingFrequency(), rate);
                same("channels", t.channelCount(), channels);
                same("bits", t.bitsPerSample(), bits);
            } else {
                same("width", t.pixelSize().width(), w);
                same("height", t.pixelSize().height(), h);
                same("resolution", t.resolution().width(), resolution);
                same("resolution", t.resolution().height(), resolution);
                same("depth", t.depth(), depth);
                same("compressor", t.compressorName(), compressor);
            }
        }
        g.label("FourCC");
        break;
    }
    default: { // object types of elementary streams
        minimal::Mp4Track track;
        CodecEntry e;
        unsigned objectType = 0x40;
        std::string specific, profile, userData;
        const auto rateIndex = static_cast<unsigned>(g.below(13)), channelConfig = static_cast<unsigned>(g.range(1, 7));
        static const unsigned rates[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
        mpeg::Audio mp3;
        const auto kind = g.weighted({ 4, 3, 2, 2 });
        if (kind == 0) {
            const auto &o = *std::next(objectTypes().begin(), static_cast<std::ptrdiff_t>(g.below(objectTypes().size())));
            objectType = o.first;
            e = o.second;
            if (objectType == 0x20) {
                specific = std::string("\0\0\1\xB5\x09", 5) + g.bytes(static_cast<std::size_t>(g.range(0, 4))) + std::string("\0\0\1\0\0\0\1\x20", 8) + g.bytes(static_cast<std::size_t>(g.range(3, 9)));
                if (g.flip()) {
                    e.sub = g.pick({ 1u, 3u, 8u, 0xF0u, 0xF5u });
                    specific = std::string("\0\0\1\xB0", 4) + static_cast<char>(e.sub) + specific;
                    if (g.flip()) {
                        userData = g.asciiWord(20) + "x";
                        specific += std::string("\0\0\1\xB2", 4) + userData;
                    }
                }
                // the contents mustn't look like further start codes
                auto starts = 0;
                for (std::size_t p = 0; (p = specific.find(std::string("\0\0\1", 3), p)) != std::string::npos; p += 3) {
                    ++starts;
                }
                if (starts != 3 + (e.sub ? 1 : 0) + (userData.empty() ? 0 : 1)) {
                    g.discard();
                }
            } else if (objectType != 0x40) {
                specific = g.bytes(g.length(20));
            }
            g.label("object type");
        } else if (kind == 1) {
            const auto &a = *std::next(audioObjectTypes().begin(), static_cast<std::ptrdiff_t>(g.below(audioObjectTypes().size())));
            e = a.second;
            std::uint64_t v = 0;
            unsigned n = 0;
            const auto put = [&](std::uint64_t value, unsigned b) {
                v = (v << b) | value;
                n += b;
            };
            if (a.first >= 31) {
                put(31, 5);
                put(a.first - 32, 6);
            } else {
                put(a.first, 5);
            }
            put(rateIndex, 4);
            put(channelConfig, 4);
            put(0, 3);
            if (a.first >= 17 && a.first < 31) {
                put(0, 2); // epConfig
            }
            while (n % 8) {
                put(0, 1);
            }
            specific = be(v, n / 8);
            g.label("audio object type");
        } else if (kind == 2) {
            objectType = g.pick({ 0x66u, 0x67u, 0x68u });
            e = { "", F::Aac, objectType - 0x66 + S::AacMpeg2MainProfile };
            g.label("MPEG-2 AAC");
        } else {
            mp3 = mpeg::genAudio(g, 3);
            objectType = mp3.version == 1 ? 0x6B : 0x69;
            e = { "", F::Mpeg1Audio, mp3.layer };
            track.chunks = { { mp3.data } };
            g.label("MPEG audio");
        }
        const auto esId = static_cast<unsigned>(g.bits(16)), buffer = static_cast<unsigned>(g.bits(24)), max = static_cast<unsigned>(g.bits(32)), average = static_cast<unsigned>(g.bits(31)),
                   streamType = static_cast<unsigned>(g.range(1, 13)), upstream = static_cast<unsigned>(g.below(2)), priority = static_cast<unsigned>(g.below(32));
        const auto depends = g.chance(1, 4), hasUrl = g.chance(1, 4), ocr = g.chance(1, 4);
        const auto dependsOn = static_cast<unsigned>(g.bits(16)), ocrId = static_cast<unsigned>(g.bits(16));
        const auto url = hasUrl ? g.asciiWord(30) : std::string();
        auto config = be(objectType, 1) + be(streamType << 2 | upstream << 1 | 1, 1) + be(buffer, 3) + be(max, 4) + be(average, 4);
        if (!specific.empty()) {
            config += minimal::descriptor(5, specific);
        }
        auto es = be(esId, 2) + be(unsigned(depends) << 7 | unsigned(hasUrl) << 6 | unsigned(ocr) << 5 | priority, 1);
        es += depends ? be(dependsOn, 2) : std::string();
        es += hasUrl ? be(url.size(), 1) + url : std::string();
        es += ocr ? be(ocrId, 2) : std::string();
        if (g.chance(1, 4)) { // other descriptors are skipped
            es += minimal::descriptor(g.pick({ 0x0Du, 0x0Cu, 0x40u }), g.bytes(g.length(20)));
        }
        es += minimal::descriptor(4, config) + minimal::descriptor(6, "\2");
        const auto esds = mp4::fullBox("esds", 0, 0, minimal::descriptor(3, es));
        const auto channels = static_cast<unsigned>(g.range(1, 2)), bits = g.pick({ 16u, 24u });
        // QuickTime files have additional fields
        const auto version = g.chance(1, 3) && objectType != 0x20 ? static_cast<unsigned>(g.range(1, 2)) : 0u;
        const auto visual = objectType == 0x20 || (objectType >= 0x60 && objectType <= 0x65) || objectType == 0x6A;
        auto rate = static_cast<std::uint32_t>(g.range(1, 65535));
        std::uint32_t rate2 = 0, channels2 = 0;
        g.describe("object type " + toStr(objectType) + ", version " + toStr(visual ? 0 : version) + ", specific " + pbt::hex(specific));
        if (visual) {
            track.handler = "vide";
            track.entry = minimal::videoEntry("mp4v", 16, 16, esds);
        } else if (version == 0) {
            track.entry = minimal::audioEntry("mp4a", channels, bits, rate, esds);
        } else {
            auto extra = be(1024, 4) + std::string(12, '\0'); // samples per packet, bytes per packet, frame and sample
            auto shownChannels = channels;
            auto shownRate = rate;
            if (version == 2) {
                rate2 = g.pick({ 96000u, 192000u, 44100u });
                channels2 = static_cast<unsigned>(g.range(1, 8));
                const double r = rate2;
                std::uint64_t raw;
                std::memcpy(&raw, &r, 8);
                extra = be(72, 4) + be(raw, 8) + be(channels2, 4) + be(0x7F000000, 4) + be(bits, 4) + be(0, 4) + be(0, 4) + be(1024, 4);
                shownChannels = 3;
                shownRate = 1;
            }
            track.entry = minimal::audioEntry("mp4a", shownChannels, 16, shownRate, extra + esds);
            // the version is located after the data reference index
            track.entry[8 + 8 + 1] = static_cast<char>(version);
            g.label("sound description version " + toStr(version));
        }
        std::vector<minimal::Mp4Track> tracks{ track };
        writeFile(path, minimal::mp4File(tracks, std::string(), std::string(), version ? "qt  " : "isom"));
        tp::Session session(path);
        parse(session, "");
        auto &t = onlyTrack(session);
        if (kind == 3) {
            CHECK_MSG(t.format().sub == mp3.layer && (t.format().general == F::Mpeg1Audio || t.format().general == F::Mpeg2Audio), "mpeg-audio-in-mp4",
                "format of MPEG audio is " + formatText(t.format()) + " instead of layer " + toStr(mp3.layer));
            same("rate", t.samplingFrequency(), mp3.sampleRate);
            same("channelConfig", t.channelConfig(), mp3.channelMode);
        } else {
            checkFormat("object-type", toStr(objectType), e, t);
        }
        if (kind == 1) {
            same("rate", t.samplingFrequency(), rates[rateIndex]);
            same("channelConfig", t.channelConfig(), channelConfig);
        } else if (!visual && kind != 3 && version != 2) {
            same("rate", t.samplingFrequency(), rate);
            same("channels", t.channelCount(), channels);
        } else if (version == 2 && kind != 3 && !visual) {
            same("rate", t.samplingFrequency(), rate2);
            same("channels", t.channelCount(), channels2);
            same("bits", t.bitsPerSample(), bits);
        }
        if (!userData.empty()) {
            same("formatId", t.formatId(), "mp4v / " + userData);
        }
        auto *const mp4Track = dynamic_cast<Mp4Track *>(&t);
        CHECK_MSG(mp4Track, "wrong-track", "there's no MP4 track");
        const auto *const info = mp4Track->mpeg4ElementaryStreamInfo();
        CHECK_MSG(info, "elementary-stream-missing", "there's no information about the elementary stream");
        same("elementary stream id", info->id, esId);
        same("priority", unsigned(info->priority()), priority);
        same("object type", unsigned(info->objectTypeId), objectType);
        same("stream type", unsigned(info->streamTypeId()), streamType);
        same("upstream", unsigned(info->upstream()), upstream);
        same("buffer size", info->bufferSize, buffer);
        same("maximal bitrate", info->maxBitrate, max);
        same("average bitrate", info->averageBitrate, average);
        same("depends on", info->dependsOnId, depends ? dependsOn : 0u);
        same("ocr", info->ocrId, ocr ? ocrId : 0u);
        same("url", info->url, url);
        CHECK_MSG(std::fabs(t.maxBitrate() - max / 1000.0) < 1e-6 * max + 1e-6, "wrong-maxKbps", "maximal bitrate is " + std::to_string(t.maxBitrate()));
        break;
    }
    }
    g.nontrivial();
}

// offsets and sizes of chunks and samples
PBT_TEST(sample_tables, 8000, 80000)
{
    const auto path = g.dir + "/file";
    std::vector<minimal::Mp4Track> tracks(static_cast<std::size_t>(g.range(1, 3)));
    std::uint32_t id = 0;
    for (auto &t : tracks) {
        t.id = ++id;
        t.entry = minimal::audioEntry("alac", 2, 16, 44100);
        t.wideOffsets = g.flip();
        t.uniform = g.chance(1, 3);
        t.timescale = static_cast<std::uint32_t>(g.range(1, 100000));
        t.duration = static_cast<std::uint32_t>(g.bits(28));
        const auto size = static_cast<std::size_t>(g.range(1, 30));
        auto perChunk = g.range(1, 4);
        for (auto n = g.range(1, 12); n; --n) {
            t.chunks.emplace_back();
            if (g.chance(1, 3)) {
                perChunk = g.range(1, 4);
            }
            for (auto m = perChunk; m; --m) {
                t.chunks.back().push_back(g.bytes(t.uniform ? size : g.length(60)));
            }
        }
    }
    writeFile(path, minimal::mp4File(tracks));
    tp::Session session(path);
    parse(session, "");
    const auto reported = session.file.tracks();
    same("tracks", reported.size(), tracks.size());
    for (std::size_t i = 0; i < tracks.size(); ++i) {
        auto *const t = dynamic_cast<Mp4Track *>(reported[i]);
        CHECK_MSG(t, "wrong-track", "there's no MP4 track");
        const auto &e = tracks[i];
        std::uint64_t samples = 0, total = 0;
        std::vector<std::uint64_t> sizes;
        std::vector<std::uint32_t> sampleSizes;
        for (const auto &c : e.chunks) {
            sizes.push_back(0);
            for (const auto &s : c) {
                ++samples;
                total += s.size();
                sizes.back() += s.size();
                sampleSizes.push_back(static_cast<std::uint32_t>(s.size()));
            }
        }
        same("samples", t->sampleCount(), samples);
        same("size", t->size(), total);
        same("chunks", t->chunkCount(), e.chunks.size());
        same("offset size", t->chunkOffsetSize(), e.wideOffsets ? 8u : 4u);
        CHECK_MSG(t->readChunkOffsets(false, session.diag) == e.offsets, "wrong-chunk-offsets", "the chunk offsets differ from the ones of the file");
        CHECK_MSG(t->readChunkSizes(session.diag) == sizes, "wrong-chunk-sizes", "the chunk sizes differ from the ones of the file");
        CHECK_MSG(e.uniform ? t->sampleSizes() == std::vector<std::uint32_t>{ sampleSizes.front() } : t->sampleSizes() == sampleSizes, "wrong-sample-sizes",
            "the sample sizes differ from the ones of the file");
        std::vector<std::uint32_t> perChunk;
        const auto table = t->readSampleToChunkTable(session.diag);
        for (std::size_t n = 0; n < table.size(); ++n) {
            const auto end = n + 1 < table.size() ? std::get<0>(table[n + 1]) : e.chunks.size() + 1;
            for (auto chunk = std::get<0>(table[n]); chunk < end; ++chunk) {
                perChunk.push_back(std::get<1>(table[n]));
            }
            same("sample description", std::get<2>(table[n]), 1);
        }
        auto right = perChunk.size() == e.chunks.size();
        for (std::size_t n = 0; right && n < perChunk.size(); ++n) {
            right = perChunk[n] == e.chunks[n].size();
        }
        CHECK_MSG(right, "wrong-sample-to-chunk", "the number of samples per chunk differs from the one of the file");
        const auto seconds = static_cast<double>(e.duration) / e.timescale;
        CHECK_MSG(std::fabs(t->duration().totalSeconds() - seconds) <= 2e-6 + 1e-6 * seconds, "wrong-seconds", "duration is " + std::to_string(t->duration().totalSeconds()));
        for (const auto &m : session.diag) {
            CHECK_MSG(m.level() < DiagLevel::Critical, "critical-diagnostic", "reading the tables of a well-formed file yields: " + m.message());
        }
        g.nontrivial();
    }
}

namespace {

struct BitWriter {
    std::string data;
    unsigned used = 0;
    void write(std::uint64_t value, unsigned bits)
    {
        while (bits--) {
            if (!(used++ % 8)) {
                data += '\0';
            }
            data.back() = static_cast<char>(data.back() | ((value >> bits & 1) << (7 - (used - 1) % 8)));
        }
    }
};

} // namespace

// audio and video specific configurations of elementary streams
PBT_TEST(specific_configs, 200000, 2000000)
{
    std::stringstream stream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    const auto before = g.bytes(g.length(20)), after = g.bytes(g.length(20));
    Diagnostics diag;
    std::map<std::string, std::uint64_t> expected;
    if (g.chance(2, 3)) {
        BitWriter w;
        const auto type = g.pick({ 1u, 2u, 4u, 6u, 7u, 17u, 19u, 20u, 21u, 22u, 23u });
        const auto frequency = [&](const char *index, const char *value) {
            const auto i = g.chance(1, 6) ? 15u : static_cast<unsigned>(g.below(13));
            w.write(i, 4);
            expected[index] = i;
            if (i == 15) {
                w.write(expected[value] = g.bits(24), 24);
            }
        };
        const auto extension = g.weighted({ 3, 1, 1 }); // none, SBR, PS (backward-incompatible)
        if (extension) {
            w.write(expected["extensionType"] = extension == 1 ? 5 : 29, 5);
            frequency("index", "frequency");
            w.write(expected["channels"] = 1 + g.below(7), 4);
            frequency("extensionIndex", "extensionFrequency");
            w.write(expected["type"] = type, 5);
            expected["sbr"] = 1;
            if (type == 22) {
                w.write(expected["extensionChannels"] = g.below(16), 4);
            }
            if (extension == 2) {
                expected["ps"] = 1;
                expected["extensionChannels"] = 2;
            }
        } else {
            w.write(expected["type"] = type, 5);
            frequency("index", "frequency");
            w.write(expected["channels"] = 1 + g.below(7), 4);
        }
        w.write(expected["frameLength"] = g.flip(), 1);
        const auto depends = g.chance(1, 3);
        w.write(expected["depends"] = depends, 1);
        if (depends) {
            w.write(expected["delay"] = g.bits(14), 14);
        }
        const auto flag = g.chance(1, 3);
        w.write(expected["extensionFlag"] = flag, 1);
        if (type == 6 || type == 20) {
            w.write(expected["layer"] = g.below(8), 3);
        }
        if (flag) {
            if (type == 22) {
                w.write(expected["subFrames"] = g.below(32), 5);
                w.write(expected["layerLength"] = g.below(2048), 11);
            } else if (type == 17 || type == 19 || type == 20 || type == 23) {
                w.write(expected["resilience"] = g.below(8), 3);
            }
            w.write(0, 1);
        }
        if (type >= 17) {
            const auto ep = 2 + g.below(2); // the others are not supported
            w.write(expected["ep"] = ep, 2);
            if (ep == 3) {
                w.write(1, 1);
            }
        }
        if (!extension && g.flip()) { // backward-compatible signalling
            g.label("sync extension");
            w.write(0x2B7, 11);
            const auto bsac = g.chance(1, 4);
            w.write(expected["extensionType"] = bsac ? 22 : 5, 5);
            const auto sbr = g.chance(3, 4);
            w.write(expected["sbr"] = sbr, 1);
            if (sbr) {
                frequency("extensionIndex", "extensionFrequency");
            }
            if (bsac) {
                w.write(expected["extensionChannels"] = g.below(16), 4);
            } else if (sbr && g.flip()) {
                w.write(0x548, 11);
                w.write(expected["ps"] = g.flip(), 1);
            }
        }
        g.describe("audio specific config " + pbt::hex(w.data));
        stream << before << w.data << after;
        const auto c = Mp4Track::parseAudioSpecificConfig(stream, before.size(), w.data.size(), diag);
        const std::pair<const char *, std::uint64_t> actual[] = { { "type", c->audioObjectType }, { "index", c->sampleFrequencyIndex }, { "frequency", c->sampleFrequency },
            { "channels", c->channelConfiguration }, { "extensionType", c->extensionAudioObjectType }, { "sbr", c->sbrPresent }, { "ps", c->psPresent },
            { "extensionIndex", c->extensionSampleFrequencyIndex }, { "extensionFrequency", c->extensionSampleFrequency },
            { "extensionChannels", c->extensionChannelConfiguration }, { "frameLength", c->frameLengthFlag }, { "depends", c->dependsOnCoreCoder },
            { "delay", c->coreCoderDelay }, { "extensionFlag", c->extensionFlag }, { "layer", c->layerNr }, { "subFrames", c->numOfSubFrame },
            { "layerLength", c->layerLength }, { "resilience", c->resilienceFlags }, { "ep", c->epConfig } };
        for (const auto &[key, value] : actual) {
            if (const auto i = expected.find(key); i != expected.end()) {
                CHECK_MSG(value == i->second, std::string("audio-config-") + key, std::string(key) + " is " + toStr(value) + " but the configuration says " + toStr(i->second));
            }
        }
    } else {
        std::string data;
        auto profile = 0u;
        std::string userData;
        const auto objects = g.range(1, 4);
        for (auto i = 0u; i < static_cast<unsigned>(objects); ++i) {
            data += std::string("\0\0\1", 3);
            auto content = g.bytes(g.length(30));
            for (auto &c : content) { // no start codes within objects
                c = static_cast<char>(c | 4);
            }
            switch (i ? g.below(3) : 0) {
            case 0:
                profile = 1 + static_cast<unsigned>(g.below(255));
                data += '\xB0';
                data += static_cast<char>(profile);
                break;
            case 1:
                data += '\xB2' + content;
                userData += content;
                break;
            default:
                data += g.pick({ '\xB5', '\x20', '\xB3' }) + content;
            }
        }
        g.describe("video specific config " + pbt::hex(data));
        stream << before << data << after;
        CppUtilities::BinaryReader reader(&stream);
        const auto c = Mp4Track::parseVideoSpecificConfig(reader, before.size(), data.size(), diag);
        CHECK_MSG(c->profile == profile, "video-config-profile", "profile is " + toStr(c->profile) + " but the configuration says " + toStr(profile));
        CHECK_MSG(c->userData == userData, "video-config-user-data", "user data is " + pbt::quote(c->userData) + " but the configuration says " + pbt::quote(userData));
    }
    for (const auto &m : diag) {
        CHECK_MSG(m.level() < DiagLevel::Warning, "config-diagnostic", "parsing a well-formed configuration yields: " + m.message());
    }
    g.nontrivial();
}

namespace {

// the page the specified packet is the only content of
std::string oggPageOf(pbt::Gen &g, const std::string &packet)
{
    auto page = std::string("OggS\0\2", 6);
    le(page, 0, 8);
    le(page, g.bits(32), 4);
    le(page, 0, 4);
    le(page, 0, 4);
    page += '\1';
    page += static_cast<char>(packet.size());
    page += packet;
    std::string crc;
    le(crc, crc32Ogg(page), 4);
    page.replace(22, 4, crc);
    return page;
}

} // namespace

// headers parsed via the classes made for it, in the middle of a stream
PBT_TEST(headers, 400000, 3000000)
{
    std::stringstream stream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    CppUtilities::BinaryReader reader(&stream);
    const auto before = g.bytes(g.length(20)), after = g.bytes(g.length(20));
    Diagnostics diag;
    std::map<std::string, std::uint64_t> expected, actual;
    std::string what;
    const auto place = [&](const std::string &data) {
        g.describe(what + " " + pbt::hex(data.substr(0, 200)));
        stream << before << data << after;
        stream.seekg(static_cast<std::streamoff>(before.size()));
    };
    switch (g.below(7)) {
    case 0: {
        what = "MPEG audio frame";
        static constexpr std::uint16_t rates[5][15] = { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 },
            { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384 }, { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 },
            { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 } };
        static constexpr unsigned frequencies[] = { 44100, 48000, 32000 };
        const auto version = g.pick({ 0u, 2u, 3u }); // 2.5, 2, 1
        const auto layer = 1 + static_cast<unsigned>(g.below(3));
        const auto rate = 1 + static_cast<unsigned>(g.below(14));
        const auto frequency = static_cast<unsigned>(g.below(3));
        const auto mode = static_cast<unsigned>(g.below(4));
        BitWriter w;
        w.write(0x7FF, 11);
        w.write(version, 2);
        w.write(4 - layer, 2);
        w.write(!(expected["crc"] = g.flip()), 1);
        w.write(rate, 4);
        w.write(frequency, 2);
        const auto padding = g.flip();
        w.write(padding, 1);
        w.write(g.below(2), 1);
        w.write(mode, 2);
        w.write(g.below(4), 2);
        w.write(expected["copyright"] = g.flip(), 1);
        w.write(expected["original"] = g.flip(), 1);
        w.write(g.below(4), 2);
        const auto hz = frequencies[frequency] >> (version == 3 ? 0 : version == 2 ? 1 : 2);
        const auto kbit = rates[version == 3 ? layer - 1 : layer == 1 ? 3 : 4][rate];
        const auto samples = layer == 1 ? 384u : layer == 3 && version != 3 ? 576u : 1152u;
        const auto size = layer == 1 ? (12u * kbit * 1000u / hz + padding) * 4u : samples / 8u * kbit * 1000u / hz + padding;
        expected["version"] = version == 3 ? 10 : version == 2 ? 20 : 25;
        expected["layer"] = layer;
        expected["bitrate"] = kbit;
        expected["frequency"] = hz;
        expected["padding"] = padding ? (layer == 1 ? 4 : 1) : 0;
        expected["mode"] = mode; // matches the order of the enumeration
        expected["samples"] = samples;
        expected["size"] = size;
        auto frame = w.data;
        const auto side = version == 3 ? (mode == 3 ? 17u : 32u) : mode == 3 ? 9u : 17u;
        if (size < 4 + side) {
            g.discard();
        }
        frame += std::string(side, '\0');
        expected["xing"] = 0;
        expected["xing frames"] = expected["xing bytes"] = expected["xing quality"] = 0;
        if (layer == 3 && g.chance(3, 4)) {
            const auto flags = static_cast<unsigned>(g.below(16));
            std::string xing(g.flip() ? "Xing" : "Info");
            be(xing, flags, 4);
            if (flags & 1) {
                be(xing, expected["xing frames"] = g.bits(32), 4);
            }
            if (flags & 2) {
                be(xing, expected["xing bytes"] = g.bits(32), 4);
            }
            if (flags & 4) {
                xing += g.bytes(100);
            }
            if (flags & 8) {
                be(xing, expected["xing quality"] = g.bits(32), 4);
            }
            if (frame.size() + xing.size() > size) {
                g.discard(); // does not fit into the frame
            }
            g.label("Xing header");
            expected["xing"] = 1;
            expected["xing flags"] = flags;
            expected["xing fields"] = flags;
            frame += xing;
        }
        frame.resize(std::max<std::size_t>(size, frame.size()), '\x55');
        place(frame);
        MpegAudioFrame f;
        f.parseHeader(reader, diag);
        actual = { { "crc", f.isProtectedByCrc() }, { "copyright", f.hasCopyright() }, { "original", f.isOriginal() },
            { "version", static_cast<std::uint64_t>(f.mpegVersion() * 10.0) }, { "layer", static_cast<std::uint64_t>(f.layer()) }, { "bitrate", f.bitrate() },
            { "frequency", f.samplingFrequency() }, { "padding", f.paddingSize() }, { "mode", static_cast<std::uint64_t>(f.channelMode()) },
            { "samples", f.sampleCount() }, { "size", f.size() }, { "xing", f.isXingHeaderAvailable() }, { "xing frames", f.xingFrameCount() },
            { "xing bytes", f.xingBytesfield() }, { "xing quality", f.xingQualityIndicator() },
            { "xing flags", static_cast<std::uint64_t>(f.xingHeaderFlags()) & 15 },
            { "xing fields",
                f.isXingFramefieldPresent() | f.isXingBytesfieldPresent() << 1 | f.isXingTocFieldPresent() << 2 | f.isXingQualityIndicatorFieldPresent() << 3 } };
        break;
    }
    case 1: {
        what = "ADTS frame";
        BitWriter w;
        w.write(0xFFF, 12);
        w.write(!(expected["mpeg4"] = g.flip()) ? 0 : 1, 1);
        w.write(0, 2);
        const auto crc = g.flip();
        w.write(!crc, 1);
        expected["crc"] = crc;
        const auto object = 1 + g.below(4);
        w.write(object - 1, 2);
        w.write(expected["frequency"] = g.below(13), 4);
        w.write(g.below(2), 1);
        w.write(expected["channels"] = g.below(8), 3);
        w.write(g.below(16), 4);
        const auto header = crc ? 9u : 7u;
        w.write(expected["size"] = header + g.below(8192 - header), 13);
        w.write(expected["fullness"] = g.below(2048), 11);
        const auto frames = 1 + g.below(4);
        w.write(frames - 1, 2);
        if (crc) {
            w.write(expected["crc value"] = g.bits(16), 16);
        }
        expected["object"] = object;
        expected["frames"] = frames;
        expected["header"] = header;
        expected["data"] = expected["size"] - header;
        place(w.data);
        AdtsFrame f;
        f.parseHeader(reader);
        actual = { { "mpeg4", f.isMpeg4() }, { "crc", f.hasCrc() }, { "object", f.mpeg4AudioObjectId() }, { "frequency", f.mpeg4SamplingFrequencyIndex() },
            { "channels", f.mpeg4ChannelConfig() }, { "size", f.totalSize() }, { "header", f.headerSize() }, { "data", f.dataSize() },
            { "fullness", f.bufferFullness() }, { "frames", f.frameCount() }, { "crc value", f.crc() } };
        break;
    }
    case 2: {
        what = "FLAC stream info";
        BitWriter w;
        w.write(expected["min block"] = g.bits(16), 16);
        w.write(expected["max block"] = g.bits(16), 16);
        w.write(expected["min frame"] = g.bits(24), 24);
        w.write(expected["max frame"] = g.bits(24), 24);
        w.write(expected["frequency"] = g.bits(20), 20);
        const auto channels = 1 + g.below(8), bits = 4 + g.below(29);
        w.write((expected["channels"] = channels) - 1, 3);
        w.write((expected["bits"] = bits) - 1, 5);
        w.write(expected["samples"] = g.bits(36), 36);
        const auto md5 = g.bytes(16);
        const auto data = w.data + md5;
        place(data);
        FlacMetaDataBlockStreamInfo f;
        f.parse(data);
        expected["md5"] = 1;
        actual = { { "min block", f.minBlockSize() }, { "max block", f.maxBlockSize() }, { "min frame", f.minFrameSize() }, { "max frame", f.maxFrameSize() },
            { "frequency", f.samplingFrequency() }, { "channels", f.channelCount() }, { "bits", f.bitsPerSample() }, { "samples", f.totalSampleCount() },
            { "md5", !std::memcmp(f.md5Sum(), md5.data(), 16) } };
        break;
    }
    case 3: {
        what = "FLAC block header";
        BitWriter w;
        w.write(expected["last"] = g.flip(), 1);
        w.write(expected["type"] = g.below(128), 7);
        w.write(expected["size"] = g.bits(24), 24);
        place(w.data);
        FlacMetaDataBlockHeader f;
        f.parseHeader(w.data);
        std::stringstream made;
        f.makeHeader(made);
        expected["made"] = expected["made new"] = 1;
        actual = { { "last", f.isLast() ? 1 : 0 }, { "type", f.type() }, { "size", f.dataSize() }, { "made", made.str() == w.data } };
        FlacMetaDataBlockHeader n;
        n.setLast(expected["last"] ? static_cast<std::uint8_t>(g.range(1, 255)) : 0);
        n.setType(static_cast<FlacMetaDataBlockType>(expected["type"]));
        n.setDataSize(static_cast<std::uint32_t>(expected["size"]));
        std::stringstream again;
        n.makeHeader(again);
        actual["made new"] = again.str() == w.data;
        break;
    }
    case 4: {
        what = "WAVE format header";
        std::string data;
        const auto format = g.pick({ 1u, 3u, 0x50u, 0x55u, 0xFFFEu, 2u, 6u });
        le(data, format, 2);
        le(data, expected["channels"] = g.bits(16), 2);
        le(data, expected["frequency"] = g.bits(32), 4);
        le(data, expected["bytes per second"] = g.bits(32), 4);
        le(data, expected["block"] = g.bits(16), 2);
        const auto bits = g.bits(16);
        le(data, bits, 2);
        expected["bits"] = bits;
        auto consumed = data.size();
        if (format == 0xFFFE) {
            le(data, 22, 2);
            le(data, expected["bits"] = g.bits(16), 2);
            le(data, expected["mask"] = g.bits(32), 4);
            const auto guid = g.weighted({ 3, 3, 1 });
            if (guid < 2) {
                data += std::string(guid ? "\3\0" : "\1\0", 2) + std::string("\0\0\0\0\x10\0\x80\0\0\xAA\0\x38\x9B\x71", 14);
                expected["format"] = static_cast<std::uint64_t>(GeneralMediaFormat::Pcm);
                expected["sub"] = guid ? SubFormats::PcmFloatIeee : SubFormats::PcmIntLe;
            } else {
                data += std::string(8, '\x5A') + g.bytes(8);
                expected["format"] = static_cast<std::uint64_t>(GeneralMediaFormat::Unknown);
            }
            consumed = data.size();
        } else {
            if (format != 1 && format != 3) {
                const auto extension = g.bytes(2 + g.length(30));
                le(data, extension.size(), 2);
                data += extension;
                consumed = data.size();
            }
            switch (format) {
            case 1:
            case 3:
                expected["format"] = static_cast<std::uint64_t>(GeneralMediaFormat::Pcm);
                expected["sub"] = format == 1 ? SubFormats::PcmIntLe : SubFormats::PcmFloatIeee;
                break;
            case 0x50:
            case 0x55:
                expected["format"] = static_cast<std::uint64_t>(GeneralMediaFormat::Mpeg1Audio);
                expected["sub"] = format == 0x50 ? SubFormats::Mpeg1Layer2 : SubFormats::Mpeg1Layer3;
                break;
            default:
                expected["format"] = static_cast<std::uint64_t>(GeneralMediaFormat::Unknown);
            }
        }
        expected["format tag"] = format;
        expected["consumed"] = expected["position"] = consumed;
        place(data);
        WaveFormatHeader f;
        const auto read = f.parse(reader, data.size(), diag);
        actual = { { "format tag", f.formatTag }, { "channels", f.channelCount }, { "frequency", f.sampleRate }, { "bytes per second", f.bytesPerSecond },
            { "block", f.chunkSize }, { "bits", f.bitsPerSample }, { "mask", f.channelMask }, { "format", static_cast<std::uint64_t>(f.format().general) },
            { "sub", f.format().sub }, { "consumed", read }, { "position", static_cast<std::uint64_t>(stream.tellg()) - before.size() } };
        break;
    }
    case 5: {
        what = "Vorbis identification header";
        std::string data("\1vorbis");
        le(data, expected["version"] = g.bits(32), 4);
        le(data, expected["channels"] = g.bits(8), 1);
        le(data, expected["frequency"] = g.bits(32), 4);
        le(data, expected["max bitrate"] = g.bits(32), 4);
        le(data, expected["nominal bitrate"] = g.bits(32), 4);
        le(data, expected["min bitrate"] = g.bits(32), 4);
        le(data, expected["block size"] = g.bits(8), 1);
        le(data, expected["framing"] = g.bits(8), 1);
        const auto page = oggPageOf(g, data);
        place(page);
        OggIterator iterator(stream, before.size(), before.size() + page.size());
        iterator.reset();
        VorbisIdentificationHeader f;
        f.parseHeader(iterator);
        expected["rest"] = 0;
        actual = { { "version", f.version() }, { "channels", f.channels() }, { "frequency", f.sampleRate() }, { "max bitrate", f.maxBitrate() },
            { "nominal bitrate", f.nominalBitrate() }, { "min bitrate", f.minBitrate() }, { "block size", f.blockSize() }, { "framing", f.framingFlag() },
            { "rest", iterator ? iterator.remainingBytesInCurrentSegment() : 0 } };
        break;
    }
    default: {
        what = "Opus identification header";
        std::string data("OpusHead");
        le(data, expected["version"] = g.bits(8), 1);
        le(data, expected["channels"] = g.bits(8), 1);
        le(data, expected["pre-skip"] = g.bits(16), 2);
        le(data, expected["frequency"] = g.bits(32), 4);
        le(data, expected["gain"] = g.bits(16), 2);
        le(data, expected["map"] = g.bits(8), 1);
        const auto page = oggPageOf(g, data);
        place(page);
        OggIterator iterator(stream, before.size(), before.size() + page.size());
        iterator.reset();
        OpusIdentificationHeader f;
        f.parseHeader(iterator);
        expected["rest"] = 0;
        actual = { { "version", f.version() }, { "channels", f.channels() }, { "pre-skip", f.preSkip() }, { "frequency", f.sampleRate() }, { "gain", f.outputGain() },
            { "map", f.channelMap() }, { "rest", iterator ? iterator.remainingBytesInCurrentSegment() : 0 } };
        break;
    }
    }
    g.label(what);
    for (const auto &[key, value] : expected) {
        const auto i = actual.find(key);
        CHECK_MSG(i != actual.end() && i->second == value, "header-" + key,
            key + " of the " + what + " is " + (i != actual.end() ? toStr(i->second) : "unknown") + " but the header says " + toStr(value));
    }
    for (const auto &m : diag) {
        CHECK_MSG(m.level() < DiagLevel::Warning, "header-diagnostic", "parsing a well-formed " + what + " yields: " + m.message());
    }
    g.nontrivial();
}
