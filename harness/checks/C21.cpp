// C21: The container format is recognised and tags located in any framing
#include "../fmt.h"
#include "../id3.h"
#include "../scenario.h"
#include <tagparser/abstracttrack.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/signature.h>

using namespace TagParser;
using namespace util;

namespace pbt {
const char *g_property = "C21";
const char *g_rule = "a file with at least one byte in front of or behind its contents, or a buffer containing a signature followed by generated bytes";
const char *g_level = "property-based testing: generated contents in generated framings, reported format and offsets compared with the generated ones";
}

namespace {

struct Signature {
    std::string bytes;
    ContainerFormat format;
    bool handled = false; // tracks or tags of the format are parsed
};

/// independent list of magic numbers (from the specifications of the formats)
const std::vector<Signature> &signatures()
{
    const auto s = [](const char *hex) {
        std::string r;
        for (; *hex; hex += 2) {
            r += static_cast<char>(std::stoul(std::string(hex, 2), nullptr, 16));
        }
        return r;
    };
    static const std::vector<Signature> list = {
        { "!<arch>\n", ContainerFormat::Ar },
        { s("3026B2758E66CF11"), ContainerFormat::Asf },
        { s("89504E470D0A1A0A"), ContainerFormat::Png },
        { "YUV4MPEG2 ", ContainerFormat::YUV4Mpeg2 },
        { std::string("Rar!\x1A\x07\0", 7), ContainerFormat::Rar },
        { "GIF87a", ContainerFormat::Gif87a },
        { "GIF89a", ContainerFormat::Gif89a },
        { s("377ABCAF271C"), ContainerFormat::SevenZ },
        { s("FD377A585A00"), ContainerFormat::Xz },
        { std::string("FORM\0", 5), ContainerFormat::Aiff },
        { "BBCD", ContainerFormat::Dirac },
        { "\x7F" "ELF", ContainerFormat::Elf },
        { s("CAFEBABE"), ContainerFormat::JavaClassFile },
        { "MThd", ContainerFormat::Midi },
        { "MAC ", ContainerFormat::MonkeysAudio },
        { "8BPS", ContainerFormat::PhotoshopDocument },
        { s("4D4D002A"), ContainerFormat::TiffBigEndian },
        { s("49492A00"), ContainerFormat::TiffLittleEndian },
        { s("FFFE0000"), ContainerFormat::Utf32Text },
        { "wvpk", ContainerFormat::WavPack },
        { s("00000100"), ContainerFormat::WindowsIcon },
        { "LZIP", ContainerFormat::Lzip },
        { "PK\x03\x04", ContainerFormat::Zip },
        { "PK\x05\x06", ContainerFormat::Zip },
        { "PK\x07\x08", ContainerFormat::Zip },
        { s("28B52FFD"), ContainerFormat::Zstd },
        { "BZh", ContainerFormat::Bzip2 },
        { "FLV", ContainerFormat::FlashVideo },
        { s("1F8B08"), ContainerFormat::Gzip },
        { s("EFBBBF"), ContainerFormat::Utf8Text },
        { s("0B77"), ContainerFormat::Ac3Frames },
        { s("FFD8"), ContainerFormat::Jpeg },
        { s("1FA0"), ContainerFormat::Lha },
        { s("1F9D"), ContainerFormat::Lzw },
        { "MZ", ContainerFormat::PortableExecutable },
        { s("FFFE"), ContainerFormat::Utf16Text },
        { "BM", ContainerFormat::WindowsBitmap },
        // formats which are handled
        { "fLaC", ContainerFormat::Flac, true },
        { "DKIF", ContainerFormat::Ivf, true },
        { s("1A45DFA3"), ContainerFormat::Ebml, true },
        { "OggS", ContainerFormat::Ogg, true },
        { "ID3", ContainerFormat::Id3v2Tag, true },
        { "APETAGEX", ContainerFormat::ApeTag, true },
        { s("FFF1"), ContainerFormat::Adts, true },
        { s("FFF9"), ContainerFormat::Adts, true },
        { s("FFFB"), ContainerFormat::MpegAudioFrames, true },
        { s("FFF3"), ContainerFormat::MpegAudioFrames, true },
        { s("FFE2"), ContainerFormat::MpegAudioFrames, true },
        { s("FFFD"), ContainerFormat::MpegAudioFrames, true },
    };
    return list;
}

/// whether the buffer starts with another (longer) signature or has one at another position
bool ambiguous(std::string_view b, const Signature &s)
{
    if (b.size() >= 8 && (b.substr(4, 4) == "ftyp" || b.substr(4, 4) == "moov")) {
        return true;
    }
    for (const auto &o : signatures()) {
        if (o.format != s.format && o.bytes.size() > s.bytes.size() && b.substr(0, o.bytes.size()) == o.bytes) {
            return true;
        }
    }
    return false;
}

std::string nameOf(ContainerFormat f)
{
    return std::string(containerFormatName(f)) + " (" + toStr(static_cast<unsigned>(f)) + ")";
}

/// bytes which aren't part of any signature
std::string junk(pbt::Gen &g, std::size_t n)
{
    std::string r;
    while (r.size() < n) {
        r += "qjx?"[g.below(4)];
    }
    return r;
}

struct Framing {
    std::string leading, trailing;
    std::vector<std::size_t> id3v2; // offsets
    std::size_t id3v2End = 0;
    std::size_t junk = 0; // zero and junk bytes
    std::uint64_t id3v2Padding = 0;
    bool id3v1 = false;
};

Framing genFraming(pbt::Gen &g, bool allowApeFirst)
{
    Framing f;
    const auto limit = 0x7FFu;
    for (auto n = g.below(5); n; --n) {
        switch (g.weighted({ 4, 3, 2, 1 })) {
        case 0: {
            id3m::Items model;
            id3::EncodeOptions eo;
            const auto tag = id3m::genTag(g, static_cast<unsigned>(g.pick({ 4, 3, 2 })), 3, model, eo);
            eo.padding = !eo.footer && g.flip() ? g.length(1000) : 0;
            f.id3v2.push_back(f.leading.size());
            f.leading += id3::encode(tag, eo);
            f.id3v2End = f.leading.size();
            f.id3v2Padding += eo.padding;
            g.label("ID3v2");
            break;
        }
        case 1: { // zero bytes
            const auto zeros = g.length(limit - f.junk);
            f.leading.append(zeros, '\0');
            f.junk += zeros;
            if (zeros) {
                g.label("zero bytes");
            }
            break;
        }
        case 2: {
            const auto more = g.length(limit - f.junk);
            f.leading += junk(g, more);
            f.junk += more;
            if (more) {
                g.label("junk");
            }
            break;
        }
        default:
            if (allowApeFirst) {
                f.leading += id3::encodeApe({ { "Title", g.asciiWord(10) } }, false).substr(0, 0);
            }
        }
    }
    if (g.chance(1, 3)) {
        const auto title = g.asciiWord(30);
        f.trailing = id3::encodeApe({ { "Title", title } }, g.flip());
        if (f.trailing.size() == 131) {
            f.trailing = id3::encodeApe({ { "Title", title + "." } }, g.flip()); // "TAG" of "APETAGEX" looks like an ID3v1 tag otherwise
        }
        if (f.trailing.size() == 131) {
            f.trailing.clear();
        } else {
            g.label("APE");
        }
    }
    if ((f.id3v1 = g.chance(1, 3))) {
        id3::V1 t;
        t.title = g.asciiWord(30);
        f.trailing += id3::encodeV1(t);
        g.label("ID3v1");
    }
    return f;
}

void parse(tp::Session &session, const char *what)
{
    try {
        session.parse();
    } catch (const pbt::Discard &) {
        throw;
    } catch (...) {
        pbt::fail("parsing-failed", std::string(what) + ": " + tp::currentExceptionText());
    }
}

void checkFraming(MediaFileInfo &f, const Framing &framing, std::size_t size, bool handled, const std::string &what)
{
    const auto expectedOffset = handled ? framing.leading.size() : framing.id3v2End;
    CHECK_MSG(f.containerOffset() == expectedOffset, "wrong-offset", what + ": container offset is " + toStr(f.containerOffset()) + " instead of " + toStr(expectedOffset));
    CHECK_MSG(f.id3v2Tags().size() == framing.id3v2.size(), "wrong-id3v2-tags",
        what + ": " + toStr(f.id3v2Tags().size()) + " ID3v2 tags instead of " + toStr(framing.id3v2.size()));
    CHECK_MSG(f.hasId3v1Tag() == framing.id3v1, "wrong-id3v1-tag", what + (framing.id3v1 ? ": ID3v1 tag has not been found" : ": non-existing ID3v1 tag reported"));
    const auto effective = size - expectedOffset - framing.trailing.size();
    CHECK_MSG(f.effectiveSize() == effective, "wrong-effective-size", what + ": effective size is " + toStr(f.effectiveSize()) + " instead of " + toStr(effective));
}

} // namespace

// signatures at the beginning of a buffer
PBT_TEST(buffers, 450000, 2000000)
{
    const auto &s = g.pickFrom(signatures());
    auto buffer = s.bytes + g.bytes(g.length(30));
    const auto wav = g.below(40), avi = g.below(40);
    g.describe("buffer " + pbt::hex(buffer));
    if (buffer.size() < 8 && s.bytes.size() > (buffer.size() >= 4 ? 4u : 2u)) {
        g.discard(); // only 16-bit and 32-bit signatures are recognised in small buffers
    }
    if (ambiguous(buffer, s) || (s.format == ContainerFormat::MpegAudioFrames && false)) {
        g.discard();
    }
    g.nontrivial();
    const auto actual = parseSignature(buffer);
    CHECK_MSG(actual == s.format, "signature-not-recognised", "signature of " + nameOf(s.format) + " recognised as " + nameOf(actual));
    if (!wav || !avi) {
        const auto riff = "RIFF" + g.bytes(4) + (!wav ? "WAVE" : "AVI LIST") + g.bytes(g.length(10));
        if (riff.substr(4, 4) != "ftyp" && riff.substr(4, 4) != "moov") {
            const auto expected = !wav ? ContainerFormat::RiffWave : ContainerFormat::RiffAvi;
            CHECK_MSG(parseSignature(riff) == expected, "signature-not-recognised", "signature of " + nameOf(expected) + " recognised as " + nameOf(parseSignature(riff)));
        }
    }
    const auto boxes = g.bytes(4) + (g.flip() ? "ftyp" : "moov") + g.bytes(g.length(8));
    CHECK_MSG(parseSignature(boxes) == (boxes[4] == 'f' ? ContainerFormat::Mp4 : ContainerFormat::QuickTime), "signature-not-recognised",
        "signature " + pbt::hex(boxes) + " recognised as " + nameOf(parseSignature(boxes)));
}

// anything else isn't recognised as a format
PBT_TEST(no_signature, 300000, 1000000)
{
    auto buffer = g.bytes(g.length(30));
    if (g.flip()) { // almost a signature
        buffer = g.pickFrom(signatures()).bytes + buffer;
        const auto i = g.below(buffer.size());
        buffer[i] = static_cast<char>(buffer[i] ^ (1 << g.below(8)));
    }
    g.describe("buffer " + pbt::hex(buffer));
    const auto actual = parseSignature(buffer);
    auto matches = actual == ContainerFormat::Unknown;
    const auto at = [&](std::size_t i) { return i < buffer.size() ? static_cast<unsigned char>(buffer[i]) : 0u; };
    for (const auto &s : signatures()) {
        matches = matches || (s.format == actual && buffer.compare(0, s.bytes.size(), s.bytes) == 0);
    }
    switch (actual) {
    case ContainerFormat::MpegAudioFrames:
        matches = at(0) == 0xFF && at(1) >= 0xE0;
        break;
    case ContainerFormat::Adts:
        matches = at(0) == 0xFF && (at(1) & 0xF6) == 0xF0;
        break;
    case ContainerFormat::Mp4:
        matches = buffer.compare(4, 4, "ftyp") == 0;
        break;
    case ContainerFormat::QuickTime:
        matches = buffer.compare(4, 4, "moov") == 0;
        break;
    case ContainerFormat::Riff:
    case ContainerFormat::RiffWave:
    case ContainerFormat::RiffAvi:
        matches = buffer.compare(0, 4, "RIFF") == 0;
        break;
    case ContainerFormat::Aiff:
        matches = buffer.compare(0, 4, "FORM") == 0; // the fifth byte is usually zero
        break;
    case ContainerFormat::Asf:
        matches = matches || buffer.compare(0, 8, "\xA6\xD9\x00\xAA\x00\x62\xCE\x6C", 8) == 0;
        break;
    default:;
    }
    if (actual != ContainerFormat::Unknown || !buffer.empty()) {
        g.nontrivial();
    }
    CHECK_MSG(matches, "wrongly-recognised", "buffer recognised as " + nameOf(actual));
}

// contents of the supported formats in all kinds of framings
PBT_TEST(supported_formats, 75000, 250000)
{
    fmt::GenOptions options;
    options.tags = options.padding = false;
    options.rich = g.flip();
    const auto kind = g.pickFrom(sc::kinds());
    g.label(fmt::name(kind));
    const auto file = fmt::generate(g, kind, options);
    const auto framing = genFraming(g, true);
    const auto path = g.dir + "/test";
    const auto bytes = framing.leading + file.bytes + framing.trailing;
    writeFile(path, bytes);
    g.describe(file.what + ": " + toStr(framing.leading.size()) + " bytes in front with " + toStr(framing.id3v2.size()) + " ID3v2 tags and " + toStr(framing.junk)
        + " zero or junk bytes, " + toStr(framing.trailing.size()) + " bytes behind" + (framing.id3v1 ? " with ID3v1 tag" : "") + ", file starts with " + pbt::hex(bytes.substr(0, 48)));
    if (!framing.leading.empty() || !framing.trailing.empty()) {
        g.nontrivial();
    }
    tp::Session session(path);
    parse(session, fmt::name(kind));
    auto &f = session.file;
    static const std::map<fmt::Kind, std::vector<ContainerFormat>> formats = { { fmt::Kind::Mpeg, { ContainerFormat::MpegAudioFrames } }, { fmt::Kind::Adts, { ContainerFormat::Adts } },
        { fmt::Kind::Wav, { ContainerFormat::RiffWave } }, { fmt::Kind::Ivf, { ContainerFormat::Ivf } }, { fmt::Kind::Flac, { ContainerFormat::Flac } },
        { fmt::Kind::Ogg, { ContainerFormat::Ogg } }, { fmt::Kind::Mp4, { ContainerFormat::Mp4, ContainerFormat::QuickTime } },
        { fmt::Kind::Matroska, { ContainerFormat::Matroska, ContainerFormat::Webm } } };
    const auto &expected = formats.at(kind);
    CHECK_MSG(std::find(expected.begin(), expected.end(), f.containerFormat()) != expected.end(), "wrong-format", std::string(fmt::name(kind)) + " recognised as " + nameOf(f.containerFormat()));
    checkFraming(f, framing, bytes.size(), true, fmt::name(kind));
    if (kind == fmt::Kind::Mpeg || kind == fmt::Kind::Adts || kind == fmt::Kind::Wav || kind == fmt::Kind::Ivf) {
        const auto padding = framing.junk + framing.id3v2Padding;
        CHECK_MSG(f.paddingSize() == padding, "wrong-padding", std::string(fmt::name(kind)) + ": padding is " + toStr(f.paddingSize()) + " instead of " + toStr(padding));
    }
    // abbreviation and MIME type according to the tracks
    auto video = false, audio = false;
    auto opus = true, speex = true;
    const auto tracks = file.declared.count("tracks") ? std::stoul(file.declared.at("tracks")) : 1;
    for (std::size_t i = 0; i < tracks; ++i) {
        const auto get = [&](const char *key) {
            const auto e = file.declared.find("track" + toStr(i) + "." + key);
            return e != file.declared.end() ? e->second : std::string();
        };
        video = video || get("type") == "video" || get("format") == "Theora";
        audio = audio || get("type") == "audio";
        opus = opus && get("format") == "Opus";
        speex = speex && get("format") == "Speex";
    }
    std::string abbreviation, mime;
    switch (kind) {
    case fmt::Kind::Mpeg:
        abbreviation = "mp" + file.declared.at("track0.layer");
        mime = "audio/mpeg";
        break;
    case fmt::Kind::Wav:
        abbreviation = "wav";
        break;
    case fmt::Kind::Ivf:
        abbreviation = "ivf";
        break;
    case fmt::Kind::Flac:
        abbreviation = "flac";
        mime = "audio/flac";
        break;
    case fmt::Kind::Ogg:
        abbreviation = video ? "ogv" : opus ? "opus" : speex ? "spx" : "ogg";
        mime = video ? "video/ogg" : "audio/ogg";
        break;
    case fmt::Kind::Mp4:
        if (f.containerFormat() == ContainerFormat::QuickTime) {
            abbreviation = "mov";
            mime = "video/quicktime";
        } else {
            abbreviation = video ? "mp4" : "m4a";
            mime = video ? "video/mp4" : "audio/mp4";
        }
        break;
    case fmt::Kind::Matroska:
        if (f.containerFormat() == ContainerFormat::Matroska) {
            abbreviation = video ? "mkv" : "mka";
            mime = video ? "video/x-matroska" : "audio/x-matroska";
        }
        break;
    default:;
    }
    CHECK_MSG(f.containerFormatAbbreviation() == abbreviation, "wrong-abbreviation",
        std::string(fmt::name(kind)) + ": abbreviation is " + pbt::quote(std::string(f.containerFormatAbbreviation())) + " instead of " + pbt::quote(abbreviation));
    CHECK_MSG(f.mimeType() == mime, "wrong-mime-type",
        std::string(fmt::name(kind)) + ": MIME type is " + pbt::quote(std::string(f.mimeType())) + " instead of " + pbt::quote(mime));
}

// contents of other formats
PBT_TEST(other_formats, 90000, 300000)
{
    Signature s;
    std::string contents;
    if (g.chance(1, 8)) { // no format at all
        contents = junk(g, 0x800 + static_cast<std::size_t>(g.range(0, 3000)));
        s.format = ContainerFormat::Unknown;
    } else {
        do {
            s = g.pickFrom(signatures());
        } while (s.handled);
        contents = s.bytes + g.bytes(static_cast<std::size_t>(g.range(20, 300)));
        if (ambiguous(contents, s)) {
            g.discard();
        }
    }
    auto framing = genFraming(g, false);
    if (s.format == ContainerFormat::WindowsIcon && framing.junk) {
        g.discard(); // starts with zero bytes itself
    }
    // a TAR archive has its signature elsewhere
    auto bytes = framing.leading + contents + framing.trailing;
    const auto path = g.dir + "/test";
    writeFile(path, bytes);
    g.describe(nameOf(s.format) + ": " + toStr(framing.leading.size()) + " bytes in front with " + toStr(framing.id3v2.size()) + " ID3v2 tags and " + toStr(framing.junk)
        + " zero or junk bytes, " + toStr(framing.trailing.size()) + " bytes behind" + (framing.id3v1 ? " with ID3v1 tag" : ""));
    g.nontrivial();
    tp::Session session(path);
    parse(session, "other format");
    auto &f = session.file;
    CHECK_MSG(f.containerFormat() == s.format, "wrong-format", nameOf(s.format) + " recognised as " + nameOf(f.containerFormat()));
    checkFraming(f, framing, bytes.size(), false, nameOf(s.format));
    CHECK_MSG(f.tracks().empty(), "tracks-of-other-format", "tracks reported for " + nameOf(s.format));
    CHECK_MSG(readFile(path) == bytes, "modified", "the file has been modified when parsing it");
}

// TAR archives
PBT_TEST(tar, 9000, 30000)
{
    auto name = g.pick({ std::string("q"), std::string() }) + junk(g, g.length(90));
    std::string contents = name;
    contents.resize(100);
    for (auto n = 0x101 - 100; n; --n) {
        contents += "0123 "[g.below(5)];
    }
    contents += std::string("ustar\0" "00", 8) + std::string(g.length(247), '\0');
    const auto path = g.dir + "/test";
    writeFile(path, contents);
    g.describe(pbt::quote(name));
    if (name.empty()) {
        g.discard();
    }
    g.nontrivial();
    tp::Session session(path);
    parse(session, "TAR");
    CHECK_MSG(session.file.containerFormat() == ContainerFormat::Tar, "wrong-format", "TAR archive recognised as " + nameOf(session.file.containerFormat()));
    CHECK_MSG(session.file.containerOffset() == 0, "wrong-offset", "container offset of TAR archive is " + toStr(session.file.containerOffset()));
}
