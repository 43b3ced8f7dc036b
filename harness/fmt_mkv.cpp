// Matroska and WebM files.
#include "avc.h"
#include "mkv.h"
#include <algorithm>
#include <functional>

using namespace TagParser;
using namespace util;

namespace fmt::mkvf {

using namespace mkv;

namespace {

struct Layout {
    std::map<std::string, std::uint64_t> pos; // of level 1 elements relative to the segment's data
    std::vector<std::uint64_t> clusters, sizes; // of clusters
};
struct Part {
    std::string name;
    std::uint32_t id = 0;
    int cluster = -1;
    std::function<std::string(const Layout &)> make;
};
struct BlockInfo {
    std::size_t cluster = 0, number = 0;
    std::uint64_t relative = 0, time = 0, track = 1;
};

std::uint64_t at(const std::vector<std::uint64_t> &v, std::size_t i)
{
    return i < v.size() ? v[i] : 0;
}

std::string vint(std::uint64_t v)
{
    return size(v);
}

std::string genTrack(pbt::Gen &g, const GenOptions &o, std::size_t index, std::uint64_t uid, std::map<std::string, std::string> &declared)
{
    const auto prefix = "track" + toStr(index) + ".";
    std::vector<std::string> parts;
    parts.push_back(num(TrackNumber, index + 1));
    parts.push_back(num(TrackUid, uid));
    declared[prefix + "id"] = toStr(uid);
    const auto type = index ? g.weighted({ 6, 9, 6, o.rich ? 1u : 0u, o.rich ? 1u : 0u, o.rich ? 1u : 0u }) : g.weighted({ 3, 2 });
    static const unsigned types[] = { 1, 2, 0x11, 0x12, 0x20, 0x21 };
    static const char *const typeNames[] = { "video", "audio", "text", "buttons", "control", "unknown" };
    parts.push_back(num(mkv::TrackType, types[type]));
    declared[prefix + "type"] = typeNames[type];
    const auto flag = [&](std::uint32_t i, const char *key, bool def) {
        auto value = def;
        if (g.flip()) {
            value = g.flip();
            parts.push_back(num(i, value));
        }
        declared[prefix + key] = toStr(value);
    };
    flag(FlagEnabled, "enabled", true);
    flag(FlagDefault, "default", true);
    flag(FlagForced, "forced", false);
    declared[prefix + "name"] = std::string();
    if (g.flip()) {
        const auto name = g.text(40, static_cast<unsigned>(g.below(4)), 1);
        parts.push_back(el(TrackName, name));
        declared[prefix + "name"] = name;
    }
    std::string language = "eng";
    if (g.flip()) {
        parts.push_back(el(Language, language = g.pick({ "und", "eng", "ger", "jpn" })));
    }
    declared[prefix + "languageIso"] = language == "und" ? std::string() : language;
    if (o.rich && g.chance(1, 5)) {
        parts.push_back(el(LanguageIetf, language = g.pick({ "en", "de-DE", "ja" })));
        declared[prefix + "languageBcp"] = language;
    }
    if (g.chance(1, 3)) {
        parts.push_back(num(MinCache, g.below(3)));
    }
    std::string codec, codecPrivate;
    if (type == 0) {
        codec = g.pick({ "V_VP9", "V_VP8", "V_MPEG4/ISO/AVC", "V_MPEGH/ISO/HEVC", "V_AV1", "V_THEORA", "V_FOO" });
        auto w = static_cast<unsigned>(g.range(1, 8000)), h = static_cast<unsigned>(g.range(1, 8000));
        if (codec == "V_MPEG4/ISO/AVC") {
            const auto c = avc::generate(g);
            w = c.width - c.cropLeft - c.cropRight;
            h = c.height - c.cropTop - c.cropBottom;
            codecPrivate = c.record;
            declared[prefix + "profile"] = toStr(c.profile);
            declared[prefix + "level"] = std::to_string(c.level / 10.0);
            declared[prefix + "chroma"] = toStr(c.chroma);
        } else if (g.flip()) {
            codecPrivate = g.bytes(1 + g.length(100));
        }
        std::string v;
        v += num(PixelWidth, w) + num(PixelHeight, h);
        declared[prefix + "width"] = declared[prefix + "displayWidth"] = toStr(w);
        declared[prefix + "height"] = declared[prefix + "displayHeight"] = toStr(h);
        if (g.chance(1, 3)) {
            const auto dw = static_cast<unsigned>(g.range(1, 8000)), dh = static_cast<unsigned>(g.range(1, 8000));
            v = num(DisplayWidth, dw) + v + num(DisplayHeight, dh);
            declared[prefix + "displayWidth"] = toStr(dw);
            declared[prefix + "displayHeight"] = toStr(dh);
        }
        if (o.rich && g.chance(1, 4)) {
            const auto interlaced = g.below(3); // undetermined, interlaced, progressive
            v += voidElement(5) + num(FlagInterlaced, interlaced);
            declared[prefix + "interlaced"] = toStr(interlaced == 1);
        }
        static const std::uint32_t cropping[] = { 0x54BB, 0x54CC, 0x54AA, 0x54DD };
        static const char *const croppingNames[] = { "cropTop", "cropLeft", "cropBottom", "cropRight" };
        for (auto i = 0; i < 4; ++i) {
            const auto crop = o.rich && g.chance(1, 6) ? g.below(70000) : 0;
            if (crop || (o.rich && g.chance(1, 12))) {
                v += num(cropping[i], crop);
            }
            if (codec != "V_MPEG4/ISO/AVC") { // the cropping of the codec otherwise
                declared[prefix + croppingNames[i]] = toStr(crop);
            }
        }
        if (o.rich && g.chance(1, 6)) {
            const auto space = g.bytes(4);
            v += el(0x2EB524, space);
            declared[prefix + "colorSpace"] = toStr(Rd(space).be(4));
        }
        const auto frameRate = o.rich && g.chance(1, 8) ? static_cast<unsigned>(g.range(1, 500)) : 0;
        if (frameRate) {
            v += flt(0x2383E3, frameRate, g.flip());
            if (codec != "V_MPEG4/ISO/AVC") {
                declared[prefix + "fps"] = toStr(frameRate);
            }
        }
        parts.push_back(master(Video, v, o.rich && g.chance(1, 12)));
        if (g.flip()) {
            // a whole number of frames per second
            const auto fps = g.pick({ 25u, 50u, 10u, 100u });
            parts.push_back(num(DefaultDuration, 1000000000u / fps));
            if (codec != "V_MPEG4/ISO/AVC" && !frameRate) {
                declared[prefix + "fps"] = toStr(fps);
            }
        }
    } else if (type == 1) {
        codec = g.pick({ "A_OPUS", "A_VORBIS", "A_AAC", "A_FLAC", "A_MPEG/L3", "A_PCM/INT/LIT", "A_AC3", "A_BAR" });
        const auto rate = g.pick({ 44100u, 48000u, 8000u, 96000u });
        const auto channels = static_cast<unsigned>(g.range(1, 8));
        if (codec == "A_AAC") {
            // AAC LC, 44.1 kHz, stereo
            codecPrivate = be((2u << 11) | (4u << 7) | (2u << 3), 2);
        } else if (g.flip()) {
            codecPrivate = g.bytes(1 + g.length(100));
        }
        std::string a = flt(SamplingFrequency, rate, g.flip()) + num(Channels, channels);
        declared[prefix + "rate"] = toStr(rate);
        declared[prefix + "channels"] = toStr(channels);
        if (g.chance(1, 3)) {
            const auto bits = g.pick({ 16u, 24u, 32u });
            a += num(BitDepth, bits);
            declared[prefix + "bits"] = toStr(bits);
        }
        if (o.rich && g.chance(1, 4)) {
            a += flt(OutputSamplingFrequency, 2 * rate, g.flip());
            declared[prefix + "extensionRate"] = toStr(2 * rate);
        }
        parts.push_back(master(Audio, a, o.rich && g.chance(1, 12)));
        if (codec == "A_OPUS" && g.flip()) {
            parts.push_back(num(CodecDelay, g.below(10000000)));
            parts.push_back(num(SeekPreRoll, 80000000));
        }
    } else if (type != 2) {
        codec = g.pick({ "B_VOBBTN", "B_FOO" });
    } else {
        codec = g.pick({ "S_TEXT/UTF8", "S_TEXT/ASS", "S_VOBSUB" });
        if (g.flip()) {
            codecPrivate = g.text(60, 1);
        }
    }
    parts.push_back(el(CodecId, codec));
    declared[prefix + "formatId"] = codec;
    if (!codecPrivate.empty()) {
        parts.push_back(el(CodecPrivate, codecPrivate));
    }
    if (g.chance(1, 4)) {
        const auto lacing = g.flip();
        parts.push_back(num(FlagLacing, lacing));
        declared[prefix + "lacing"] = toStr(lacing);
    }
    if (o.rich && g.chance(1, 8)) {
        parts.push_back(el(ContentEncodings, el(0x6240, num(0x5031, 0) + el(0x5034, num(0x4254, 3) + el(0x4255, g.bytes(4))))));
    }
    if (o.rich && g.chance(1, 8)) {
        parts.push_back(el(CodecName, g.text(20, 1)));
    }
    if (o.rich && g.chance(1, 4)) {
        std::rotate(parts.begin(), parts.begin() + static_cast<std::ptrdiff_t>(g.below(parts.size())), parts.end());
    }
    std::string r;
    for (const auto &p : parts) {
        r += p;
        if (o.rich && g.chance(1, 20)) {
            r += voidElement(static_cast<std::uint64_t>(g.range(2, 70)));
        }
    }
    return master(TrackEntry, r, o.rich && g.chance(1, 12));
}

std::string genChapterAtom(pbt::Gen &g, const GenOptions &o, unsigned depth, std::string &declared)
{
    const auto id = 1 + g.bits(63), start = g.bits(40), end = g.bits(41);
    std::vector<std::string> parts = { num(ChapterUid, id), num(ChapterTimeStart, start) };
    const auto hasEnd = !o.rich || g.chance(7, 8);
    if (hasEnd) {
        parts.push_back(num(ChapterTimeEnd, end));
    }
    auto hidden = false, enabled = true;
    if (g.flip()) {
        hidden = g.flip(), enabled = g.flip();
        parts.push_back(num(ChapterFlagHidden, hidden));
        parts.push_back(num(ChapterFlagEnabled, enabled));
    }
    declared += "chapter " + toStr(id) + " from " + toStr(start / 100) + (hasEnd ? " to " + toStr(end / 100) : std::string(" without end")) + (hidden ? " hidden" : "") + (enabled ? "" : " disabled");
    if (g.chance(1, 4)) {
        std::string uids;
        for (auto n = g.range(1, 3); n; --n) {
            const auto uid = 1 + g.bits(64) / 2;
            uids += num(ChapterTrackUid, uid);
            declared += " track " + toStr(uid);
        }
        parts.push_back(el(ChapterTrack, uids));
    }
    for (auto n = g.below(3); n; --n) {
        const auto name = g.text(o.maxText, static_cast<unsigned>(g.below(4)));
        auto display = el(ChapString, name);
        declared += " name " + pbt::quote(name);
        auto hasLocale = false;
        const auto locale = [&](std::uint32_t id, const char *format, const char *value) {
            display += el(id, value);
            declared += std::string(" ") + format + " " + value;
            hasLocale = true;
        };
        if (!o.rich || g.chance(7, 8)) {
            locale(ChapLanguage, "ISO", g.pick({ "eng", "ger" }));
        }
        if (o.rich && g.chance(1, 8)) {
            locale(ChapLanguage, "ISO", g.pick({ "jpn", "fre" }));
        }
        if (o.rich && g.chance(1, 6)) {
            locale(0x437D, "BCP", g.pick({ "en-US", "de-AT" }));
        }
        if (o.rich && g.chance(1, 6)) {
            locale(0x437E, "country", g.pick({ "us", "at" }));
        }
        if (!hasLocale) {
            declared += " ISO eng";
        }
        parts.push_back(master(ChapterDisplay, display, o.rich && g.chance(1, 12)));
    }
    declared += " {";
    while (o.rich && depth < 2 && g.chance(1, 4)) {
        parts.push_back(genChapterAtom(g, o, depth + 1, declared));
    }
    declared += "}";
    if (o.rich && g.chance(1, 8)) {
        parts.insert(parts.begin() + static_cast<std::ptrdiff_t>(g.below(parts.size() + 1)), voidElement(10));
    }
    std::string r;
    for (const auto &p : parts) {
        r += p;
    }
    return master(ChapterAtom, r, o.rich && g.chance(1, 12));
}

std::string genChapters(pbt::Gen &g, const GenOptions &o, std::string &declared)
{
    std::string r;
    for (auto e = g.range(1, 2); e; --e) {
        auto id = std::uint64_t();
        auto hidden = false, byDefault = false, ordered = false;
        std::string s;
        if (g.flip()) {
            s += num(EditionUid, id = 1 + g.bits(63));
        }
        if (g.flip()) {
            hidden = g.flip(), byDefault = g.flip(), ordered = g.flip();
            s += num(EditionFlagHidden, hidden) + num(EditionFlagDefault, byDefault) + num(EditionFlagOrdered, ordered);
        }
        declared += "edition " + toStr(id) + (hidden ? " hidden" : "") + (byDefault ? " default" : "") + (ordered ? " ordered" : "") + " {";
        for (auto n = g.range(1, 4); n; --n) {
            s += genChapterAtom(g, o, 0, declared);
        }
        declared += "}";
        r += master(EditionEntry, s, o.rich && g.chance(1, 12));
    }
    return r;
}

std::string genBlock(pbt::Gen &g, const GenOptions &o, std::uint64_t track, std::int64_t relative, bool simple)
{
    return vint(track) + be(static_cast<std::uint16_t>(relative), 2) + static_cast<char>(simple && g.flip() ? 0x80 : 0) + g.bytes(g.length(o.rich && g.chance(1, 12) ? 3000 * o.big : 120 * o.big));
}

} // namespace

File generate(pbt::Gen &g, const GenOptions &o)
{
    File f;
    f.kind = Kind::Matroska;
    const auto webm = g.chance(1, 4);
    f.what = webm ? "WebM" : "Matroska";
    const auto crcs = o.rich && g.chance(1, 5); // CRC-32 in the level 1 elements
    const auto crc = [&] { return crcs && g.flip(); };

    // EBML header
    std::string h;
    const auto maxSize = 8u;
    if (!o.rich || g.chance(3, 4)) {
        h += num(EbmlVersion, 1) + num(EbmlReadVersion, 1) + num(EbmlMaxId, 4) + num(EbmlMaxSize, maxSize);
    }
    h += el(DocType, webm ? "webm" : "matroska");
    const auto version = static_cast<std::uint64_t>(g.range(1, 4));
    if (!o.rich || g.chance(3, 4)) {
        h += num(DocTypeVersion, version, o.rich ? static_cast<unsigned>(g.range(1, 8)) : 1) + num(DocTypeReadVersion, std::min<std::uint64_t>(2, version));
    }
    if (o.rich && g.chance(1, 10)) {
        h += voidElement(static_cast<std::uint64_t>(g.range(2, 40)));
    }
    const auto header = master(Ebml, h, o.rich && g.chance(1, 10), o.rich && g.flip() ? static_cast<unsigned>(g.range(1, 8)) : 0);
    f.declared["doctype"] = webm ? "webm" : "matroska";

    std::vector<Part> parts;
    const auto add = [&](const char *name, std::uint32_t id, std::string data) {
        Part p;
        p.name = name;
        p.id = id;
        p.make = [data = std::move(data)](const Layout &) { return data; };
        parts.push_back(std::move(p));
    };

    // info
    std::string info;
    if (g.flip()) {
        info += el(SegmentUid, g.bytes(16));
    }
    if (o.rich && g.chance(1, 6)) {
        info += el(SegmentFilename, "segment.mkv");
    }
    const auto scale = g.pick({ std::uint64_t(1000000), std::uint64_t(1000000), std::uint64_t(1000), std::uint64_t(22675) });
    if (scale != 1000000 || g.flip()) {
        info += num(TimestampScale, scale);
    }
    if (g.chance(3, 4)) {
        const auto duration = static_cast<double>(g.range(1, 100000000));
        info += flt(Duration, duration, g.flip());
        f.declared["seconds"] = std::to_string(static_cast<double>(static_cast<float>(duration)) * static_cast<double>(scale) / 1e9);
        const auto narrow = info.size();
        (void)narrow;
    }
    if (g.flip()) {
        info += el(DateUtc, be(g.bits(60), 8));
    }
    if (g.chance(1, 3)) {
        info += el(Title, g.text(o.maxText, static_cast<unsigned>(g.below(4)), 1));
    }
    if (o.rich && g.chance(1, 6)) {
        info += voidElement(static_cast<std::uint64_t>(g.range(2, 100)));
    }
    info += el(MuxingApp, g.asciiWord(20)) + el(WritingApp, g.asciiWord(20));
    if (o.rich && g.chance(1, 6)) {
        info += el(0x4444, g.bytes(16)); // SegmentFamily
    }

    // tracks
    const auto trackCount = static_cast<std::size_t>(o.rich ? g.range(1, 3) : g.range(1, 2));
    std::vector<std::uint64_t> uids;
    std::string tracks;
    for (std::size_t i = 0; i < trackCount; ++i) {
        uids.push_back((1 + g.bits(63)) | (std::uint64_t(i + 1) << 62 >> 2)); // distinct enough
        while (std::count(uids.begin(), uids.end(), uids.back()) > 1) {
            ++uids.back();
        }
        tracks += genTrack(g, o, i, uids.back(), f.declared);
        if (o.rich && g.chance(1, 12)) {
            tracks += voidElement(static_cast<std::uint64_t>(g.range(2, 70)));
        }
    }
    f.declared["tracks"] = toStr(trackCount);

    // clusters
    const auto clusterCount = o.rich && g.chance(1, 12) ? 0u : static_cast<std::size_t>(g.range(1, o.rich ? 5 : 3));
    const auto unknownClusters = o.rich && g.chance(1, 10);
    std::vector<BlockInfo> blocks;
    std::vector<Part> clusters;
    std::uint64_t time = 0;
    for (std::size_t c = 0; c < clusterCount; ++c) {
        time += g.below(20000);
        const auto hasPosition = g.chance(1, 3), hasPrevSize = c && g.chance(1, 3), clusterCrc = crc(), lateMeta = o.rich && g.chance(1, 4);
        const auto width = g.pick({ 8u, 4u, 3u });
        const auto sizeLength = o.rich && g.chance(1, 4) ? static_cast<unsigned>(g.range(2, 8)) : g.pick({ 0u, 8u });
        auto content = num(Timestamp, time);
        const auto metaSize = (hasPosition ? 2u + width : 0u) + (hasPrevSize ? 2u + width : 0u);
        const auto crcSize = clusterCrc ? 6u : 0u;
        std::string tail;
        std::size_t number = 0;
        for (auto n = g.range(o.rich ? 0 : 1, o.rich ? 6 : 4); n; --n) {
            BlockInfo b;
            b.cluster = c;
            b.number = ++number;
            const auto offset = static_cast<std::int64_t>(g.below(5000));
            b.time = time + static_cast<std::uint64_t>(offset);
            b.track = 1 + g.below(trackCount);
            if (o.rich && g.chance(1, 10)) {
                tail += voidElement(static_cast<std::uint64_t>(g.range(2, 50)));
            }
            b.relative = crcSize + content.size() + metaSize + tail.size();
            if (g.chance(2, 3)) {
                tail += el(SimpleBlock, genBlock(g, o, b.track, offset, true), o.rich && g.chance(1, 8) ? 8 : 0);
            } else {
                auto group = el(Block, genBlock(g, o, b.track, offset, false));
                if (g.flip()) {
                    group += num(BlockDuration, g.below(1000));
                }
                if (g.chance(1, 3)) {
                    group += el(ReferenceBlock, be(static_cast<std::uint16_t>(-static_cast<std::int16_t>(g.below(1000))), 2));
                }
                tail += el(BlockGroup, group);
            }
            blocks.push_back(b);
        }
        // Position/PrevSize might appear behind the blocks (not usual but not forbidden)
        if (lateMeta) {
            for (auto &b : blocks) {
                if (b.cluster == c) {
                    b.relative -= metaSize;
                }
            }
        }
        Part p;
        p.name = "cluster" + toStr(c);
        p.id = Cluster;
        p.cluster = static_cast<int>(c);
        p.make = [=](const Layout &l) {
            std::string meta;
            if (hasPosition) {
                meta += num(Position, at(l.clusters, c), width);
            }
            if (hasPrevSize) {
                meta += num(PrevSize, at(l.sizes, c - 1), width);
            }
            auto data = lateMeta ? content + tail + meta : content + meta + tail;
            if (unknownClusters) {
                return id(Cluster) + (sizeLength == 8 ? std::string("\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF") : std::string("\xFF")) + (clusterCrc ? el(Crc32, le(crc32Ieee(data), 4)) : std::string()) + data;
            }
            return master(Cluster, data, clusterCrc, sizeLength);
        };
        clusters.push_back(std::move(p));
    }

    // cues
    Part cues;
    const auto hasCues = !blocks.empty() && g.chance(2, 3);
    if (hasCues) {
        std::vector<BlockInfo> chosen;
        const auto every = g.range(1, 3);
        for (const auto &b : blocks) {
            if (!g.below(static_cast<std::uint64_t>(every))) {
                chosen.push_back(b);
            }
        }
        if (chosen.empty()) {
            chosen.push_back(blocks.front());
        }
        struct Point {
            BlockInfo b;
            bool relative, number, codecState, crc, again;
            std::uint64_t duration, reference, refTime;
        };
        std::vector<Point> points;
        const auto relatives = g.flip(), numbers = g.flip();
        for (const auto &b : chosen) {
            Point p;
            p.b = b;
            p.relative = relatives && g.chance(3, 4);
            p.number = numbers;
            p.codecState = o.rich && g.chance(1, 6);
            p.crc = o.rich && g.chance(1, 12);
            p.again = o.rich && g.chance(1, 6); // second CueTrackPositions
            p.duration = g.chance(1, 4) ? g.below(1000) + 1 : 0;
            p.reference = o.rich && g.chance(1, 6) ? 1 + g.below(clusterCount) : 0;
            p.refTime = g.below(100000);
            points.push_back(p);
        }
        const auto width = g.pick({ 8u, 4u, 3u });
        const auto cuesCrc = crc();
        cues.name = "cues";
        cues.id = Cues;
        cues.make = [=](const Layout &l) {
            std::string r;
            for (const auto &p : points) {
                auto t = num(CueTrack, p.b.track) + num(CueClusterPosition, at(l.clusters, p.b.cluster), width);
                if (p.relative) {
                    t += num(CueRelativePosition, p.b.relative, width == 8 ? 1 : width);
                }
                if (p.duration) {
                    t += num(CueDuration, p.duration);
                }
                if (p.number) {
                    t += num(CueBlockNumber, p.b.number);
                }
                if (p.codecState) {
                    t += num(CueCodecState, 0);
                }
                if (p.reference) {
                    t += el(CueReference, num(CueRefTime, p.refTime) + num(CueRefCluster, at(l.clusters, p.reference - 1), width));
                }
                auto c = num(CueTime, p.b.time) + master(CueTrackPositions, t, p.crc);
                if (p.again) {
                    c += el(CueTrackPositions, num(CueTrack, p.b.track % trackCount + 1) + num(CueClusterPosition, at(l.clusters, p.b.cluster), width));
                }
                r += master(CuePoint, c, p.crc);
            }
            return master(Cues, r, cuesCrc);
        };
    }

    const auto hasChapters = g.chance(1, 3), hasTags = o.tags && g.chance(2, 3), hasAttachments = o.tags && g.chance(1, 3);
    const auto tagsSpecifics = o.rich && hasTags && g.chance(1, 5);
    auto tagData = hasTags ? genTags(g, o, uids) : std::string();
    if (tagsSpecifics) {
        // statistics as written by mkvmerge
        const auto t = g.below(trackCount);
        const auto prefix = "track" + toStr(t) + ".";
        const auto bytes = 1 + g.bits(40), frames = 1 + g.bits(30), bps = 1000 + g.bits(24);
        const auto simple = [](const char *name, const std::string &value) { return el(SimpleTag, el(TagName, name) + el(TagLanguage, "eng") + el(TagString, value)); };
        tagData += el(mkv::Tag, el(Targets, num(TagTrackUid, uids[t])) + simple("NUMBER_OF_BYTES", toStr(bytes)) + simple("NUMBER_OF_FRAMES", toStr(frames)) + simple("BPS", toStr(bps)));
        f.declared[prefix + "size"] = toStr(bytes);
        f.declared[prefix + "samples"] = toStr(frames);
        f.declared[prefix + "kbps"] = std::to_string(static_cast<double>(bps) / 1000.0);
    }
    // statistics might also be generated by chance; BPS etc. are not part of the generated names
    const auto chapters = hasChapters ? master(mkv::Chapters, genChapters(g, o, f.declared["chapters"]), crc()) : std::string();
    const auto attachments = hasAttachments ? master(mkv::Attachments, genAttachments(g, o), crc()) : std::string();
    const auto tags = hasTags ? master(mkv::Tags, tagData, crc()) : std::string();
    const auto tracksElement = master(mkv::Tracks, tracks, crc());
    const auto infoElement = master(Info, info, crc());

    // order
    const auto after = [&] { return clusterCount && g.chance(1, 3); };
    const auto cuesAfter = after(), tagsAfter = after(), attachmentsAfter = after(), chaptersAfter = after() && o.rich;
    const auto seekHead = (hasTags && tagsAfter) || (hasAttachments && attachmentsAfter) || (hasChapters && chaptersAfter) || (hasCues && cuesAfter) || g.chance(2, 3);
    const auto strayVoid = [&] {
        if (o.rich && g.chance(1, 8)) {
            add("void", Void, voidElement(static_cast<std::uint64_t>(g.range(2, 200))));
        }
    };
    strayVoid();
    add("info", Info, infoElement);
    strayVoid();
    add("tracks", mkv::Tracks, tracksElement);
    if (o.rich && g.chance(1, 4)) {
        std::swap(parts[parts.size() - 1], parts[parts.size() - 2]);
    }
    strayVoid();
    if (hasChapters && !chaptersAfter) {
        add("chapters", mkv::Chapters, chapters);
    }
    strayVoid();
    if (hasTags && !tagsAfter) {
        add("tags", mkv::Tags, tags);
    }
    if (hasAttachments && !attachmentsAfter) {
        add("attachments", mkv::Attachments, attachments);
    }
    strayVoid();
    if (hasCues && !cuesAfter) {
        parts.push_back(cues);
    }
    if (o.padding && g.chance(1, 2) && clusterCount) {
        const auto n = g.pick({ static_cast<std::uint64_t>(g.range(2, 100)), static_cast<std::uint64_t>(g.range(2, 3000)) });
        add("void", Void, voidElement(n));
        if (o.rich && g.chance(1, 6)) {
            add("void", Void, voidElement(static_cast<std::uint64_t>(g.range(2, 100))));
        }
    }
    for (auto &c : clusters) {
        parts.push_back(c);
        if (o.rich && !unknownClusters && &c != &clusters.back() && g.chance(1, 12)) {
            add("void", Void, voidElement(static_cast<std::uint64_t>(g.range(2, 60))));
        }
    }
    if (hasCues && cuesAfter) {
        parts.push_back(cues);
    }
    if (hasChapters && chaptersAfter) {
        add("chapters", mkv::Chapters, chapters);
    }
    if (hasTags && tagsAfter) {
        add("tags", mkv::Tags, tags);
    }
    if (hasAttachments && attachmentsAfter) {
        add("attachments", mkv::Attachments, attachments);
    }
    if (o.rich && g.chance(1, 10) && !unknownClusters) {
        add("void", Void, voidElement(static_cast<std::uint64_t>(g.range(2, 60))));
    }
    if (seekHead) {
        std::vector<std::pair<std::string, std::uint32_t>> listed;
        for (const auto &p : parts) {
            if (p.name == "void" || (p.cluster > 0)) {
                continue;
            }
            if (p.cluster == 0 && !g.chance(1, 3)) {
                continue;
            }
            listed.emplace_back(p.name, p.id);
        }
        const auto width = g.pick({ 8u, 4u, 3u });
        const auto seekCrc = crc();
        Part p;
        p.name = "seek";
        p.id = SeekHead;
        p.make = [=](const Layout &l) {
            std::string r;
            for (const auto &e : listed) {
                const auto i = l.pos.find(e.first);
                r += el(Seek, el(SeekId, id(e.second)) + num(SeekPosition, i == l.pos.end() ? 0 : i->second, width));
            }
            return master(SeekHead, r, seekCrc);
        };
        parts.insert(parts.begin(), std::move(p));
        if (o.rich && g.chance(1, 6)) {
            // unused space reserved for the index
            Part v;
            v.name = "void";
            v.id = Void;
            const auto n = static_cast<std::uint64_t>(g.range(2, 100));
            v.make = [n](const Layout &) { return voidElement(n); };
            parts.insert(parts.begin() + 1, std::move(v));
        }
    }
    const auto segmentCrc = crcs && g.chance(1, 3);
    const auto unknownSegment = o.rich && !segmentCrc && g.chance(1, 10);
    Layout layout;
    std::string data;
    for (auto pass = 0; pass < 2; ++pass) {
        Layout next;
        data.clear();
        const std::uint64_t base = segmentCrc ? 6 : 0;
        for (const auto &p : parts) {
            const auto pos = base + data.size();
            if (p.name != "void") {
                next.pos[p.name] = pos;
            }
            const auto d = p.make(layout);
            if (p.cluster >= 0) {
                next.clusters.push_back(pos);
                next.sizes.push_back(d.size());
            }
            data += d;
        }
        if (pass && (next.pos != layout.pos || next.sizes != layout.sizes)) {
            throw std::logic_error("layout is not stable");
        }
        layout = next;
    }
    const auto sizeLength = o.rich ? static_cast<unsigned>(g.range(1, 8)) : g.pick({ 8u, 1u });
    if (unknownSegment) {
        f.bytes = header + id(Segment) + (g.flip() ? std::string("\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF") : std::string("\xFF")) + data;
    } else {
        f.bytes = header + master(Segment, data, segmentCrc, sizeLength);
    }
    f.what += " (";
    for (const auto &p : parts) {
        f.what += p.name + " ";
    }
    f.what.back() = ')';
    f.what += segmentCrc ? " CRC-32" : crcs ? " CRC-32 in elements" : "";
    f.what += unknownSegment ? " unknown segment size" : "";
    f.what += unknownClusters ? " unknown cluster size" : "";
    return f;
}

Analysis analyze(std::string_view bytes)
{
    Analysis a;
    const auto problem = [&a](const std::string &p) { a.problems.push_back(p); };
    auto &problems = a.problems;
    const auto top = elements(bytes, 0, 0);
    const auto *const ebml = mkv::find(top, Ebml), *const segment = mkv::find(top, Segment);
    if (!ebml || !segment) {
        throw Malformed("EBML header or segment is missing");
    }
    for (const auto &e : top) {
        if (e.id == Void) {
            continue;
        }
        if (&e != ebml && &e != segment) {
            problem("unexpected element at " + toStr(e.start));
        }
    }
    if (ebml->start || ebml->unknownSize) {
        problem("EBML header is not at the beginning or its size is unknown");
    }
    // EBML header including defaults
    std::map<std::uint32_t, std::string> values = { { EbmlVersion, "1" }, { EbmlReadVersion, "1" }, { EbmlMaxId, "4" }, { EbmlMaxSize, "8" }, { DocTypeVersion, "1" }, { DocTypeReadVersion, "1" } };
    std::vector<std::uint32_t> seen;
    for (const auto &e : children(*ebml, problems)) {
        if (std::count(seen.begin(), seen.end(), e.id)) {
            problem("repeated element in EBML header");
        }
        seen.push_back(e.id);
        values[e.id] = e.id == DocType ? readStr(e) : toStr(readNum(e));
    }
    for (const auto &v : values) {
        a.kept.push_back({ "EBML header " + pbt::hex(id(v.first)), v.second });
    }
    if (values[DocType] != "matroska" && values[DocType] != "webm") {
        problem("DocType is " + pbt::quote(values[DocType]));
    }
    // segment
    auto level1 = elements(segment->data, segment->dataStart(), 1);
    {
        // check CRC-32
        std::vector<std::string> p;

        if (!level1.empty() && level1.front().id == Crc32) {
            if (level1.front().data.size() == 4) {
                Rd rd(level1.front().data);
                if (rd.le(4) != crc32Ieee(segment->data.substr(level1.front().end() - segment->dataStart()))) {
                    problem("wrong CRC-32 of the segment");
                }
            } else {
                problem("CRC-32 of the segment has wrong size");
            }
        }
    }
    const auto base = segment->dataStart();
    std::map<std::uint64_t, std::uint32_t> positions; // relative
    std::map<std::uint64_t, std::size_t> clusterAt;
    std::vector<Element> clusters;
    const Element *info = nullptr, *tracks = nullptr, *chapters = nullptr, *attachments = nullptr, *tags = nullptr, *cues = nullptr;
    const auto unique = [&](const Element *&target, const Element &e, const char *what) {
        if (target) {
            problem(std::string("several ") + what + " elements");
        }
        target = &e;
    };
    std::vector<const Element *> seekHeads;
    std::uint64_t padding = 0;
    auto clusterSeen = false;
    for (const auto &e : level1) {
        if (e.id != Void && e.id != Crc32) {
            positions[e.start - base] = e.id;
        }
        switch (e.id) {
        case Void:
            padding += e.headerSize + e.data.size();
            continue;
        case Crc32:
            if (&e != &level1.front()) {
                problem("CRC-32 at " + toStr(e.start) + " is not the first child");
            }
            break;
        case SeekHead:
            seekHeads.push_back(&e);
            break;
        case Info:
            unique(info, e, "Info");
            break;
        case mkv::Tracks:
            unique(tracks, e, "Tracks");
            break;
        case mkv::Chapters:
            unique(chapters, e, "Chapters");
            break;
        case mkv::Attachments:
            unique(attachments, e, "Attachments");
            break;
        case mkv::Tags:
            unique(tags, e, "Tags");
            break;
        case Cues:
            unique(cues, e, "Cues");
            break;
        case Cluster:
            if (!clusterSeen) {
                a.padding = padding;
                a.mediaOffset = e.start;
                clusterSeen = true;
            } else if (!clusters.empty() && level1[static_cast<std::size_t>(&e - level1.data()) - 1].id != Cluster && !padding) {
                problem("clusters are not contiguous");
            }
            clusterAt[e.start - base] = clusters.size();
            clusters.push_back(e);
            break;
        default:
            problem("unknown element at " + toStr(e.start));
        }
        padding = 0;
    }
    if (!info || !tracks) {
        throw Malformed("Info or Tracks is missing");
    }
    // seek information
    std::map<std::uint64_t, std::uint32_t> listed;
    for (const auto *const s : seekHeads) {
        for (const auto &e : children(*s, problems)) {
            const auto c = children(e, problems);
            const auto *const i = mkv::find(c, SeekId), *const p = mkv::find(c, SeekPosition);
            if (e.id != Seek || !i || !p) {
                problem("invalid Seek element");
                continue;
            }
            const auto pos = readNum(*p);
            const auto target = positions.find(pos);
            if (target == positions.end() || id(target->second) != i->data) {
                problem("SeekHead refers to " + pbt::hex(std::string(i->data)) + " at " + toStr(pos) + " but there is no such element");
            }
            listed[pos] = static_cast<std::uint32_t>(readNum(*i));
        }
    }
    for (const auto &p : positions) {
        if (!clusters.empty() && p.first + base > clusters.front().start && p.second != Cluster && p.second != SeekHead && !listed.count(p.first)) {
            problem("element " + pbt::hex(id(p.second)) + " behind the first cluster is not listed in SeekHead");
        }
    }
    // info
    {
        TagModel t;
        t.type = "title";
        t.target = "0";
        t.items = { { "title", "" } };
        seen.clear();
        for (const auto &e : children(*info, problems)) {
            if (std::count(seen.begin(), seen.end(), e.id)) {
                problem("repeated element in Info");
            }
            seen.push_back(e.id);
            if (e.id == Title) {
                t.items.front().canon = readStr(e);
            } else if (e.id != MuxingApp && e.id != WritingApp) {
                a.kept.push_back({ "Info " + pbt::hex(id(e.id)), digest(e.data) });
            }
        }
        if (!std::count(seen.begin(), seen.end(), MuxingApp) || !std::count(seen.begin(), seen.end(), WritingApp)) {
            problem("MuxingApp or WritingApp is missing");
        }
        a.tags.push_back(t);
    }
    // tracks
    for (const auto &e : children(*tracks, problems)) {
        if (e.id != TrackEntry) {
            problem("unknown element in Tracks");
            continue;
        }
        const auto c = children(e, problems);
        a.tags.push_back(decodeTrackSettings(c));
        seen.clear();
        Items kept;
        std::string number;
        for (const auto &t : c) {
            if (std::count(seen.begin(), seen.end(), t.id)) {
                problem("repeated element in TrackEntry");
            }
            seen.push_back(t.id);
            switch (t.id) {
            case TrackNumber:
                number = toStr(readNum(t));
                break;
            case TrackUid:
            case TrackName:
            case Language:
            case LanguageIetf:
            case FlagEnabled:
            case FlagDefault:
            case FlagForced:
                break;
            case Video:
            case Audio: {
                std::string s;
                for (const auto &v : children(t, problems)) {
                    s += pbt::hex(id(v.id)) + "=" + pbt::hex(std::string(v.data)) + " ";
                }
                kept.push_back({ pbt::hex(id(t.id)), s });
                break;
            }
            default:
                kept.push_back({ pbt::hex(id(t.id)), digest(t.data) });
            }
        }
        if (number.empty()) {
            problem("track without number");
        }
        for (auto &k : kept) {
            a.kept.push_back({ "Track " + number + " " + k.id, k.canon });
        }
    }
    // chapters
    if (chapters) {
        std::vector<std::string> ignored;
        std::string s;
        for (const auto &e : children(*chapters, problems)) {
            s += pbt::hex(id(e.id)) + digest(e.data) + " ";
        }
        a.kept.push_back({ "Chapters", s });
    }
    if (attachments) {
        for (const auto &e : children(*attachments, problems)) {
            if (e.id != AttachedFile) {
                problem("unknown element in Attachments");
                continue;
            }
            a.tags.push_back(decodeAttachment(e, problems));
        }
    }
    if (tags) {
        for (const auto &e : children(*tags, problems)) {
            if (e.id != mkv::Tag) {
                problem("unknown element in Tags");
                continue;
            }
            a.tags.push_back(decodeTag(e, problems));
        }
    }
    // clusters
    std::vector<std::map<std::uint64_t, std::size_t>> childAt(clusters.size());
    for (std::size_t i = 0; i < clusters.size(); ++i) {
        const auto &c = clusters[i];
        std::string data;
        std::size_t ordinal = 0;
        for (const auto &e : children(c, problems)) {
            switch (e.id) {
            case Position:
                if (readNum(e) != c.start - base) {
                    problem("Position of cluster " + toStr(i) + " is " + toStr(readNum(e)) + " instead of " + toStr(c.start - base));
                }
                break;
            case PrevSize:
                if (!i || readNum(e) != clusters[i - 1].end() - clusters[i - 1].start) {
                    problem("PrevSize of cluster " + toStr(i) + " is " + toStr(readNum(e)) + " instead of " + (i ? toStr(clusters[i - 1].end() - clusters[i - 1].start) : "none"));
                }
                break;
            default:
                childAt[i][e.start - c.dataStart()] = ordinal++;
                data += pbt::hex(id(e.id)) + digest(e.data) + " ";
            }
        }
        a.payload.emplace_back("cluster " + toStr(i), digest(data));
    }
    if (!clusters.empty()) {
        a.between = 0;
    }
    // index
    const auto clusterName = [&](const Element &e) {
        const auto i = clusterAt.find(readNum(e));
        if (i == clusterAt.end()) {
            problem("there is no cluster at " + toStr(readNum(e)) + " the index refers to");
            return std::string("none");
        }
        return toStr(i->second);
    };
    if (cues) {
        std::string s;
        for (const auto &p : children(*cues, problems)) {
            if (p.id != CuePoint) {
                problem("unknown element in Cues");
                continue;
            }
            s += "\npoint";
            for (const auto &e : children(p, problems)) {
                if (e.id == CueTime) {
                    s += " time " + toStr(readNum(e));
                    continue;
                }
                if (e.id != CueTrackPositions) {
                    problem("unknown element in CuePoint");
                    continue;
                }
                s += " positions{";
                const auto c = children(e, problems);
                const auto *const position = mkv::find(c, CueClusterPosition);
                if (!position) {
                    problem("CueClusterPosition is missing");
                    continue;
                }
                for (const auto &t : c) {
                    if (t.id == CueClusterPosition) {
                        s += " cluster " + clusterName(t);
                    } else if (t.id == CueRelativePosition) {
                        const auto i = clusterAt.find(readNum(*position));
                        if (i != clusterAt.end()) {
                            const auto child = childAt[i->second].find(readNum(t));
                            if (child == childAt[i->second].end()) {
                                problem("there is no block at " + toStr(readNum(t)) + " of cluster " + toStr(i->second));
                            } else {
                                s += " child " + toStr(child->second);
                            }
                        }
                    } else if (t.id == CueReference) {
                        s += " reference{";
                        for (const auto &r : children(t, problems)) {
                            s += r.id == CueRefCluster ? " cluster " + clusterName(r) : " " + pbt::hex(id(r.id)) + "=" + toStr(readNum(r));
                        }
                        s += " }";
                    } else {
                        s += " " + pbt::hex(id(t.id)) + "=" + toStr(readNum(t));
                    }
                }
                s += " }";
            }
        }
        a.payload.emplace_back("index", s);
    }
    const auto relation = [&](const Element *e) -> std::string { return !e || clusters.empty() ? std::string() : e->start < clusters.front().start ? "before" : "after"; };
    a.tagPosition = relation(tags);
    if (attachments && tags && relation(attachments) != a.tagPosition) {
        a.tagPosition = "mixed";
    } else if (!tags) {
        a.tagPosition = relation(attachments);
    }
    a.indexPosition = relation(cues);
    return a;
}

void edit(pbt::Gen &g, MediaFileInfo &file, fmt::Tags &model, const EditOptions &o)
{
    auto *const container = dynamic_cast<MatroskaContainer *>(file.container());
    CHECK_MSG(container, "no-container", "");
    mkv::edit(g, *container, model, o);
}

} // namespace fmt::mkvf
