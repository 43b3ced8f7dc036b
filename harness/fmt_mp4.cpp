// MP4/QuickTime files with tracks, sample tables and fragments.
#include "avc.h"
#include "fmt.h"
#include "mp4.h"
#include <algorithm>
#include <tagparser/mp4/mp4container.h>

using namespace TagParser;
using namespace util;
using mp4::box;
using mp4::boxes;
using mp4::Box;
using mp4::Boxes;
using mp4::find;
using mp4::fullBox;

namespace fmt::mp4f {

namespace {

struct Chunk {
    std::vector<std::string> samples;
    std::uint64_t offset = 0;
};
struct Track {
    std::uint32_t id = 0, timescale = 0;
    bool co64 = false;
    std::vector<Chunk> chunks;
    std::string head; // tkhd and boxes in front of mdia
    std::string tail; // boxes after mdia
    std::string mdiaHead; // mdhd, hdlr and others
    std::string mdiaTail;
    std::string minfHead, minfTail; // media header and dinf
    std::string stblHead, stblTail; // everything but the chunk offsets
    std::size_t samples() const
    {
        std::size_t n = 0;
        for (const auto &c : chunks) {
            n += c.samples.size();
        }
        return n;
    }
};

std::string trak(const Track &t)
{
    std::string offsets = be(t.chunks.size(), 4);
    for (const auto &c : t.chunks) {
        be(offsets, c.offset, t.co64 ? 8 : 4);
    }
    const auto stbl = box("stbl", t.stblHead + fullBox(t.co64 ? "co64" : "stco", 0, 0, offsets) + t.stblTail);
    return box("trak", t.head + box("mdia", t.mdiaHead + box("minf", t.minfHead + stbl + t.minfTail) + t.mdiaTail) + t.tail);
}

std::string descriptor(pbt::Gen &g, unsigned tag, const std::string &data)
{
    std::string r(1, static_cast<char>(tag));
    if (data.size() > 127 || g.flip()) {
        for (int shift = 21; shift >= 0; shift -= 7) {
            r += static_cast<char>(((data.size() >> shift) & 0x7F) | (shift ? 0x80 : 0));
        }
    } else {
        r += static_cast<char>(data.size());
    }
    return r + data;
}

std::string esds(pbt::Gen &g, unsigned objectType, unsigned streamType, const std::string &specific, unsigned maxRate, unsigned averageRate)
{
    std::string config = be(objectType, 1) + be((streamType << 2) | 1, 1) + be(g.bits(20), 3) + be(maxRate, 4) + be(averageRate, 4);
    config += descriptor(g, 5, specific);
    const auto es = be(g.bits(16), 2) + be(0, 1) + descriptor(g, 4, config) + descriptor(g, 6, "\2");
    return fullBox("esds", 0, 0, descriptor(g, 3, es));
}

std::string audioEntry(const std::string &id, unsigned channels, unsigned bits, std::uint32_t rate, const std::string &children)
{
    return box(id, std::string(6, '\0') + be(1, 2) + std::string(8, '\0') + be(channels, 2) + be(bits, 2) + be(0, 4) + be(static_cast<std::uint64_t>(rate) << 16, 4) + children);
}

std::string videoEntry(const std::string &id, unsigned width, unsigned height, const std::string &compressor, const std::string &children)
{
    auto name = compressor;
    name.resize(31);
    return box(id,
        std::string(6, '\0') + be(1, 2) + std::string(16, '\0') + be(width, 2) + be(height, 2) + be(0x480000, 4) + be(0x480000, 4) + be(0, 4) + be(1, 2)
            + be(compressor.size(), 1) + name + be(24, 2) + be(0xFFFF, 2) + children);
}

/// returns the sample description and the kind of the handler
std::string sampleEntry(pbt::Gen &g, std::string &handler, std::string &mediaHeader, const std::string &prefix, std::map<std::string, std::string> &declared)
{
    const auto audio = [&] {
        handler = "soun";
        mediaHeader = fullBox("smhd", 0, 0, std::string(4, '\0'));
        declared[prefix + "type"] = "audio";
    };
    const auto video = [&] {
        handler = "vide";
        mediaHeader = fullBox("vmhd", 0, 1, std::string(8, '\0'));
        declared[prefix + "type"] = "video";
    };
    static const unsigned rates[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
    switch (g.below(9)) {
    case 0:
    case 1: {
        audio();
        const auto index = static_cast<unsigned>(g.below(13));
        const auto channels = static_cast<unsigned>(g.range(1, 6));
        const auto type = g.pick({ 2u, 1u, 4u, 5u, 2u, 29u });
        std::uint64_t v = type;
        unsigned n = 5;
        const auto put = [&](std::uint64_t value, unsigned bits) {
            v = (v << bits) | value;
            n += bits;
        };
        auto rate = rates[index];
        if (type < 5 && g.chance(1, 5)) {
            rate = 1 + static_cast<unsigned>(g.bits(16));
            put(15, 4);
            put(rate, 24);
        } else {
            put(index, 4);
        }
        put(channels, 4);
        declared[prefix + "sbr"] = type >= 5 ? "1" : "0";
        declared[prefix + "ps"] = type == 29 ? "1" : "0";
        if (type >= 5) {
            const auto extension = static_cast<unsigned>(g.below(13));
            put(extension, 4);
            declared[prefix + "extensionRate"] = toStr(rates[extension]);
            put(2, 5);
        }
        put(0, 3);
        const auto sync = type < 5 && n < 28 && g.flip();
        if (sync) { // backward-compatible signaling
            put(0x2B7, 11);
            put(5, 5);
            const auto sbr = g.flip();
            put(sbr, 1);
            if (sbr) {
                const auto extension = static_cast<unsigned>(g.below(13));
                put(extension, 4);
                declared[prefix + "extensionRate"] = toStr(rates[extension]);
                declared[prefix + "sbr"] = "1";
                if (g.flip()) {
                    const auto ps = g.flip();
                    put(0x548, 11);
                    put(ps, 1);
                    declared[prefix + "ps"] = ps ? "1" : "0";
                }
            }
        }
        while (n % 8) {
            put(0, 1);
        }
        const auto average = static_cast<unsigned>(g.bits(20)), max = average + static_cast<unsigned>(g.bits(10));
        declared[prefix + "formatId"] = "mp4a";
        declared[prefix + "rate"] = toStr(rate);
        if (average >= 10) {
            declared[prefix + "kbps"] = std::to_string(average / 1000.0);
        }
        declared[prefix + "maxKbps"] = std::to_string(max / 1000.0);
        declared[prefix + "aac"] = toStr(type);
        declared[prefix + "channelConfig"] = toStr(channels);
        return audioEntry("mp4a", channels > 2 ? 2 : channels, 16, rate < 65536 ? rate : 0, esds(g, 0x40, 5, be(v, n / 8), max, average));
    }
    case 2: {
        video();
        const auto c = avc::generate(g);
        const auto w = c.width - c.cropLeft - c.cropRight, h = c.height - c.cropTop - c.cropBottom;
        const std::string id = g.pick({ "avc1", "avc3" });
        declared[prefix + "formatId"] = id;
        declared[prefix + "profile"] = toStr(c.profile);
        declared[prefix + "level"] = std::to_string(c.level / 10.0);
        declared[prefix + "width"] = toStr(w);
        declared[prefix + "height"] = toStr(h);
        if (c.parNum) {
            declared[prefix + "par"] = toStr(c.parNum) + ":" + toStr(c.parDen);
        }
        declared[prefix + "chroma"] = toStr(c.chroma);
        return videoEntry(id, w, h, g.flip() ? std::string() : g.asciiWord(31), box("avcC", c.record) + (g.flip() ? box("pasp", be(1, 4) + be(1, 4)) : std::string()));
    }
    case 3: {
        audio();
        const auto channels = static_cast<unsigned>(g.range(1, 8)), bits = g.pick({ 16u, 24u });
        const auto rate = g.pick({ 44100u, 48000u, 8000u });
        declared[prefix + "formatId"] = "alac";
        declared[prefix + "rate"] = toStr(rate);
        declared[prefix + "channels"] = toStr(channels);
        declared[prefix + "bits"] = toStr(bits);
        return audioEntry("alac", channels, bits, rate, fullBox("alac", 0, 0, g.bytes(24)));
    }
    case 4: {
        audio();
        const auto channels = static_cast<unsigned>(g.range(1, 2));
        declared[prefix + "formatId"] = "Opus";
        declared[prefix + "rate"] = "48000";
        declared[prefix + "channels"] = toStr(channels);
        return audioEntry("Opus", channels, 16, 48000, box("dOps", be(0, 1) + be(channels, 1) + be(312, 2) + be(48000, 4) + be(0, 3)));
    }
    case 5: {
        video();
        const auto w = static_cast<unsigned>(1 + g.bits(12)), h = static_cast<unsigned>(1 + g.bits(12));
        const std::string id = g.pick({ "hvc1", "vp09", "mp4v" });
        declared[prefix + "formatId"] = id;
        declared[prefix + "width"] = toStr(w);
        declared[prefix + "height"] = toStr(h);
        return videoEntry(id, w, h, std::string(), id == "mp4v" ? esds(g, 0x6C, 4, "\x01", 0, 0) : box(id == "hvc1" ? "hvcC" : "vpcC", g.bytes(20)));
    }
    case 6:
        handler = "text";
        mediaHeader = fullBox("nmhd", 0, 0, std::string());
        declared[prefix + "type"] = "text";
        declared[prefix + "formatId"] = "tx3g";
        return box("tx3g", std::string(6, '\0') + be(1, 2) + g.bytes(30));
    case 7:
        handler = g.pick({ "sbtl", "tmcd", "subt" });
        mediaHeader = handler == "subt" ? fullBox("sthd", 0, 0, std::string()) : box("gmhd", fullBox("gmin", 0, 0, g.bytes(12)));
        declared[prefix + "type"] = "unknown";
        return box(handler == "tmcd" ? "tmcd" : "stpp", std::string(6, '\0') + be(1, 2) + g.bytes(g.length(30)));
    default:
        audio();
        declared[prefix + "formatId"] = "fLaC";
        declared[prefix + "rate"] = "44100";
        declared[prefix + "channels"] = "2";
        declared[prefix + "bits"] = "16";
        return audioEntry("fLaC", 2, 16, 44100, fullBox("dfLa", 0, 0, "\x80" + be(34, 3) + g.bytes(34)));
    }
}

/// timing fields of mvhd, tkhd and mdhd; middle is located between modification time and duration
std::string timed(const std::string &id, unsigned version, std::uint32_t flags, std::uint64_t created, std::uint64_t modified, const std::string &middle, std::uint64_t duration,
    const std::string &rest)
{
    const auto n = version ? 8u : 4u;
    return fullBox(id, version, flags, be(created, n) + be(modified, n) + middle + be(duration, n) + rest);
}

std::string matrix()
{
    std::string r;
    for (const auto v : { 0x00010000u, 0u, 0u, 0u, 0x00010000u, 0u, 0u, 0u, 0x40000000u }) {
        be(r, v, 4);
    }
    return r;
}

std::uint64_t genTime(pbt::Gen &g, unsigned version)
{
    return g.chance(1, 5) ? 0 : version && g.chance(1, 3) ? g.bits(33) : 2082844800u + g.bits(31);
}

Track genTrack(pbt::Gen &g, const GenOptions &o, std::size_t index, bool fragmentedOnly, std::map<std::string, std::string> &declared)
{
    Track t;
    const auto prefix = "track" + toStr(index) + ".";
    t.id = static_cast<std::uint32_t>(index + 1);
    if (o.rich && g.chance(1, 4)) {
        t.id = static_cast<std::uint32_t>((index + 1) * 1000 + g.below(1000));
    }
    t.timescale = static_cast<std::uint32_t>(g.pick({ 1000, 44100, 48000, 90000, 600, 1 }));
    t.co64 = o.rich && g.chance(1, 4);
    std::string handler, mediaHeader;
    const auto entry = sampleEntry(g, handler, mediaHeader, prefix, declared);
    // samples
    const auto sampleCount = fragmentedOnly || (o.rich && g.chance(1, 20)) ? 0 : static_cast<std::size_t>(g.range(1, o.rich ? 30 : 10));
    const auto uniform = g.chance(1, 3);
    const auto maxSize = (o.rich ? 120u : 40u) * o.big;
    const auto size = g.length(maxSize);
    const auto perChunk = g.pick({ 1u, 2u, 5u, 100u });
    for (std::size_t i = 0; i < sampleCount; ++i) {
        if (t.chunks.empty() || t.chunks.back().samples.size() >= perChunk || (o.rich && g.chance(1, 10))) {
            t.chunks.emplace_back();
        }
        t.chunks.back().samples.push_back(g.bytes(uniform ? size : g.length(maxSize)));
    }
    const auto trackEnabled = g.chance(9, 10);
    // headers
    auto version = o.rich && g.chance(1, 4) ? 1u : 0u;
    const auto duration = g.bits(version ? 33 : 32);
    t.head = timed("tkhd", version, (trackEnabled ? 1u : 0u) | static_cast<unsigned>(g.below(4)) << 1, genTime(g, version), genTime(g, version), be(t.id, 4) + be(0, 4), duration,
        std::string(8, '\0') + be(g.bits(16), 2) + be(g.bits(16), 2) + be(0x100, 2) + be(0, 2) + matrix() + be(g.bits(32), 4) + be(g.bits(32), 4));
    declared[prefix + "id"] = toStr(t.id);
    declared[prefix + "enabled"] = trackEnabled ? "1" : "0";
    declared[prefix + "samples"] = toStr(sampleCount);
    if (o.rich && g.chance(1, 3)) {
        t.head += box("edts", fullBox("elst", 0, 0, be(1, 4) + be(duration, 4) + be(g.bits(20), 4) + be(0x10000, 4)));
    }
    if (o.rich && g.chance(1, 6)) {
        t.head += box("tref", box("chap", be(g.bits(8), 4)));
    }
    if (o.rich && g.chance(1, 5)) {
        t.tail += box("udta", box("name", g.bytes(g.length(20))));
    }
    if (o.rich && g.chance(1, 10)) {
        t.tail += box("meta", g.bytes(8));
    }
    version = o.rich && g.chance(1, 4) ? 1u : 0u;
    const auto mediaDuration = g.bits(version ? 36 : 32);
    std::string language(3, 'a');
    std::uint16_t coded = 0;
    for (auto &c : language) {
        c = static_cast<char>('a' + g.below(26));
        coded = static_cast<std::uint16_t>((coded << 5) | (c - 0x60));
    }
    if (g.chance(1, 4)) {
        language.clear();
        coded = 0;
    } else if (g.chance(1, 4)) {
        language = "und";
        coded = 0x55C4;
    }
    declared[prefix + "language"] = language;
    if (mediaDuration) {
        declared[prefix + "seconds"] = std::to_string(static_cast<double>(mediaDuration) / t.timescale);
    }
    const auto created = genTime(g, version), modified = genTime(g, version);
    declared[prefix + "timescale"] = toStr(t.timescale);
    declared[prefix + "created"] = toStr(created);
    declared[prefix + "modified"] = toStr(modified);
    const auto mdhd = timed("mdhd", version, 0, created, modified, be(t.timescale, 4), mediaDuration, be(coded, 2) + be(0, 2));
    auto name = g.flip() ? std::string() : g.text(20, static_cast<unsigned>(g.below(4)), 1);
    if (!name.empty() && static_cast<unsigned char>(name[0]) == name.size()) {
        name += "_"; // would be ambiguous
    }
    declared[prefix + "name"] = name;
    const auto hdlr = fullBox("hdlr", 0, 0, be(0, 4) + handler + std::string(12, '\0') + name + std::string(1, '\0'));
    t.mdiaHead = mdhd + hdlr;
    if (o.rich && g.chance(1, 8)) {
        t.mdiaHead += fullBox("elng", 0, 0, std::string("en-US") + '\0');
        g.label("elng");
    }
    if (o.rich && g.chance(1, 10)) {
        t.mdiaTail += box("uuid", g.bytes(16 + g.length(20)));
    }
    t.minfHead = mediaHeader;
    const auto dinf = box("dinf", fullBox("dref", 0, 0, be(1, 4) + fullBox("url ", 0, 1, std::string())));
    (o.rich && g.chance(1, 5) ? t.minfTail : t.minfHead) += dinf;
    if (o.rich && g.chance(1, 8)) {
        t.minfHead += fullBox("hdlr", 0, 0, be(0, 4) + "alis" + std::string(12, '\0') + std::string(1, '\0'));
    }
    // sample table
    std::string stsd = fullBox("stsd", 0, 0, be(1, 4) + entry);
    std::string stts = fullBox("stts", 0, 0, sampleCount ? be(1, 4) + be(sampleCount, 4) + be(1 + g.bits(10), 4) : be(0, 4));
    std::string stsc;
    std::size_t runs = 0, last = 0;
    for (std::size_t i = 0; i < t.chunks.size(); ++i) {
        if (t.chunks[i].samples.size() != last) {
            last = t.chunks[i].samples.size();
            stsc += be(i + 1, 4) + be(last, 4) + be(1, 4);
            ++runs;
        }
    }
    stsc = fullBox("stsc", 0, 0, be(runs, 4) + stsc);
    std::string sizes;
    std::uint64_t largest = 0, total = 0;
    for (const auto &c : t.chunks) {
        for (const auto &s : c.samples) {
            be(sizes, s.size(), 4);
            largest = std::max<std::uint64_t>(largest, s.size());
            total += s.size();
        }
    }
    declared[prefix + "size"] = toStr(total);
    std::string stsz;
    if (uniform && sampleCount && size && g.flip()) {
        stsz = fullBox("stsz", 0, 0, be(size, 4) + be(sampleCount, 4));
    } else if (o.rich && largest < 65536 && g.chance(1, 5)) {
        const auto fieldSize = largest < 16 && g.flip() ? 4u : largest < 256 ? 8u : 16u;
        std::string table;
        unsigned half = 0, n = 0;
        for (const auto &c : t.chunks) {
            for (const auto &s : c.samples) {
                if (fieldSize == 4) {
                    if (n++ % 2) {
                        table += static_cast<char>(half << 4 | s.size());
                    } else {
                        half = static_cast<unsigned>(s.size());
                    }
                } else {
                    be(table, s.size(), fieldSize / 8);
                }
            }
        }
        if (n % 2) {
            table += static_cast<char>(half << 4);
        }
        stsz = fullBox("stz2", 0, 0, be(0, 3) + be(fieldSize, 1) + be(sampleCount, 4) + table);
        g.label("compact sizes");
    } else {
        stsz = fullBox("stsz", 0, 0, be(0, 4) + be(sampleCount, 4) + sizes);
    }
    t.stblHead = stsd + stts;
    if (handler == "vide" && g.flip()) {
        t.stblHead += fullBox("stss", 0, 0, sampleCount ? be(1, 4) + be(1, 4) : be(0, 4));
    }
    if (o.rich && handler == "vide" && sampleCount && g.flip()) {
        t.stblHead += fullBox("ctts", 0, 0, be(1, 4) + be(sampleCount, 4) + be(g.bits(10), 4));
    }
    t.stblHead += stsc;
    (o.rich && g.flip() ? t.stblTail : t.stblHead) += stsz;
    if (o.rich && g.chance(1, 4)) {
        t.stblTail += fullBox("sgpd", 1, 0, "roll" + be(2, 4) + be(1, 4) + be(0xFFFF, 2));
        t.stblTail += fullBox("sbgp", 0, 0, "roll" + be(1, 4) + be(sampleCount, 4) + be(1, 4));
    }
    return t;
}

struct Top { // top-level box
    enum Type { Raw, Moov, Mdat, Moof } type = Raw;
    std::string raw;
    std::string header; // of mdat
    std::vector<std::pair<std::size_t, std::size_t>> chunks; // track, chunk; of mdat, filler if track is ~0
    std::vector<std::string> filler;
    std::function<std::string(std::uint64_t moofStart)> moof; // for absolute base offsets
    std::uint64_t start = 0;
};

std::string freeBox(pbt::Gen &g, std::size_t max)
{
    const auto n = g.length(max);
    return box(g.pick({ "free", "free", "skip" }), g.flip() ? std::string(n, '\0') : g.bytes(n), g.chance(1, 10));
}

} // namespace

File generate(pbt::Gen &g, const GenOptions &o)
{
    File f;
    const auto fragmented = o.rich && g.chance(1, 3);
    const auto fragmentsOnly = fragmented && g.chance(3, 4);
    const auto trackCount = g.chance(1, 30) && o.rich ? std::size_t(0) : static_cast<std::size_t>(g.range(1, 3));
    std::vector<Track> tracks;
    f.declared["tracks"] = toStr(trackCount);
    for (std::size_t i = 0; i < trackCount; ++i) {
        tracks.push_back(genTrack(g, o, i, fragmentsOnly, f.declared));
    }
    // movie box
    const auto movieVersion = o.rich && g.chance(1, 4) ? 1u : 0u;
    const auto timescale = g.pick({ 1000u, 600u, 90000u, 44100u });
    const auto duration = g.bits(movieVersion ? 34 : 31);
    const auto mvhd = timed("mvhd", movieVersion, 0, genTime(g, movieVersion), genTime(g, movieVersion), be(timescale, 4), duration,
        be(0x10000, 4) + be(0x100, 2) + std::string(10, '\0') + matrix() + std::string(24, '\0') + be(g.bits(32), 4));
    f.declared["timescale"] = toStr(timescale);
    if (fragmented) {
        for (std::size_t i = 0; i < trackCount; ++i) {
            f.declared.erase("track" + toStr(i) + ".samples");
            f.declared.erase("track" + toStr(i) + ".size");
        }
    }
    if (duration) {
        f.declared["seconds"] = std::to_string(static_cast<double>(duration) / timescale);
    }
    std::string moovHead = mvhd, moovTail, udta, mvex;
    if (o.rich && g.chance(1, 6)) {
        moovHead += fullBox("iods", 0, 0, g.bytes(9));
    }
    if (fragmented) {
        if (g.chance(3, 4)) {
            mvex += fullBox("mehd", 0, 0, be(g.bits(31), 4));
            f.declared.erase("seconds");
        }
        for (const auto &t : tracks) {
            mvex += fullBox("trex", 0, 0, be(t.id, 4) + be(1, 4) + be(g.bits(10), 4) + be(7, 4) + be(0, 4));
        }
        (g.flip() ? moovHead : moovTail) += box("mvex", mvex);
    }
    const auto haveTag = o.tags && g.chance(3, 4);
    if (o.rich && g.chance(1, 5)) {
        udta += box("\xA9xyz", be(5, 2) + be(0x15C7, 2) + "+1+1/");
    }
    if (haveTag) {
        udta += mp4::encodeMeta(mp4::genForeign(g, o));
    }
    if (o.rich && g.chance(1, 5)) {
        udta += fullBox("chpl", 1, 0, g.bytes(g.length(30)));
    }
    std::string udtaBox;
    if (!udta.empty() || g.chance(1, 10)) {
        udtaBox = box("udta", udta);
    }
    if (o.rich && g.chance(1, 10)) {
        moovTail += box("meta", fullBox("hdlr", 0, 0, be(0, 4) + "mdta" + std::string(13, '\0')) + fullBox("keys", 0, 0, be(0, 4)));
    }
    if (o.rich && g.chance(1, 10)) {
        moovTail += freeBox(g, 40);
    }
    const auto udtaFirst = o.rich && g.chance(1, 5);
    const auto moov = [&] {
        std::string r = moovHead + (udtaFirst ? udtaBox : std::string());
        for (const auto &t : tracks) {
            r += trak(t);
        }
        return box("moov", r + (udtaFirst ? std::string() : udtaBox) + moovTail);
    };
    // media data: distribute the chunks
    std::vector<Top> media;
    std::vector<std::pair<std::size_t, std::size_t>> order;
    std::vector<std::size_t> next(trackCount);
    for (;;) {
        std::vector<std::size_t> left;
        for (std::size_t i = 0; i < trackCount; ++i) {
            if (next[i] < tracks[i].chunks.size()) {
                left.push_back(i);
            }
        }
        if (left.empty()) {
            break;
        }
        const auto t = left[o.rich ? g.below(left.size()) : 0];
        order.emplace_back(t, next[t]++);
    }
    if (o.rich && g.chance(1, 6) && order.size() > 1) {
        for (auto n = g.below(6); n; --n) {
            std::swap(order[g.below(order.size())], order[g.below(order.size())]);
        }
        g.label("chunks out of order");
    }
    const auto mdatCount = order.empty() && (fragmentsOnly || g.flip()) ? 0u : o.rich ? static_cast<unsigned>(g.range(1, 4)) : 1u;
    for (unsigned i = 0; i < mdatCount; ++i) {
        Top m;
        m.type = Top::Mdat;
        const auto end = i + 1 == mdatCount ? order.size() : g.below(order.size() + 1);
        while (!order.empty() && (i + 1 == mdatCount || m.chunks.size() < end)) {
            if (o.rich && g.chance(1, 8)) {
                m.chunks.emplace_back(~std::size_t(0), m.filler.size());
                m.filler.push_back(g.bytes(1 + g.length(60)));
            }
            m.chunks.push_back(order.front());
            order.erase(order.begin());
        }
        if (o.rich && g.chance(1, 8)) {
            m.chunks.emplace_back(~std::size_t(0), m.filler.size());
            m.filler.push_back(g.bytes(1 + g.length(60)));
        }
        m.header = o.rich && g.chance(1, 4) ? "64" : "32";
        media.push_back(m);
    }
    if (mdatCount > 1) {
        g.label("several mdat");
    }
    // fragments
    const auto fragmentCount = fragmented && trackCount ? static_cast<unsigned>(g.range(1, 4)) : 0u;
    if (fragmentCount) {
        g.label("fragmented");
        f.declared.erase("fragments");
    }
    for (unsigned i = 0; i < fragmentCount; ++i) {
        if (g.chance(1, 3)) {
            Top t;
            t.raw = box("styp", "msdh" + be(0, 4) + "msdhmsix");
            media.push_back(t);
        }
        // content of the fragment
        std::string data;
        struct Traf {
            std::uint32_t id;
            unsigned mode; // 0: default-base-is-moof, 1: base relative to moof, 2: base at the data, 3: implicit
            std::string tfhdTail;
            std::uint32_t tfhdFlags = 0;
            std::string more;
            struct Trun {
                std::uint32_t flags, count;
                std::string rows;
                std::uint64_t dataOffset; // within mdat
            };
            std::vector<Trun> truns;
        };
        std::vector<Traf> trafs;
        const auto onlyOne = g.chance(1, 3);
        for (std::size_t k = 0; k < trackCount; ++k) {
            if (onlyOne && !trafs.empty()) {
                break;
            }
            if (g.chance(1, 4) && k + 1 < trackCount) {
                continue;
            }
            Traf traf;
            traf.id = tracks[k].id;
            traf.mode = static_cast<unsigned>(g.below(4));
            if (traf.mode == 3 && !trafs.empty()) {
                traf.mode = 1;
            }
            const auto defaultSize = g.chance(1, 3);
            const auto size = 1 + g.length(80 * o.big);
            if (defaultSize) {
                traf.tfhdFlags |= 0x10;
                be(traf.tfhdTail, size, 4);
            }
            if (g.flip()) {
                traf.more = fullBox("tfdt", 1, 0, be(g.bits(40), 8));
            }
            for (auto runs = g.range(1, 2); runs; --runs) {
                Traf::Trun trun;
                trun.flags = 1;
                trun.count = static_cast<std::uint32_t>(g.range(1, 6));
                trun.dataOffset = data.size();
                const auto durations = g.flip(), sizes = !defaultSize || g.chance(1, 4), offsets = g.chance(1, 3);
                trun.flags |= (durations ? 0x100u : 0u) | (sizes ? 0x200u : 0u) | (offsets ? 0x800u : 0u);
                for (std::uint32_t s = 0; s < trun.count; ++s) {
                    const auto n = sizes ? g.length(80 * o.big) : size;
                    if (durations) {
                        be(trun.rows, g.bits(12), 4);
                    }
                    if (sizes) {
                        be(trun.rows, n, 4);
                    }
                    if (offsets) {
                        be(trun.rows, g.bits(12), 4);
                    }
                    data += g.bytes(n);
                }
                traf.truns.push_back(trun);
            }
            trafs.push_back(traf);
        }
        const auto makeMoof = [trafs, i](std::uint64_t start, std::uint64_t moofSize) {
            std::string r = fullBox("mfhd", 0, 0, be(i + 1, 4));
            for (const auto &t : trafs) {
                std::string tfhd = be(t.id, 4);
                auto flags = t.tfhdFlags;
                auto base = start;
                if (t.mode == 0) {
                    flags |= 0x20000;
                } else if (t.mode != 3) {
                    flags |= 1;
                    base = t.mode == 2 ? start + moofSize + 8 : start;
                    be(tfhd, base, 8);
                }
                std::string s = fullBox("tfhd", 0, flags, tfhd + t.tfhdTail) + t.more;
                for (const auto &trun : t.truns) {
                    s += fullBox("trun", 0, trun.flags, be(trun.count, 4) + be(start + moofSize + 8 + trun.dataOffset - base, 4) + trun.rows);
                }
                r += box("traf", s);
            }
            return box("moof", r);
        };
        const auto moofSize = makeMoof(0, 0).size();
        if (g.chance(1, 4)) {
            Top t;
            t.raw = fullBox("sidx", 0, 0, be(trafs.front().id, 4) + be(1000, 4) + be(0, 4) + be(0, 4) + be(0, 2) + be(1, 2) + be(moofSize + 8 + data.size(), 4) + be(1000, 4) + be(0x90000000u, 4));
            media.push_back(t);
        } else if (g.chance(1, 8)) {
            Top t;
            t.raw = fullBox("emsg", 0, 0, std::string("urn:x") + '\0' + '\0' + g.bytes(20));
            media.push_back(t);
        }
        Top m;
        m.type = Top::Moof;
        m.moof = [makeMoof, moofSize](std::uint64_t start) { return makeMoof(start, moofSize); };
        media.push_back(m);
        Top d;
        d.type = Top::Raw;
        d.raw = box("mdat", data);
        media.push_back(d);
    }
    // other boxes
    std::vector<Top> top;
    const auto raw = [&](const std::string &data) {
        Top t;
        t.raw = data;
        return t;
    };
    Top movie;
    movie.type = Top::Moov;
    for (auto &m : media) {
        if (o.rich && m.type == Top::Mdat && g.chance(1, 6)) {
            top.push_back(raw(g.flip() ? box("wide", std::string()) : box("uuid", g.bytes(16 + g.length(30)))));
        }
        if (o.rich && o.padding && m.type == Top::Mdat && g.chance(1, 6)) {
            top.push_back(raw(freeBox(g, 60)));
        }
        top.push_back(m);
    }
    if (o.rich && g.chance(1, 8)) {
        top.push_back(raw(box("uuid", g.bytes(16 + g.length(30)))));
    }
    // position of the movie box
    std::size_t position = 0;
    if (!fragmented && !top.empty()) {
        position = g.chance(1, 2) ? 0 : o.rich && g.chance(1, 3) ? g.below(top.size() + 1) : top.size();
    }
    top.insert(top.begin() + static_cast<std::ptrdiff_t>(position), movie);
    g.label(position == 0 ? "index in front" : "index behind");
    if (o.padding && g.flip()) {
        const auto at = g.flip() ? position + 1 : 0u;
        top.insert(top.begin() + static_cast<std::ptrdiff_t>(at), raw(freeBox(g, 3000)));
    }
    if (o.rich && o.padding && g.chance(1, 10)) {
        top.push_back(raw(freeBox(g, 100)));
    }
    if (o.rich && g.chance(1, 10)) {
        auto at = g.chance(1, 3) ? g.below(top.size() + 1) : 0;
        if (at && top[at - 1].type == Top::Moof) {
            --at;
        }
        top.insert(top.begin() + static_cast<std::ptrdiff_t>(at), raw(fullBox("pdin", 0, 0, be(g.bits(20), 4) + be(g.bits(10), 4))));
    }
    const std::string brand = g.pick({ "isom", "M4A ", "mp42", "qt  ", "iso6" });
    top.insert(top.begin(), raw(box("ftyp", brand + be(g.bits(16), 4) + "isommp42")));
    f.declared["doctype"] = brand;
    const auto last = top.back().type == Top::Mdat && o.rich && g.chance(1, 10);
    if (last) {
        top.back().header = "0";
        g.label("mdat until end");
    }
    // random access table at the end
    const auto accessTable = fragmentCount && top.back().type == Top::Raw && g.chance(1, 3);
    const auto makeAccessTable = [&, version = g.below(2), sizes = g.below(64), wanted = g.bits(6), time = g.bits(20)] {
        std::string tables;
        for (std::size_t i = 0; i < trackCount; ++i) {
            std::string entries;
            std::uint32_t n = 0, index = 0;
            for (const auto &t : top) {
                if (t.type == Top::Moof && ((wanted >> (index++ % 6)) & 1)) {
                    be(entries, time + index, version ? 8 : 4);
                    be(entries, t.start, version ? 8 : 4);
                    be(entries, 1, static_cast<unsigned>(((sizes >> 4) & 3) + 1));
                    be(entries, 1, static_cast<unsigned>(((sizes >> 2) & 3) + 1));
                    be(entries, 1, static_cast<unsigned>((sizes & 3) + 1));
                    ++n;
                }
            }
            tables += fullBox("tfra", static_cast<unsigned>(version), 0, be(tracks[i].id, 4) + be(sizes, 4) + be(n, 4) + entries);
        }
        return box("mfra", tables + fullBox("mfro", 0, 0, be(8 + tables.size() + 16, 4)));
    };
    // layout
    std::uint64_t offset = 0;
    for (auto &t : top) {
        t.start = offset;
        switch (t.type) {
        case Top::Raw:
            offset += t.raw.size();
            break;
        case Top::Moov:
            offset += moov().size();
            break;
        case Top::Moof:
            offset += t.moof(0).size();
            break;
        case Top::Mdat:
            offset += t.header == "64" ? 16 : 8;
            for (const auto &c : t.chunks) {
                if (c.first == ~std::size_t(0)) {
                    offset += t.filler[c.second].size();
                    continue;
                }
                auto &chunk = tracks[c.first].chunks[c.second];
                chunk.offset = offset;
                for (const auto &s : chunk.samples) {
                    offset += s.size();
                }
            }
        }
    }
    for (const auto &t : top) {
        switch (t.type) {
        case Top::Raw:
            f.bytes += t.raw;
            break;
        case Top::Moov:
            f.bytes += moov();
            break;
        case Top::Moof:
            f.bytes += t.moof(t.start);
            break;
        case Top::Mdat: {
            std::string data;
            for (const auto &c : t.chunks) {
                if (c.first == ~std::size_t(0)) {
                    data += t.filler[c.second];
                    continue;
                }
                for (const auto &s : tracks[c.first].chunks[c.second].samples) {
                    data += s;
                }
            }
            f.bytes += t.header == "0" ? be(0, 4) + "mdat" + data : box("mdat", data, t.header == "64");
        }
        }
    }
    if (accessTable) {
        f.bytes += makeAccessTable();
        g.label("random access table");
    }
    if (fragmentCount) {
        // fragments contain further samples
        for (std::size_t i = 0; i < trackCount; ++i) {
            f.declared.erase("track" + toStr(i) + ".samples");
            f.declared.erase("track" + toStr(i) + ".size");
        }
    }
    f.what = "MP4 (";
    for (const auto &t : top) {
        f.what += t.type == Top::Moov ? "moov " : t.type == Top::Mdat ? "mdat" + t.header + " " : t.type == Top::Moof ? "moof " : t.raw.substr(4, 4) + " ";
    }
    f.what += toStr(trackCount) + " tracks" + (haveTag ? ", tag" : "") + ")";
    return f;
}

namespace {

struct SampleTable {
    std::vector<std::uint64_t> sizes, offsets;
    std::vector<std::pair<std::uint32_t, std::uint32_t>> runs; // first chunk, samples per chunk
};

SampleTable readTable(const Boxes &stbl)
{
    SampleTable t;
    const auto require = [&](const char *id) -> const Box & {
        const auto *const b = find(stbl, id);
        if (!b) {
            throw Malformed(std::string("stbl lacks ") + id);
        }
        return *b;
    };
    if (const auto *const stsz = find(stbl, "stsz")) {
        Rd rd(stsz->data);
        rd.be(4);
        const auto size = rd.be(4), n = rd.be(4);
        for (std::uint64_t i = 0; i < n; ++i) {
            t.sizes.push_back(size ? size : rd.be(4));
        }
        if (!rd.end()) {
            throw Malformed("stsz has trailing data");
        }
    } else {
        Rd rd(require("stz2").data);
        rd.be(7);
        const auto field = rd.be(1), n = rd.be(4);
        for (std::uint64_t i = 0; i < n; ++i) {
            if (field == 4) {
                const auto v = rd.be(1);
                t.sizes.push_back(v >> 4);
                if (++i < n) {
                    t.sizes.push_back(v & 15);
                }
            } else {
                t.sizes.push_back(rd.be(static_cast<unsigned>(field / 8)));
            }
        }
        if (!rd.end()) {
            throw Malformed("stz2 has trailing data");
        }
    }
    const auto *const co64 = find(stbl, "co64");
    Rd rd(co64 ? co64->data : require("stco").data);
    if (co64 && find(stbl, "stco")) {
        throw Malformed("both stco and co64 present");
    }
    rd.be(4);
    for (auto n = rd.be(4); n; --n) {
        t.offsets.push_back(rd.be(co64 ? 8 : 4));
    }
    if (!rd.end()) {
        throw Malformed("chunk offset table has trailing data");
    }
    Rd sc(require("stsc").data);
    sc.be(4);
    for (auto n = sc.be(4); n; --n) {
        const auto first = static_cast<std::uint32_t>(sc.be(4)), count = static_cast<std::uint32_t>(sc.be(4));
        sc.be(4);
        t.runs.emplace_back(first, count);
    }
    if (!sc.end()) {
        throw Malformed("stsc has trailing data");
    }
    return t;
}

/// timing fields independent of the version
std::string timingFields(const Box &b, std::size_t middle)
{
    Rd rd(b.data);
    const auto version = rd.be(1);
    if (version > 1) {
        throw Malformed(b.id + " has version " + toStr(version));
    }
    const auto n = version ? 8u : 4u;
    std::string r = toStr(rd.be(3)) + " " + toStr(rd.be(n)) + " " + toStr(rd.be(n)) + " ";
    r += digest(rd.take(middle)) + " " + toStr(rd.be(n)) + " ";
    return r + digest(rd.rest());
}

} // namespace

Analysis analyze(std::string_view bytes)
{
    Analysis a;
    const auto top = boxes(bytes, 0, true);
    const auto problem = [&a](const std::string &p) { a.problems.push_back(p); };
    if (top.empty() || top.front().id != "ftyp") {
        problem("does not start with ftyp");
    }
    const Box *moov = nullptr, *firstMedia = nullptr;
    std::vector<Box> media;
    std::uint64_t freeBetween = 0;
    a.padding = 0;
    a.paddingEnd = 0;
    std::uint64_t freeSoFar = 0;
    for (const auto &b : top) {
        if (b.toEnd && &b != &top.back()) {
            problem("box of unspecified size is not the last one");
        }
        if (b.id == "moov") {
            if (moov) {
                problem("several moov boxes");
            }
            moov = &b;
        } else if (b.id == "ftyp" || b.id == "pdin") {
            if (&b != find(top, b.id)) {
                problem("several " + b.id + " boxes");
            }
            a.kept.push_back({ b.id, digest(b.data) });
        } else if (b.id == "free" || b.id == "skip") {
            freeSoFar += b.size();
        } else {
            if (media.empty()) {
                firstMedia = &b;
                a.padding = freeSoFar;
                a.mediaOffset = b.start;
            } else {
                freeBetween += freeSoFar;
            }
            freeSoFar = 0;
            media.push_back(b);
        }
    }
    a.paddingEnd = freeBetween + freeSoFar;
    if (!media.empty()) {
        a.between = media.back().start - media.front().start;
        for (const auto &m : media) {
            a.between -= &m == &media.back() ? 0 : m.size();
        }
    }
    if (!moov) {
        throw Malformed("no moov box");
    }
    if (firstMedia) {
        a.tagPosition = a.indexPosition = moov->start < firstMedia->start ? "before" : "after";
    } else {
        a.padding = freeSoFar;
        a.paddingEnd = 0;
    }
    const auto slice = [&](std::uint64_t offset, std::uint64_t size) -> std::string_view {
        if (!size) {
            return std::string_view();
        }
        for (const auto &m : media) {
            if (m.id == "mdat" && offset >= m.dataStart() && offset + size <= m.dataStart() + m.data.size()) {
                return m.data.substr(offset - m.dataStart(), size);
            }
        }
        throw Malformed("sample at " + toStr(offset) + " (" + toStr(size) + " bytes) is not within mdat");
    };
    std::map<std::uint32_t, std::string> samples;
    std::map<std::uint32_t, std::size_t> sampleCount;
    std::vector<std::uint32_t> ids;
    std::map<std::uint32_t, std::uint64_t> defaultSizes;
    // movie box
    const auto children = boxes(moov->data, moov->dataStart());
    auto tagCount = 0, udtaCount = 0;
    for (const auto &c : children) {
        if (c.id == "mvex") {
            for (const auto &e : boxes(c.data, c.dataStart())) {
                if (e.id == "trex") {
                    Rd rd(e.data);
                    rd.be(4);
                    const auto id = static_cast<std::uint32_t>(rd.be(4));
                    rd.be(8);
                    defaultSizes[id] = rd.be(4);
                }
            }
        }
        if (c.id == "udta") {
            if (++udtaCount > 1) {
                problem("several udta boxes");
            }
            for (const auto &u : boxes(c.data, c.dataStart())) {
                if (u.id != "meta") {
                    a.kept.push_back({ "udta/" + u.id, digest(u.data) });
                    continue;
                }
                if (++tagCount > 1) {
                    problem("several meta boxes");
                }
                Rd rd(u.data);
                if (rd.be(4)) {
                    problem("version/flags of meta are not zero");
                }
                TagModel t;
                t.type = "mp4";
                t.items = mp4::decodeMeta(rd.rest(), a.problems);
                a.tags.push_back(t);
            }
            continue;
        }
        if (c.id == "free" || c.id == "skip") {
            continue;
        }
        if (c.id != "trak") {
            a.kept.push_back({ "moov/" + c.id, digest(c.data) });
            continue;
        }
        const auto trackBoxes = boxes(c.data, c.dataStart());
        const auto *const tkhd = find(trackBoxes, "tkhd"), *const mdia = find(trackBoxes, "mdia");
        if (!tkhd || !mdia) {
            throw Malformed("trak lacks tkhd or mdia");
        }
        Rd rd(tkhd->data);
        const auto wide = rd.be(1) == 1;
        rd.take(wide ? 19 : 11);
        const auto id = static_cast<std::uint32_t>(rd.be(4));
        if (std::find(ids.begin(), ids.end(), id) != ids.end()) {
            problem("several tracks with ID " + toStr(id));
        }
        ids.push_back(id);
        const auto prefix = "track" + toStr(id) + "/";
        for (const auto &t : trackBoxes) {
            if (t.id == "tkhd") {
                a.kept.push_back({ prefix + t.id, timingFields(t, 8) });
                const auto expected = (t.data[0] ? 36u : 24u) + 60u;
                if (t.data.size() != expected) {
                    problem("tkhd has " + toStr(t.data.size()) + " bytes instead of " + toStr(expected));
                }
            } else if (t.id != "mdia" && t.id != "free" && t.id != "skip") {
                a.kept.push_back({ prefix + t.id, digest(t.data) });
            }
        }
        const auto mediaBoxes = boxes(mdia->data, mdia->dataStart());
        const auto *const minf = find(mediaBoxes, "minf");
        if (!minf || !find(mediaBoxes, "mdhd") || !find(mediaBoxes, "hdlr")) {
            throw Malformed("mdia lacks mdhd, hdlr or minf");
        }
        for (const auto &m : mediaBoxes) {
            if (m.id == "mdhd") {
                a.kept.push_back({ prefix + m.id, timingFields(m, 4) });
                if (m.data.size() != (m.data[0] ? 32u : 20u) + 4u) {
                    problem("mdhd has " + toStr(m.data.size()) + " bytes");
                }
            } else if (m.id != "minf") {
                a.kept.push_back({ prefix + m.id, digest(m.data) });
            }
        }
        const auto infoBoxes = boxes(minf->data, minf->dataStart());
        const auto *const stbl = find(infoBoxes, "stbl");
        if (!stbl || !find(infoBoxes, "dinf")) {
            throw Malformed("minf lacks stbl or dinf");
        }
        for (const auto &m : infoBoxes) {
            if (m.id != "stbl") {
                a.kept.push_back({ prefix + m.id, digest(m.data) });
            }
        }
        const auto tableBoxes = boxes(stbl->data, stbl->dataStart());
        for (const auto &m : tableBoxes) {
            if (m.id != "stco" && m.id != "co64") {
                a.kept.push_back({ prefix + m.id, digest(m.data) });
            }
        }
        const auto table = readTable(tableBoxes);
        std::size_t sample = 0, run = 0;
        for (std::size_t i = 0; i < table.offsets.size(); ++i) {
            while (run + 1 < table.runs.size() && table.runs[run + 1].first <= i + 1) {
                ++run;
            }
            if (table.runs.empty() || table.runs.front().first != 1) {
                throw Malformed("stsc does not start with the first chunk");
            }
            auto offset = table.offsets[i];
            for (std::uint32_t k = 0; k < table.runs[run].second; ++k, ++sample) {
                if (sample >= table.sizes.size()) {
                    throw Malformed("more samples in chunks than sizes");
                }
                samples[id] += toStr(table.sizes[sample]) + ":";
                samples[id] += slice(offset, table.sizes[sample]);
                offset += table.sizes[sample];
                ++sampleCount[id];
            }
        }
        if (sample != table.sizes.size()) {
            throw Malformed("more sizes than samples in chunks");
        }
    }
    if (!find(children, "mvhd")) {
        problem("no mvhd");
    }
    // fragments
    for (const auto &m : media) {
        if (m.id != "moof") {
            continue;
        }
        a.segmented = true;
        auto previousEnd = m.start;
        for (const auto &t : boxes(m.data, m.dataStart())) {
            if (t.id != "traf") {
                continue;
            }
            std::uint32_t id = 0, flags = 0;
            std::uint64_t base = previousEnd, size = 0;
            std::uint64_t position = 0;
            for (const auto &e : boxes(t.data, t.dataStart())) {
                Rd rd(e.data);
                if (e.id == "tfhd") {
                    rd.be(1);
                    flags = static_cast<std::uint32_t>(rd.be(3));
                    id = static_cast<std::uint32_t>(rd.be(4));
                    if (flags & 1) {
                        base = rd.be(8);
                    } else if (flags & 0x20000) {
                        base = m.start;
                    }
                    if (flags & 2) {
                        rd.be(4);
                    }
                    if (flags & 8) {
                        rd.be(4);
                    }
                    size = flags & 0x10 ? rd.be(4) : defaultSizes[id];
                    position = base;
                } else if (e.id == "trun") {
                    rd.be(1);
                    const auto f = rd.be(3), n = rd.be(4);
                    if (f & 1) {
                        position = base + static_cast<std::uint64_t>(static_cast<std::int64_t>(static_cast<std::int32_t>(rd.be(4))));
                    }
                    if (f & 4) {
                        rd.be(4);
                    }
                    for (std::uint64_t i = 0; i < n; ++i) {
                        if (f & 0x100) {
                            rd.be(4);
                        }
                        const auto s = f & 0x200 ? rd.be(4) : size;
                        if (f & 0x400) {
                            rd.be(4);
                        }
                        if (f & 0x800) {
                            rd.be(4);
                        }
                        samples[id] += toStr(s) + ":";
                        samples[id] += slice(position, s);
                        position += s;
                        ++sampleCount[id];
                    }
                }
            }
            previousEnd = position;
        }
    }
    for (const auto id : ids) {
        a.payload.emplace_back("track " + toStr(id) + " (" + toStr(sampleCount[id]) + " samples)", digest(samples[id]));
    }
    std::map<std::uint64_t, std::uint32_t> fragments;
    for (const auto &m : media) {
        if (m.id != "mfra" && m.id != "moof") {
            a.payload.emplace_back(m.id, digest(m.data));
            continue;
        }
        std::string data(m.data);
        if (m.id == "mfra") {
            for (const auto &t : boxes(m.data, m.dataStart())) {
                if (t.id != "tfra") {
                    continue;
                }
                Rd rd(t.data);
                const auto fieldSize = rd.be(1) ? 8u : 4u;
                rd.be(7);
                const auto sizes = rd.be(4);
                const auto rest = ((sizes >> 4) & 3) + ((sizes >> 2) & 3) + (sizes & 3) + 3;
                auto position = t.dataStart() - m.dataStart() + 16 + fieldSize;
                for (auto n = rd.be(4); n; --n, position += 2 * fieldSize + rest) {
                    rd.be(fieldSize);
                    const auto fragment = fragments.find(rd.be(fieldSize));
                    if (fragment == fragments.end()) {
                        problem("random access table of " + toStr(t.start) + " does not refer to a fragment");
                        break;
                    }
                    rd.take(rest);
                    data.replace(position, fieldSize, be(fragment->second, fieldSize));
                }
            }
        }
        if (m.id == "moof") {
            fragments.emplace(m.start, static_cast<std::uint32_t>(fragments.size()));
            for (const auto &t : boxes(m.data, m.dataStart())) {
                if (t.id == "traf") {
                    for (const auto &e : boxes(t.data, t.dataStart())) {
                        if (e.id == "tfhd" && (e.data[3] & 1)) {
                            data.replace(e.dataStart() - m.dataStart() + 8, 8, 8, '\0');
                        }
                    }
                }
            }
        }
        a.payload.emplace_back(m.id, digest(data));
    }
    return a;
}

void edit(pbt::Gen &g, MediaFileInfo &file, Tags &model, const EditOptions &o)
{
    auto *const container = dynamic_cast<Mp4Container *>(file.container());
    CHECK_MSG(container, "no-container", "");
    // tags without any fields might not be present in memory
    if (!container->tagCount()) {
        CHECK_MSG(model.empty() || model.front().items.empty(), "tag-not-found", dump(model));
        model.clear();
        if (!o.structural) {
            return;
        }
        CHECK_MSG(container->createTag(), "create-refused", "");
        model.push_back({ "mp4", {}, std::string() });
        g.label("tag created");
        g.describe(" tag created");
    } else if (o.structural && g.chance(1, 12)) {
        g.flip() ? container->removeAllTags() : static_cast<void>(container->removeTag(container->tag(0)));
        model.clear();
        g.label("tag removed");
        g.describe(" tag removed");
        return;
    }
    CHECK_MSG(container->tagCount() == 1, "tag-count", toStr(container->tagCount()));
    if (model.empty()) {
        model.push_back({ "mp4", {}, std::string() });
    }
    mp4::edit(g, *container->tag(0), model.front().items, o);
}

} // namespace fmt::mp4f
