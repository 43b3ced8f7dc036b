// helpers shared by the demonstrations (copied next to each of them)
#include <tagparser/abstracttrack.h>
#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tag.h>
#include <tagparser/tagvalue.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/matroska/matroskatag.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>
#include <string>
#include <vector>

using namespace TagParser;

#define REQUIRE(cond)                                                          \
    do {                                                                       \
        if (!(cond)) {                                                         \
            std::fprintf(stderr, "line %d: %s does not hold\n", __LINE__, #cond); \
            std::exit(1);                                                      \
        }                                                                      \
    } while (0)

inline std::string slurp(const std::string &path)
{
    std::ifstream f(path, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

inline void spit(const std::string &path, const std::string &data)
{
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(data.data(), static_cast<std::streamsize>(data.size()));
}

inline std::string be(std::uint64_t v, int n)
{
    std::string s;
    while (n--) {
        s += static_cast<char>(v >> (8 * n));
    }
    return s;
}

inline std::string le(std::uint64_t v, int n)
{
    std::string s;
    for (; n--; v >>= 8) {
        s += static_cast<char>(v);
    }
    return s;
}

/// MPEG-1 layer 3 frames of 128 kbit/s and 44.1 kHz (417 bytes each)
inline std::string mp3(int frames = 5, char fill = 'a')
{
    std::string s;
    for (int i = 0; i < frames; ++i) {
        s += std::string("\xFF\xFB\x90\x00", 4) + std::string(413, static_cast<char>(fill + i));
    }
    return s;
}

struct File {
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info;
    explicit File(const std::string &path)
        : info(std::string(path))
    {
        info.setForceRewrite(false);
        info.open();
        info.parseEverything(diag, progress);
    }
    void save()
    {
        info.applyChanges(diag, progress);
    }
};

inline std::string text(const TagValue &v)
{
    return v.toString(TagTextEncoding::Utf8);
}

/// minimal FLAC file: STREAMINFO, further blocks (type and content), two "frames" of arbitrary data
inline std::string flac(const std::vector<std::pair<int, std::string>> &blocks, const std::string &audio = std::string("\xFF\xF8", 2) + std::string(500, 'f'))
{
    std::string s = "fLaC";
    auto info = be(4096, 2) + be(4096, 2) + be(0, 3) + be(0, 3) + be((44100ull << 44) | (1ull << 41) | (15ull << 36) | 44100, 8) + std::string(16, '\x11');
    s += be(blocks.empty() ? 0x80 : 0, 1) + be(info.size(), 3) + info;
    for (std::size_t i = 0; i != blocks.size(); ++i) {
        s += be(blocks[i].first | (i + 1 == blocks.size() ? 0x80 : 0), 1) + be(blocks[i].second.size(), 3) + blocks[i].second;
    }
    return s + audio;
}

/// content of a Vorbis comment
inline std::string vorbisComment(const std::vector<std::string> &fields, const std::string &vendor = "vendor")
{
    auto s = le(vendor.size(), 4) + vendor + le(fields.size(), 4);
    for (const auto &f : fields) {
        s += le(f.size(), 4) + f;
    }
    return s;
}

inline std::uint32_t oggCrc(const std::string &data)
{
    std::uint32_t crc = 0;
    for (const unsigned char c : data) {
        crc ^= static_cast<std::uint32_t>(c) << 24;
        for (int i = 0; i < 8; ++i) {
            crc = crc & 0x80000000u ? (crc << 1) ^ 0x04C11DB7u : crc << 1;
        }
    }
    return crc;
}

/// one Ogg page holding complete packets
inline std::string oggPage(int flags, std::uint64_t granule, std::uint32_t serial, std::uint32_t sequence, const std::vector<std::string> &packets)
{
    std::string lacing, data;
    for (const auto &p : packets) {
        lacing += std::string(p.size() / 255, '\xFF') + static_cast<char>(p.size() % 255);
        data += p;
    }
    auto page = "OggS" + be(0, 1) + be(flags, 1) + le(granule, 8) + le(serial, 4) + le(sequence, 4) + le(0, 4) + be(lacing.size(), 1) + lacing + data;
    return page.replace(22, 4, le(oggCrc(page), 4));
}

/// Ogg file with one Vorbis stream (the audio packets are arbitrary data)
inline std::string oggVorbis(const std::vector<std::string> &fields, int audioPages = 3)
{
    const auto id = "\x01vorbis" + le(0, 4) + be(2, 1) + le(44100, 4) + le(0, 4) + le(128000, 4) + le(0, 4) + be(0xB8, 1) + be(1, 1);
    auto s = oggPage(2, 0, 7, 0, { id });
    s += oggPage(0, 0, 7, 1, { "\x03vorbis" + vorbisComment(fields) + "\x01", "\x05vorbis" + std::string(100, 's') });
    for (int i = 0; i != audioPages; ++i) {
        s += oggPage(i + 1 == audioPages ? 4 : 0, 1000u * (i + 1), 7, 2 + i, { std::string(200, static_cast<char>('a' + i)), std::string(90, 'z') });
    }
    return s;
}

inline std::string atom(const std::string &id, const std::string &content)
{
    return be(8 + content.size(), 4) + id + content;
}

/// MP4 file with one audio track; each chunk is one sample
inline std::string mp4(const std::vector<std::string> &samples, const std::string &udta, bool moovFirst = true, const std::string &between = std::string(), const std::string &rest = std::string())
{
    const auto ftyp = atom("ftyp", "M4A " + be(0, 4) + "M4A mp42isom");
    std::string mdat;
    for (const auto &s : samples) {
        mdat += s;
    }
    const auto makeMoov = [&](std::uint64_t base) {
        std::string stco = be(0, 4) + be(samples.size(), 4), stsz = be(0, 8) + be(samples.size(), 4);
        for (const auto &s : samples) {
            stco += be(base, 4);
            stsz += be(s.size(), 4);
            base += s.size();
        }
        const auto matrix = be(0x10000, 4) + be(0, 12) + be(0x10000, 4) + be(0, 12) + be(0x40000000, 4);
        const auto entry = atom("mp4a", be(0, 6) + be(1, 2) + be(0, 8) + be(2, 2) + be(16, 2) + be(0, 4) + be(44100u << 16, 4)
            + atom("esds", be(0, 4) + be(0x03, 1) + be(22, 1) + be(1, 2) + be(0, 1) + be(0x04, 1) + be(17, 1) + be(0x40, 1) + be(0x15, 1) + be(0, 3) + be(128000, 4) + be(128000, 4) + be(0x05, 1) + be(2, 1) + be(0x1210, 2)));
        const auto stbl = atom("stsd", be(0, 4) + be(1, 4) + entry) + atom("stts", be(0, 4) + be(1, 4) + be(samples.size(), 4) + be(1024, 4))
            + atom("stsc", be(0, 4) + be(1, 4) + be(1, 4) + be(1, 4) + be(1, 4)) + atom("stsz", stsz) + atom("stco", stco);
        const auto minf = atom("smhd", be(0, 8)) + atom("dinf", atom("dref", be(0, 4) + be(1, 4) + atom("url ", be(1, 4)))) + atom("stbl", stbl);
        const auto mdia = atom("mdhd", be(0, 12) + be(44100, 4) + be(1024 * samples.size(), 4) + be(0x55C4, 2) + be(0, 2))
            + atom("hdlr", be(0, 8) + "soun" + be(0, 12) + be(0, 1)) + atom("minf", minf);
        const auto tkhd = atom("tkhd", be(7, 4) + be(0, 8) + be(1, 4) + be(0, 4) + be(1024 * samples.size(), 4) + be(0, 8) + be(0, 4) + be(0x100, 2) + be(0, 2) + matrix + be(0, 8));
        return atom("moov", atom("mvhd", be(0, 12) + be(44100, 4) + be(1024 * samples.size(), 4) + be(0x10000, 4) + be(0x100, 2) + be(0, 10) + matrix + be(0, 24) + be(2, 4))
            + atom("trak", tkhd + atom("mdia", mdia)) + rest + (udta.empty() ? std::string() : atom("udta", udta)));
    };
    if (moovFirst) {
        const auto size = ftyp.size() + makeMoov(0).size() + between.size() + 8;
        return ftyp + makeMoov(size) + between + atom("mdat", mdat);
    }
    return ftyp + between + atom("mdat", mdat) + makeMoov(ftyp.size() + between.size() + 8);
}

/// "meta" atom with iTunes metadata
inline std::string itunes(const std::string &items)
{
    return atom("meta", be(0, 4) + atom("hdlr", be(0, 8) + "mdirappl" + be(0, 9)) + atom("ilst", items));
}
inline std::string item(const std::string &id, int type, const std::string &value)
{
    return atom(id, atom("data", be(type, 4) + be(0, 4) + value));
}

/// content the chunk offset tables (stco) of an MP4 file point at
inline std::vector<std::string> mp4Chunks(const std::string &file)
{
    std::vector<std::string> chunks;
    for (std::size_t p = 0; (p = file.find("stco", p)) != std::string::npos; p += 4) {
        const auto u32 = [&file](std::size_t at) {
            return static_cast<std::uint64_t>(static_cast<unsigned char>(file.at(at))) << 24 | static_cast<unsigned char>(file.at(at + 1)) << 16 | static_cast<unsigned char>(file.at(at + 2)) << 8 | static_cast<unsigned char>(file.at(at + 3));
        };
        for (std::uint64_t i = 0, n = u32(p + 8); i != n; ++i) {
            const auto offset = u32(p + 12 + 4 * i);
            chunks.push_back(offset < file.size() ? file.substr(offset, 20) : std::string());
        }
    }
    return chunks;
}

inline std::string ebml(std::uint32_t id, const std::string &content, int sizeLength = 0)
{
    const auto idLength = id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1;
    if (!sizeLength) {
        for (sizeLength = 1; content.size() >= (1ull << (7 * sizeLength)) - 1; ++sizeLength) {
        }
    }
    return be(id, idLength) + be(content.size() | (1ull << (7 * sizeLength)), sizeLength) + content;
}
inline std::string ebmlUInt(std::uint32_t id, std::uint64_t value)
{
    auto n = 1;
    while (n < 8 && value >> (8 * n)) {
        ++n;
    }
    return ebml(id, be(value, n));
}

/// Matroska file with one audio track
inline std::string mkvHeader()
{
    return ebml(0x1A45DFA3, ebmlUInt(0x4286, 1) + ebmlUInt(0x42F7, 1) + ebmlUInt(0x42F2, 4) + ebmlUInt(0x42F3, 8) + ebml(0x4282, "matroska") + ebmlUInt(0x4287, 4) + ebmlUInt(0x4285, 2));
}
inline std::string mkvInfo()
{
    return ebml(0x1549A966, ebmlUInt(0x2AD7B1, 1000000) + ebml(0x4D80, "muxer") + ebml(0x5741, "writer"));
}
inline std::string mkvTracks(std::uint64_t uid = 77)
{
    return ebml(0x1654AE6B, ebml(0xAE, ebmlUInt(0xD7, 1) + ebmlUInt(0x73C5, uid) + ebmlUInt(0x83, 2) + ebml(0x86, "A_VORBIS") + ebml(0xE1, ebml(0xB5, be(0x472C4400, 4)) + ebmlUInt(0x9F, 2))));
}
inline std::string mkvCluster(std::uint64_t time, const std::string &data)
{
    return ebml(0x1F43B675, ebmlUInt(0xE7, time) + ebml(0xA3, be(0x81, 1) + be(0, 2) + be(0x80, 1) + data));
}
