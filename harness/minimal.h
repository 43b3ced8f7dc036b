// Small MP4 and Matroska files around generated headers of one track.
#pragma once
#include "mkv.h"
#include "mp4.h"

namespace minimal {

using util::be;

inline std::string audioEntry(const std::string &id, unsigned channels, unsigned bits, std::uint32_t rate, const std::string &children = std::string())
{
    return mp4::box(id, std::string(6, '\0') + be(1, 2) + std::string(8, '\0') + be(channels, 2) + be(bits, 2) + be(0, 4) + be(static_cast<std::uint64_t>(rate) << 16, 4) + children);
}

inline std::string videoEntry(const std::string &id, unsigned width, unsigned height, const std::string &children = std::string(), const std::string &compressor = std::string(),
    std::uint32_t resolution = 0x480000, unsigned depth = 24)
{
    auto name = compressor;
    name.resize(31);
    return mp4::box(id,
        std::string(6, '\0') + be(1, 2) + std::string(16, '\0') + be(width, 2) + be(height, 2) + be(resolution, 4) + be(resolution, 4) + be(0, 4) + be(1, 2)
            + be(compressor.size(), 1) + name + be(depth, 2) + be(0xFFFF, 2) + children);
}

inline std::string descriptor(unsigned tag, const std::string &data)
{
    std::string r(1, static_cast<char>(tag));
    for (int shift = 21; shift >= 0; shift -= 7) {
        r += static_cast<char>(((data.size() >> shift) & 0x7F) | (shift ? 0x80 : 0));
    }
    return r + data;
}

struct Mp4Track {
    std::string handler = "soun", entry, name;
    std::uint32_t timescale = 1000, duration = 0, id = 1;
    std::vector<std::vector<std::string>> chunks; // samples
    bool wideOffsets = false, uniform = false;
    std::vector<std::uint64_t> offsets; // assigned by mp4File()
};

inline std::string sampleToChunk(const std::vector<std::vector<std::string>> &chunks)
{
    std::string entries;
    std::size_t n = 0, last = 0;
    for (std::size_t i = 0; i < chunks.size(); ++i) {
        if (!i || chunks[i].size() != last) {
            entries += be(i + 1, 4) + be(last = chunks[i].size(), 4) + be(1, 4);
            ++n;
        }
    }
    return mp4::fullBox("stsc", 0, 0, be(n, 4) + entries);
}

inline std::string mp4Trak(const Mp4Track &t, std::uint32_t movieDuration)
{
    std::size_t samples = 0, size = 0;
    std::string sizes, offsets;
    for (const auto &c : t.chunks) {
        for (const auto &s : c) {
            ++samples;
            sizes += be(size = s.size(), 4);
        }
    }
    for (const auto o : t.offsets) {
        offsets += be(o, t.wideOffsets ? 8 : 4);
    }
    const auto stbl = mp4::box("stbl",
        mp4::fullBox("stsd", 0, 0, be(1, 4) + t.entry) + mp4::fullBox("stts", 0, 0, be(samples ? 1 : 0, 4) + (samples ? be(samples, 4) + be(1, 4) : std::string()))
            + sampleToChunk(t.chunks)
            + (t.uniform && samples ? mp4::fullBox("stsz", 0, 0, be(size, 4) + be(samples, 4)) : mp4::fullBox("stsz", 0, 0, be(0, 4) + be(samples, 4) + sizes))
            + mp4::fullBox(t.wideOffsets ? "co64" : "stco", 0, 0, be(t.chunks.size(), 4) + offsets));
    const auto header = t.handler == "soun" ? mp4::fullBox("smhd", 0, 0, std::string(4, '\0'))
        : t.handler == "vide"               ? mp4::fullBox("vmhd", 0, 1, std::string(8, '\0'))
                                            : mp4::fullBox("nmhd", 0, 0, std::string());
    const auto dinf = mp4::box("dinf", mp4::fullBox("dref", 0, 0, be(1, 4) + mp4::fullBox("url ", 0, 1, std::string())));
    const auto matrix = be(0x10000, 4) + std::string(12, '\0') + be(0x10000, 4) + std::string(12, '\0') + be(0x40000000, 4);
    return mp4::box("trak",
        mp4::fullBox("tkhd", 0, 7, be(0, 8) + be(t.id, 4) + be(0, 4) + be(movieDuration, 4) + std::string(16, '\0') + matrix + be(0, 8))
            + mp4::box("mdia",
                mp4::fullBox("mdhd", 0, 0, be(0, 8) + be(t.timescale, 4) + be(t.duration, 4) + be(0x55C4, 2) + be(0, 2))
                    + mp4::fullBox("hdlr", 0, 0, be(0, 4) + t.handler + std::string(12, '\0') + t.name + std::string(1, '\0')) + mp4::box("minf", header + dinf + stbl)));
}

/// the chunks of the tracks are stored alternately in front of the movie box
inline std::string mp4File(std::vector<Mp4Track> &tracks, const std::string &movieTail = std::string(), const std::string &tail = std::string(), const std::string &brand = "isom")
{
    auto r = mp4::box("ftyp", brand + be(0x200, 4) + brand);
    std::string media;
    std::size_t most = 0;
    for (auto &t : tracks) {
        t.offsets.clear();
        most = std::max(most, t.chunks.size());
    }
    for (std::size_t i = 0; i < most; ++i) {
        for (auto &t : tracks) {
            if (i < t.chunks.size()) {
                t.offsets.push_back(r.size() + 8 + media.size());
                for (const auto &s : t.chunks[i]) {
                    media += s;
                }
            }
        }
    }
    r += mp4::box("mdat", media);
    const auto matrix = be(0x10000, 4) + std::string(12, '\0') + be(0x10000, 4) + std::string(12, '\0') + be(0x40000000, 4);
    auto movie = mp4::fullBox("mvhd", 0, 0, be(0, 8) + be(1000, 4) + be(0, 4) + be(0x10000, 4) + be(0x100, 2) + std::string(10, '\0') + matrix + std::string(24, '\0') + be(tracks.size() + 1, 4));
    for (const auto &t : tracks) {
        movie += mp4Trak(t, 0);
    }
    return r + mp4::box("moov", movie + movieTail) + tail;
}

inline std::string mkvFile(const std::string &tracks, const std::string &more = std::string())
{
    using namespace mkv;
    return master(Ebml, el(DocType, "matroska") + num(DocTypeVersion, 4) + num(DocTypeReadVersion, 2))
        + el(Segment,
            el(Info, num(TimestampScale, 1000000) + flt(Duration, 1000) + el(MuxingApp, "m") + el(WritingApp, "w")) + el(Tracks, tracks) + more
                + el(Cluster, num(Timestamp, 0) + el(SimpleBlock, "\x81" + be(0, 3) + "media data")));
}

} // namespace minimal
