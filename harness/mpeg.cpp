#include "mpeg.h"

using namespace util;

namespace mpeg {

static const unsigned bitrates[5][15] = {
    { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 }, // V1 L1
    { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384 }, // V1 L2
    { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 }, // V1 L3
    { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 }, // V2 L1
    { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 }, // V2 L2, L3
};

Audio genAudio(pbt::Gen &g, std::size_t maxFrames)
{
    Audio a;
    const auto v = g.weighted({ 6, 2, 1 }); // 1, 2, 2.5
    a.version = v == 0 ? 1 : v == 1 ? 2 : 2.5;
    a.layer = static_cast<unsigned>(3 - g.weighted({ 6, 1, 1 }));
    const auto *const table = bitrates[v == 0 ? a.layer - 1 : a.layer == 1 ? 3 : 4];
    const auto bitrateIndex = static_cast<unsigned>(g.range(1, 14));
    a.bitrate = table[bitrateIndex];
    const auto rateIndex = static_cast<unsigned>(g.below(3));
    static const unsigned rates[3] = { 44100, 48000, 32000 };
    a.sampleRate = rates[rateIndex] >> (v == 0 ? 0 : v == 1 ? 1 : 2);
    a.channelMode = static_cast<unsigned>(g.below(4));
    a.channels = a.channelMode == 3 ? 1 : 2;
    a.samplesPerFrame = a.layer == 1 ? 384 : (a.layer == 2 || v == 0) ? 1152 : 576;
    a.frames = static_cast<std::size_t>(g.range(1, static_cast<std::int64_t>(maxFrames)));
    const auto padBit = g.below(2);
    // 1: no CRC; the header of MPEG-1 Layer I with CRC is also the byte order mark of UTF-16 text (FF FE) which is ambiguous
    const auto protection = v == 0 && a.layer == 1 ? 1u : static_cast<unsigned>(g.below(2));
    std::size_t size;
    if (a.layer == 1) {
        size = (12 * a.bitrate * 1000 / a.sampleRate + padBit) * 4;
    } else {
        size = a.samplesPerFrame / 8 * a.bitrate * 1000 / a.sampleRate + padBit;
    }
    const auto b2 = 0xE0 | ((v == 0 ? 3 : v == 1 ? 2 : 0) << 3) | ((4 - a.layer) << 1) | protection;
    const auto b3 = (bitrateIndex << 4) | (rateIndex << 2) | (padBit << 1);
    const auto b4 = (a.channelMode << 6) | (g.below(2) << 3) | (g.below(2) << 2);
    if (size < 64) {
        size = size < 8 ? 8 : size;
    }
    a.xing = a.layer == 3 && size > 200 && g.chance(1, 2);
    for (std::size_t i = 0; i < a.frames; ++i) {
        std::string f;
        f += '\xFF';
        f += static_cast<char>(b2);
        f += static_cast<char>(b3);
        f += static_cast<char>(b4);
        if (!i && a.xing) {
            const auto side = v == 0 ? (a.channels == 1 ? 17u : 32u) : (a.channels == 1 ? 9u : 17u);
            f.append(side, '\0');
            f += g.flip() ? "Xing" : "Info";
            const auto flags = g.flip() ? 3u : static_cast<unsigned>(g.below(16));
            be(f, flags, 4);
            if (flags & 1) {
                a.xingFrames = static_cast<std::uint32_t>(g.flip() ? a.frames : g.below(2000000));
                be(f, a.xingFrames, 4);
            }
            if (flags & 2) {
                a.xingBytes = static_cast<std::uint32_t>(size * a.frames);
                be(f, a.xingBytes, 4);
            }
            if (flags & 4) {
                f += g.bytes(100);
            }
            if (flags & 8) {
                be(f, g.below(101), 4);
            }
        } else {
            f += "\x01"; // contents of the frame must not look like the tag of an encoder
        }
        if (f.size() < size) {
            f += g.bytes(size - f.size());
        }
        f.resize(size);
        a.data += f;
    }
    return a;
}

Adts genAdts(pbt::Gen &g, std::size_t maxFrames)
{
    Adts a;
    a.mpegId = static_cast<unsigned>(g.below(2));
    a.objectType = static_cast<unsigned>(g.range(1, 4));
    a.sampleRateIndex = static_cast<unsigned>(g.below(13));
    a.channelConfig = static_cast<unsigned>(g.range(1, 7));
    a.frames = static_cast<std::size_t>(g.range(1, static_cast<std::int64_t>(maxFrames)));
    const auto noCrc = g.below(2);
    for (std::size_t i = 0; i < a.frames; ++i) {
        const auto body = g.bytes(static_cast<std::size_t>(g.range(10, 300)));
        const auto size = body.size() + (noCrc ? 7 : 9);
        std::uint64_t h = 0xFFF;
        auto put = [&](std::uint64_t v, unsigned n) { h = (h << n) | v; };
        put(a.mpegId, 1);
        put(0, 2);
        put(noCrc, 1);
        put(a.objectType - 1, 2);
        put(a.sampleRateIndex, 4);
        put(0, 1);
        put(a.channelConfig, 3);
        put(0, 4);
        put(size, 13);
        put(0x7FF, 11);
        put(0, 2);
        be(a.data, h, 7);
        if (!noCrc) {
            a.data += g.bytes(2);
        }
        a.data += body;
    }
    return a;
}

} // namespace mpeg
