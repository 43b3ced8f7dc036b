// MPEG audio frames and ADTS frames with valid headers and random contents.
#pragma once
#include "pbt.h"
#include "util.h"

namespace mpeg {
struct Audio {
    std::string data;
    // declared by the headers
    double version = 1; // 1, 2, 2.5
    unsigned layer = 3, bitrate = 0 /* kbit/s */, sampleRate = 0, channels = 0, channelMode = 0;
    unsigned samplesPerFrame = 0;
    std::size_t frames = 0;
    bool xing = false;
    std::uint32_t xingFrames = 0, xingBytes = 0;
};
Audio genAudio(pbt::Gen &g, std::size_t maxFrames = 8);
struct Adts {
    std::string data;
    unsigned objectType = 2, sampleRateIndex = 4, channelConfig = 2, mpegId = 0;
    std::size_t frames = 0;
};
Adts genAdts(pbt::Gen &g, std::size_t maxFrames = 8);
} // namespace mpeg
