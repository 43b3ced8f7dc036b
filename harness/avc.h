// H.264 decoder configuration records with generated sequence parameter sets.
#pragma once
#include "pbt.h"
#include "util.h"

namespace avc {
struct Config {
    std::string record; // AVCDecoderConfigurationRecord
    unsigned profile = 0, level = 0, width = 0, height = 0; // as coded
    unsigned cropLeft = 0, cropRight = 0, cropTop = 0, cropBottom = 0; // in luma samples
    unsigned chroma = 1, bitDepth = 8, parNum = 0, parDen = 0;
};
Config generate(pbt::Gen &g);
} // namespace avc
