#include "avc.h"

using namespace util;

namespace avc {

namespace {
struct Bits {
    std::string bytes;
    unsigned used = 0;
    void put(std::uint64_t v, unsigned n)
    {
        while (n--) {
            if (!(used % 8)) {
                bytes += '\0';
            }
            if ((v >> n) & 1) {
                bytes.back() = static_cast<char>(bytes.back() | (0x80 >> (used % 8)));
            }
            ++used;
        }
    }
    void ue(std::uint64_t v)
    {
        ++v;
        unsigned n = 0;
        while ((v >> n) > 1) {
            ++n;
        }
        put(0, n);
        put(v, n + 1);
    }
    void se(std::int64_t v)
    {
        ue(v > 0 ? static_cast<std::uint64_t>(2 * v - 1) : static_cast<std::uint64_t>(-2 * v));
    }
    void stop()
    {
        put(1, 1);
        while (used % 8) {
            put(0, 1);
        }
    }
};

std::string escape(const std::string &rbsp)
{
    std::string r;
    unsigned zeros = 0;
    for (const auto c : rbsp) {
        if (zeros >= 2 && static_cast<unsigned char>(c) <= 3) {
            r += '\3';
            zeros = 0;
        }
        zeros = c ? 0 : zeros + 1;
        r += c;
    }
    return r;
}
} // namespace

Config generate(pbt::Gen &g)
{
    Config c;
    c.profile = g.pick({ 66u, 77u, 88u, 100u, 110u, 122u, 244u });
    c.level = g.pick({ 10u, 13u, 21u, 30u, 31u, 40u, 41u, 51u });
    const auto compatibility = static_cast<unsigned>(g.below(8)) << 5;
    Bits b;
    b.put(c.profile, 8);
    b.put(compatibility, 8);
    b.put(c.level, 8);
    b.ue(g.bits(5)); // ID
    if (c.profile >= 100) {
        c.chroma = c.profile == 244 ? static_cast<unsigned>(g.below(4)) : c.profile == 122 ? 1 + static_cast<unsigned>(g.below(2)) : static_cast<unsigned>(g.below(2));
        b.ue(c.chroma);
        if (c.chroma == 3) {
            b.put(0, 1);
        }
        const auto depth = c.profile == 100 ? 0 : g.below(3);
        b.ue(depth);
        b.ue(depth);
        c.bitDepth = 8 + static_cast<unsigned>(depth);
        b.put(g.flip(), 1);
        if (g.chance(1, 5)) { // scaling matrix
            b.put(1, 1);
            for (unsigned i = 0; i < (c.chroma == 3 ? 12 : 8); ++i) {
                const auto present = g.flip();
                b.put(present, 1);
                if (!present) {
                    continue;
                }
                int last = 8;
                for (unsigned n = i < 6 ? 16 : 64; n; --n) {
                    auto next = g.chance(1, 10) ? 0 : static_cast<int>(g.range(1, 255));
                    auto delta = next - last;
                    delta = delta > 127 ? delta - 256 : delta < -128 ? delta + 256 : delta;
                    b.se(delta);
                    if (!next) {
                        break; // use the default or repeat the last value
                    }
                    last = next;
                }
            }
        } else {
            b.put(0, 1);
        }
    }
    b.ue(g.below(13)); // log2_max_frame_num_minus4
    switch (g.below(3)) {
    case 0:
        b.ue(0);
        b.ue(g.below(13));
        break;
    case 1: {
        b.ue(1);
        b.put(g.flip(), 1);
        b.se(g.range(-100, 100));
        b.se(g.range(-100, 100));
        const auto n = g.below(4);
        b.ue(n);
        for (std::uint64_t i = 0; i < n; ++i) {
            b.se(g.range(-1000, 1000));
        }
        break;
    }
    default:
        b.ue(2);
    }
    b.ue(g.below(17)); // reference frames
    b.put(g.flip(), 1);
    const auto w = 1 + g.bits(8), h = 1 + g.bits(7);
    b.ue(w - 1);
    b.ue(h - 1);
    const auto interlaced = g.flip();
    b.put(!interlaced, 1);
    if (interlaced) {
        b.put(g.flip(), 1);
    }
    b.put(g.flip(), 1); // direct 8x8
    c.width = static_cast<unsigned>(w) * 16;
    c.height = static_cast<unsigned>(h) * 16 * (interlaced ? 2 : 1);
    if (g.flip()) {
        b.put(1, 1);
        const unsigned unitX = c.chroma == 1 || c.chroma == 2 ? 2 : 1, unitY = (c.chroma == 1 ? 2 : 1) * (interlaced ? 2 : 1);
        const auto l = g.below(3), r = g.below(3), t = g.below(2), bo = g.below(3);
        b.ue(l);
        b.ue(r);
        b.ue(t);
        b.ue(bo);
        c.cropLeft = static_cast<unsigned>(l) * unitX;
        c.cropRight = static_cast<unsigned>(r) * unitX;
        c.cropTop = static_cast<unsigned>(t) * unitY;
        c.cropBottom = static_cast<unsigned>(bo) * unitY;
    } else {
        b.put(0, 1);
    }
    if (g.flip()) { // VUI
        b.put(1, 1);
        if (g.flip()) {
            b.put(1, 1);
            c.parNum = 1 + static_cast<unsigned>(g.below(200));
            c.parDen = 1 + static_cast<unsigned>(g.below(200));
            b.put(255, 8);
            b.put(c.parNum, 16);
            b.put(c.parDen, 16);
        } else {
            b.put(0, 1);
        }
        const auto optional = [&] {
            const auto present = g.chance(1, 3);
            b.put(present, 1);
            return present;
        };
        if (optional()) { // overscan
            b.put(g.flip(), 1);
        }
        if (optional()) { // video signal type
            b.put(g.below(16), 4);
            if (optional()) {
                b.put(g.bits(24), 24);
            }
        }
        if (optional()) { // chroma location
            b.ue(g.below(6));
            b.ue(g.below(6));
        }
        if (optional()) { // timing
            b.put(g.pick({ 1u, 1001u }), 32);
            b.put(g.pick({ 50u, 60000u }), 32);
            b.put(g.flip(), 1);
        }
        const auto hrd = [&] {
            const auto n = g.below(3);
            b.ue(n);
            b.put(g.below(16), 4);
            b.put(g.below(16), 4);
            for (std::uint64_t i = 0; i <= n; ++i) {
                b.ue(g.bits(20));
                b.ue(g.bits(20));
                b.put(g.flip(), 1);
            }
            for (int i = 0; i < 4; ++i) {
                b.put(g.below(32), 5);
            }
        };
        const auto nal = optional();
        if (nal) {
            hrd();
        }
        const auto vcl = optional();
        if (vcl) {
            hrd();
        }
        if (nal || vcl) {
            b.put(g.flip(), 1); // low delay
        }
        b.put(g.flip(), 1); // picture structure
        if (optional()) { // bitstream restriction
            b.put(g.flip(), 1);
            b.ue(g.below(17));
            b.ue(g.below(17));
            b.ue(g.below(17));
            b.ue(g.below(17));
            b.ue(g.below(17));
            b.ue(g.below(17));
        }
    } else {
        b.put(0, 1);
    }
    b.stop();
    const auto sps = "\x67" + escape(b.bytes);
    Bits p;
    p.ue(g.bits(4));
    p.ue(0);
    p.put(0, 2);
    p.ue(0);
    p.put(0, 1);
    p.ue(0);
    p.ue(0);
    p.put(0, 3);
    p.se(0);
    p.se(0);
    p.se(0);
    p.put(0, 3);
    p.stop();
    const auto pps = "\x68" + escape(p.bytes);
    std::string &r = c.record;
    be(r, 1, 1);
    be(r, c.profile, 1);
    be(r, compatibility, 1);
    be(r, c.level, 1);
    be(r, 0xFF, 1);
    be(r, 0xE1, 1);
    be(r, sps.size(), 2);
    r += sps;
    be(r, 1, 1);
    be(r, pps.size(), 2);
    r += pps;
    if (c.profile >= 100 && c.profile != 244 && g.flip()) {
        be(r, 0xFC | c.chroma, 1);
        be(r, 0xF8 | (c.bitDepth - 8), 1);
        be(r, 0xF8 | (c.bitDepth - 8), 1);
        be(r, 0, 1);
    }
    return c;
}

} // namespace avc
