#include "mutate.h"
#include "util.h"
#include <vector>

namespace mut {

namespace {

bool printable(char c)
{
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '\xA9' || c == '-' || c == ' ' || c == '_';
}

/// starts of what looks like identifiers: structures are usually around them
std::vector<std::size_t> anchors(const std::string &bytes)
{
    std::vector<std::size_t> res;
    for (std::size_t i = 0; i + 3 < bytes.size() && res.size() < 4000; ++i) {
        if ((i == 0 || !printable(bytes[i - 1])) && printable(bytes[i]) && printable(bytes[i + 1]) && printable(bytes[i + 2])) {
            res.push_back(i);
        }
    }
    return res;
}

std::size_t position(pbt::Gen &g, const std::string &bytes, const std::vector<std::size_t> &points)
{
    if (bytes.empty()) {
        return 0;
    }
    switch (g.weighted({ 3, 4, 2, 1 })) {
    case 0:
        return static_cast<std::size_t>(g.below(std::min<std::size_t>(bytes.size(), 256)));
    case 1:
        if (!points.empty()) {
            const auto p = static_cast<std::int64_t>(g.pickFrom(points)) + g.range(-12, 24);
            return p < 0 ? 0 : std::min(static_cast<std::size_t>(p), bytes.size() - 1);
        }
        [[fallthrough]];
    case 2:
        return static_cast<std::size_t>(g.below(bytes.size()));
    default:
        return bytes.size() - 1 - static_cast<std::size_t>(g.below(std::min<std::size_t>(bytes.size(), 200)));
    }
}

std::uint64_t interesting(pbt::Gen &g, std::size_t size, std::size_t pos, std::size_t width)
{
    switch (g.below(9)) {
    case 0:
        return static_cast<std::uint64_t>(g.below(20));
    case 1:
        return ~std::uint64_t(0) - static_cast<std::uint64_t>(g.below(20));
    case 2:
        return (std::uint64_t(1) << (width * 8 - 1)) - static_cast<std::uint64_t>(g.below(3));
    case 3:
        return std::uint64_t(1) << g.below(width * 8);
    case 4:
        return (std::uint64_t(1) << g.below(width * 8)) - 1;
    case 5:
        return size - pos + static_cast<std::uint64_t>(g.range(-20, 20));
    case 6:
        return size + static_cast<std::uint64_t>(g.range(-20, 20));
    case 7:
        return static_cast<std::uint64_t>(g.below(size + 1));
    default:
        return g.bits(static_cast<unsigned>(width * 8));
    }
}

} // namespace

std::string mutate(pbt::Gen &g, std::string bytes, const std::string &other)
{
    auto points = anchors(bytes);
    for (auto n = g.pick({ 1, 1, 1, 2, 3, 5, 10 }); n > 0; --n) {
        const auto pos = position(g, bytes, points);
        switch (g.weighted({ 6, 3, 3, 3, 2, 2, 2, 1, 1, 1 })) {
        case 0: { // a number
            const auto width = static_cast<std::size_t>(g.pick({ 1, 2, 3, 4, 4, 4, 8 }));
            const auto little = g.flip();
            if (pos + width > bytes.size()) {
                break;
            }
            std::uint64_t old = 0;
            for (std::size_t i = 0; i != width; ++i) {
                old |= static_cast<std::uint64_t>(static_cast<unsigned char>(bytes[pos + (little ? i : width - 1 - i)])) << (8 * i);
            }
            const auto v = g.chance(1, 4) ? old + static_cast<std::uint64_t>(g.range(-20, 20)) : interesting(g, bytes.size(), pos, width);
            for (std::size_t i = 0; i != width; ++i) {
                bytes[pos + (little ? i : width - 1 - i)] = static_cast<char>(v >> (8 * i));
            }
            g.label("number");
            break;
        }
        case 1: // a bit
            if (pos < bytes.size()) {
                bytes[pos] = static_cast<char>(bytes[pos] ^ (1 << g.below(8)));
            }
            g.label("bit");
            break;
        case 2: // truncation
            bytes.resize(g.chance(1, 3) ? pos : g.flip() ? bytes.size() - std::min<std::size_t>(bytes.size(), g.length(300)) : static_cast<std::size_t>(g.below(bytes.size() + 1)));
            g.label("truncated");
            break;
        case 3: { // removal of a range
            const auto len = std::min<std::size_t>(bytes.size() - std::min(pos, bytes.size()), g.chance(1, 4) ? g.length(4000) : g.length(40));
            bytes.erase(std::min(pos, bytes.size()), len);
            g.label("removed");
            break;
        }
        case 4: { // a range is repeated elsewhere
            if (bytes.empty()) {
                break;
            }
            const auto from = position(g, bytes, points);
            const auto range = bytes.substr(from, g.chance(1, 4) ? g.length(4000) : g.length(60));
            const auto times = g.chance(1, 10) ? g.range(1, 40) : 1;
            for (std::int64_t i = 0; i != times && bytes.size() < 400000; ++i) {
                bytes.insert(pos, range);
            }
            g.label("repeated");
            break;
        }
        case 5: { // a range is copied over another
            if (bytes.empty()) {
                break;
            }
            const auto from = position(g, bytes, points);
            const auto range = bytes.substr(from, std::min<std::size_t>(g.length(60), bytes.size() - pos));
            bytes.replace(pos, range.size(), range);
            g.label("overwritten");
            break;
        }
        case 6: // random bytes
            bytes.insert(std::min(pos, bytes.size()), g.bytes(g.length(60)));
            g.label("random bytes inserted");
            break;
        case 7: { // zeros
            const auto len = std::min<std::size_t>(bytes.size() - std::min(pos, bytes.size()), g.length(100));
            for (std::size_t i = 0; i != len; ++i) {
                bytes[pos + i] = g.flip() ? '\0' : '\xFF';
            }
            g.label("blanked");
            break;
        }
        case 8: // splice
            if (!other.empty()) {
                const auto from = static_cast<std::size_t>(g.below(other.size()));
                const auto part = other.substr(from, g.flip() ? std::string::npos : g.length(2000));
                bytes = bytes.substr(0, std::min(pos, bytes.size())) + part + (g.flip() ? bytes.substr(std::min(pos, bytes.size())) : std::string());
                g.label("spliced");
            }
            break;
        default: // two identifiers swapped
            if (points.size() > 1) {
                const auto a = g.pickFrom(points), b = g.pickFrom(points);
                if (a + 4 <= bytes.size() && b + 4 <= bytes.size()) {
                    const auto x = bytes.substr(a, 4), y = bytes.substr(b, 4);
                    bytes.replace(a, 4, y);
                    bytes.replace(b, 4, x);
                    g.label("identifiers swapped");
                }
            }
        }
        if (bytes.size() > 600000) {
            bytes.resize(600000);
        }
    }
    return bytes;
}

} // namespace mut
