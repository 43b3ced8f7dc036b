#include "util.h"
#include "pbt.h"

#include <algorithm>
#include <array>
#include <filesystem>
#include <fstream>

namespace util {

Bytes readFile(const std::string &path)
{
    std::ifstream f(path, std::ios::binary);
    if (!f) {
        throw Malformed("file cannot be opened: " + path);
    }
    return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
void writeFile(const std::string &path, std::string_view data)
{
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(data.data(), static_cast<std::streamsize>(data.size()));
    f.close();
    if (!f) {
        throw std::runtime_error("harness is unable to write " + path);
    }
}
bool fileExists(const std::string &path)
{
    std::error_code ec;
    return std::filesystem::exists(path, ec);
}
std::vector<std::string> listDir(const std::string &dir)
{
    std::vector<std::string> r;
    std::error_code ec;
    for (const auto &e : std::filesystem::recursive_directory_iterator(dir, ec)) {
        if (e.is_regular_file()) {
            r.push_back(e.path().string().substr(dir.size() + 1));
        }
    }
    std::sort(r.begin(), r.end());
    return r;
}

std::uint32_t crc32Ieee(std::string_view data)
{
    static const auto table = [] {
        std::array<std::uint32_t, 256> t{};
        for (std::uint32_t i = 0; i < 256; ++i) {
            auto c = i;
            for (int k = 0; k < 8; ++k) {
                c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1;
            }
            t[i] = c;
        }
        return t;
    }();
    std::uint32_t c = 0xffffffffu;
    for (unsigned char b : data) {
        c = table[(c ^ b) & 0xff] ^ (c >> 8);
    }
    return c ^ 0xffffffffu;
}
std::uint32_t crc32Ogg(std::string_view data)
{
    static const auto table = [] {
        std::array<std::uint32_t, 256> t{};
        for (std::uint32_t i = 0; i < 256; ++i) {
            auto c = i << 24;
            for (int k = 0; k < 8; ++k) {
                c = c & 0x80000000u ? (c << 1) ^ 0x04c11db7u : c << 1;
            }
            t[i] = c;
        }
        return t;
    }();
    std::uint32_t c = 0;
    for (unsigned char b : data) {
        c = (c << 8) ^ table[((c >> 24) ^ b) & 0xff];
    }
    return c;
}

static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string base64(std::string_view data)
{
    std::string r;
    for (std::size_t i = 0; i < data.size(); i += 3) {
        std::uint32_t v = 0;
        const auto n = std::min<std::size_t>(3, data.size() - i);
        for (std::size_t k = 0; k < 3; ++k) {
            v = (v << 8) | (k < n ? static_cast<unsigned char>(data[i + k]) : 0u);
        }
        for (std::size_t k = 0; k < 4; ++k) {
            r += k <= n ? b64[(v >> (18 - 6 * k)) & 63] : '=';
        }
    }
    return r;
}
std::string unbase64(std::string_view data)
{
    std::string r;
    if (data.size() % 4) {
        throw Malformed("base64 length is not a multiple of 4");
    }
    for (std::size_t i = 0; i < data.size(); i += 4) {
        std::uint32_t v = 0;
        unsigned pad = 0;
        for (std::size_t k = 0; k < 4; ++k) {
            const auto c = data[i + k];
            if (c == '=') {
                if (i + 4 != data.size() || k < 2) {
                    throw Malformed("misplaced base64 padding");
                }
                ++pad;
                v <<= 6;
                continue;
            }
            const auto *p = std::char_traits<char>::find(b64, 64, c);
            if (!p || pad) {
                throw Malformed("invalid base64 character");
            }
            v = (v << 6) | static_cast<std::uint32_t>(p - b64);
        }
        for (unsigned k = 0; k < 3 - pad; ++k) {
            r += static_cast<char>(v >> (16 - 8 * k));
        }
    }
    return r;
}

std::u32string fromUtf8(std::string_view s)
{
    std::u32string r;
    for (std::size_t i = 0; i < s.size();) {
        const auto c = static_cast<unsigned char>(s[i]);
        unsigned n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : 9;
        if (n == 9 || i + n >= s.size()) {
            throw Malformed("invalid UTF-8");
        }
        char32_t v = n == 0 ? c : n == 1 ? c & 0x1f : n == 2 ? c & 0x0f : c & 0x07;
        for (unsigned k = 1; k <= n; ++k) {
            const auto d = static_cast<unsigned char>(s[i + k]);
            if ((d & 0xc0) != 0x80) {
                throw Malformed("invalid UTF-8 continuation");
            }
            v = (v << 6) | (d & 0x3f);
        }
        if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) {
            throw Malformed("invalid UTF-8 code point");
        }
        r += v;
        i += n + 1;
    }
    return r;
}
std::string toUtf8(const std::u32string &s)
{
    std::string r;
    for (auto c : s) {
        if (c < 0x80) {
            r += static_cast<char>(c);
        } else if (c < 0x800) {
            r += static_cast<char>(0xc0 | (c >> 6));
            r += static_cast<char>(0x80 | (c & 0x3f));
        } else if (c < 0x10000) {
            r += static_cast<char>(0xe0 | (c >> 12));
            r += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
            r += static_cast<char>(0x80 | (c & 0x3f));
        } else {
            r += static_cast<char>(0xf0 | (c >> 18));
            r += static_cast<char>(0x80 | ((c >> 12) & 0x3f));
            r += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
            r += static_cast<char>(0x80 | (c & 0x3f));
        }
    }
    return r;
}
std::string toUtf16(const std::u32string &s, bool bigEndian)
{
    std::string r;
    auto unit = [&](std::uint32_t u) { bigEndian ? be(r, u, 2) : le(r, u, 2); };
    for (auto c : s) {
        if (c >= 0x10000) {
            unit(0xd800 + ((c - 0x10000) >> 10));
            unit(0xdc00 + ((c - 0x10000) & 0x3ff));
        } else {
            unit(c);
        }
    }
    return r;
}
std::u32string fromUtf16(std::string_view s, bool bigEndian)
{
    if (s.size() % 2) {
        throw Malformed("odd number of bytes in UTF-16 text");
    }
    std::u32string r;
    Rd rd(s);
    while (!rd.end()) {
        auto u = static_cast<char32_t>(bigEndian ? rd.be(2) : rd.le(2));
        if (u >= 0xd800 && u < 0xdc00) {
            auto l = static_cast<char32_t>(bigEndian ? rd.be(2) : rd.le(2));
            if (l < 0xdc00 || l >= 0xe000) {
                throw Malformed("unpaired surrogate");
            }
            u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
        } else if (u >= 0xdc00 && u < 0xe000) {
            throw Malformed("unpaired surrogate");
        }
        r += u;
    }
    return r;
}
std::u32string fromLatin1(std::string_view s)
{
    std::u32string r;
    for (unsigned char c : s) {
        r += static_cast<char32_t>(c);
    }
    return r;
}
bool toLatin1(const std::u32string &s, std::string &out)
{
    out.clear();
    for (auto c : s) {
        if (c > 0xff) {
            return false;
        }
        out += static_cast<char>(c);
    }
    return true;
}

std::string firstDifference(std::string_view a, std::string_view b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
        ++i;
    }
    if (i == a.size() && i == b.size()) {
        return "equal";
    }
    const auto from = i > 8 ? i - 8 : 0;
    return "sizes " + std::to_string(a.size()) + " vs " + std::to_string(b.size()) + ", first difference at " + std::to_string(i) + ": "
        + pbt::hex(std::string(a.substr(std::min(from, a.size()), 24))) + " vs " + pbt::hex(std::string(b.substr(std::min(from, b.size()), 24)));
}
std::string toStr(std::uint64_t v)
{
    return std::to_string(v);
}

} // namespace util
