// Byte-level helpers shared by generators and reference parsers. Independent of the code under test.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace util {

using Bytes = std::string;

inline void be(Bytes &b, std::uint64_t v, unsigned n)
{
    while (n--) {
        b += static_cast<char>(v >> (8 * n));
    }
}
inline void le(Bytes &b, std::uint64_t v, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) {
        b += static_cast<char>(v >> (8 * i));
    }
}
inline Bytes be(std::uint64_t v, unsigned n)
{
    Bytes b;
    be(b, v, n);
    return b;
}
inline Bytes le(std::uint64_t v, unsigned n)
{
    Bytes b;
    le(b, v, n);
    return b;
}

/// Thrown by reference parsers when the input is not well-formed.
struct Malformed : std::runtime_error {
    using std::runtime_error::runtime_error;
};

/// Bounds-checked reader.
struct Rd {
    std::string_view d;
    std::size_t p = 0;
    explicit Rd(std::string_view data)
        : d(data)
    {
    }
    std::size_t left() const
    {
        return d.size() - p;
    }
    bool end() const
    {
        return p >= d.size();
    }
    void need(std::size_t n, const char *what = "data") const
    {
        if (n > left()) {
            throw Malformed(std::string("truncated: ") + what + " needs " + std::to_string(n) + " bytes but only " + std::to_string(left()) + " left");
        }
    }
    std::uint64_t be(unsigned n)
    {
        need(n, "integer");
        std::uint64_t v = 0;
        while (n--) {
            v = (v << 8) | static_cast<unsigned char>(d[p++]);
        }
        return v;
    }
    std::uint64_t le(unsigned n)
    {
        need(n, "integer");
        std::uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i) {
            v |= static_cast<std::uint64_t>(static_cast<unsigned char>(d[p++])) << (8 * i);
        }
        return v;
    }
    unsigned u8()
    {
        return static_cast<unsigned>(be(1));
    }
    std::string_view take(std::size_t n, const char *what = "bytes")
    {
        need(n, what);
        auto r = d.substr(p, n);
        p += n;
        return r;
    }
    std::string str(std::size_t n)
    {
        return std::string(take(n, "string"));
    }
    std::string_view rest()
    {
        auto r = d.substr(p);
        p = d.size();
        return r;
    }
    Rd sub(std::size_t n, const char *what = "section")
    {
        return Rd(take(n, what));
    }
};

Bytes readFile(const std::string &path);
void writeFile(const std::string &path, std::string_view data);
bool fileExists(const std::string &path);
std::vector<std::string> listDir(const std::string &dir);

std::uint32_t crc32Ieee(std::string_view data); // reflected, as in zlib and EBML
std::uint32_t crc32Ogg(std::string_view data); // not reflected, no inversion
std::string base64(std::string_view data);
std::string unbase64(std::string_view data);

// text encodings, written independently of the library under test
std::u32string fromUtf8(std::string_view s); // throws Malformed
std::string toUtf8(const std::u32string &s);
std::string toUtf16(const std::u32string &s, bool bigEndian);
std::u32string fromUtf16(std::string_view s, bool bigEndian);
std::u32string fromLatin1(std::string_view s);
bool toLatin1(const std::u32string &s, std::string &out);

std::string firstDifference(std::string_view a, std::string_view b);
std::string toStr(std::uint64_t v);

} // namespace util
