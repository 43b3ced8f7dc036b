#include "id3.h"
#include <cctype>
#include <zlib.h>

using namespace util;

namespace id3 {

static std::string slot(const std::string &s, std::size_t n)
{
    auto r = s.substr(0, n);
    r.resize(n, '\0');
    return r;
}

std::string encodeV1(const V1 &t)
{
    auto r = std::string("TAG") + slot(t.title, 30) + slot(t.artist, 30) + slot(t.album, 30) + slot(t.year, 4);
    if (t.comment.size() > 28 && !t.track) {
        r += slot(t.comment, 30);
    } else {
        r += slot(t.comment, 28);
        r += '\0';
        r += static_cast<char>(t.track);
    }
    r += static_cast<char>(t.genre);
    return r;
}

static std::string unslot(std::string_view s)
{
    return std::string(s.substr(0, s.find('\0')));
}

bool decodeV1(std::string_view file, V1 &t)
{
    if (file.size() < 128 || file.substr(file.size() - 128, 3) != "TAG") {
        return false;
    }
    const auto d = file.substr(file.size() - 128);
    t.title = unslot(d.substr(3, 30));
    t.artist = unslot(d.substr(33, 30));
    t.album = unslot(d.substr(63, 30));
    t.year = unslot(d.substr(93, 4));
    t.track = 0;
    if (!d[125]) {
        t.comment = unslot(d.substr(97, 28));
        t.track = static_cast<unsigned char>(d[126]);
    } else {
        t.comment = unslot(d.substr(97, 30));
    }
    t.genre = static_cast<unsigned char>(d[127]);
    return true;
}

bool flagGroup(unsigned major, unsigned f)
{
    return major >= 4 ? f & 0x40 : (major == 3 ? f & 0x20 : false);
}
bool flagCompressed(unsigned major, unsigned f)
{
    return major >= 4 ? f & 0x08 : (major == 3 ? f & 0x80 : false);
}
bool flagEncrypted(unsigned major, unsigned f)
{
    return major >= 4 ? f & 0x04 : (major == 3 ? f & 0x40 : false);
}
bool flagUnsync(unsigned major, unsigned f)
{
    return major >= 4 && (f & 0x02);
}
bool flagLengthIndicator(unsigned major, unsigned f)
{
    return major >= 4 && (f & 0x01);
}

std::string syncsafe(std::uint32_t v)
{
    std::string r;
    for (int i = 3; i >= 0; --i) {
        r += static_cast<char>((v >> (7 * i)) & 0x7F);
    }
    return r;
}

static std::uint32_t readSyncsafe(Rd &r, const char *what)
{
    std::uint32_t v = 0;
    for (int i = 0; i < 4; ++i) {
        const auto b = r.u8();
        if (b & 0x80) {
            throw Malformed(std::string(what) + " is not sync-safe");
        }
        v = (v << 7) | b;
    }
    return v;
}

std::string unsynchronise(std::string_view d)
{
    std::string r;
    for (std::size_t i = 0; i < d.size(); ++i) {
        r += d[i];
        if (static_cast<unsigned char>(d[i]) == 0xFF && (i + 1 == d.size() || (static_cast<unsigned char>(d[i + 1]) & 0xE0) == 0xE0 || !d[i + 1])) {
            r += '\0';
        }
    }
    return r;
}

std::string resynchronise(std::string_view d)
{
    std::string r;
    for (std::size_t i = 0; i < d.size(); ++i) {
        r += d[i];
        if (static_cast<unsigned char>(d[i]) == 0xFF && i + 1 < d.size() && !d[i + 1]) {
            ++i;
        }
    }
    return r;
}

static std::string deflateData(std::string_view d)
{
    uLongf n = compressBound(d.size());
    std::string r(n, '\0');
    compress(reinterpret_cast<Bytef *>(r.data()), &n, reinterpret_cast<const Bytef *>(d.data()), d.size());
    r.resize(n);
    return r;
}

static std::string inflateData(std::string_view d, std::size_t size)
{
    std::string r(size, '\0');
    uLongf n = size;
    if (uncompress(reinterpret_cast<Bytef *>(r.data()), &n, reinterpret_cast<const Bytef *>(d.data()), d.size()) != Z_OK || n != size) {
        throw Malformed("compressed frame cannot be decompressed to the denoted size");
    }
    return r;
}

std::string encodeFrame(const Frame &f, unsigned major)
{
    std::string r = f.id;
    if (major < 3) {
        be(r, f.data.size(), 3);
        return r + f.data;
    }
    std::string extra, body = f.data;
    if (major == 3) {
        if (flagCompressed(major, f.flags)) {
            be(extra, f.data.size(), 4);
            body = deflateData(body);
        }
        if (flagGroup(major, f.flags)) {
            extra += static_cast<char>(f.group);
        }
        be(r, extra.size() + body.size(), 4);
    } else {
        if (flagCompressed(major, f.flags)) {
            body = deflateData(body);
        }
        if (flagGroup(major, f.flags)) {
            extra += static_cast<char>(f.group);
        }
        if (flagLengthIndicator(major, f.flags)) {
            extra += syncsafe(static_cast<std::uint32_t>(f.data.size()));
        }
        if (flagUnsync(major, f.flags)) {
            body = unsynchronise(body);
        }
        r += syncsafe(static_cast<std::uint32_t>(extra.size() + body.size()));
    }
    be(r, f.flags, 2);
    return r + extra + body;
}

std::string encode(const Tag &tag, const EncodeOptions &o)
{
    std::string frames;
    if (o.extendedHeader && tag.major == 3) {
        be(frames, 6, 4); // excluding itself
        be(frames, 0, 2);
        be(frames, o.padding, 4);
    } else if (o.extendedHeader && tag.major >= 4) {
        frames += syncsafe(6); // including itself
        frames += '\1';
        frames += '\0';
    }
    for (auto f : tag.frames) {
        if (o.unsync && tag.major >= 4) {
            f.flags |= 2;
        }
        frames += encodeFrame(f, tag.major);
    }
    const auto padding = tag.major >= 4 && o.footer ? 0 : o.padding;
    frames.append(padding, '\0');
    if (o.unsync && tag.major < 4) {
        frames = unsynchronise(frames);
    }
    unsigned flags = tag.flags;
    if (o.unsync) {
        flags |= 0x80;
    }
    if (o.extendedHeader && tag.major >= 3) {
        flags |= 0x40;
    }
    if (o.experimental && tag.major >= 3) {
        flags |= 0x20;
    }
    if (o.footer && tag.major >= 4) {
        flags |= 0x10;
    }
    std::string r;
    r += static_cast<char>(tag.major);
    r += static_cast<char>(tag.revision);
    r += static_cast<char>(flags);
    r += syncsafe(static_cast<std::uint32_t>(frames.size()));
    const auto header = r;
    r = "ID3" + r + frames;
    if (o.footer && tag.major >= 4) {
        r += "3DI" + header;
    }
    return r;
}

Tag decode(std::string_view file, std::size_t offset)
{
    if (offset > file.size()) {
        throw Malformed("ID3v2: offset beyond end of file");
    }
    Rd r(file.substr(offset));
    Tag t;
    t.offset = offset;
    if (r.str(3) != "ID3") {
        throw Malformed("ID3v2: signature missing");
    }
    t.major = r.u8();
    t.revision = r.u8();
    t.flags = r.u8();
    const auto size = readSyncsafe(r, "ID3v2: tag size");
    if (t.major < 2 || t.major > 4 || t.revision == 0xFF) {
        throw Malformed("ID3v2: invalid version " + toStr(t.major));
    }
    if (t.flags & (t.major == 2 ? 0x3F : t.major == 3 ? 0x1F : 0x0F)) {
        throw Malformed("ID3v2: undefined header flags are set");
    }
    std::string plain(r.take(size, "ID3v2 frames"));
    t.totalSize = 10 + size;
    if (t.major >= 4 && (t.flags & 0x10)) {
        const auto footer = r.take(10, "ID3v2 footer");
        if (footer.substr(0, 3) != "3DI" || footer.substr(3) != file.substr(offset + 3, 7)) {
            throw Malformed("ID3v2: footer does not match the header");
        }
        t.totalSize += 10;
    }
    if (t.major < 4 && (t.flags & 0x80)) {
        plain = resynchronise(plain);
    }
    Rd b(plain);
    if (t.major == 2 && (t.flags & 0x40)) {
        throw Malformed("ID3v2: compressed v2.2 tag");
    }
    if (t.major == 3 && (t.flags & 0x40)) {
        const auto ext = b.be(4);
        if (ext != 6 && ext != 10) {
            throw Malformed("ID3v2: extended header of " + toStr(ext) + " bytes");
        }
        b.take(ext, "ID3v2 extended header");
    } else if (t.major >= 4 && (t.flags & 0x40)) {
        const auto ext = readSyncsafe(b, "ID3v2: extended header size");
        if (ext < 6) {
            throw Malformed("ID3v2: extended header of " + toStr(ext) + " bytes");
        }
        b.take(ext - 4, "ID3v2 extended header");
    }
    const auto start = b.p;
    const std::size_t idSize = t.major == 2 ? 3 : 4;
    while (!b.end()) {
        if (!b.d[b.p]) {
            // padding
            t.padding = b.left();
            for (const auto c : b.rest()) {
                if (c) {
                    throw Malformed("ID3v2: padding contains non-zero bytes");
                }
            }
            break;
        }
        t.framesSize = b.p;
        Frame f;
        f.id = b.str(idSize);
        for (const auto c : f.id) {
            if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))) {
                throw Malformed("ID3v2: invalid frame ID at offset " + toStr(b.p));
            }
        }
        const auto frameSize = t.major == 2 ? b.be(3) : t.major == 3 ? b.be(4) : readSyncsafe(b, "ID3v2: frame size");
        if (t.major > 2) {
            f.flags = static_cast<unsigned>(b.be(2));
            if (f.flags & (t.major == 3 ? 0x1F1Fu : 0x8FB0u)) {
                throw Malformed("ID3v2: frame " + f.id + " has undefined flags");
            }
        }
        if (!frameSize) {
            throw Malformed("ID3v2: frame " + f.id + " is empty");
        }
        f.stored = b.str(frameSize);
        Rd d(f.stored);
        std::uint64_t plainSize = ~std::uint64_t();
        if (t.major == 3 && flagCompressed(3, f.flags)) {
            plainSize = d.be(4);
        }
        if (flagEncrypted(t.major, f.flags)) {
            throw Malformed("ID3v2: encrypted frame " + f.id);
        }
        if (flagGroup(t.major, f.flags)) {
            f.group = static_cast<int>(d.u8());
        }
        if (flagLengthIndicator(t.major, f.flags)) {
            plainSize = readSyncsafe(d, "ID3v2: data length indicator");
        }
        f.data = std::string(d.rest());
        if (flagUnsync(t.major, f.flags)) {
            f.data = resynchronise(f.data);
        }
        if (flagCompressed(t.major, f.flags)) {
            if (plainSize == ~std::uint64_t()) {
                throw Malformed("ID3v2: compressed frame " + f.id + " without data length");
            }
            f.data = inflateData(f.data, plainSize);
        } else if (plainSize != ~std::uint64_t() && plainSize != f.data.size()) {
            throw Malformed("ID3v2: data length indicator of frame " + f.id + " is wrong");
        }
        t.frames.emplace_back(std::move(f));
    }
    t.framesSize = plain.size() - t.padding - start;
    if (t.padding && t.major >= 4 && (t.flags & 0x10)) {
        throw Malformed("ID3v2: tag with footer has padding");
    }
    return t;
}

std::vector<Tag> decodeAll(std::string_view file, std::size_t &end)
{
    std::vector<Tag> r;
    for (end = 0; file.substr(end, 3) == "ID3";) {
        r.emplace_back(decode(file, end));
        end += r.back().totalSize;
    }
    return r;
}

std::string encodeText(const std::string &utf8, unsigned encoding, bool bigEndianBom)
{
    switch (encoding) {
    case 0: {
        std::string r;
        if (!toLatin1(fromUtf8(utf8), r)) {
            throw std::logic_error("text not representable as Latin-1");
        }
        return r;
    }
    case 1:
        return (bigEndianBom ? "\xFE\xFF" : "\xFF\xFE") + toUtf16(fromUtf8(utf8), bigEndianBom);
    case 2:
        return toUtf16(fromUtf8(utf8), true);
    default:
        return utf8;
    }
}

std::string terminator(unsigned encoding)
{
    return std::string(encoding == 1 || encoding == 2 ? 2 : 1, '\0');
}

/// Reads text up to the terminator (or the end) and returns it as UTF-8.
static std::string readText(Rd &r, unsigned encoding, bool *terminated = nullptr)
{
    std::string raw;
    auto t = false;
    if (encoding == 1 || encoding == 2) {
        while (r.left() >= 2) {
            const auto c = r.str(2);
            if (!c[0] && !c[1]) {
                t = true;
                break;
            }
            raw += c;
        }
        if (!t && r.left()) {
            throw Malformed("UTF-16 text has an odd number of bytes");
        }
    } else {
        while (!r.end()) {
            const auto c = r.str(1);
            if (!c[0]) {
                t = true;
                break;
            }
            raw += c;
        }
    }
    if (terminated) {
        *terminated = t;
    }
    switch (encoding) {
    case 0:
        return toUtf8(fromLatin1(raw));
    case 1:
        if (raw.empty()) {
            return raw;
        }
        if (raw.compare(0, 2, "\xFF\xFE") == 0) {
            return toUtf8(fromUtf16(raw.substr(2), false));
        }
        if (raw.compare(0, 2, "\xFE\xFF") == 0) {
            return toUtf8(fromUtf16(raw.substr(2), true));
        }
        throw Malformed("UTF-16 text without byte order mark");
    case 2:
        return toUtf8(fromUtf16(raw, true));
    case 3:
        return toUtf8(fromUtf8(raw));
    default:
        throw Malformed("invalid text encoding " + toStr(encoding));
    }
}

std::vector<std::string> text(const Frame &f)
{
    Rd r(f.data);
    const auto encoding = r.u8();
    if (encoding > 3) {
        throw Malformed("invalid text encoding " + toStr(encoding));
    }
    std::vector<std::string> v;
    while (!r.end()) {
        v.emplace_back(readText(r, encoding));
    }
    return v;
}

std::string url(const Frame &f)
{
    Rd r(f.data);
    return readText(r, 0);
}

Comment comment(const Frame &f)
{
    Rd r(f.data);
    Comment c;
    c.encoding = r.u8();
    c.language = r.str(3);
    bool t;
    c.description = readText(r, c.encoding, &t);
    if (!t) {
        throw Malformed("description of " + f.id + " is not terminated");
    }
    c.text = readText(r, c.encoding, &t);
    if (!r.end()) {
        throw Malformed("garbage after text of " + f.id);
    }
    return c;
}

Picture picture(const Frame &f)
{
    Rd r(f.data);
    Picture p;
    const auto encoding = r.u8();
    bool t = true;
    p.mime = f.id.size() == 3 ? r.str(3) : readText(r, 0, &t);
    if (!t) {
        throw Malformed("MIME type of " + f.id + " is not terminated");
    }
    p.type = r.u8();
    p.description = readText(r, encoding, &t);
    if (!t) {
        throw Malformed("description of " + f.id + " is not terminated");
    }
    p.data = std::string(r.rest());
    return p;
}

std::uint64_t counter(std::string_view d)
{
    if (d.size() > 8) {
        throw Malformed("counter has more than 8 bytes");
    }
    std::uint64_t v = 0;
    for (const auto c : d) {
        v = (v << 8) | static_cast<unsigned char>(c);
    }
    return v;
}

Popm popm(const Frame &f)
{
    Rd r(f.data);
    Popm p;
    bool t;
    p.user = readText(r, 0, &t);
    if (!t) {
        throw Malformed("user of " + f.id + " is not terminated");
    }
    p.rating = r.u8();
    p.counter = counter(r.rest());
    return p;
}

std::string encodeApe(const std::vector<std::pair<std::string, std::string>> &items, bool withHeader)
{
    std::string body;
    for (const auto &i : items) {
        le(body, i.second.size(), 4);
        le(body, 0, 4);
        body += i.first;
        body += '\0';
        body += i.second;
    }
    auto frame = [&](bool header) {
        std::string r = "APETAGEX";
        le(r, 2000, 4);
        le(r, body.size() + 32, 4);
        le(r, items.size(), 4);
        le(r, (withHeader ? 0x80000000u : 0u) | (header ? 0x20000000u : 0u), 4);
        r.append(8, '\0');
        return r;
    };
    return (withHeader ? frame(true) : std::string()) + body + frame(false);
}

} // namespace id3
