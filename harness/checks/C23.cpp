// C23: element headers, identifiers, integers and sizes are encoded exactly.
#include "pbt.h"
#include "util.h"

#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/matroska/ebmlelement.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4atom.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/progressfeedback.h>

#include <sstream>

using namespace TagParser;
using namespace util;
namespace pbt {
const char *g_property = "C23";
const char *g_rule = "numbers drawn log-uniformly over all bit widths with boundary values of every encoded length; non-trivial: needs more than one byte or lies on the boundary of an encoded length, or an element tree is written and parsed back";
const char *g_level = "exploration";
}

struct RootElement : EbmlElement {
    RootElement(MatroskaContainer &c, std::uint64_t o, std::uint64_t m)
        : EbmlElement(c, o, m)
    {
    }
};
struct RootAtom : Mp4Atom {
    RootAtom(Mp4Container &c, std::uint64_t o, std::uint64_t m)
        : Mp4Atom(c, o, m)
    {
    }
};

static unsigned vintLength(std::uint64_t size)
{
    for (unsigned n = 1; n <= 8; ++n) {
        if (size <= (std::uint64_t(1) << (7 * n)) - 2) {
            return n;
        }
    }
    return 0;
}
static std::uint64_t decodeVint(const std::string &b, unsigned expectLen)
{
    Rd r(b);
    const auto first = r.u8();
    unsigned n = 1;
    while (n <= 8 && !(first & (0x80u >> (n - 1)))) {
        ++n;
    }
    if (n != expectLen) {
        pbt::fail("vint-length", "length marker says " + toStr(n) + " bytes, " + toStr(expectLen) + " were written: " + pbt::hex(b));
    }
    std::uint64_t v = first & (0xffu >> n);
    for (unsigned i = 1; i < n; ++i) {
        v = (v << 8) | r.u8();
    }
    return v;
}
static std::uint64_t genSize(pbt::Gen &g)
{
    if (g.chance(1, 3)) { // around the boundary of an encoded length
        const auto n = static_cast<unsigned>(g.range(1, 8));
        const auto delta = g.range(-3, 3);
        return static_cast<std::uint64_t>(static_cast<std::int64_t>(std::uint64_t(1) << (7 * n)) + delta);
    }
    return g.bits(64);
}
static bool near(std::uint64_t v, std::uint64_t w)
{
    return v + 3 >= w && v <= w + 3;
}

PBT_TEST(ebml_size_denotation, 400000, 3000000)
{
    const auto size = genSize(g);
    const auto minBytes = static_cast<std::uint8_t>(g.range(0, 8));
    g.describe("size=" + toStr(size) + " minBytes=" + toStr(minBytes));
    g.label("length " + toStr(vintLength(size)));
    if (size > 125) {
        g.nontrivial();
    }
    const auto shortest = vintLength(size);
    if (!shortest) {
        char buff[16];
        for (int variant = 0; variant < 3; ++variant) {
            bool refused = false;
            try {
                variant == 0 ? EbmlElement::calculateSizeDenotationLength(size)
                             : variant == 1 ? EbmlElement::makeSizeDenotation(size, buff) : EbmlElement::makeSizeDenotation(size, buff, minBytes);
            } catch (const InvalidDataException &) {
                refused = true;
            }
            CHECK_MSG(refused, "vint-not-refused", toStr(size));
        }
        return;
    }
    char buff[16];
    std::memset(buff, 0x55, sizeof(buff));
    const auto predicted = EbmlElement::calculateSizeDenotationLength(size);
    const auto len = EbmlElement::makeSizeDenotation(size, buff);
    CHECK_MSG(len == predicted, "vint-predicted-length", toStr(size) + ": " + toStr(predicted) + " predicted, " + toStr(len) + " written");
    // one byte for 126 would be permitted as well but being conservative there is not an error
    CHECK_MSG(len == shortest || (size == 126 && len == 2), "vint-shortest", toStr(size) + " took " + toStr(len) + " bytes");
    const auto decoded = decodeVint(std::string(buff, len), len);
    CHECK_MSG(decoded == size, "vint-value", toStr(size) + " became " + toStr(decoded));
    std::memset(buff, 0x55, sizeof(buff));
    const auto lenMin = EbmlElement::makeSizeDenotation(size, buff, minBytes);
    CHECK_MSG(lenMin == std::max<unsigned>(minBytes, len), "vint-min-length", toStr(size) + " with " + toStr(minBytes) + " bytes requested took " + toStr(lenMin));
    const auto decodedMin = decodeVint(std::string(buff, lenMin), lenMin);
    CHECK_MSG(decodedMin == size, "vint-min-value", toStr(size) + " became " + toStr(decodedMin));
}

PBT_TEST(ebml_uint, 400000, 3000000)
{
    const auto value = g.chance(1, 3) ? static_cast<std::uint64_t>(static_cast<std::int64_t>(std::uint64_t(1) << (8 * g.range(1, 7))) + g.range(-2, 2)) : g.bits(64);
    const auto minBytes = static_cast<std::uint8_t>(g.range(0, 8));
    unsigned shortest = 1;
    while (shortest < 8 && value >> (8 * shortest)) {
        ++shortest;
    }
    g.describe("value=" + toStr(value) + " minBytes=" + toStr(minBytes));
    g.label("length " + toStr(shortest));
    if (value > 255) {
        g.nontrivial();
    }
    char buff[16];
    CHECK_MSG(EbmlElement::calculateUIntegerLength(value) == shortest, "uint-predicted-length", toStr(value));
    auto len = EbmlElement::makeUInteger(value, buff);
    CHECK_MSG(len == shortest, "uint-length", toStr(value) + " took " + toStr(len));
    CHECK_MSG(Rd(std::string_view(buff, len)).be(len) == value, "uint-value", toStr(value) + " became " + pbt::hex(std::string(buff, len)));
    len = EbmlElement::makeUInteger(value, buff, minBytes);
    CHECK_MSG(len == std::max<unsigned>(shortest, minBytes), "uint-min-length", toStr(value) + " with " + toStr(minBytes) + " took " + toStr(len));
    CHECK_MSG(Rd(std::string_view(buff, len)).be(len) == value, "uint-min-value", toStr(value) + " became " + pbt::hex(std::string(buff, len)));
}

static std::uint32_t genEbmlId(pbt::Gen &g)
{
    // valid identifiers carry their length marker
    switch (g.range(1, 4)) {
    case 1:
        return static_cast<std::uint32_t>(g.range(0x81, 0xfe));
    case 2:
        return static_cast<std::uint32_t>(g.pick<std::int64_t>({ 0x407f, 0x4080, 0x4286, 0x63a2, 0x7ffe, g.range(0x407f, 0x7ffe) }));
    case 3:
        return static_cast<std::uint32_t>(g.pick<std::int64_t>({ 0x203fff, 0x22b59c, 0x2ad7b1, 0x3ffffe, g.range(0x203fff, 0x3ffffe) }));
    default:
        return static_cast<std::uint32_t>(g.pick<std::int64_t>({ 0x101fffff, 0x18538067, 0x1549a966, 0x1ffffffe, g.range(0x101fffff, 0x1ffffffe) }));
    }
}

PBT_TEST(ebml_id, 200000, 1000000)
{
    if (g.chance(1, 6)) {
        const auto bad = static_cast<std::uint32_t>(g.range(0x20000000, 0xffffffff));
        g.describe("too big id " + toStr(bad));
        g.label("refused");
        char buff[8];
        for (int variant = 0; variant < 2; ++variant) {
            bool refused = false;
            try {
                variant ? EbmlElement::makeId(bad, buff) : EbmlElement::calculateIdLength(bad);
            } catch (const InvalidDataException &) {
                refused = true;
            }
            CHECK_MSG(refused, "id-not-refused", toStr(bad));
        }
        return;
    }
    const auto id = genEbmlId(g);
    const auto expected = id <= 0xff ? 1u : id <= 0xffff ? 2u : id <= 0xffffff ? 3u : 4u;
    g.describe("id=" + pbt::hex(be(id, expected)));
    g.label("length " + toStr(expected));
    if (expected > 1) {
        g.nontrivial();
    }
    char buff[16];
    CHECK_MSG(EbmlElement::calculateIdLength(id) == expected, "id-predicted-length", toStr(id));
    const auto len = EbmlElement::makeId(id, buff);
    CHECK_MSG(len == expected, "id-length", toStr(id));
    CHECK_MSG(std::string(buff, len) == be(id, expected), "id-bytes", toStr(id) + " became " + pbt::hex(std::string(buff, len)));
}

PBT_TEST(ebml_simple_element, 80000, 400000)
{
    std::ostringstream s;
    const auto id = genEbmlId(g);
    const auto idLen = id <= 0xff ? 1u : id <= 0xffff ? 2u : id <= 0xffffff ? 3u : 4u;
    std::string content;
    if (g.flip()) {
        const auto v = g.bits(64);
        unsigned n = 1;
        while (n < 8 && v >> (8 * n)) {
            ++n;
        }
        content = be(v, n);
        EbmlElement::makeSimpleElement(s, id, v);
        g.describe("uint " + toStr(v));
    } else {
        content = g.bytes(g.length(70000));
        EbmlElement::makeSimpleElement(s, id, std::string_view(content));
        g.describe("string of " + toStr(content.size()));
        if (content.size() > 125) {
            g.nontrivial();
        }
    }
    const auto b = s.str();
    Rd r(b);
    CHECK_MSG(r.take(idLen) == be(id, idLen), "simple-id", pbt::hex(b));
    const auto sizeLen = b.size() - idLen - content.size();
    CHECK_MSG(b.size() > idLen + content.size() && sizeLen <= 8, "simple-size", pbt::hex(b));
    const auto decoded = decodeVint(r.str(sizeLen), static_cast<unsigned>(sizeLen));
    CHECK_MSG(decoded == content.size(), "simple-size-value", toStr(decoded) + " for " + toStr(content.size()));
    CHECK_MSG(r.rest() == content, "simple-content", pbt::hex(b));
}

// elements written by this harness with any permitted size length are decoded to the same numbers by the library
PBT_TEST(ebml_parse, 8000, 60000)
{
    struct E {
        std::uint32_t id;
        unsigned idLen, sizeLen;
        std::string data;
        bool number, real;
        std::uint64_t value;
        double realValue;
    };
    std::vector<E> elements;
    std::string file;
    const auto n = g.range(1, 6);
    for (std::int64_t i = 0; i < n; ++i) {
        E e;
        e.id = genEbmlId(g);
        e.idLen = e.id <= 0xff ? 1u : e.id <= 0xffff ? 2u : e.id <= 0xffffff ? 3u : 4u;
        e.number = e.real = false;
        e.value = 0;
        e.realValue = 0;
        switch (g.below(4)) {
        case 0: {
            e.number = true;
            e.value = g.bits(64);
            unsigned k = 1;
            while (k < 8 && e.value >> (8 * k)) {
                ++k;
            }
            e.data = be(e.value, static_cast<unsigned>(g.range(k, 8)));
            break;
        }
        case 1: {
            e.real = true;
            if (g.flip()) {
                const auto f = static_cast<float>(static_cast<std::int64_t>(g.bits(30))) / 8.0f;
                std::uint32_t raw;
                std::memcpy(&raw, &f, 4);
                e.data = be(raw, 4);
                e.realValue = static_cast<double>(f);
            } else {
                e.realValue = static_cast<double>(static_cast<std::int64_t>(g.bits(50))) / 1024.0;
                std::uint64_t raw;
                std::memcpy(&raw, &e.realValue, 8);
                e.data = be(raw, 8);
            }
            break;
        }
        default:
            e.data = g.bytes(g.length(20000));
        }
        e.sizeLen = static_cast<unsigned>(g.range(vintLength(e.data.size()), 8));
        be(file, e.id, e.idLen);
        be(file, (std::uint64_t(1) << (7 * e.sizeLen)) | e.data.size(), e.sizeLen);
        file += e.data;
        elements.push_back(e);
    }
    g.describe(toStr(elements.size()) + " elements, " + toStr(file.size()) + " bytes");
    g.nontrivial();
    const auto path = g.dir + "/elements.mkv";
    writeFile(path, file);
    MediaFileInfo info(path);
    info.open(true);
    MatroskaContainer container(info, 0);
    Diagnostics diag;
    RootElement first(container, 0, info.size());
    EbmlElement *element = &first;
    std::uint64_t offset = 0;
    for (std::size_t i = 0; i < elements.size(); ++i) {
        const auto &e = elements[i];
        CHECK_MSG(element != nullptr, "parse-missing", "element " + toStr(i));
        element->parse(diag);
        CHECK_MSG(element->id() == e.id, "parse-id", toStr(element->id()) + " instead of " + toStr(e.id));
        CHECK_MSG(element->idLength() == e.idLen && element->sizeLength() == e.sizeLen, "parse-header-lengths", "element " + toStr(i));
        CHECK_MSG(element->dataSize() == e.data.size(), "parse-size", toStr(element->dataSize()) + " instead of " + toStr(e.data.size()));
        CHECK_MSG(element->startOffset() == offset && element->totalSize() == e.idLen + e.sizeLen + e.data.size(), "parse-extent", "element " + toStr(i));
        if (e.number) {
            CHECK_MSG(element->readUInteger() == e.value, "parse-uint", toStr(element->readUInteger()) + " instead of " + toStr(e.value) + " in " + toStr(e.data.size()) + " bytes");
        } else if (e.real) {
            CHECK_MSG(element->readFloat() == e.realValue, "parse-float", std::to_string(e.realValue));
        } else {
            auto expected = e.data.substr(0, e.data.find('\0'));
            (void)expected;
            const auto s = element->readString();
            CHECK_MSG(s == e.data || s == expected, "parse-string", pbt::hex(e.data) + " read as " + pbt::hex(s));
        }
        offset += element->totalSize();
        element = element->nextSibling();
    }
    CHECK_MSG(element == nullptr, "parse-extra", "more elements than written");
}

// --- MP4 --------------------------------------------------------------------------------------------------

PBT_TEST(mp4_header, 200000, 1000000)
{
    const auto dataSize = g.chance(1, 2) ? static_cast<std::uint64_t>(0xffffffffll + g.range(-24, 24)) : g.bits(62);
    const auto id = static_cast<std::uint32_t>(g.bits(32));
    auto total = dataSize;
    // addHeaderSize() is constexpr but defined in the header's implementation part only; the same rule stated independently:
    // 8 byte header if the whole atom stays below the 32-bit range, otherwise 16
    total = dataSize + 8 < 0xffffffffull ? dataSize + 8 : dataSize + 16;
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    CppUtilities::BinaryWriter w(&s);
    Mp4Atom::makeHeader(total, id, w);
    const auto b = s.str();
    g.describe("atom with " + toStr(dataSize) + " bytes of data, id " + toStr(id));
    if (near(dataSize, 0xffffffffull) || dataSize > 0xffffffffull) {
        g.nontrivial();
    }
    g.label(total - dataSize == 8 ? "32-bit" : "64-bit");
    CHECK_MSG(b.size() == total - dataSize, "mp4-header-length", toStr(b.size()) + " bytes for total size " + toStr(total));
    Rd r(b);
    const auto size32 = r.be(4);
    CHECK_MSG(r.be(4) == id, "mp4-header-id", pbt::hex(b));
    if (b.size() == 8) {
        CHECK_MSG(size32 == total, "mp4-header-size", pbt::hex(b));
    } else {
        CHECK_MSG(size32 == 1 && r.be(8) == total, "mp4-header-size", pbt::hex(b));
    }
}

PBT_TEST(mp4_seek_back, 6000, 30000)
{
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    std::string expected;
    Diagnostics diag;
    const auto n = g.range(1, 5);
    for (std::int64_t i = 0; i < n; ++i) {
        const auto prefix = g.bytes(g.length(40));
        s << prefix;
        expected += prefix;
        const auto start = s.tellp();
        const auto data = g.bytes(g.length(5000));
        if (g.flip()) {
            s << be(0, 4) << "abcd" << data;
            Mp4Atom::seekBackAndWriteAtomSize(s, start, diag);
            expected += be(data.size() + 8, 4) + "abcd" + data;
        } else {
            s << be(0, 4) << "abcd" << be(0, 8) << data;
            Mp4Atom::seekBackAndWriteAtomSize64(s, start);
            expected += be(1, 4) + "abcd" + be(data.size() + 16, 8) + data;
        }
        CHECK_MSG(static_cast<std::size_t>(s.tellp()) == expected.size(), "mp4-seek-back-position", toStr(static_cast<std::uint64_t>(s.tellp())));
    }
    g.describe(toStr(static_cast<std::uint64_t>(n)) + " atoms, " + toStr(expected.size()) + " bytes");
    g.nontrivial();
    CHECK_MSG(s.str() == expected, "mp4-seek-back", firstDifference(s.str(), expected));
}

PBT_TEST(mp4_parse, 8000, 50000)
{
    struct A {
        std::uint32_t id;
        unsigned header;
        std::string data;
    };
    std::vector<A> atoms;
    std::string file;
    const auto n = g.range(1, 6);
    for (std::int64_t i = 0; i < n; ++i) {
        A a;
        a.id = static_cast<std::uint32_t>(g.range(0x20202020, 0x7a7a7a7a));
        a.data = g.bytes(g.length(5000));
        a.header = 8;
        switch (g.below(i + 1 == n ? 3 : 2)) {
        case 0:
            be(file, a.data.size() + 8, 4);
            be(file, a.id, 4);
            break;
        case 1:
            a.header = 16;
            be(file, 1, 4);
            be(file, a.id, 4);
            be(file, a.data.size() + 16, 8);
            break;
        default: // extends to the end of the file
            if (a.data.size() < 8) {
                a.data.resize(8, 'x');
            }
            be(file, 0, 4);
            be(file, a.id, 4);
        }
        file += a.data;
        atoms.push_back(a);
    }
    g.describe(toStr(atoms.size()) + " atoms, " + toStr(file.size()) + " bytes");
    g.nontrivial();
    const auto path = g.dir + "/atoms.mp4";
    writeFile(path, file);
    MediaFileInfo info(path);
    info.open(true);
    Mp4Container container(info, 0);
    Diagnostics diag;
    RootAtom first(container, 0, info.size());
    Mp4Atom *atom = &first;
    std::uint64_t offset = 0;
    for (const auto &a : atoms) {
        CHECK_MSG(atom != nullptr, "mp4-parse-missing", "at " + toStr(offset));
        atom->parse(diag);
        CHECK_MSG(atom->id() == a.id, "mp4-parse-id", "at " + toStr(offset));
        CHECK_MSG(atom->startOffset() == offset && atom->headerSize() == a.header && atom->dataSize() == a.data.size(), "mp4-parse-extent",
            "at " + toStr(offset) + ": header " + toStr(atom->headerSize()) + " data " + toStr(atom->dataSize()) + ", expected " + toStr(a.data.size()));
        offset += a.header + a.data.size();
        atom = atom->nextSibling();
    }
    CHECK_MSG(atom == nullptr, "mp4-parse-extra", "more atoms than written");
}

// --- ID3v2 sync-safe sizes --------------------------------------------------------------------------------

static bool syncSafe(std::string_view b, std::uint64_t &v)
{
    v = 0;
    for (unsigned char c : b) {
        if (c & 0x80) {
            return false;
        }
        v = (v << 7) | c;
    }
    return true;
}

PBT_TEST(id3v2_sizes, 6000, 30000)
{
    const auto version = static_cast<std::uint8_t>(g.range(2, 4));
    std::size_t length;
    switch (g.weighted({ 3, 3, 1 })) {
    case 0:
        length = static_cast<std::size_t>(g.range(1, 400));
        break;
    case 1: // around sync-safe boundaries and around values where plain and sync-safe forms differ
        length = static_cast<std::size_t>(g.pick<std::int64_t>({ 127, 128, 255, 256, 16383, 16384, 32768, 65535, 65536 }) + g.range(-16, 8));
        break;
    default:
        length = static_cast<std::size_t>(g.pick<std::int64_t>({ 2097151, 2097152, 1 << 20 }) + g.range(-16, 8));
    }
    const auto padding = static_cast<std::uint32_t>(g.length(70000));
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    const std::string text(length, 'a');
    tag.setValue(KnownField::Title, TagValue(text, TagTextEncoding::Latin1));
    Diagnostics diag;
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    auto maker = tag.prepareMaking(diag);
    const auto required = maker.requiredSize();
    maker.make(s, padding, diag);
    const auto b = s.str();
    g.describe("ID3v2." + toStr(version) + " with text of " + toStr(length) + " and padding " + toStr(padding));
    g.label("version " + toStr(version));
    if (length > 100) {
        g.nontrivial();
    }
    CHECK_MSG(b.size() == required + padding, "id3-required-size", toStr(b.size()) + " written, " + toStr(required) + " predicted plus padding " + toStr(padding));
    CHECK_MSG(b.size() >= 10 && b.compare(0, 3, "ID3") == 0 && static_cast<unsigned>(b[3]) == version, "id3-header", pbt::hex(b, 10));
    std::uint64_t size = 0;
    CHECK_MSG(syncSafe(std::string_view(b).substr(6, 4), size), "id3-size-not-syncsafe", pbt::hex(b, 10));
    CHECK_MSG(size + 10 == b.size(), "id3-size", toStr(size) + " for " + toStr(b.size()) + " bytes");
    Rd r(std::string_view(b).substr(10));
    std::uint64_t frameSize = 0;
    if (version == 2) {
        r.take(3);
        frameSize = r.be(3);
    } else {
        r.take(4);
        if (version == 3) {
            frameSize = r.be(4);
        } else {
            CHECK_MSG(syncSafe(r.take(4), frameSize), "id3-frame-size-not-syncsafe", pbt::hex(b, 24));
        }
        r.take(2);
    }
    CHECK_MSG(frameSize <= r.left(), "id3-frame-size", toStr(frameSize));
    const auto body = r.take(frameSize);
    CHECK_MSG(body.size() >= length + 1 && body.substr(1, length) == text && body.size() <= length + 2, "id3-frame-body", "frame of " + toStr(frameSize) + " for text of " + toStr(length));
    CHECK_MSG(r.rest() == std::string(padding, '\0'), "id3-padding", "padding");
    // and the library locates the end of the tag in the same place
    std::stringstream in(b + "trailing data", std::ios_base::in | std::ios_base::binary);
    Id3v2Tag parsed;
    parsed.parse(in, b.size() + 13, diag);
    CHECK_MSG(parsed.size() == b.size(), "id3-parsed-size", toStr(parsed.size()) + " instead of " + toStr(b.size()));
    CHECK_MSG(parsed.paddingSize() == padding, "id3-parsed-padding", toStr(parsed.paddingSize()) + " instead of " + toStr(padding));
    CHECK_MSG(parsed.value(KnownField::Title).toString() == text, "id3-parsed-text", "text differs");
}
