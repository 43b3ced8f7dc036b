// C16: copies and comparisons of tag values are coherent.
#include "pbt.h"
#include "util.h"

#include <c++utilities/chrono/datetime.h>
#include <c++utilities/conversion/conversionexception.h>
#include <tagparser/tagvalue.h>

using namespace TagParser;
using namespace CppUtilities;
using namespace util;
namespace pbt {
const char *g_property = "C16";
const char *g_rule = "values of every data type with random text encoding, description, MIME type, languages, flags and native data; pairs and triples are derived from one another by small changes (re-encoding, case, one meta-data field); non-trivial: non-empty value carrying at least one meta-data field or an alternative encoding";
const char *g_level = "exploration";
}

static const TagTextEncoding encodings[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };

static bool encode(const std::u32string &s, TagTextEncoding e, std::string &out)
{
    switch (e) {
    case TagTextEncoding::Latin1:
        return toLatin1(s, out);
    case TagTextEncoding::Utf16LittleEndian:
        out = toUtf16(s, false);
        return true;
    case TagTextEncoding::Utf16BigEndian:
        out = toUtf16(s, true);
        return true;
    default:
        out = toUtf8(s);
        return true;
    }
}

struct Model {
    TagDataType type = TagDataType::Undefined;
    std::u32string text;
    TagTextEncoding enc = TagTextEncoding::Latin1;
    std::string data;
    std::int64_t number = 0, number2 = 0;
    TagType scale = TagType::Id3v2Tag;
    std::u32string desc;
    TagTextEncoding descEnc = TagTextEncoding::Latin1;
    std::string mime;
    Locale locale;
    bool readOnly = false;
    std::string nativeKey, nativeValue;

    TagValue build() const
    {
        TagValue v;
        std::string s;
        switch (type) {
        case TagDataType::Text:
            encode(text, enc, s);
            v.assignText(s, enc);
            break;
        case TagDataType::Integer:
            v.assignInteger(static_cast<int>(number));
            break;
        case TagDataType::UnsignedInteger:
            v.assignUnsignedInteger(static_cast<std::uint64_t>(number));
            break;
        case TagDataType::PositionInSet:
            v.assignPosition(PositionInSet(static_cast<std::int32_t>(number), static_cast<std::int32_t>(number2)));
            break;
        case TagDataType::StandardGenreIndex:
            v.assignStandardGenreIndex(static_cast<int>(number));
            break;
        case TagDataType::TimeSpan:
            v.assignTimeSpan(TimeSpan(number));
            break;
        case TagDataType::DateTime:
            v.assignDateTime(DateTime(static_cast<std::uint64_t>(number)));
            break;
        case TagDataType::DateTimeExpression: {
            DateTimeExpression e;
            e.value = DateTime(static_cast<std::uint64_t>(number));
            e.delta = TimeSpan(number2);
            e.parts = DateTimeParts::DateTime;
            v.assignDateTimeExpression(e);
            break;
        }
        case TagDataType::Popularity:
            v.assignPopularity(Popularity{ data, static_cast<double>(number) / 4, static_cast<std::uint64_t>(number2), scale });
            break;
        default:
            v.assignData(data.data(), data.size(), type);
        }
        if (!desc.empty()) {
            encode(desc, descEnc, s);
            v.setDescription(s, descEnc);
        }
        v.setMimeType(mime);
        v.setLocale(locale);
        v.setReadonly(readOnly);
        if (!nativeKey.empty()) {
            v.nativeData()[nativeKey] = nativeValue;
        }
        return v;
    }
};

static std::u32string genText(pbt::Gen &g, TagTextEncoding e, std::size_t max)
{
    auto s = fromUtf8(g.text(max, e == TagTextEncoding::Latin1 ? 1 : 3));
    if (!s.empty() && (s[0] == 0xfeff || s[0] == 0xfffe)) {
        s[0] = U'x';
    }
    return s;
}
static Model genModel(pbt::Gen &g)
{
    static const TagDataType types[] = { TagDataType::Text, TagDataType::Text, TagDataType::Text, TagDataType::Integer, TagDataType::UnsignedInteger, TagDataType::PositionInSet,
        TagDataType::StandardGenreIndex, TagDataType::TimeSpan, TagDataType::DateTime, TagDataType::DateTimeExpression, TagDataType::Popularity, TagDataType::Picture,
        TagDataType::Binary, TagDataType::Undefined };
    Model m;
    m.type = types[g.below(sizeof(types) / sizeof(*types))];
    switch (m.type) {
    case TagDataType::Text:
        m.enc = encodings[g.below(4)];
        m.text = genText(g, m.enc, 60);
        break;
    case TagDataType::Integer:
        m.number = std::max<std::int64_t>(-2147483647, static_cast<std::int32_t>(g.bits(32))); // c++utilities itself cannot convert the lowest integer
        break;
    case TagDataType::PositionInSet:
        m.number = static_cast<std::int64_t>(g.bits(31));
        m.number2 = static_cast<std::int64_t>(g.bits(31));
        break;
    case TagDataType::StandardGenreIndex:
        m.number = g.range(0, 191);
        break;
    case TagDataType::TimeSpan:
    case TagDataType::DateTime:
        m.number = static_cast<std::int64_t>(g.bits(60));
        break;
    case TagDataType::DateTimeExpression:
        m.number = static_cast<std::int64_t>(g.bits(59));
        m.number2 = g.range(-14, 14) * 36000000000ll;
        break;
    case TagDataType::Popularity:
        m.data = g.text(20, 3);
        m.number = g.range(0, 1020);
        m.number2 = static_cast<std::int64_t>(g.bits(40));
        m.scale = g.pick({ TagType::Unspecified, TagType::Id3v2Tag, TagType::VorbisComment, TagType::OggVorbisComment, TagType::MatroskaTag, TagType::Mp4Tag });
        break;
    case TagDataType::UnsignedInteger:
        m.number = static_cast<std::int64_t>(g.bits(64));
        break;
    default:
        m.data = g.bytes(g.length(300));
    }
    if (g.flip()) {
        m.descEnc = encodings[g.below(4)];
        m.desc = genText(g, m.descEnc, 20);
    }
    if (g.chance(1, 3)) {
        m.mime = g.pick<std::string>({ "image/jpeg", "image/png", "text/plain", "x" });
    }
    if (g.chance(1, 3)) {
        const auto n = g.range(1, 2);
        for (std::int64_t i = 0; i < n; ++i) {
            m.locale.emplace_back(LocaleDetail(std::string_view(g.pick<const char *>({ "eng", "ger", "de-AT", "fra" })), g.flip() ? LocaleFormat::ISO_639_2_B : LocaleFormat::BCP_47));
        }
    }
    m.readOnly = g.chance(1, 3);
    if (g.chance(1, 4)) {
        m.nativeKey = g.asciiWord(4);
        m.nativeValue = g.asciiWord(8);
    }
    return m;
}
static std::string str(const TagValue &v)
{
    std::string r(tagDataTypeString(v.type()));
    r += " data=" + pbt::hex(std::string(v.data()), 24) + " enc=" + toStr(static_cast<unsigned>(v.dataEncoding())) + " desc=" + pbt::hex(v.description(), 16)
        + " mime=" + v.mimeType() + " flags=" + toStr(static_cast<std::uint64_t>(v.flags())) + " native=" + toStr(v.nativeData().size());
    for (const auto &l : v.locale()) {
        r += " " + l;
    }
    return r;
}
static std::string displayed(const TagValue &v)
{
    try {
        return v.toString(TagTextEncoding::Utf8);
    } catch (const ConversionException &e) {
        return std::string("conversion exception: ") + e.what();
    }
}
static void expectSame(const TagValue &a, const TagValue &b, const char *key)
{
    const auto what = str(a) + " VERSUS " + str(b);
    CHECK_MSG(a.type() == b.type(), std::string(key) + "-type", what);
    CHECK_MSG(a.data() == b.data() && a.dataSize() == b.dataSize() && a.isEmpty() == b.isEmpty(), std::string(key) + "-data", what);
    CHECK_MSG(a.dataEncoding() == b.dataEncoding(), std::string(key) + "-encoding", what);
    CHECK_MSG(a.description() == b.description() && a.descriptionEncoding() == b.descriptionEncoding(), std::string(key) + "-description", what);
    CHECK_MSG(a.mimeType() == b.mimeType(), std::string(key) + "-mime", what);
    CHECK_MSG(a.locale() == b.locale(), std::string(key) + "-locale", what);
    for (std::size_t i = 0; i < a.locale().size(); ++i) {
        CHECK_MSG(a.locale()[i].format == b.locale()[i].format, std::string(key) + "-locale-format", what);
    }
    CHECK_MSG(a.flags() == b.flags() && a.isLabeledAsReadonly() == b.isLabeledAsReadonly(), std::string(key) + "-flags", what);
    CHECK_MSG(a.nativeData() == b.nativeData(), std::string(key) + "-native-data", what);
    CHECK_MSG(displayed(a) == displayed(b), std::string(key) + "-string", what);
    CHECK_MSG(a == b && b == a && !(a != b), std::string(key) + "-not-equal", what);
    CHECK_MSG(a.compareTo(b, TagValueComparisionFlags::IgnoreMetaData) && a.compareTo(b, TagValueComparisionFlags::CaseInsensitive), std::string(key) + "-not-equal-ignoring", what);
}
static void classify(pbt::Gen &g, const Model &m)
{
    g.label(std::string(tagDataTypeString(m.type)));
    if (m.enc != TagTextEncoding::Latin1 || !m.desc.empty() || !m.mime.empty() || !m.locale.empty() || m.readOnly || !m.nativeKey.empty()) {
        g.nontrivial();
    }
}
static void scramble(pbt::Gen &g, TagValue &v)
{
    switch (g.below(8)) {
    case 0:
        v.clearDataAndMetadata();
        break;
    case 1:
        v.assignText("scrambled", 9, TagTextEncoding::Utf8);
        break;
    case 2:
        if (v.dataSize()) {
            v.dataPointer()[g.below(v.dataSize())] ^= 0x55;
        }
        break;
    case 3:
        v.setDescription("other description", TagTextEncoding::Utf8);
        break;
    case 4:
        v.setMimeType("other/mime");
        v.locale().emplace_back(std::string_view("xyz"), LocaleFormat::ISO_639_2_T);
        break;
    case 5:
        v.setReadonly(!v.isLabeledAsReadonly());
        break;
    case 6:
        v.nativeData()["scrambled"] = "yes";
        break;
    default:
        v.assignData("x", 1, TagDataType::Binary);
    }
}

PBT_TEST(copies, 180000, 1600000)
{
    const auto m = genModel(g);
    classify(g, m);
    const auto original = m.build(), reference = m.build();
    g.describe(str(original));
    expectSame(original, reference, "build"); // two values made in the same way
    switch (g.below(4)) {
    case 0: {
        TagValue copy(original);
        g.label("copy constructor");
        expectSame(copy, original, "copy");
        scramble(g, copy);
        expectSame(original, reference, "copy-not-independent");
        break;
    }
    case 1: {
        auto copy = genModel(g).build(); // overwrite something which is already there
        g.label("copy assignment");
        copy = original;
        expectSame(copy, original, "assign");
        scramble(g, copy);
        expectSame(original, reference, "assign-not-independent");
        copy = original;
        auto &self = copy;
        copy = self;
        expectSame(copy, original, "self-assign");
        break;
    }
    case 2: {
        TagValue source(original);
        source = original;
        g.label("move");
        auto before = m.build();
        TagValue moved(std::move(before));
        expectSame(moved, original, "move");
        auto target = genModel(g).build();
        target = std::move(moved);
        expectSame(target, original, "move-assign");
        moved = target; // a moved-from value can be reused
        expectSame(moved, original, "reuse-moved-from");
        break;
    }
    default: { // copies of copies, e.g. in a vector which grows
        g.label("vector");
        std::vector<TagValue> values;
        const auto n = g.range(2, 9);
        for (std::int64_t i = 0; i < n; ++i) {
            values.push_back(original);
        }
        const auto other = values;
        scramble(g, values[0]);
        for (const auto &v : other) {
            expectSame(v, original, "vector");
        }
    }
    }
}

PBT_TEST(constructors, 120000, 800000)
{
    // all ways to assign text agree
    const auto enc = encodings[g.below(4)], convertTo = encodings[g.below(4)];
    const auto text = genText(g, convertTo == TagTextEncoding::Latin1 ? convertTo : enc, 60);
    std::string raw, converted;
    encode(text, enc, raw);
    encode(text, convertTo, converted);
    const auto convert = g.flip();
    const auto to = convert ? convertTo : TagTextEncoding::Unspecified;
    const auto &expected = convert ? converted : raw;
    const auto expectedEnc = convert ? convertTo : enc;
    g.describe(pbt::hex(raw));
    if (!text.empty()) {
        g.nontrivial();
    }
    std::vector<TagValue> values;
    values.emplace_back(raw.data(), raw.size(), enc, to);
    values.emplace_back(raw, enc, to);
    values.emplace_back(std::string_view(raw), enc, to);
    values.emplace_back();
    values.back().assignText(raw, enc, to);
    if (raw.find('\0') == std::string::npos) {
        values.emplace_back(raw.c_str(), enc, to);
    }
    if (!convert) {
        values.emplace_back(raw.data(), raw.size(), TagDataType::Text, enc);
        values.emplace_back();
        values.back().assignData(raw.data(), raw.size(), TagDataType::Text, enc);
    }
    for (const auto &v : values) {
        CHECK_MSG(v.type() == TagDataType::Text && v.data() == expected && v.dataEncoding() == expectedEnc && v.dataSize() == expected.size(), "constructor-text",
            str(v) + " instead of " + pbt::hex(expected));
        CHECK_MSG(v.flags() == TagValueFlags::None && v.description().empty() && v.mimeType().empty() && v.locale().empty() && v.descriptionEncoding() == TagTextEncoding::Latin1,
            "constructor-metadata", str(v));
        CHECK_MSG(v == values.front(), "constructor-equal", str(v));
        CHECK_MSG(v.isEmpty() == expected.empty(), "constructor-empty", str(v));
    }
}

/// Changes the model in one respect; returns what was changed.
enum class Change { None, Reencode, ReencodeDesc, Case, CaseDesc, Data, Desc, Mime, Locale_, ReadOnly, NativeData, Type };
static Change mutate(pbt::Gen &g, Model &m)
{
    switch (g.below(11)) {
    case 0: {
        if (m.type != TagDataType::Text) {
            return Change::None;
        }
        const auto e = encodings[g.below(4)];
        std::string tmp;
        if (!encode(m.text, e, tmp) || e == m.enc) {
            return Change::None;
        }
        m.enc = e;
        return Change::Reencode;
    }
    case 1: {
        const auto e = encodings[g.below(4)];
        std::string tmp;
        if (m.desc.empty() || e == m.descEnc || !encode(m.desc, e, tmp)) {
            return Change::None;
        }
        m.descEnc = e;
        return Change::ReencodeDesc;
    }
    case 2:
    case 3: {
        if (m.type == TagDataType::Popularity && g.flip()) {
            // the user's name might differ in case
            for (auto &c : m.data) {
                if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) {
                    c ^= 0x20;
                    return Change::Case;
                }
            }
        }
        auto &s = g.flip() ? m.text : m.desc;
        for (auto &c : s) {
            if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) {
                c ^= 0x20;
                return &s == &m.text ? (m.type == TagDataType::Text ? Change::Case : Change::None) : Change::CaseDesc;
            }
        }
        return Change::None;
    }
    case 4:
        switch (m.type) {
        case TagDataType::Text:
            if (m.text.empty() || g.flip()) {
                m.text += U'~';
            } else {
                auto &c = m.text[g.below(m.text.size())];
                // 0x4100 and 0x6100 differ in the byte which would be the letter case in a byte-wise comparison
                c = c != U'#' ? U'#' : U'$';
            }
            return Change::Data;
        case TagDataType::Integer:
        case TagDataType::UnsignedInteger:
            m.number ^= 1;
            return Change::Data;
        case TagDataType::PositionInSet:
            (g.flip() ? m.number : m.number2) ^= 2;
            return Change::Data;
        case TagDataType::StandardGenreIndex:
            m.number = (m.number + 1) % 192;
            return Change::Data;
        case TagDataType::TimeSpan:
        case TagDataType::DateTime:
        case TagDataType::DateTimeExpression:
            m.number ^= static_cast<std::int64_t>(1) << g.below(50);
            return Change::Data;
        case TagDataType::Popularity:
            switch (g.below(4)) {
            case 0:
                m.data += "~";
                break;
            case 2:
                m.scale = m.scale == TagType::VorbisComment ? TagType::MatroskaTag : TagType::VorbisComment;
                break;
            case 1:
                m.number ^= 1;
                break;
            default:
                m.number2 ^= 4;
            }
            return Change::Data;
        default:
            if (m.data.empty() || g.flip()) {
                m.data += '~';
            } else {
                m.data[g.below(m.data.size())] ^= static_cast<char>(0x20);
            }
            return Change::Data;
        }
    case 5:
        m.desc += U'~';
        return Change::Desc;
    case 6:
        m.mime += "~";
        return Change::Mime;
    case 7:
        m.locale.emplace_back(std::string_view("zzz"), LocaleFormat::ISO_639_2_B);
        return Change::Locale_;
    case 8:
        m.readOnly = !m.readOnly;
        return Change::ReadOnly;
    case 9:
        if (m.nativeKey.empty()) {
            m.nativeKey = "k";
        }
        m.nativeValue += "~";
        return Change::NativeData;
    default:
        return Change::None;
    }
}

PBT_TEST(equality, 240000, 2000000)
{
    const auto m1 = genModel(g);
    auto m2 = m1;
    const auto change = mutate(g, m2);
    const auto a = m1.build(), b = m2.build();
    g.describe(str(a) + " VERSUS " + str(b));
    g.label("change " + toStr(static_cast<unsigned>(change)));
    if (change != Change::None) {
        g.nontrivial();
    }
    bool strict = true, noMeta = true, noCase = true, noCaseNoMeta = true;
    switch (change) {
    case Change::None:
    case Change::Reencode:
    case Change::ReencodeDesc:
    case Change::NativeData:
        break;
    case Change::Case:
        strict = noMeta = false;
        break;
    case Change::CaseDesc:
        strict = false;
        break;
    case Change::Data:
        strict = noMeta = noCase = noCaseNoMeta = false;
        break;
    default:
        strict = noCase = false;
    }
    const auto what = str(a) + " VERSUS " + str(b) + " change " + toStr(static_cast<unsigned>(change));
    const auto both = TagValueComparisionFlags::CaseInsensitive | TagValueComparisionFlags::IgnoreMetaData;
    for (int i = 0; i < 2; ++i) {
        const auto &x = i ? b : a, &y = i ? a : b;
        CHECK_MSG((x == y) == strict && (x != y) == !strict && x.compareTo(y) == strict, "equality", what);
        CHECK_MSG(x.compareTo(y, TagValueComparisionFlags::IgnoreMetaData) == noMeta, "equality-ignoring-meta-data", what);
        CHECK_MSG(x.compareTo(y, TagValueComparisionFlags::CaseInsensitive) == noCase, "equality-ignoring-case", what);
        CHECK_MSG(x.compareTo(y, static_cast<TagValueComparisionFlags>(both)) == noCaseNoMeta, "equality-ignoring-both", what);
    }
}

PBT_TEST(case_folding_of_wide_characters, 30000, 200000)
{
    // only letters are case-insensitive, not bytes of wider characters which happen to look like letters
    const auto enc = g.flip() ? TagTextEncoding::Utf16LittleEndian : TagTextEncoding::Utf16BigEndian;
    auto text = genText(g, enc, 10);
    const auto pos = g.below(text.size() + 1);
    const auto low = static_cast<char32_t>(g.range(0, 255));
    const auto letter = static_cast<char32_t>(g.range(0x41, 0x5a));
    auto t1 = text, t2 = text;
    t1.insert(t1.begin() + static_cast<std::ptrdiff_t>(pos), (letter << 8) | low);
    t2.insert(t2.begin() + static_cast<std::ptrdiff_t>(pos), ((letter | 0x20) << 8) | low);
    if (t1[0] == 0xfeff || t1[0] == 0xfffe) {
        g.discard();
    }
    const auto inDescription = g.flip();
    const auto otherEncoding = g.flip() ? TagTextEncoding::Utf8 : enc;
    Model m1, m2;
    m1.type = m2.type = TagDataType::Text;
    (inDescription ? m1.desc : m1.text) = t1;
    (inDescription ? m2.desc : m2.text) = t2;
    m1.enc = m1.descEnc = enc;
    m2.enc = m2.descEnc = otherEncoding;
    const auto a = m1.build(), b = m2.build();
    g.describe(str(a) + " VERSUS " + str(b));
    g.nontrivial();
    CHECK_MSG(!a.compareTo(b, TagValueComparisionFlags::CaseInsensitive) && !b.compareTo(a, TagValueComparisionFlags::CaseInsensitive), "case-of-wide-characters",
        str(a) + " VERSUS " + str(b));
}

PBT_TEST(equality_laws, 180000, 1600000)
{
    // arbitrary and related triples
    auto m1 = genModel(g);
    auto m2 = g.chance(1, 4) ? genModel(g) : m1;
    mutate(g, m2);
    auto m3 = g.chance(1, 4) ? m1 : m2;
    mutate(g, m3);
    const TagValue v[] = { m1.build(), m2.build(), m3.build() };
    g.describe(str(v[0]) + " | " + str(v[1]) + " | " + str(v[2]));
    const auto what = str(v[0]) + " | " + str(v[1]) + " | " + str(v[2]);
    const TagValueComparisionFlags options[] = { TagValueComparisionFlags::None, TagValueComparisionFlags::IgnoreMetaData, TagValueComparisionFlags::CaseInsensitive,
        static_cast<TagValueComparisionFlags>(TagValueComparisionFlags::CaseInsensitive | TagValueComparisionFlags::IgnoreMetaData) };
    bool eq[4][3][3];
    for (int o = 0; o < 4; ++o) {
        for (int i = 0; i < 3; ++i) {
            for (int k = 0; k < 3; ++k) {
                eq[o][i][k] = v[i].compareTo(v[k], options[o]);
            }
        }
        for (int i = 0; i < 3; ++i) {
            CHECK_MSG(eq[o][i][i], "not-reflexive", str(v[i]));
            for (int k = 0; k < 3; ++k) {
                CHECK_MSG(eq[o][i][k] == eq[o][k][i], "not-symmetric", str(v[i]) + " VERSUS " + str(v[k]));
            }
        }
        if (m1.type == m2.type && m2.type == m3.type) { // comparing across types involves documented implicit conversions
            if (eq[o][0][1] && eq[o][1][2]) {
                g.label("all equal");
                g.nontrivial();
                CHECK_MSG(eq[o][0][2], "not-transitive", what);
            }
        }
    }
    for (int i = 0; i < 3; ++i) {
        for (int k = 0; k < 3; ++k) {
            // ignoring something never makes equal values different
            CHECK_MSG(!eq[0][i][k] || (eq[1][i][k] && eq[2][i][k]), "ignoring-makes-different", what);
            CHECK_MSG(!(eq[1][i][k] || eq[2][i][k]) || eq[3][i][k], "ignoring-more-makes-different", what);
        }
    }
}

PBT_TEST(across_types, 90000, 600000)
{
    // documented: values of different types are equal if their string representations are
    const auto enc = encodings[g.below(4)];
    auto textOf = [&](const std::string &s) { return TagValue(s, TagTextEncoding::Latin1, enc); };
    g.nontrivial();
    switch (g.below(5)) {
    case 0: {
        const auto n = std::max<std::int32_t>(-2147483646, static_cast<std::int32_t>(g.bits(32))), other = static_cast<std::int32_t>(n ^ 1);
        g.describe("integer " + std::to_string(n));
        CHECK_MSG(TagValue(n) == textOf(std::to_string(n)) && textOf(std::to_string(n)) == TagValue(n), "integer-vs-text", std::to_string(n));
        CHECK_MSG(TagValue(n) != textOf(std::to_string(other)) && textOf(std::to_string(other)) != TagValue(n), "integer-vs-other-text", std::to_string(n));
        break;
    }
    case 1: {
        const auto n = g.bits(64), other = n ^ 1;
        g.describe("unsigned " + toStr(n));
        CHECK_MSG(TagValue(n) == textOf(toStr(n)) && textOf(toStr(n)) == TagValue(n), "unsigned-vs-text", toStr(n));
        CHECK_MSG(TagValue(n) != textOf(toStr(other)), "unsigned-vs-other-text", toStr(n));
        if (n <= 0x7fffffff) {
            CHECK_MSG(TagValue(n) == TagValue(static_cast<int>(n)) && TagValue(static_cast<int>(n)) == TagValue(n), "unsigned-vs-integer", toStr(n));
        }
        break;
    }
    case 2: {
        const auto p = g.bits(20) + 1, t = g.bits(20) + 1;
        const TagValue v(PositionInSet(static_cast<std::int32_t>(p), static_cast<std::int32_t>(t)));
        const auto s = toStr(p) + "/" + toStr(t);
        g.describe("position " + s);
        CHECK_MSG(v == textOf(s) && textOf(s) == v, "position-vs-text", s);
        CHECK_MSG(v != textOf(s + "1"), "position-vs-other-text", s);
        break;
    }
    case 3: {
        const auto data = g.asciiWord(10);
        const TagValue v(data.data(), data.size(), g.flip() ? TagDataType::Binary : TagDataType::Picture);
        g.describe("binary " + data);
        CHECK_MSG(v != textOf(data) && textOf(data) != v, "binary-vs-text", data);
        break;
    }
    default: {
        Popularity p{ g.asciiWord(8), static_cast<double>(g.range(0, 255)), g.bits(30), TagType::Unspecified };
        g.describe("popularity " + p.toString());
        CHECK_MSG(TagValue(p) == textOf(p.toString()) && textOf(p.toString()) == TagValue(p), "popularity-vs-text", p.toString());
        auto q = p;
        q.playCounter ^= 1;
        CHECK_MSG(TagValue(p) != textOf(q.toString()) && TagValue(p) != TagValue(q), "popularity-vs-other", p.toString());
    }
    }
}
