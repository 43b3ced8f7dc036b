// C15: tag values convert faithfully between types and text encodings.
#include "pbt.h"
#include "util.h"

#include <c++utilities/chrono/datetime.h>
#include <c++utilities/conversion/conversionexception.h>
#include <tagparser/id3/id3genres.h>
#include <tagparser/tagvalue.h>

using namespace TagParser;
using namespace CppUtilities;
using namespace util;
namespace pbt {
const char *g_property = "C15";
const char *g_rule = "text of all Unicode ranges in every encoding pair, invalid text, and numbers/positions/genres/dates/durations over their full ranges; non-trivial: text with characters beyond ASCII or needing conversion, or values with more than one digit/component";
const char *g_level = "exploration";
}

static const TagTextEncoding encodings[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };
static const char *encName(TagTextEncoding e)
{
    switch (e) {
    case TagTextEncoding::Latin1:
        return "latin1";
    case TagTextEncoding::Utf8:
        return "utf8";
    case TagTextEncoding::Utf16LittleEndian:
        return "utf16le";
    case TagTextEncoding::Utf16BigEndian:
        return "utf16be";
    default:
        return "unspecified";
    }
}
static bool encode(const std::u32string &s, TagTextEncoding e, std::string &out)
{
    switch (e) {
    case TagTextEncoding::Latin1:
        return toLatin1(s, out);
    case TagTextEncoding::Utf16LittleEndian:
        out = toUtf16(s, false);
        return true;
    case TagTextEncoding::Utf16BigEndian:
        out = toUtf16(s, true);
        return true;
    default:
        out = toUtf8(s);
        return true;
    }
}
static std::string enc(const std::string &ascii, TagTextEncoding e)
{
    std::string r;
    encode(fromUtf8(ascii), e, r);
    return r;
}
static std::u32string genText(pbt::Gen &g, bool latin1)
{
    auto s = fromUtf8(g.text(300, latin1 ? 1 : 3));
    if (!s.empty() && (s[0] == 0xfeff || s[0] == 0xfffe)) {
        s[0] = U'x';
    }
    return s;
}
template <class F> static bool refused(F &&f)
{
    try {
        f();
        return false;
    } catch (const ConversionException &) {
        return true;
    }
}
static std::string rawBytes(const std::u16string &s)
{
    return std::string(reinterpret_cast<const char *>(s.data()), s.size() * 2);
}

PBT_TEST(text_encodings, 300000, 2000000)
{
    const auto from = encodings[g.below(4)], to = encodings[g.below(4)];
    const auto text = genText(g, from == TagTextEncoding::Latin1 || (to == TagTextEncoding::Latin1 && !g.chance(1, 4)));
    std::string raw, expected;
    encode(text, from, raw);
    const auto representable = encode(text, to, expected);
    g.describe(std::string(encName(from)) + "->" + encName(to) + " " + pbt::quote(toUtf8(text), 60));
    g.label(std::string(encName(from)) + "->" + encName(to) + (representable ? "" : " not representable"));
    if (raw != enc(std::string(text.size(), 'x'), from) && from != to) {
        for (auto c : text) {
            if (c > 0x7f) {
                g.nontrivial();
                break;
            }
        }
    }
    const auto what = std::string(encName(from)) + "->" + encName(to) + " of " + pbt::hex(raw);
    const TagValue source(raw, from);
    CHECK_MSG(source.data() == raw && source.dataEncoding() == from && source.toString() == raw && source.toString(from) == raw, "raw-text", what);
    if (!representable) {
        CHECK_MSG(refused([&] { source.toString(to); }), "unrepresentable-not-refused-tostring", what + " became " + pbt::hex(source.toString(to)));
        CHECK_MSG(refused([&] { TagValue v(raw, from, to); }), "unrepresentable-not-refused-assign", what);
        TagValue v(source);
        CHECK_MSG(refused([&] { v.convertDataEncoding(to); }), "unrepresentable-not-refused-convert", what);
        CHECK_MSG(v.data() == raw && v.dataEncoding() == from, "failed-conversion-modifies", what);
        TagValue d;
        d.setDescription(raw, from);
        CHECK_MSG(refused([&] { d.convertDescriptionEncoding(to); }), "unrepresentable-not-refused-description", what);
        CHECK_MSG(d.description() == raw && d.descriptionEncoding() == from, "failed-description-conversion-modifies", what);
        return;
    }
    CHECK_MSG(source.toString(to) == expected, "tostring", what + " became " + pbt::hex(source.toString(to)));
    if (to == TagTextEncoding::Utf16LittleEndian || to == TagTextEncoding::Utf16BigEndian) {
        CHECK_MSG(rawBytes(source.toWString(to)) == expected, "towstring", what + " became " + pbt::hex(rawBytes(source.toWString(to))));
    }
    const TagValue assigned(raw, from, to);
    CHECK_MSG(assigned.data() == expected && assigned.dataEncoding() == to, "assign-converting", what + " became " + pbt::hex(std::string(assigned.data())));
    TagValue v(source);
    v.convertDataEncoding(to);
    CHECK_MSG(v.data() == expected && v.dataEncoding() == to, "convert", what + " became " + pbt::hex(std::string(v.data())));
    v.convertDataEncoding(from);
    CHECK_MSG(v.data() == raw && v.dataEncoding() == from, "convert-back", what + " became " + pbt::hex(std::string(v.data())));
    TagValue d(std::string("data"), TagTextEncoding::Utf8);
    d.setDescription(raw, from);
    CHECK_MSG(d.description() == raw && d.descriptionEncoding() == from, "description", what);
    d.convertDescriptionEncoding(to);
    CHECK_MSG(d.description() == expected && d.descriptionEncoding() == to && d.data() == "data", "convert-description", what + " became " + pbt::hex(d.description()));
    d.convertDescriptionEncoding(from);
    CHECK_MSG(d.description() == raw, "convert-description-back", what + " became " + pbt::hex(d.description()));
    CHECK_MSG(source.toDisplayString() == toUtf8(text), "display-string", what);
    // a leading BOM in the source is no part of the text
    std::string bom = from == TagTextEncoding::Utf8 ? "\xEF\xBB\xBF" : from == TagTextEncoding::Utf16LittleEndian ? "\xFF\xFE" : from == TagTextEncoding::Utf16BigEndian ? "\xFE\xFF" : "";
    const TagValue withBom(bom + raw, from, to);
    CHECK_MSG(withBom.data() == expected && withBom.dataEncoding() == to, "bom", what + " became " + pbt::hex(std::string(withBom.data())));
    const char *p = raw.data();
    auto n = raw.size();
    TagValue::stripBom(p, n, from);
    CHECK_MSG(p == raw.data() && n == raw.size(), "bom-stripped-although-none", what);
}

PBT_TEST(unspecified_encoding, 40000, 100000)
{
    // there is no conversion from or to an unspecified encoding but no text gets lost
    const auto to = encodings[g.below(4)];
    const auto raw = g.text(40, 3);
    const auto first = g.flip();
    g.describe(pbt::quote(raw));
    g.nontrivial();
    TagValue v(raw, first ? TagTextEncoding::Unspecified : to);
    const auto bytes = std::string(v.data());
    CHECK_MSG(v.toString(first ? to : TagTextEncoding::Unspecified) == bytes, "unspecified-tostring", pbt::hex(raw));
    if (!bytes.empty()) {
        v.convertDataEncoding(first ? to : TagTextEncoding::Unspecified);
        CHECK_MSG(v.data() == bytes, "unspecified-convert", pbt::hex(raw) + " became " + pbt::hex(std::string(v.data())));
    }
}

PBT_TEST(malformed_text, 80000, 400000)
{
    // text which is not valid in its encoding is refused when converting
    const auto from = encodings[1 + g.below(3)];
    TagTextEncoding to;
    do {
        to = encodings[g.below(4)];
    } while (to == from && g.below(8));
    if (to == from) {
        g.discard("same encoding");
    }
    std::string raw;
    encode(genText(g, true), from, raw);
    if (from == TagTextEncoding::Utf8) {
        const auto pos = g.flip() ? raw.size() : 0;
        raw.insert(pos, g.pick<std::string>({ "\xff", "\xc3(", "\xe2\x82(", "\x80", "\xf0\x9f\x98(", "\xc0\xaf" }));
    } else {
        const auto be = from == TagTextEncoding::Utf16BigEndian;
        std::string unit;
        const auto u = g.range(0xdc00, 0xdfff);
        be ? util::be(unit, static_cast<std::uint64_t>(u), 2) : util::le(unit, static_cast<std::uint64_t>(u), 2);
        raw.insert(g.flip() ? raw.size() : 0, unit); // lone trailing surrogate
    }
    g.describe(std::string(encName(from)) + "->" + encName(to) + " " + pbt::hex(raw));
    g.nontrivial();
    g.label(std::string(encName(from)) + "->" + encName(to));
    const TagValue v(raw, from);
    CHECK_MSG(v.data() == raw, "raw-text", pbt::hex(raw));
    CHECK_MSG(refused([&] { v.toString(to); }), "malformed-not-refused", std::string(encName(from)) + "->" + encName(to) + " " + pbt::hex(raw) + " became " + pbt::hex(v.toString(to)));
}

PBT_TEST(integers, 120000, 600000)
{
    const auto n = std::max<std::int32_t>(-2147483647, static_cast<std::int32_t>(g.flip() ? g.bits(31) : g.bits(32))); // c++utilities cannot print the lowest integer
    const auto s = std::to_string(n);
    const auto e = encodings[g.below(4)];
    g.describe(s);
    if (s.size() > 1) {
        g.nontrivial();
    }
    TagValue v;
    v.assignInteger(n);
    CHECK_MSG(v.type() == TagDataType::Integer && v.toInteger() == n && TagValue(n).toInteger() == n, "integer", s);
    CHECK_MSG(v.toString() == s && v.toString(e) == enc(s, e) && v.toDisplayString() == s, "integer-string", s + " became " + pbt::hex(v.toString(e)));
    if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian) {
        CHECK_MSG(rawBytes(v.toWString(e)) == enc(s, e), "integer-wstring", s + " became " + pbt::hex(rawBytes(v.toWString(e))));
    }
    const TagValue text(enc(s, e), e);
    CHECK_MSG(text.toInteger() == n, "integer-from-text", s + " in " + encName(e));
    if (n >= 0) {
        CHECK_MSG(v.toUnsignedInteger() == static_cast<std::uint64_t>(n) && text.toUnsignedInteger() == static_cast<std::uint64_t>(n), "integer-as-unsigned", s);
        CHECK_MSG(v.toPositionInSet() == PositionInSet(n) && text.toPositionInSet() == PositionInSet(n), "integer-as-position", s);
    } else {
        CHECK_MSG(refused([&] { v.toUnsignedInteger(); }) && refused([&] { text.toUnsignedInteger(); }), "negative-as-unsigned-not-refused", s);
    }
    CHECK_MSG(v.toPopularity().rating == static_cast<double>(n), "integer-as-rating", s);
    if (n >= 0 && n < 192) {
        CHECK_MSG(v.toStandardGenreIndex() == n && text.toStandardGenreIndex() == n, "integer-as-genre", s);
    } else if (n != 255) {
        CHECK_MSG(refused([&] { v.toStandardGenreIndex(); }) && refused([&] { text.toStandardGenreIndex(); }), "bad-genre-not-refused", s);
    }
}

PBT_TEST(unsigned_integers, 120000, 600000)
{
    const auto n = g.bits(64);
    const auto s = toStr(n);
    const auto e = encodings[g.below(4)];
    g.describe(s);
    if (s.size() > 1) {
        g.nontrivial();
    }
    TagValue v;
    v.assignUnsignedInteger(n);
    CHECK_MSG(v.type() == TagDataType::UnsignedInteger && v.toUnsignedInteger() == n && TagValue(n).toUnsignedInteger() == n, "unsigned", s);
    CHECK_MSG(v.toString() == s && v.toString(e) == enc(s, e), "unsigned-string", s + " became " + pbt::hex(v.toString(e)));
    if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian) {
        CHECK_MSG(rawBytes(v.toWString(e)) == enc(s, e), "unsigned-wstring", s + " became " + pbt::hex(rawBytes(v.toWString(e))));
    }
    const TagValue text(enc(s, e), e);
    CHECK_MSG(text.toUnsignedInteger() == n, "unsigned-from-text", s + " in " + encName(e));
    if (n <= 0x7fffffffu) {
        CHECK_MSG(v.toInteger() == static_cast<std::int32_t>(n) && text.toInteger() == static_cast<std::int32_t>(n), "unsigned-as-integer", s);
        if (n < 0x7fffffffu) {
            CHECK_MSG(v.toPositionInSet() == PositionInSet(static_cast<std::int32_t>(n)), "unsigned-as-position", s);
        }
    } else {
        CHECK_MSG(refused([&] { v.toInteger(); }) && refused([&] { text.toInteger(); }), "too-big-not-refused", s);
        CHECK_MSG(refused([&] { v.toPositionInSet(); }) && refused([&] { v.toStandardGenreIndex(); }), "too-big-position-or-genre-not-refused", s);
    }
}

PBT_TEST(positions, 120000, 600000)
{
    const auto p = static_cast<std::int32_t>(g.bits(31)), t = static_cast<std::int32_t>(g.bits(31));
    const PositionInSet pos(p, t);
    const auto s = (p ? std::to_string(p) : std::string()) + (t ? "/" + std::to_string(t) : std::string());
    const auto e = encodings[g.below(4)];
    g.describe(s);
    g.label(p && t ? "position and total" : p ? "position" : t ? "total" : "null");
    if (p && t) {
        g.nontrivial();
    }
    CHECK_MSG(pos.toString() == s, "position-string", s + " became " + pos.toString());
    const TagValue v(pos);
    TagValue assigned;
    assigned.assignPosition(pos);
    CHECK_MSG(v.toPositionInSet() == pos && assigned.toPositionInSet() == pos && assigned.type() == TagDataType::PositionInSet, "position-value", s);
    CHECK_MSG(assigned.isEmpty() == pos.isNull() && pos.isNull() == (!p && !t), "position-null", s);
    CHECK_MSG(v.toString(e) == enc(s, e), "position-to-text", s + " became " + pbt::hex(v.toString(e)));
    if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian) {
        CHECK_MSG(rawBytes(v.toWString(e)) == enc(s, e), "position-wstring", s + " became " + pbt::hex(rawBytes(v.toWString(e))));
    }
    CHECK_MSG(v.toInteger() == p, "position-as-integer", s);
    if (!s.empty()) {
        CHECK_MSG(PositionInSet(s) == pos, "position-parse", s);
        CHECK_MSG(TagValue(enc(s, e), e).toPositionInSet() == pos, "position-from-text", s + " in " + encName(e));
    }
    // not a position: refused
    const auto bad = g.pick<std::string>({ "x", "1/x", "x/2", "1/2/3", "/", "1.5/2", "99999999999/1" });
    CHECK_MSG(refused([&] { TagValue(enc(bad, e), e).toPositionInSet(); }), "bad-position-not-refused", bad);
}

PBT_TEST(not_numbers, 60000, 200000)
{
    const auto e = encodings[g.below(4)];
    auto s = g.pick<std::string>({ "x", "12x", "x12", "1.5", "--1", "99999999999999999999999", "0x10", "1e3" });
    if (g.flip()) {
        s = g.asciiWord(5) + std::to_string(g.bits(20));
    }
    g.describe(pbt::quote(s));
    g.nontrivial();
    const TagValue v(enc(s, e), e);
    CHECK_MSG(refused([&] { v.toInteger(); }), "bad-integer-not-refused", s);
    CHECK_MSG(refused([&] { v.toUnsignedInteger(); }), "bad-unsigned-not-refused", s);
    // binary data has neither textual nor numeric form
    const TagValue b(s.data(), s.size(), g.flip() ? TagDataType::Binary : TagDataType::Picture);
    CHECK_MSG(refused([&] { b.toInteger(); }) && refused([&] { b.toUnsignedInteger(); }) && refused([&] { b.toPositionInSet(); }) && refused([&] { b.toStandardGenreIndex(); })
            && refused([&] { b.toTimeSpan(); }) && refused([&] { b.toDateTime(); }) && refused([&] { b.toPopularity(); }) && refused([&] { b.toString(); }),
        "binary-not-refused", s);
    // an integer value of an unexpected size
    auto odd = g.bytes(g.pick<std::size_t>({ 1, 2, 3, 5, 6, 7, 9, 12 }));
    const TagValue i(odd.data(), odd.size(), TagDataType::Integer), u(odd.data(), odd.size(), TagDataType::UnsignedInteger), ts(odd.data(), odd.size(), TagDataType::TimeSpan),
        dt(odd.data(), odd.size(), TagDataType::DateTime), ps(odd.data(), odd.size(), TagDataType::PositionInSet), de(odd.data(), odd.size(), TagDataType::DateTimeExpression);
    CHECK_MSG(refused([&] { i.toInteger(); }) && refused([&] { u.toUnsignedInteger(); }) && refused([&] { ts.toTimeSpan(); }) && refused([&] { dt.toDateTime(); })
            && refused([&] { ps.toPositionInSet(); }) && refused([&] { de.toDateTimeExpression(); }),
        "unexpected-size-not-refused", toStr(odd.size()));
}

PBT_TEST(genres, 60000, 200000)
{
    const auto index = static_cast<int>(g.range(0, 191));
    const auto e = encodings[g.below(4)];
    const auto name = std::string(Id3Genres::stringFromIndex(index));
    g.describe(name);
    g.nontrivial();
    CHECK_MSG(!name.empty() && Id3Genres::isIndexSupported(index) && !Id3Genres::isEmptyGenre(index), "genre-name", toStr(static_cast<std::uint64_t>(index)));
    CHECK_MSG(Id3Genres::indexFromString(name) == index, "genre-index", name);
    TagValue v;
    v.assignStandardGenreIndex(index);
    CHECK_MSG(v.type() == TagDataType::StandardGenreIndex && v.toStandardGenreIndex() == index && v.toInteger() == index, "genre-value", name);
    CHECK_MSG(v.toString(e) == enc(name, e), "genre-to-text", name + " became " + pbt::hex(v.toString(e)));
    if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian) {
        CHECK_MSG(rawBytes(v.toWString(e)) == enc(name, e), "genre-wstring", name + " became " + pbt::hex(rawBytes(v.toWString(e))));
    }
    CHECK_MSG(TagValue(enc(name, e), e).toStandardGenreIndex() == index, "genre-from-text", name + " in " + encName(e));
    CHECK_MSG(TagValue(static_cast<std::uint64_t>(index)).toStandardGenreIndex() == index, "genre-from-unsigned", name);
    const auto bad = static_cast<int>(g.pick<std::int64_t>({ 192, 193, 254, 256, 1000, -1, static_cast<std::int64_t>(g.range(256, 100000)) }));
    TagValue b;
    b.assignStandardGenreIndex(bad);
    CHECK_MSG(refused([&] { b.toStandardGenreIndex(); }) && refused([&] { b.toString(); }), "bad-genre-not-refused", std::to_string(bad));
    CHECK_MSG(!Id3Genres::isIndexSupported(bad) && Id3Genres::stringFromIndex(bad).empty(), "bad-genre-name", std::to_string(bad));
    const auto unknown = "zz" + g.asciiWord(6);
    CHECK_MSG(refused([&] { TagValue(enc(unknown, e), e).toStandardGenreIndex(); }), "unknown-genre-not-refused", unknown);
    TagValue none;
    none.assignStandardGenreIndex(Id3Genres::emptyGenreIndex());
    CHECK_MSG(none.toStandardGenreIndex() == Id3Genres::emptyGenreIndex() && none.toString().empty(), "empty-genre", none.toString());
}

PBT_TEST(dates_and_durations, 120000, 600000)
{
    const auto e = encodings[g.below(4)];
    if (g.flip()) {
        // whole milliseconds, the resolution of the textual form
        const auto ms = static_cast<std::int64_t>(g.bits(46));
        const auto span = TimeSpan(ms * 10000);
        TagValue v;
        v.assignTimeSpan(span);
        const auto s = span.toString();
        g.describe("duration " + s);
        g.label("duration");
        g.nontrivial();
        CHECK_MSG(v.type() == TagDataType::TimeSpan && v.toTimeSpan() == span && TagValue(span).toTimeSpan() == span, "duration", s);
        CHECK_MSG(v.toString(e) == enc(s, e), "duration-to-text", s);
        if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian) {
            CHECK_MSG(rawBytes(v.toWString(e)) == enc(s, e), "duration-wstring", s + " became " + pbt::hex(rawBytes(v.toWString(e))));
        }
        // a clock-like text is understood in every encoding; seconds below a minute have no such form
        const auto h = g.range(0, 23), m = g.range(0, 59), sec = g.range(0, 59);
        char clock[32];
        std::snprintf(clock, sizeof(clock), "%02d:%02d:%02d", static_cast<int>(h), static_cast<int>(m), static_cast<int>(sec));
        const auto parsed = TagValue(enc(clock, e), e).toTimeSpan();
        CHECK_MSG(parsed == TimeSpan::fromSeconds(static_cast<std::int64_t>(h * 3600 + m * 60 + sec)), "duration-from-text", std::string(clock) + " in " + encName(e) + " became " + parsed.toString());
        return;
    }
    const auto year = static_cast<int>(g.range(1, 9999)), month = static_cast<int>(g.range(1, 12)), day = static_cast<int>(g.range(1, 28)), hour = static_cast<int>(g.range(0, 23)),
               minute = static_cast<int>(g.range(0, 59)), second = static_cast<int>(g.range(0, 59));
    const auto date = DateTime::fromDateAndTime(year, month, day, hour, minute, static_cast<double>(second));
    const auto iso = date.toIsoString();
    g.describe("date " + iso);
    g.label("date");
    g.nontrivial();
    TagValue v;
    v.assignDateTime(date);
    CHECK_MSG(v.type() == TagDataType::DateTime && v.toDateTime() == date && TagValue(date).toDateTime() == date, "date", iso);
    CHECK_MSG(v.toString(e) == enc(iso, e), "date-to-text", iso + " became " + pbt::hex(v.toString(e)));
    CHECK_MSG(TagValue(enc(iso, e), e).toDateTime() == date, "date-from-text", iso + " in " + encName(e) + " became " + TagValue(enc(iso, e), e).toDateTime().toIsoString());
    // expressions keep which parts are present
    static const DateTimeParts parts[] = { DateTimeParts::Year, DateTimeParts::Year | DateTimeParts::Month, DateTimeParts::Date, DateTimeParts::Date | DateTimeParts::Hour | DateTimeParts::Minute,
        DateTimeParts::Date | DateTimeParts::Hour | DateTimeParts::Minute | DateTimeParts::Second };
    static const char *formats[] = { "%04d", "%04d-%02d", "%04d-%02d-%02d", "%04d-%02d-%02dT%02d:%02d", "%04d-%02d-%02dT%02d:%02d:%02d" };
    const auto which = g.below(5);
    char text[64];
    std::snprintf(text, sizeof(text), formats[which], year, month, day, hour, minute, second);
    const auto expr = TagValue(enc(text, e), e).toDateTimeExpression();
    CHECK_MSG(expr.parts == parts[which], "date-expression-parts", std::string(text) + " in " + encName(e));
    CHECK_MSG(expr.value.year() == year && (which < 1 || expr.value.month() == month) && (which < 2 || expr.value.day() == day) && (which < 3 || expr.value.hour() == hour), "date-expression-value", text);
    TagValue x;
    x.assignDateTimeExpression(expr);
    CHECK_MSG(x.type() == TagDataType::DateTimeExpression && x.toDateTimeExpression() == expr && x.toDateTime() == expr.gmt(), "date-expression", text);
    CHECK_MSG(x.toString(e) == enc(text, e), "date-expression-to-text", std::string(text) + " became " + pbt::hex(x.toString(e)));
    if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian) {
        CHECK_MSG(rawBytes(x.toWString(e)) == enc(text, e), "date-expression-wstring", std::string(text) + " became " + pbt::hex(rawBytes(x.toWString(e))));
    }
    const auto bad = g.pick<std::string>({ "foo", "20x2", "2020-13-01", "2020-01-32T00:00:00", "later" });
    CHECK_MSG(refused([&] { TagValue(enc(bad, e), e).toDateTime(); }), "bad-date-not-refused", bad);
}

PBT_TEST(empty_values, 10000, 20000)
{
    static const TagDataType types[] = { TagDataType::Text, TagDataType::Integer, TagDataType::UnsignedInteger, TagDataType::PositionInSet, TagDataType::StandardGenreIndex,
        TagDataType::TimeSpan, TagDataType::DateTime, TagDataType::DateTimeExpression, TagDataType::Popularity, TagDataType::Binary };
    const auto type = types[g.below(10)];
    const auto from = encodings[g.below(4)], to = encodings[g.below(4)];
    TagValue v("", 0, type, from);
    g.describe(std::string(tagDataTypeString(type)));
    g.nontrivial();
    CHECK_MSG(v.isEmpty() && v.dataSize() == 0 && !v, "empty", "not empty");
    CHECK_MSG(v.toInteger() == 0 && v.toUnsignedInteger() == 0 && v.toPositionInSet().isNull() && v.toTimeSpan().isNull() && v.toDateTime().isNull() && v.toPopularity().isEmpty()
            && v.toStandardGenreIndex() == Id3Genres::emptyGenreIndex() && v.toString(to).empty() && v.toWString(to).empty(),
        "empty-conversions", std::string(tagDataTypeString(type)));
    v.convertDataEncoding(to);
    v.convertDescriptionEncoding(to);
    CHECK_MSG(v.isEmpty() && v.dataEncoding() == to && v.descriptionEncoding() == to && v.toString().empty(), "empty-convert", "conversion of empty value");
    v.assignText("x", 1, TagTextEncoding::Utf8);
    CHECK_MSG(v.toString() == "x", "assign-after-empty", v.toString());
    const auto data = g.bytes(g.length(30)), more = g.bytes(g.length(60));
    v.assignData(data.data(), data.size(), TagDataType::Binary);
    CHECK_MSG(v.data() == data, "assign-data", "differs");
    v.clearData();
    CHECK_MSG(v.isEmpty() && v.type() == TagDataType::Binary, "clear-data", "not empty");
    v.assignData(more.data(), more.size(), TagDataType::Binary);
    CHECK_MSG(v.data() == more, "assign-data-again", "differs");
    v.assignData(data.data(), data.size(), TagDataType::Binary);
    v.assignData(more.data(), more.size(), TagDataType::Binary);
    CHECK_MSG(v.data() == more, "assign-data-third", "differs");
}
