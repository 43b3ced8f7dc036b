// C17: rating scales convert consistently and reversibly.
#include "pbt.h"
#include "util.h"

#include <c++utilities/conversion/conversionexception.h>
#include <tagparser/tagvalue.h>

#include <cmath>

using namespace TagParser;
using namespace util;
namespace pbt {
const char *g_property = "C17";
const char *g_rule = "ratings drawn over each scale (all integer steps, quarter steps and arbitrary reals) with arbitrary users and play counters; non-trivial: source and target scale differ or user/play counter present in the textual form";
const char *g_level = "exploration";
}

static const TagType scales[] = { TagType::Unspecified, TagType::Id3v2Tag, TagType::MatroskaTag, TagType::VorbisComment, TagType::OggVorbisComment };
static double scaleMin(TagType t) // rated values
{
    return t == TagType::MatroskaTag ? 0.0 : (t == TagType::VorbisComment || t == TagType::OggVorbisComment) ? 20.0 : 1.0;
}
static double scaleMax(TagType t)
{
    return t == TagType::Id3v2Tag ? 255.0 : (t == TagType::VorbisComment || t == TagType::OggVorbisComment) ? 100.0 : 5.0;
}
static const char *scaleName(TagType t)
{
    return t == TagType::Unspecified ? "generic" : t == TagType::Id3v2Tag ? "id3v2" : t == TagType::MatroskaTag ? "matroska" : t == TagType::VorbisComment ? "vorbis" : "oggvorbis";
}
static double genRating(pbt::Gen &g, TagType scale)
{
    const auto lo = scaleMin(scale), hi = scaleMax(scale);
    switch (g.weighted({ 3, 2, 2, 1 })) {
    case 0: // steps of the scale
        return static_cast<double>(g.range(static_cast<std::int64_t>(lo), static_cast<std::int64_t>(hi)));
    case 1: // stars
        return lo + (hi - lo) * static_cast<double>(g.range(0, 8)) / 8.0;
    case 2:
        return lo + (hi - lo) * static_cast<double>(g.below(1000001)) / 1000000.0;
    default:
        return g.flip() ? lo : hi;
    }
}
static bool close(double a, double b)
{
    return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
static std::string show(double v)
{
    char b[64];
    std::snprintf(b, sizeof(b), "%.12g", v);
    return b;
}

PBT_TEST(scaling, 750000, 4000000)
{
    const auto from = scales[g.below(5)], to = scales[g.below(5)];
    const auto a = genRating(g, from), b = genRating(g, from);
    const auto user = g.text(20, 3);
    const auto counter = g.bits(64);
    g.describe(std::string(scaleName(from)) + "->" + scaleName(to) + " ratings " + show(a) + ", " + show(b));
    g.label(std::string(scaleName(from)) + "->" + scaleName(to));
    if (from != to) {
        g.nontrivial();
    }
    Popularity pa{ user, a, counter, from }, pb{ user, b, counter, from };
    const auto sa = pa.scaled(to), sb = pb.scaled(to);
    CHECK_MSG(sa.scale == to && sb.scale == to, "scale-not-set", scaleName(to));
    CHECK_MSG(sa.user == user && sa.playCounter == counter, "scaling-changes-other-data", "user or play counter changed");
    CHECK_MSG(pa.rating == a && pa.scale == from, "scaled-modifies-source", "source changed");
    const auto lo = scaleMin(to), hi = scaleMax(to);
    CHECK_MSG(sa.rating >= lo - 1e-9 && sa.rating <= hi + 1e-9, "out-of-target-scale", show(a) + " on " + scaleName(from) + " became " + show(sa.rating) + " on " + scaleName(to));
    // the ends and the order of the scale are kept
    if (a == scaleMin(from)) {
        CHECK_MSG(close(sa.rating, lo), "minimum-not-kept", show(sa.rating));
    }
    if (a == scaleMax(from)) {
        CHECK_MSG(close(sa.rating, hi), "maximum-not-kept", show(sa.rating));
    }
    CHECK_MSG(a < b ? sa.rating <= sb.rating : a > b ? sa.rating >= sb.rating : sa.rating == sb.rating, "order-not-kept",
        show(a) + "," + show(b) + " became " + show(sa.rating) + "," + show(sb.rating));
    CHECK_MSG(a == b || std::fabs(a - b) < 1e-6 || sa.rating != sb.rating, "different-ratings-become-equal", show(a) + " and " + show(b));
    // linear in between: the relative position on the scale is the same on every scale
    const auto relative = (a - scaleMin(from)) / (scaleMax(from) - scaleMin(from));
    CHECK_MSG(close(sa.rating, lo + relative * (hi - lo)), "relative-position", show(a) + " on " + scaleName(from) + " became " + show(sa.rating) + " on " + scaleName(to));
    // reversible, also through a third scale
    const auto back = sa.scaled(from);
    CHECK_MSG(close(back.rating, a) && back.scale == from, "not-reversible", show(a) + " -> " + show(sa.rating) + " -> " + show(back.rating));
    const auto third = scales[g.below(5)];
    const auto direct = pa.scaled(third), indirect = sa.scaled(third);
    CHECK_MSG(close(direct.rating, indirect.rating), "path-dependent", show(direct.rating) + " vs " + show(indirect.rating) + " via " + scaleName(to));
    // in-place variant and TagValue wrapper agree
    auto inPlace = pa;
    CHECK_MSG(inPlace.scaleTo(to) && inPlace == sa, "scaleTo-differs-from-scaled", show(inPlace.rating));
    TagValue v(pa);
    const auto wrapped = v.toScaledPopularity(to);
    CHECK_MSG(wrapped == sa, "toScaledPopularity-differs", show(wrapped.rating));
    CHECK_MSG(v.toPopularity() == pa, "value-not-kept", "TagValue changed the popularity");
}

PBT_TEST(unrated, 50000, 100000)
{
    // the special value "not rated" survives on scales which have one
    const TagType withUnrated[] = { TagType::Unspecified, TagType::Id3v2Tag, TagType::VorbisComment, TagType::OggVorbisComment };
    const auto from = withUnrated[g.below(4)], to = withUnrated[g.below(4)];
    Popularity p{ g.text(10, 1), 0.0, g.bits(20), from };
    g.describe(std::string("unrated ") + scaleName(from) + "->" + scaleName(to));
    if (from != to) {
        g.nontrivial();
    }
    CHECK_MSG(p.scaled(to).rating == 0.0, "unrated-becomes-rated", show(p.scaled(to).rating));
}

PBT_TEST(unsupported_scale, 50000, 100000)
{
    const TagType without[] = { TagType::Id3v1Tag, TagType::Mp4Tag };
    const auto other = without[g.below(2)];
    const auto scale = scales[g.below(5)];
    const auto toUnsupported = g.flip();
    Popularity p{ g.text(10, 1), genRating(g, scale), g.bits(30), toUnsupported ? scale : other };
    const auto before = p;
    const auto target = toUnsupported ? other : scale;
    g.nontrivial();
    g.describe("unsupported scale");
    CHECK_MSG(!p.scaleTo(target), "unsupported-scale-accepted", "scaleTo returned true");
    CHECK_MSG(p == before, "failed-scaling-modifies", show(p.rating));
    bool refused = false;
    try {
        TagValue(before).toScaledPopularity(target);
    } catch (const CppUtilities::ConversionException &) {
        refused = true;
    }
    CHECK_MSG(refused, "unsupported-scale-not-refused", "toScaledPopularity");
}

PBT_TEST(textual_form, 250000, 1000000)
{
    Popularity p;
    if (!g.chance(1, 3)) {
        const auto len = g.length(40);
        for (std::size_t i = 0; i < len; ++i) {
            char32_t c;
            do {
                c = g.codePoint(3);
            } while (c == U'|');
            p.user += toUtf8(std::u32string(1, c));
            if (i > 20) {
                break;
            }
        }
    }
    p.rating = static_cast<double>(g.range(0, 1020)) / 4.0; // representable with the precision of the textual form
    p.playCounter = g.flip() ? g.bits(64) : 0;
    p.scale = scales[g.below(5)];
    if (!p.user.empty() || p.playCounter) {
        g.nontrivial();
    }
    const auto text = p.toString();
    g.describe(pbt::quote(text));
    g.label(p.user.empty() ? (p.playCounter ? "counter only" : "rating only") : (p.playCounter ? "user and counter" : "user only"));
    const auto parsed = Popularity::fromString(text, p.scale);
    CHECK_MSG(parsed == p, "textual-form", pbt::quote(text) + " parsed as user " + pbt::quote(parsed.user) + " rating " + show(parsed.rating) + " counter " + toStr(parsed.playCounter));
    const auto generic = Popularity::fromString(text);
    CHECK_MSG(generic.scale == TagType::Unspecified && generic.rating == p.rating && generic.user == p.user && generic.playCounter == p.playCounter, "textual-form-generic", pbt::quote(text));
    // in a text value of any encoding
    const TagTextEncoding encodings[] = { TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };
    if (!text.empty()) {
        const TagValue v(text, TagTextEncoding::Utf8, encodings[g.below(3)]);
        const auto fromText = v.toScaledPopularity(p.scale);
        CHECK_MSG(fromText == p, "textual-value", pbt::quote(text) + " read as user " + pbt::quote(fromText.user) + " rating " + show(fromText.rating));
        const TagValue binary(p);
        CHECK_MSG(binary.toString(TagTextEncoding::Utf8) == text, "textual-value-of-popularity", pbt::quote(text));
    }
}

PBT_TEST(malformed_text, 50000, 200000)
{
    // "foo|bar" is no rating: refused instead of a wrong result
    const auto user = g.asciiWord(6), bad = g.asciiWord(5, 1);
    std::string text;
    switch (g.below(3)) {
    case 0:
        text = user + "|" + bad;
        break;
    case 1:
        text = user + "|3|" + bad;
        break;
    default:
        text = user + "|3|4|" + (g.flip() ? bad : std::string("5"));
    }
    g.describe(pbt::quote(text));
    g.nontrivial();
    bool refused = false;
    try {
        Popularity::fromString(text);
    } catch (const CppUtilities::ConversionException &) {
        refused = true;
    }
    CHECK_MSG(refused, "malformed-not-refused", pbt::quote(text));
}
