#include "vorbis.h"
#include <algorithm>
#include <cstdlib>

using namespace TagParser;
using namespace util;

namespace vorbis {

namespace {

std::string upper(std::string s)
{
    for (auto &c : s) {
        if (c >= 'a' && c <= 'z') {
            c = static_cast<char>(c - 32);
        }
    }
    return s;
}

std::string canonValue(const std::string &id, const std::string &value)
{
    if (id == "METADATA_BLOCK_PICTURE") {
        try {
            return canonPicture(decodePicture(unbase64(value)));
        } catch (const Malformed &) {
            return "?" + value;
        }
    }
    if (id == "RATING") {
        char *end;
        const auto d = std::strtod(value.data(), &end);
        if (!value.empty() && !*end) {
            return std::to_string(d);
        }
    }
    return value;
}

struct Spec {
    KnownField field;
    const char *id;
};
const Spec specs[] = { { KnownField::Title, "TITLE" }, { KnownField::Album, "ALBUM" }, { KnownField::Artist, "ARTIST" }, { KnownField::Comment, "COMMENT" },
    { KnownField::RecordDate, "DATE" }, { KnownField::Genre, "GENRE" }, { KnownField::TrackPosition, "TRACKNUMBER" }, { KnownField::DiskPosition, "DISCNUMBER" },
    { KnownField::PartNumber, "PARTNUMBER" }, { KnownField::Composer, "COMPOSER" }, { KnownField::Encoder, "ENCODER" }, { KnownField::EncodedBy, "ENCODED_BY" },
    { KnownField::EncoderSettings, "ENCODER_OPTIONS" }, { KnownField::Description, "DESCRIPTION" }, { KnownField::Grouping, "GROUPING" },
    { KnownField::RecordLabel, "LABEL" }, { KnownField::Performers, "PERFORMER" }, { KnownField::Language, "LANGUAGE" }, { KnownField::Lyricist, "LYRICIST" },
    { KnownField::Lyrics, "LYRICS" }, { KnownField::AlbumArtist, "ALBUMARTIST" }, { KnownField::Conductor, "CONDUCTOR" }, { KnownField::Copyright, "COPYRIGHT" },
    { KnownField::License, "LICENSE" }, { KnownField::Director, "DIRECTOR" }, { KnownField::ISRC, "ISRC" }, { KnownField::Rating, "RATING" },
    { KnownField::Bpm, "BPM" }, { KnownField::Publisher, "PUBLISHER" }, { KnownField::PublisherWebpage, "WWWPUBLISHER" },
    { KnownField::PerformerWebpage, "WEBSITE" }, { KnownField::Arranger, "ARRANGER" }, { KnownField::Cover, "METADATA_BLOCK_PICTURE" } };

const char *const customIds[] = { "REPLAYGAIN_TRACK_GAIN", "MUSICBRAINZ_TRACKID", "CUSTOM FIELD", "X", "~!}", "ENSEMBLE" };

std::string genText(pbt::Gen &g, std::size_t max)
{
    if (g.chance(1, 40)) {
        max *= 30;
    }
    return g.text(max, static_cast<unsigned>(g.below(4)), 1);
}

} // namespace

std::string encodePicture(const Picture &p)
{
    std::string r;
    be(r, p.type, 4);
    be(r, p.mime.size(), 4);
    r += p.mime;
    be(r, p.description.size(), 4);
    r += p.description;
    be(r, p.width, 4);
    be(r, p.height, 4);
    be(r, p.depth, 4);
    be(r, p.colors, 4);
    be(r, p.data.size(), 4);
    return r + p.data;
}

Picture decodePicture(std::string_view d)
{
    Picture p;
    Rd rd(d);
    p.type = static_cast<std::uint32_t>(rd.be(4));
    p.mime = rd.str(rd.be(4));
    p.description = rd.str(rd.be(4));
    p.width = static_cast<std::uint32_t>(rd.be(4));
    p.height = static_cast<std::uint32_t>(rd.be(4));
    p.depth = static_cast<std::uint32_t>(rd.be(4));
    p.colors = static_cast<std::uint32_t>(rd.be(4));
    p.data = rd.str(rd.be(4));
    if (!rd.end()) {
        throw Malformed("trailing data in picture");
    }
    for (const auto c : p.mime) {
        if (c < 0x20 || c > 0x7E) {
            throw Malformed("MIME type contains non-printable characters");
        }
    }
    fromUtf8(p.description);
    return p;
}

std::string canonPicture(const Picture &p)
{
    // the dimensions are not accessible via the library
    return "type " + toStr(p.type) + " mime " + p.mime + " [" + p.description + "] " + fmt::digest(p.data);
}

std::string encode(const Comment &c)
{
    std::string r;
    le(r, c.vendor.size(), 4);
    r += c.vendor;
    le(r, c.fields.size(), 4);
    for (const auto &f : c.fields) {
        le(r, f.first.size() + 1 + f.second.size(), 4);
        r += f.first + "=" + f.second;
    }
    return r;
}

Comment decode(Rd &rd)
{
    Comment c;
    c.vendor = rd.str(rd.le(4));
    fromUtf8(c.vendor);
    const auto n = rd.le(4);
    for (std::uint64_t i = 0; i < n; ++i) {
        const auto f = rd.str(rd.le(4));
        const auto eq = f.find('=');
        if (eq == std::string::npos || !eq) {
            throw Malformed("comment without field name: " + pbt::quote(f));
        }
        for (std::size_t k = 0; k < eq; ++k) {
            if (f[k] < 0x20 || f[k] > 0x7D) {
                if (f[k] != '~') {
                    throw Malformed("invalid field name: " + pbt::quote(f));
                }
            }
        }
        fromUtf8(f.substr(eq + 1));
        c.fields.emplace_back(f.substr(0, eq), f.substr(eq + 1));
    }
    return c;
}

Picture genPicture(pbt::Gen &g, std::size_t maxData)
{
    Picture p;
    p.type = static_cast<std::uint32_t>(g.below(21));
    p.mime = g.pick({ "image/jpeg", "image/png", "image/gif", "-->" });
    p.description = g.flip() ? g.text(40, static_cast<unsigned>(g.below(4))) : std::string();
    p.data = g.bytes(1 + g.length(maxData));
    return p;
}

Comment genForeign(pbt::Gen &g, const fmt::GenOptions &o, bool pictures)
{
    Comment c;
    c.vendor = g.text(30, g.flip() ? 0 : 2);
    const auto n = o.tags ? g.below(8) : 0;
    const auto lower = g.chance(1, 4);
    for (std::uint64_t i = 0; i < n; ++i) {
        std::string id, value;
        if (g.chance(1, 4)) {
            id = customIds[g.below(std::size(customIds))];
            value = genText(g, o.maxText);
        } else {
            const auto &s = specs[g.below(std::size(specs))];
            id = s.id;
            switch (s.field) {
            case KnownField::Cover:
                if (!pictures) {
                    continue;
                }
                value = base64(encodePicture(genPicture(g, o.maxPicture)));
                break;
            case KnownField::Rating:
                value = g.flip() ? toStr(g.below(101)) : g.text(8, 0, 1);
                break;
            case KnownField::RecordDate:
                if (g.chance(1, 3) && std::none_of(c.fields.begin(), c.fields.end(), [](auto &f) { return upper(f.first) == "DATE"; })) {
                    id = "YEAR";
                }
                value = toStr(static_cast<std::uint64_t>(g.range(1900, 2030)));
                break;
            default:
                value = genText(g, o.maxText);
            }
        }
        if (lower) {
            for (auto &ch : id) {
                ch = ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch;
            }
        }
        c.fields.emplace_back(id, value);
    }
    return c;
}

void canonicalize(Items &items)
{
    for (auto &i : items) {
        if (i.id == "RATING" && i.canon == "-" + std::to_string(0.0)) {
            i.canon = std::to_string(0.0);
        }
    }
    // "YEAR" is considered an alias of "DATE" if the latter is not present
    if (std::none_of(items.begin(), items.end(), [](const Item &i) { return i.id == "DATE"; })) {
        for (auto &i : items) {
            if (i.id == "YEAR") {
                i.id = "DATE";
            }
        }
    }
}

Items items(const Comment &c)
{
    Items r;
    r.push_back({ "VENDOR", c.vendor });
    for (const auto &f : c.fields) {
        if (!f.second.empty()) {
            r.push_back({ upper(f.first), canonValue(upper(f.first), f.second) });
        }
    }
    canonicalize(r);
    return r;
}

Items ofLibrary(const VorbisComment &c)
{
    Items r;
    r.push_back({ "VENDOR", tp::utf8Of(c.vendor()) });
    for (const auto &f : c.fields()) {
        const auto &v = f.second.value();
        if (v.isEmpty()) {
            continue;
        }
        const auto id = upper(f.first);
        if (v.type() == TagDataType::Picture) {
            Picture p;
            p.type = f.second.typeInfo();
            p.mime = v.mimeType();
            p.description = tp::descriptionUtf8(v);
            p.data = std::string(v.dataPointer(), v.dataSize());
            r.push_back({ id, canonPicture(p) });
        } else if (v.type() == TagDataType::Popularity) {
            r.push_back({ id, std::to_string(v.toPopularity().rating) });
        } else {
            r.push_back({ id, canonValue(id, v.toString(TagTextEncoding::Utf8)) });
        }
    }
    canonicalize(r);
    return r;
}

void edit(pbt::Gen &g, VorbisComment &comment, Items &model, const fmt::EditOptions &o)
{
    const auto replace = [&](const std::string &id, const std::vector<std::string> &canons) {
        model.erase(std::remove_if(model.begin(), model.end(), [&](const Item &i) { return i.id == id; }), model.end());
        for (const auto &c : canons) {
            model.push_back({ id, c });
        }
        g.describe(" " + id + (canons.empty() ? " cleared" : "=" + pbt::quote(canons.front(), 40) + (canons.size() > 1 ? "+" + toStr(canons.size() - 1) : std::string())));
    };
    const auto encoding = [&](const std::string &t) {
        const auto e = g.pick({ TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian, TagTextEncoding::Latin1 });
        return tp::canRepresent(t, e) ? e : TagTextEncoding::Utf8;
    };
    if (g.chance(1, 12)) {
        const auto v = g.text(o.maxText, static_cast<unsigned>(g.below(4)), 1);
        comment.setVendor(tp::text(v, encoding(v)));
        replace("VENDOR", { v });
        return;
    }
    const auto custom = g.chance(1, 6);
    const auto &s = specs[g.below(std::size(specs))];
    const std::string id = custom ? customIds[g.below(std::size(customIds))] : s.id;
    const auto field = custom ? KnownField::Invalid : s.field;
    const auto hasYear = std::any_of(model.begin(), model.end(), [](const Item &i) { return i.id == "YEAR"; });
    if (g.chance(1, 10) && !(hasYear && id == "DATE")) {
        if (custom) {
            comment.setValues(id, {});
        } else {
            comment.setValues(field, {});
        }
        replace(id, {});
        g.label("clear");
        return;
    }
    const auto count = g.chance(1, 3) ? static_cast<std::size_t>(g.range(2, 4)) : 1u;
    if (field == KnownField::Cover) {
        std::vector<std::string> canons;
        comment.fields().erase(id);
        for (std::size_t i = 0; i < count; ++i) {
            const auto p = genPicture(g, o.maxPicture);
            TagValue v(p.data.data(), p.data.size(), TagDataType::Picture);
            v.setMimeType(p.mime);
            if (!p.description.empty()) {
                tp::setDescription(v, p.description, encoding(p.description));
            }
            VorbisCommentField f(id, v);
            f.setTypeInfo(p.type);
            comment.fields().emplace(id, std::move(f));
            canons.push_back(canonPicture(p));
        }
        replace(id, canons);
        g.label(count > 1 ? "several pictures" : "picture");
        return;
    }
    std::vector<TagValue> values;
    std::vector<std::string> canons;
    for (std::size_t i = 0; i < count; ++i) {
        std::string c;
        switch (field) {
        case KnownField::TrackPosition:
        case KnownField::DiskPosition:
        case KnownField::PartNumber: {
            auto p = PositionInSet(static_cast<int>(g.bits(20)), static_cast<int>(g.bits(20)));
            if (p.isNull()) {
                p.setPosition(1);
            }
            c = p.position() ? std::to_string(p.position()) : std::string();
            if (p.total()) {
                c += "/" + std::to_string(p.total());
            }
            values.push_back(g.flip() ? TagValue(p) : tp::text(c, encoding(c)));
            break;
        }
        case KnownField::Rating: {
            const auto r = g.below(101);
            Popularity p;
            p.rating = static_cast<double>(r);
            p.scale = TagType::VorbisComment;
            if (!r) {
                p.rating = 1;
            }
            values.push_back(TagValue(p));
            c = std::to_string(p.rating);
            break;
        }
        case KnownField::Bpm: {
            const auto n = static_cast<int>(g.bits(31));
            c = std::to_string(n);
            values.push_back(g.flip() ? TagValue(n) : tp::text(c, encoding(c)));
            break;
        }
        case KnownField::Genre:
            if (g.flip()) {
                const auto index = static_cast<int>(g.below(192));
                TagValue v;
                v.assignStandardGenreIndex(index);
                c = std::string(v.toString(TagTextEncoding::Utf8));
                values.push_back(v);
                break;
            }
            [[fallthrough]];
        default:
            c = genText(g, o.maxText);
            values.push_back(tp::text(c, encoding(c)));
        }
        canons.push_back(c);
    }
    if (count > 1) {
        g.label("several values");
    }
    if (custom) {
        comment.setValues(id, values);
    } else {
        CHECK_MSG(comment.setValues(field, values), "set-refused", id);
    }
    replace(id, canons);
}

} // namespace vorbis
