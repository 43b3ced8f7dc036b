#include "mp4.h"
#include <algorithm>
#include <limits>

using namespace TagParser;
using namespace util;

namespace mp4 {

std::string box(const std::string &id, std::string_view payload, bool wide)
{
    std::string r;
    if (wide) {
        be(r, 1, 4);
        r += id;
        be(r, payload.size() + 16, 8);
    } else {
        be(r, payload.size() + 8, 4);
        r += id;
    }
    r += payload;
    return r;
}

std::string fullBox(const std::string &id, unsigned version, std::uint32_t flags, std::string_view payload)
{
    std::string r;
    be(r, version, 1);
    be(r, flags, 3);
    r += payload;
    return box(id, r);
}

Boxes boxes(std::string_view data, std::uint64_t start, bool topLevel)
{
    Boxes r;
    Rd rd(data);
    while (!rd.end()) {
        Box b;
        b.start = start + rd.p;
        std::uint64_t size = rd.be(4);
        b.id = rd.str(4);
        if (size == 1) {
            size = rd.be(8);
            b.headerSize = 16;
        } else if (!size) {
            if (!topLevel) {
                throw Malformed("size of nested box " + pbt::quote(b.id) + " is zero");
            }
            b.toEnd = true;
            size = rd.left() + 8;
        }
        if (size < b.headerSize) {
            throw Malformed("size of box " + pbt::quote(b.id) + " at " + toStr(b.start) + " is only " + toStr(size));
        }
        b.data = rd.take(size - b.headerSize, ("box " + pbt::quote(b.id) + " at " + toStr(b.start)).data());
        r.push_back(b);
    }
    return r;
}

const Box *find(const Boxes &l, const std::string &id)
{
    const auto i = std::find_if(l.begin(), l.end(), [&](const Box &b) { return b.id == id; });
    return i == l.end() ? nullptr : &*i;
}

namespace {

struct Spec {
    KnownField field;
    const char *id;
    enum { Text, Position, Integer, MediaKind, Rating, Genre, Cover } kind;
};
const Spec specs[] = { { KnownField::Title, "\xA9nam", Spec::Text }, { KnownField::Album, "\xA9" "alb", Spec::Text }, { KnownField::Artist, "\xA9" "ART", Spec::Text },
    { KnownField::Comment, "\xA9" "cmt", Spec::Text }, { KnownField::RecordDate, "\xA9" "day", Spec::Text }, { KnownField::Genre, "\xA9gen", Spec::Genre },
    { KnownField::Composer, "\xA9wrt", Spec::Text }, { KnownField::Encoder, "\xA9too", Spec::Text }, { KnownField::EncodedBy, "\xA9" "enc", Spec::Text },
    { KnownField::Grouping, "\xA9grp", Spec::Text }, { KnownField::Description, "desc", Spec::Text }, { KnownField::Lyrics, "\xA9lyr", Spec::Text },
    { KnownField::Performers, "\xA9prf", Spec::Text }, { KnownField::Lyricist, "\xA9swf", Spec::Text }, { KnownField::AlbumArtist, "aART", Spec::Text },
    { KnownField::Copyright, "cprt", Spec::Text }, { KnownField::Publisher, "\xA9pub", Spec::Text }, { KnownField::SoundEngineer, "\xA9sne", Spec::Text },
    { KnownField::Producer, "\xA9prd", Spec::Text }, { KnownField::ExecutiveProducer, "\xA9xpd", Spec::Text }, { KnownField::ArtDirector, "\xA9" "ard", Spec::Text },
    { KnownField::Arranger, "\xA9" "arg", Spec::Text }, { KnownField::StoreDescription, "sdes", Spec::Text }, { KnownField::Synopsis, "ldes", Spec::Text },
    { KnownField::Conductor, "@con", Spec::Text }, { KnownField::Director, "@dir", Spec::Text }, { KnownField::RecordLabel, "\xA9lab", Spec::Text },
    { KnownField::TrackPosition, "trkn", Spec::Position }, { KnownField::DiskPosition, "disk", Spec::Position }, { KnownField::Bpm, "tmpo", Spec::Integer },
    { KnownField::MediaType, "stik", Spec::MediaKind }, { KnownField::ContentRating, "rtng", Spec::Rating }, { KnownField::Cover, "covr", Spec::Cover } };
const char *const foreignText[] = { "tvsh", "tven", "catg", "purd", "\xA9nrt", "\xA9xyz", "soal", "sonm" };
const char *const foreignInt[] = { "cpil", "pgap", "pcst", "hdvd", "tvsn", "tves", "cnID", "plID", "geID" };
struct MediaKindName {
    int id;
    const char *name;
};
const MediaKindName mediaKinds[] = { { 0, "Movie" }, { 1, "Music" }, { 2, "Audiobook" }, { 5, "Whacked Bookmark" }, { 6, "Music Video" }, { 9, "Short Film" },
    { 10, "TV Show" }, { 11, "Booklet" }, { 14, "Ringtone" }, { 21, "Podcast" } };
const MediaKindName ratings[] = { { 0, "None" }, { 2, "Clean" }, { 4, "Explicit" } };
constexpr const char *cdecId = "----:com.apple.iTunes:cdec";
constexpr const char *labelId = "----:com.apple.iTunes:LABEL";

std::string canonRating(std::int64_t v)
{
    return "int:" + std::to_string(v >= 0 && v <= 255 && v != 0 && v != 2 ? 4 : v);
}

std::string mimeOfType(std::uint32_t type)
{
    switch (type) {
    case 12:
        return "image/gif";
    case 13:
        return "image/jpeg";
    case 14:
        return "image/png";
    case 27:
        return "image/bmp";
    default:;
    }
    return std::string();
}
std::string locale(std::uint16_t country, std::uint16_t lang)
{
    return country || lang ? " (" + toStr(country) + "," + toStr(lang) + ")" : std::string();
}

std::string canonOf(const std::string &id, const Data &d)
{
    const auto suffix = locale(d.country, d.lang);
    switch (d.type) {
    case 1:
        return d.data.empty() ? std::string() : "text:" + toUtf8(fromUtf8(d.data)) + suffix;
    case 2:
        return d.data.empty() ? std::string() : "text:" + toUtf8(fromUtf16(d.data, true)) + suffix;
    case 12:
    case 13:
    case 14:
    case 27:
        return d.data.empty() ? std::string() : "pic:" + mimeOfType(d.type) + ":" + fmt::digest(d.data) + suffix;
    case 21:
    case 22: {
        const auto n = d.data.size();
        if (n != 1 && n != 2 && n != 3 && n != 4 && n != 8) {
            throw Malformed("integer has " + toStr(n) + " bytes");
        }
        Rd rd(d.data);
        auto v = rd.be(static_cast<unsigned>(n));
        if (d.type == 22 && n == 8 && (v >> 63)) {
            return "int:" + toStr(v) + suffix;
        }
        auto s = static_cast<std::int64_t>(v);
        if (d.type == 21 && n < 8 && (v >> (8 * n - 1))) {
            s -= static_cast<std::int64_t>(1) << (8 * n);
        }
        if (id == "gnre") {
            return "genre:" + std::to_string(s - 1) + suffix;
        }
        return (id == "rtng" ? canonRating(s) : "int:" + std::to_string(s)) + suffix;
    }
    case 0:
        if (id == "trkn" || id == "disk") {
            Rd rd(d.data);
            if (d.data.size() != 6 && d.data.size() != 8) {
                throw Malformed("position has " + toStr(d.data.size()) + " bytes");
            }
            rd.be(2);
            const auto p = rd.be(2), t = rd.be(2);
            return "pos:" + toStr(p) + "/" + toStr(t) + suffix;
        }
        if (id == "gnre") {
            if (d.data.size() != 2) {
                throw Malformed("genre has " + toStr(d.data.size()) + " bytes");
            }
            return "genre:" + std::to_string(static_cast<int>(Rd(d.data).be(2)) - 1) + suffix;
        }
        break;
    default:;
    }
    return d.data.empty() ? std::string() : "raw:" + toStr(d.type) + ":" + fmt::digest(d.data) + suffix;
}

std::string idOf(const Field &f)
{
    return f.id == "----" ? f.id + ":" + f.mean + ":" + f.name : f.id;
}

std::string genText(pbt::Gen &g, std::size_t max)
{
    if (g.chance(1, 40)) {
        max *= 30;
    }
    return g.text(max, static_cast<unsigned>(g.below(4)), 1);
}

std::string signedInt(std::int64_t v, unsigned n)
{
    return be(static_cast<std::uint64_t>(v), n);
}

} // namespace

std::string encodeField(const Field &f)
{
    std::string r;
    if (f.id == "----") {
        r += fullBox("mean", 0, 0, f.mean);
        r += fullBox("name", 0, 0, f.name);
    }
    for (const auto &d : f.data) {
        std::string p;
        be(p, d.type, 4);
        be(p, d.country, 2);
        be(p, d.lang, 2);
        r += box("data", p + d.data);
    }
    return box(f.id, r);
}

std::string encodeMeta(const std::vector<Field> &fields)
{
    std::string r = fullBox("hdlr", 0, 0, std::string(4, '\0') + "mdirappl" + std::string(9, '\0')), l;
    for (const auto &f : fields) {
        l += encodeField(f);
    }
    return fullBox("meta", 0, 0, r + box("ilst", l));
}

std::vector<Field> genForeign(pbt::Gen &g, const fmt::GenOptions &o)
{
    std::vector<Field> r;
    for (auto n = g.below(8); n; --n) {
        Field f;
        Data d;
        const auto text = [&] {
            if (g.chance(1, 5)) {
                d.type = 2;
                d.data = toUtf16(fromUtf8(genText(g, o.maxText)), true);
            } else {
                d.type = 1;
                d.data = genText(g, o.maxText);
            }
        };
        const auto integer = [&](unsigned maxBytes) {
            d.type = g.pick({ 21u, 21u, 22u });
            auto size = g.pick({ 1u, 2u, 3u, 4u, 8u });
            if (size > maxBytes) {
                size = maxBytes;
            }
            d.data = be(g.chance(1, 4) ? ~g.bits(8) : g.bits(8 * size), size);
        };
        switch (g.below(8)) {
        case 0:
            f.id = "----";
            f.mean = g.chance(3, 4) ? "com.apple.iTunes" : g.asciiWord(12);
            f.name = g.pick({ "cdec", "LABEL", "iTunNORM", "MusicBrainz Track Id", "X", "tool" });
            if (g.chance(1, 4)) {
                d.type = g.pick({ 0u, 23u, 70u });
                d.data = g.bytes(1 + g.length(50));
            } else {
                text();
            }
            break;
        case 1:
            f.id = foreignText[g.below(std::size(foreignText))];
            text();
            break;
        case 2:
            f.id = foreignInt[g.below(std::size(foreignInt))];
            integer(8);
            break;
        case 3: // something unknown
            f.id = g.pick({ "xid ", "\xA9" "abc", "akID", "test" });
            d.type = g.pick({ 0u, 23u, 24u, 28u, 65u, 78u });
            d.data = g.bytes(1 + g.length(60));
            break;
        case 4:
            f.id = "gnre";
            if (std::any_of(r.begin(), r.end(), [](const Field &e) { return e.id == "gnre" || e.id == "\xA9gen"; })) {
                continue;
            }
            d.type = g.chance(3, 4) ? 0 : 21;
            d.data = be(1 + g.below(192), 2);
            break;
        default: {
            const auto &s = specs[g.below(std::size(specs))];
            f.id = s.id;
            switch (s.kind) {
            case Spec::Genre:
                if (std::any_of(r.begin(), r.end(), [](const Field &e) { return e.id == "gnre"; })) {
                    continue;
                }
                text();
                break;
            case Spec::Text:
                text();
                break;
            case Spec::Position:
                d.type = 0;
                d.data = be(0, 2) + be(g.bits(16), 2) + be(g.flip() ? 0 : g.bits(16), 2);
                if (f.id == "trkn" || g.flip()) {
                    d.data += be(0, 2);
                }
                if (d.data.substr(0, 6) == std::string(6, '\0')) {
                    d.data[3] = 1;
                }
                break;
            case Spec::Integer:
                integer(4);
                break;
            case Spec::MediaKind:
                d.type = 21;
                d.data = signedInt(static_cast<std::int64_t>(g.below(24)), g.pick({ 1u, 2u }));
                break;
            case Spec::Rating:
                d.type = 21;
                d.data = signedInt(g.pick({ 0, 1, 2, 4 }), 1);
                break;
            case Spec::Cover:
                d.type = g.pick({ 13u, 14u, 12u, 27u, 0u });
                d.data = g.bytes(1 + g.length(o.maxPicture));
                break;
            }
        }
        }
        if (g.chance(1, 15)) {
            d.country = static_cast<std::uint16_t>(g.bits(16));
            d.lang = static_cast<std::uint16_t>(g.bits(16));
        }
        f.data.push_back(d);
        // further values
        if (g.chance(1, 8)) {
            for (auto m = g.range(1, 3); m; --m) {
                if (f.id == "covr") {
                    d.type = g.pick({ 13u, 14u, 12u, 27u });
                    d.data = g.bytes(1 + g.length(o.maxPicture));
                } else if (d.type == 1 || d.type == 2) {
                    text();
                    if (d.type != f.data.back().type) {
                        g.label("mixed encodings");
                    }
                }
                d.country = d.lang = 0;
                f.data.push_back(d);
            }
            g.label("several data atoms");
        }
        r.push_back(f);
    }
    return r;
}

fmt::Items decodeMeta(std::string_view data, std::vector<std::string> &problems)
{
    fmt::Items r;
    const auto children = boxes(data, 0);
    if (children.empty() || children.front().id != "hdlr") {
        problems.push_back("meta: does not start with hdlr");
    } else {
        Rd rd(children.front().data);
        rd.be(8);
        if (rd.str(4) != "mdir") {
            problems.push_back("meta: handler is not mdir");
        }
        rd.take(13, "hdlr");
    }
    auto lists = 0;
    for (const auto &c : children) {
        if (c.id != "ilst") {
            if (c.id != "hdlr" && c.id != "free") {
                problems.push_back("meta: unexpected box " + pbt::quote(c.id));
            }
            continue;
        }
        if (++lists > 1) {
            problems.push_back("meta: several ilst boxes");
        }
        for (const auto &e : boxes(c.data, 0)) {
            Field f;
            f.id = e.id;
            auto state = 0;
            for (const auto &p : boxes(e.data, 0)) {
                Rd rd(p.data);
                if (p.id == "mean" || p.id == "name") {
                    if (f.id != "----" || state != (p.id == "name")) {
                        problems.push_back("ilst: unexpected " + p.id + " in " + pbt::quote(f.id));
                    }
                    ++state;
                    if (rd.be(4)) {
                        problems.push_back("ilst: version/flags of mean/name not zero");
                    }
                    (p.id == "mean" ? f.mean : f.name) = std::string(rd.rest());
                } else if (p.id == "data") {
                    if (f.id == "----" && state != 2) {
                        problems.push_back("ilst: data without mean and name");
                    }
                    Data d;
                    d.type = static_cast<std::uint32_t>(rd.be(4));
                    d.country = static_cast<std::uint16_t>(rd.be(2));
                    d.lang = static_cast<std::uint16_t>(rd.be(2));
                    d.data = std::string(rd.rest());
                    f.data.push_back(d);
                } else {
                    problems.push_back("ilst: unexpected " + pbt::quote(p.id));
                }
            }
            if (f.data.empty()) {
                problems.push_back("ilst: " + pbt::quote(f.id) + " has no data");
            }
            for (const auto &d : f.data) {
                if (auto canon = canonOf(f.id, d); !canon.empty()) {
                    r.push_back({ idOf(f), std::move(canon) });
                }
            }
        }
    }
    return r;
}

fmt::Items ofLibrary(const Mp4Tag &tag)
{
    fmt::Items r;
    for (const auto &[key, f] : tag.fields()) {
        const auto fourcc = be(f.id(), 4);
        CHECK_MSG(key == f.id(), "field-id", pbt::quote(fourcc));
        const auto id = fourcc == "----" ? fourcc + ":" + f.mean() + ":" + f.name() : fourcc;
        const auto add = [&](const TagValue &v, std::uint32_t rawType, std::uint16_t country, std::uint16_t lang) {
            if (v.isEmpty()) {
                return;
            }
            const auto suffix = locale(country, lang);
            switch (v.type()) {
            case TagDataType::Text: {
                const auto t = tp::utf8Of(v);
                if (id == "stik") {
                    for (const auto &k : mediaKinds) {
                        if (t == k.name) {
                            r.push_back({ id, "int:" + std::to_string(k.id) + suffix });
                            return;
                        }
                    }
                }
                if (id == "rtng") {
                    for (const auto &k : ratings) {
                        if (t == k.name) {
                            r.push_back({ id, "int:" + std::to_string(k.id) + suffix });
                            return;
                        }
                    }
                }
                // values which have been assigned as text but are going to be stored as number
                if (id == "trkn" || id == "disk") {
                    const auto slash = t.find('/');
                    r.push_back({ id, "pos:" + t.substr(0, slash) + "/" + (slash == std::string::npos ? "0" : t.substr(slash + 1)) + suffix });
                } else {
                    r.push_back({ id, (id == "tmpo" ? "int:" : "text:") + t + suffix });
                }
                break;
            }
            case TagDataType::Integer:
                r.push_back({ id, "int:" + std::to_string(v.toInteger()) + suffix });
                break;
            case TagDataType::UnsignedInteger:
                r.push_back({ id, "int:" + toStr(v.toUnsignedInteger()) + suffix });
                break;
            case TagDataType::PositionInSet:
                r.push_back({ id, "pos:" + std::to_string(v.toPositionInSet().position()) + "/" + std::to_string(v.toPositionInSet().total()) + suffix });
                break;
            case TagDataType::StandardGenreIndex:
                r.push_back({ id, "genre:" + std::to_string(v.toStandardGenreIndex()) + suffix });
                break;
            case TagDataType::Picture: {
                const auto d = fmt::digest(std::string_view(v.dataPointer(), v.dataSize()));
                r.push_back({ id, (v.mimeType().empty() ? "raw:" + toStr(rawType) : "pic:" + v.mimeType()) + ":" + d + suffix });
                break;
            }
            default: {
                Data d;
                d.type = rawType;
                d.country = country;
                d.lang = lang;
                d.data = std::string(v.dataPointer(), v.dataSize());
                r.push_back({ id, canonOf(id, d) });
            }
            }
        };
        const auto addValue = [&](const TagParser::TagValue &value, std::uint32_t type, std::uint16_t country, std::uint16_t lang) {
            try {
                add(value, type, country, lang);
            } catch (const CppUtilities::ConversionException &e) { // possible for values of damaged files
                r.push_back({ id, std::string("not convertible: ") + e.what() });
            }
        };
        addValue(f.value(), f.isTypeInfoAssigned() ? f.typeInfo() : 0, f.countryIndicator(), f.languageIndicator());
        for (const auto &d : f.additionalData()) {
            addValue(d.value, d.rawDataType, d.countryIndicator, d.languageIndicator);
        }
    }
    return r;
}

void edit(pbt::Gen &g, Mp4Tag &tag, fmt::Items &model, const fmt::EditOptions &o)
{
    const auto count = [&](const std::string &id) { return std::count_if(model.begin(), model.end(), [&](const fmt::Item &i) { return i.id == id; }); };
    const auto replace = [&](const std::string &id, const std::vector<std::string> &canons) {
        model.erase(std::remove_if(model.begin(), model.end(), [&](const fmt::Item &i) { return i.id == id; }), model.end());
        for (const auto &c : canons) {
            model.push_back({ id, c });
        }
        g.describe(" " + pbt::quote(id) + (canons.empty() ? " cleared" : "=" + pbt::quote(canons.front(), 40) + (canons.size() > 1 ? "+" + toStr(canons.size() - 1) : std::string())));
    };
    const auto encoding = [&](const std::string &t) {
        const auto e = g.pick({ TagTextEncoding::Utf8, TagTextEncoding::Utf16BigEndian, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Latin1 });
        return tp::canRepresent(t, e) ? e : TagTextEncoding::Utf8;
    };
    const auto hasLocale = [&](const std::string &id) {
        return std::any_of(model.begin(), model.end(), [&](const fmt::Item &i) { return i.id == id && i.canon.back() == ')'; });
    };
    // free-form field
    if (g.chance(1, 6)) {
        const std::string mean = g.chance(3, 4) ? "com.apple.iTunes" : g.asciiWord(12), name = g.pick({ "cdec", "LABEL", "iTunNORM", "MusicBrainz Track Id", "X", "tool" });
        const auto id = "----:" + mean + ":" + name;
        if (count(id) <= 1 && !hasLocale(id)) {
            g.label("free-form");
            const auto t = g.chance(1, 8) ? std::string() : genText(g, o.maxText);
            tag.setValue(mean, name, t.empty() ? TagValue() : tp::text(t, encoding(t)));
            replace(id, t.empty() ? std::vector<std::string>() : std::vector<std::string>{ "text:" + t });
            return;
        }
    }
    // known field stored as free-form field
    if (g.chance(1, 12)) {
        const auto label = g.flip();
        std::vector<TagValue> values;
        std::vector<std::string> canons;
        const auto existing = static_cast<std::size_t>(count(labelId));
        for (auto n = label ? existing : static_cast<std::size_t>(g.range(0, 3)); n; --n) {
            const auto t = genText(g, o.maxText);
            values.push_back(tp::text(t, encoding(t)));
            canons.push_back("text:" + t);
        }
        if (!label) {
            CHECK_MSG(tag.setValues(KnownField::EncoderSettings, values) || true, "set-refused", "");
            replace(cdecId, canons);
            g.label("encoder settings");
        } else if (existing == 1) {
            // the existing free-form field is updated as well
            CHECK_MSG(tag.setValues(KnownField::RecordLabel, values), "set-refused", "");
            replace(labelId, canons);
            replace("\xA9lab", canons);
            g.label("label");
        }
        return;
    }
    const auto &s = specs[g.below(std::size(specs))];
    const std::string id = s.id;
    if (s.field == KnownField::RecordLabel && count(labelId)) {
        return;
    }
    if (s.kind == Spec::Genre && (count("gnre") > 1 || hasLocale("gnre"))) {
        return;
    }
    if (g.chance(1, 10)) {
        if (s.kind == Spec::Genre) {
            tag.setValue(KnownField::Genre, TagValue());
            if (count(id) > 1 || hasLocale(id)) { // setValue() keeps the locale
                tag.setValues(KnownField::Genre, {});
            }
            replace("gnre", {});
        } else {
            CHECK_MSG(tag.setValues(s.field, {}), "clear-refused", id);
        }
        replace(id, {});
        g.label("clear");
        return;
    }
    std::vector<TagValue> values;
    std::vector<std::string> canons;
    auto n = g.chance(1, 4) && s.kind != Spec::Genre ? static_cast<std::size_t>(g.range(2, 4)) : 1u;
    if (n > 1) {
        g.label("several values");
    }
    for (; n; --n) {
        switch (s.kind) {
        case Spec::Genre:
            if (g.flip()) {
                const auto index = static_cast<int>(g.below(192));
                TagValue v;
                v.assignStandardGenreIndex(index);
                tag.setValue(KnownField::Genre, v);
                replace(id, {});
                replace("gnre", { "genre:" + std::to_string(index) });
                return;
            }
            replace("gnre", {});
            if (count(id) > 1 || hasLocale(id)) {
                tag.fields().erase(tag.fieldId(KnownField::Genre));
            }
            {
                const auto t = genText(g, o.maxText);
                CHECK_MSG(tag.setValue(KnownField::Genre, tp::text(t, encoding(t))), "set-refused", id);
                replace(id, { "text:" + t });
            }
            return;
        case Spec::Text: {
            const auto t = genText(g, o.maxText);
            values.push_back(tp::text(t, encoding(t)));
            canons.push_back("text:" + t);
            break;
        }
        case Spec::Position: {
            auto p = PositionInSet(static_cast<int>(g.bits(16)), static_cast<int>(g.flip() ? 0 : g.bits(16)));
            if (p.isNull()) {
                p.setPosition(1);
            }
            canons.push_back("pos:" + std::to_string(p.position()) + "/" + std::to_string(p.total()));
            const auto t = p.toString();
            values.push_back(g.flip() || !p.position() ? TagValue(p) : tp::text(t, encoding(t)));
            break;
        }
        case Spec::Integer: {
            const auto v = static_cast<int>(g.chance(1, 4) ? ~static_cast<std::int64_t>(g.bits(31)) : static_cast<std::int64_t>(g.bits(31)));
            canons.push_back("int:" + std::to_string(v));
            const auto t = std::to_string(v);
            values.push_back(g.flip() || v == std::numeric_limits<int>::min() ? TagValue(v) : tp::text(t, encoding(t)));
            break;
        }
        case Spec::MediaKind:
        case Spec::Rating: {
            const auto &k = s.kind == Spec::Rating ? ratings[g.below(std::size(ratings))] : mediaKinds[g.below(std::size(mediaKinds))];
            canons.push_back("int:" + std::to_string(k.id));
            values.push_back(g.flip() ? TagValue(k.id) : tp::text(k.name, TagTextEncoding::Utf8));
            break;
        }
        case Spec::Cover: {
            const std::string mime = g.pick({ "image/jpeg", "image/png", "image/gif", "image/bmp" });
            const auto data = g.bytes(1 + g.length(o.maxPicture));
            TagValue v(data.data(), data.size(), TagDataType::Picture);
            v.setMimeType(mime);
            values.push_back(v);
            canons.push_back("pic:" + mime + ":" + fmt::digest(data));
            g.label("cover");
            break;
        }
        }
    }
    if (values.size() == 1 && count(id) <= 1 && !hasLocale(id) && g.flip()) {
        CHECK_MSG(tag.setValue(s.field, values.front()), "set-refused", id);
    } else {
        CHECK_MSG(tag.setValues(s.field, values), "set-refused", id);
    }
    replace(id, canons);
}

} // namespace mp4
