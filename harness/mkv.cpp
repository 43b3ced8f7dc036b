#include "mkv.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <sstream>
#include <tagparser/matroska/matroskaattachment.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/matroska/matroskatrack.h>

using namespace TagParser;
using namespace util;
using fmt::Items;
using fmt::TagModel;

namespace mkv {

// encoding

std::string id(std::uint32_t id)
{
    std::string r;
    be(r, id, id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1);
    return r;
}

std::string size(std::uint64_t value, unsigned length)
{
    unsigned n = 1;
    while (value >= (std::uint64_t(1) << (7 * n)) - 1) {
        ++n;
    }
    n = std::max(n, length);
    std::string r;
    be(r, value | (std::uint64_t(1) << (7 * n)), n);
    return r;
}

std::string el(std::uint32_t i, std::string_view payload, unsigned sizeLength)
{
    return (id(i) + size(payload.size(), sizeLength)).append(payload);
}

std::string num(std::uint32_t i, std::uint64_t value, unsigned width)
{
    unsigned n = 1;
    while (n < 8 && value >> (8 * n)) {
        ++n;
    }
    return el(i, be(value, std::max(n, width)));
}

std::string flt(std::uint32_t i, double value, bool wide)
{
    if (wide) {
        std::uint64_t v;
        std::memcpy(&v, &value, 8);
        return el(i, be(v, 8));
    }
    const auto f = static_cast<float>(value);
    std::uint32_t v;
    std::memcpy(&v, &f, 4);
    return el(i, be(v, 4));
}

std::string voidElement(std::uint64_t total)
{
    if (total < 2) {
        throw std::logic_error("void element is too small");
    }
    const auto length = total < 64 ? 1u : 8u;
    return el(Void, std::string(total - 1 - length, '\0'), length);
}

std::string master(std::uint32_t i, std::string_view payload, bool crc, unsigned sizeLength)
{
    return crc ? el(i, el(Crc32, le(crc32Ieee(payload), 4)).append(payload), sizeLength) : el(i, payload, sizeLength);
}

// decoding

namespace {
int levelOf(std::uint32_t id)
{
    switch (id) {
    case Ebml:
    case Segment:
        return 0;
    case SeekHead:
    case Info:
    case Tracks:
    case Chapters:
    case Tags:
    case Attachments:
    case Cues:
    case Cluster:
        return 1;
    default:
        return 9;
    }
}
} // namespace

Elements elements(std::string_view data, std::uint64_t start, int level)
{
    Elements r;
    Rd rd(data);
    while (!rd.end()) {
        Element e;
        const auto begin = rd.p;
        e.start = start + begin;
        const auto first = static_cast<unsigned char>(data[rd.p]);
        unsigned n = 1;
        while (n <= 4 && !(first & (0x80 >> (n - 1)))) {
            ++n;
        }
        if (n > 4) {
            throw Malformed("invalid element ID at " + toStr(e.start));
        }
        e.id = static_cast<std::uint32_t>(rd.be(n));
        rd.need(1, "element size");
        const auto firstSize = static_cast<unsigned char>(data[rd.p]);
        if (!firstSize) {
            throw Malformed("invalid element size at " + toStr(e.start));
        }
        n = 1;
        while (!(firstSize & (0x80 >> (n - 1)))) {
            ++n;
        }
        const auto mask = (std::uint64_t(1) << (7 * n)) - 1;
        const auto length = rd.be(n) & mask;
        e.headerSize = rd.p - begin;
        if (length == mask) {
            e.unknownSize = true;
            if (e.id == Segment) {
                e.data = rd.rest();
                rd.p = data.size();
            } else if (e.id == Cluster) {
                // ends with the next element which can not be a child
                const auto from = rd.p;
                while (!rd.end()) {
                    const auto b = static_cast<unsigned char>(data[rd.p]);
                    if ((b & 0xF0) == 0x10 && rd.left() >= 4) {
                        Rd peek(data.substr(rd.p, 4));
                        if (levelOf(static_cast<std::uint32_t>(peek.be(4))) <= 1) {
                            break;
                        }
                    }
                    // skip child
                    Rd child(data.substr(rd.p));
                    unsigned k = 1;
                    while (k <= 4 && !(b & (0x80 >> (k - 1)))) {
                        ++k;
                    }
                    if (k > 4) {
                        throw Malformed("invalid element ID at " + toStr(start + rd.p));
                    }
                    child.take(k);
                    child.need(1, "element size");
                    const auto s = static_cast<unsigned char>(child.d[child.p]);
                    if (!s) {
                        throw Malformed("invalid element size at " + toStr(start + rd.p));
                    }
                    k = 1;
                    while (!(s & (0x80 >> (k - 1)))) {
                        ++k;
                    }
                    const auto childMask = (std::uint64_t(1) << (7 * k)) - 1;
                    const auto childSize = child.be(k) & childMask;
                    if (childSize == childMask) {
                        throw Malformed("unknown size within cluster");
                    }
                    child.take(childSize);
                    rd.p += child.p;
                }
                e.data = data.substr(from, rd.p - from);
            } else {
                throw Malformed("element " + toStr(e.id) + " has unknown size");
            }
        } else {
            rd.need(length, "element data");
            e.data = rd.take(length);
        }
        if (level > 0 && levelOf(e.id) < level && e.id != Void && e.id != Crc32) {
            throw Malformed("element " + toStr(e.id) + " at " + toStr(e.start) + " is not allowed here");
        }
        r.push_back(e);
    }
    return r;
}

Elements children(const Element &e, std::vector<std::string> &problems)
{
    Elements r;
    auto first = true;
    for (const auto &c : elements(e.data, e.dataStart(), 2)) {
        if (c.id == Crc32) {
            if (!first) {
                problems.push_back("CRC-32 at " + toStr(c.start) + " is not the first child");
            } else if (c.data.size() != 4) {
                problems.push_back("CRC-32 at " + toStr(c.start) + " has " + toStr(c.data.size()) + " bytes");
            } else {
                Rd rd(c.data);
                if (rd.le(4) != crc32Ieee(e.data.substr(c.end() - e.dataStart()))) {
                    problems.push_back("wrong CRC-32 at " + toStr(c.start) + " in element " + pbt::hex(id(e.id)));
                }
            }
        } else if (c.id != Void) {
            r.push_back(c);
        }
        first = false;
    }
    return r;
}

const Element *find(const Elements &elements, std::uint32_t id)
{
    for (const auto &e : elements) {
        if (e.id == id) {
            return &e;
        }
    }
    return nullptr;
}

std::uint64_t readNum(const Element &e)
{
    if (e.data.size() > 8) {
        throw Malformed("integer of " + toStr(e.data.size()) + " bytes");
    }
    Rd rd(e.data);
    return rd.be(static_cast<unsigned>(e.data.size()));
}

std::string readStr(const Element &e)
{
    return std::string(e.data.substr(0, e.data.find('\0')));
}

// tags

namespace {
struct Spec {
    KnownField field;
    const char *id;
};
const Spec specs[] = {
    { KnownField::Title, "TITLE" },
    { KnownField::Artist, "ARTIST" },
    { KnownField::Album, "ALBUM" },
    { KnownField::Comment, "COMMENT" },
    { KnownField::RecordDate, "DATE_RECORDED" },
    { KnownField::ReleaseDate, "DATE_RELEASED" },
    { KnownField::Genre, "GENRE" },
    { KnownField::PartNumber, "PART_NUMBER" },
    { KnownField::TotalParts, "TOTAL_PARTS" },
    { KnownField::Encoder, "ENCODER" },
    { KnownField::EncoderSettings, "ENCODER_SETTINGS" },
    { KnownField::Bpm, "BPM" },
    { KnownField::Rating, "RATING" },
    { KnownField::Description, "DESCRIPTION" },
    { KnownField::Lyrics, "LYRICS" },
    { KnownField::RecordLabel, "LABEL" },
    { KnownField::Performers, "ACTOR" },
    { KnownField::Lyricist, "LYRICIST" },
    { KnownField::Composer, "COMPOSER" },
    { KnownField::AlbumArtist, "ACCOMPANIMENT" },
    { KnownField::Subtitle, "SUBTITLE" },
    { KnownField::LeadPerformer, "LEAD_PERFORMER" },
    { KnownField::Arranger, "ARRANGER" },
    { KnownField::Conductor, "CONDUCTOR" },
    { KnownField::Director, "DIRECTOR" },
    { KnownField::AssistantDirector, "ASSISTANT_DIRECTOR" },
    { KnownField::SoundEngineer, "SOUND_ENGINEER" },
    { KnownField::Character, "CHARACTER" },
    { KnownField::WrittenBy, "WRITTEN_BY" },
    { KnownField::EncodedBy, "ENCODED_BY" },
    { KnownField::RemixedBy, "REMIXED_BY" },
    { KnownField::Publisher, "PUBLISHER" },
    { KnownField::Mood, "MOOD" },
    { KnownField::Keywords, "KEYWORDS" },
    { KnownField::InitialKey, "INITIAL_KEY" },
    { KnownField::EncodingDate, "DATE_ENCODED" },
    { KnownField::TaggingDate, "DATE_TAGGED" },
    { KnownField::ISRC, "ISRC" },
    { KnownField::Barcode, "BARCODE" },
    { KnownField::CatalogNumber, "CATALOG_NUMBER" },
    { KnownField::IMDB, "IMDB" },
    { KnownField::PurchaseOwner, "PURCHASE_OWNER" },
    { KnownField::Copyright, "COPYRIGHT" },
    { KnownField::License, "LICENSE" },
};
const char *const customIds[] = { "X-CUSTOM", "MixedCase", "lower case custom", "Ünïcode", "TITLE_SORT_CUSTOM", "_" };

std::string upper(std::string s)
{
    for (auto &c : s) {
        c = c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c;
    }
    return s;
}

/// the names of well-known fields are not case-sensitive
std::string normalized(const std::string &id)
{
    const auto u = upper(id);
    return std::any_of(std::begin(specs), std::end(specs), [&](const Spec &s) { return u == s.id; }) ? u : id;
}

constexpr char separator = '\x1e';
struct Value {
    std::string text, lang, ietf;
    bool binary = false;
};
std::string canonValue(const std::string &id, const Value &v)
{
    auto t = v.binary ? "binary " + fmt::digest(v.text) : "text " + v.text;
    std::replace(t.begin(), t.end(), separator, '?');
    if (upper(id) == "RATING" && !v.binary) {
        // ratings are compared as numbers
        char *end = nullptr;
        const auto d = std::strtod(v.text.data(), &end);
        if (!v.text.empty() && end == v.text.data() + v.text.size() && std::isfinite(d)) {
            t = "rating " + std::to_string(d);
        }
    }
    return t + "|" + (v.lang == "und" ? std::string() : v.lang) + "|" + v.ietf;
}
std::string attributes(bool def, std::vector<std::string> nested)
{
    std::string r(1, separator);
    r += def ? "" : "not default";
    for (const auto &n : nested) {
        r += " {" + n + "}";
    }
    return r;
}
std::string emptyValue()
{
    return "text ||";
}

std::string decodeSimpleTag(const Element &e, std::string &name, std::vector<std::string> &problems)
{
    Value v;
    auto def = true, hasName = false, hasValue = false;
    std::vector<std::string> nested;
    for (const auto &c : children(e, problems)) {
        switch (c.id) {
        case TagName:
            if (hasName) {
                problems.push_back("several TagName elements");
            }
            name = readStr(c);
            hasName = true;
            break;
        case TagLanguage:
            v.lang = readStr(c);
            break;
        case TagLanguageIetf:
            v.ietf = readStr(c);
            break;
        case TagDefault:
            def = readNum(c) != 0;
            break;
        case TagString:
        case TagBinary:
            if (hasValue) {
                problems.push_back("several values in SimpleTag");
            }
            hasValue = true;
            v.binary = c.id == TagBinary;
            v.text = v.binary ? std::string(c.data) : std::string(c.data.substr(0, c.data.find_last_not_of('\0') + 1));
            break;
        case SimpleTag: {
            std::string nestedName;
            const auto n = decodeSimpleTag(c, nestedName, problems);
            nested.push_back(nestedName + "=" + n);
            break;
        }
        default:
            problems.push_back("unknown element in SimpleTag");
        }
    }
    if (!hasName || name.empty()) {
        problems.push_back("SimpleTag without name at " + toStr(e.start));
    }
    if (v.text.empty()) {
        v.binary = false; // nothing is nothing
    }
    return canonValue(name, v) + attributes(def, nested);
}

std::string targetText(std::uint64_t level, const std::string &name, const std::vector<std::uint64_t> (&ids)[4])
{
    auto r = toStr(level ? level : 50) + " " + name;
    const char *names[] = { " tracks", " editions", " chapters", " attachments" };
    for (auto i = 0; i < 4; ++i) {
        for (const auto v : ids[i]) {
            if (v) { // zero means all
                r += names[i] + std::string(" ") + toStr(v);
            }
        }
    }
    return r;
}
std::string targetText(const TagTarget &t)
{
    return targetText(t.level(), t.levelName(), { t.tracks(), t.editions(), t.chapters(), t.attachments() });
}

/// fields without value and without nested fields do not matter
bool matters(const std::string &canon)
{
    return canon != emptyValue() + attributes(true, {}) && canon != emptyValue() + attributes(false, {});
}
} // namespace

void sort(Items &items)
{
    std::stable_sort(items.begin(), items.end(), [](const fmt::Item &a, const fmt::Item &b) { return a.id < b.id; });
}

TagModel decodeTag(const Element &tag, std::vector<std::string> &problems)
{
    TagModel m;
    m.type = "matroska";
    std::uint64_t level = 50;
    std::string name;
    std::vector<std::uint64_t> ids[4];
    auto targets = false;
    for (const auto &c : children(tag, problems)) {
        if (c.id == Targets) {
            if (targets) {
                problems.push_back("several Targets elements");
            }
            targets = true;
            for (const auto &t : children(c, problems)) {
                switch (t.id) {
                case TargetTypeValue:
                    level = readNum(t);
                    break;
                case TargetType:
                    name = readStr(t);
                    break;
                case TagTrackUid:
                    ids[0].push_back(readNum(t));
                    break;
                case TagEditionUid:
                    ids[1].push_back(readNum(t));
                    break;
                case TagChapterUid:
                    ids[2].push_back(readNum(t));
                    break;
                case TagAttachmentUid:
                    ids[3].push_back(readNum(t));
                    break;
                default:
                    problems.push_back("unknown element in Targets");
                }
            }
        } else if (c.id == SimpleTag) {
            std::string id;
            const auto canon = decodeSimpleTag(c, id, problems);
            if (matters(canon)) {
                m.items.push_back({ normalized(id), canon });
            }
        } else {
            problems.push_back("unknown element in Tag");
        }
    }
    if (!targets) {
        problems.push_back("Tag lacks Targets");
    }
    m.target = targetText(level, name, ids);
    mkv::sort(m.items);
    return m;
}

TagModel decodeAttachment(const Element &file, std::vector<std::string> &problems)
{
    TagModel m;
    m.type = "attachment";
    std::string name, description, mime, data = fmt::digest(std::string_view());
    fmt::Items further; // not accessible via the library but kept
    std::uint64_t uid = 0;
    auto hasData = false;
    for (const auto &c : children(file, problems)) {
        switch (c.id) {
        case FileName:
            name = readStr(c);
            break;
        case FileDescription:
            description = readStr(c);
            break;
        case FileMimeType:
            mime = readStr(c);
            break;
        case FileUid:
            uid = readNum(c);
            break;
        case FileData:
            if (hasData) {
                problems.push_back("several FileData elements");
            }
            hasData = true;
            data = fmt::digest(c.data);
            break;
        case FileReferral:
        case FileUsedStartTime:
        case FileUsedEndTime:
            further.push_back({ "further " + pbt::hex(be(c.id, 2)), fmt::digest(c.data) });
            break;
        default:
            break;
        }
    }
    std::sort(further.begin(), further.end(), [](const fmt::Item &a, const fmt::Item &b) { return a.id < b.id; });
    m.target = toStr(uid);
    m.items = { { "data", data }, { "description", description }, { "mime", mime }, { "name", name } };
    m.items.insert(m.items.end(), further.begin(), further.end());
    return m;
}

namespace {
TagModel trackModel(std::uint64_t uid, const std::string &name, const std::string &lang, const std::string &ietf, bool enabled, bool def, bool forced)
{
    TagModel m;
    m.type = "track";
    m.target = toStr(uid);
    m.items = { { "default", toStr(def) }, { "enabled", toStr(enabled) }, { "forced", toStr(forced) }, { "ietf", ietf }, { "language", lang == "und" ? std::string() : lang }, { "name", name } };
    return m;
}
} // namespace

TagModel decodeTrackSettings(const Elements &trackChildren)
{
    std::string name, lang = "eng", ietf;
    std::uint64_t uid = 0;
    auto enabled = true, def = true, forced = false;
    for (const auto &c : trackChildren) {
        switch (c.id) {
        case TrackUid:
            uid = readNum(c);
            break;
        case TrackName:
            name = readStr(c);
            break;
        case Language:
            lang = readStr(c);
            break;
        case LanguageIetf:
            ietf = readStr(c);
            break;
        case FlagEnabled:
            enabled = readNum(c);
            break;
        case FlagDefault:
            def = readNum(c);
            break;
        case FlagForced:
            forced = readNum(c);
            break;
        default:
            break;
        }
    }
    if (!ietf.empty()) {
        // the IETF language takes precedence
        lang = std::string();
    }
    return trackModel(uid, name, lang, ietf, enabled, def, forced);
}

// generating

namespace {
const char *const languages[] = { "und", "eng", "ger", "fre", "jpn", "mul" };
const char *const ietfs[] = { "en", "de-DE", "ja", "zh-Hant-TW" };

std::string genIetf(pbt::Gen &g)
{
    std::string r = ietfs[g.below(std::size(ietfs))];
    if (g.chance(1, 12)) { // private use subtags might be of any length in sum
        r += "-x";
        for (const auto size = static_cast<std::size_t>(g.range(110, 140)); r.size() < size;) {
            r += "-" + std::string(static_cast<std::size_t>(g.range(1, 8)), 'a');
        }
    }
    return r;
}

std::string genText(pbt::Gen &g, std::size_t max)
{
    return g.text(max, static_cast<unsigned>(g.below(4)), 1);
}

std::string genRating(pbt::Gen &g)
{
    return g.pick({ "1", "2", "3", "4", "5", "3.5", "4.25" });
}

std::string crcVoid(pbt::Gen &g, bool rich)
{
    return rich && g.chance(1, 10) ? voidElement(static_cast<std::uint64_t>(g.range(2, 80))) : std::string();
}

std::string genSimpleTag(pbt::Gen &g, const fmt::GenOptions &o, unsigned depth)
{
    std::string id, r;
    if (g.chance(1, 4)) {
        id = customIds[g.below(std::size(customIds))];
    } else {
        id = specs[g.below(std::size(specs))].id;
        if (!depth && o.rich && g.chance(1, 8) && id != "RATING") {
            std::transform(id.begin(), id.end(), id.begin(), [](char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; });
        }
    }
    const auto nested = o.rich && depth < 3 && g.chance(1, 6);
    const auto over = o.rich && g.chance(1, 6) ? static_cast<unsigned>(g.range(1, 8)) : 0u;
    std::vector<std::string> parts = { el(TagName, id, over) };
    if (g.chance(2, 3)) {
        parts.push_back(el(TagLanguage, languages[g.below(std::size(languages))]));
    }
    if (o.rich && g.chance(1, 6)) {
        parts.push_back(el(TagLanguageIetf, genIetf(g)));
    }
    if (g.flip()) {
        parts.push_back(num(TagDefault, g.flip()));
    }
    if (upper(id) == "RATING") {
        parts.push_back(el(TagString, genRating(g)));
    } else if (o.rich && g.chance(1, 10)) {
        parts.push_back(el(TagBinary, g.bytes(1 + g.length(300)), over));
    } else if (!(nested && g.chance(1, 4))) {
        parts.push_back(el(TagString, genText(g, o.maxText), over));
    }
    if (nested) {
        for (auto n = g.range(1, 3); n; --n) {
            parts.push_back(genSimpleTag(g, o, depth + 1));
        }
    }
    if (o.rich && g.chance(1, 6)) {
        // the order of elements is not defined; nested fields must keep their order, though
        std::stable_sort(parts.begin(), parts.end());
    }
    for (const auto &p : parts) {
        r += p + crcVoid(g, o.rich);
    }
    return master(SimpleTag, r, o.rich && g.chance(1, 12), over);
}
} // namespace

std::string genTags(pbt::Gen &g, const fmt::GenOptions &o, const std::vector<std::uint64_t> &trackUids)
{
    std::string r;
    for (auto n = g.range(1, 4); n; --n) {
        std::string targets;
        if (g.chance(2, 3)) {
            targets += num(TargetTypeValue, g.pick<std::uint64_t>({ 50, 10, 20, 30, 40, 60, 70 }), o.rich ? static_cast<unsigned>(g.range(1, 8)) : 1);
        }
        if (g.chance(1, 3)) {
            targets += el(TargetType, g.pick({ "ALBUM", "MOVIE", "TRACK", "CONCERT" }));
        }
        if (!trackUids.empty() && g.chance(1, 3)) {
            for (auto k = g.range(1, 2); k; --k) {
                targets += num(TagTrackUid, g.pickFrom(trackUids));
            }
        }
        if (o.rich) {
            for (const auto i : { TagEditionUid, TagChapterUid, TagAttachmentUid }) {
                if (g.chance(1, 8)) {
                    for (auto k = g.pick({ 1, 1, 2, 3 }); k; --k) {
                        targets += num(i, g.bits(64));
                    }
                }
            }
        }
        auto tag = master(Targets, targets + crcVoid(g, o.rich), o.rich && g.chance(1, 12));
        for (auto k = g.range(o.rich ? 0 : 1, 6); k; --k) {
            auto field = genSimpleTag(g, o, 0) + crcVoid(g, o.rich);
            if (o.rich && g.chance(1, 12)) {
                tag = field + tag;
            } else {
                tag += field;
            }
        }
        r += master(Tag, tag, o.rich && g.chance(1, 12));
    }
    return r + crcVoid(g, o.rich);
}

std::string genAttachments(pbt::Gen &g, const fmt::GenOptions &o)
{
    std::string r;
    for (auto n = g.range(1, 3); n; --n) {
        std::string f;
        if (g.flip()) {
            f += el(FileDescription, genText(g, o.maxText));
        }
        f += el(FileName, genText(g, 30)) + crcVoid(g, o.rich);
        f += el(FileMimeType, g.pick({ "image/jpeg", "font/ttf", "application/octet-stream" }));
        f += el(FileData, g.bytes(1 + g.length(o.maxPicture)), o.rich ? static_cast<unsigned>(g.range(1, 8)) : 0);
        f += num(FileUid, 1 + g.bits(63));
        if (o.rich && g.chance(1, 8)) {
            f += el(FileReferral, g.bytes(g.length(10)));
        }
        if (o.rich && g.chance(1, 6)) {
            f += num(FileUsedStartTime, g.bits(40));
            f += num(FileUsedEndTime, g.bits(40), static_cast<unsigned>(g.range(5, 8)));
        }
        r += master(AttachedFile, f, o.rich && g.chance(1, 12)) + crcVoid(g, o.rich);
    }
    return r;
}

// library

namespace {
Value valueOf(const TagValue &v)
{
    Value r;
    r.lang = v.locale().abbreviatedName(LocaleFormat::ISO_639_2_B, LocaleFormat::Unknown);
    r.ietf = v.locale().abbreviatedName(LocaleFormat::BCP_47);
    if (v.type() == TagDataType::Popularity) {
        r.text = std::to_string(v.toScaledPopularity(TagType::MatroskaTag).rating);
        return r;
    }
    if (v.type() == TagDataType::Undefined || v.type() == TagDataType::Binary) {
        r.binary = true;
        r.text = std::string(v.dataPointer(), v.dataSize());
    } else {
        r.text = v.toString(TagTextEncoding::Utf8);
    }
    if (r.text.empty()) {
        r.binary = false;
    }
    return r;
}
std::string canonField(const MatroskaTagField &f)
{
    std::vector<std::string> nested;
    for (const auto &n : f.nestedFields()) {
        nested.push_back(n.id() + "=" + canonField(n));
    }
    return canonValue(f.id(), valueOf(f.value())) + attributes(f.isDefault(), nested);
}
TagModel modelOf(const MatroskaTag &t)
{
    TagModel m;
    m.type = "matroska";
    m.target = targetText(t.target());
    for (const auto &f : t.fields()) {
        const auto canon = canonField(f.second);
        if (matters(canon)) {
            m.items.push_back({ f.first, canon });
        }
    }
    mkv::sort(m.items);
    return m;
}
TagModel modelOf(const MatroskaAttachment &a)
{
    TagModel m;
    m.type = "attachment";
    m.target = toStr(a.id());
    std::ostringstream data;
    if (a.data()) {
        a.data()->copyTo(data);
    }
    m.items = { { "data", fmt::digest(data.str()) }, { "description", a.description() }, { "mime", a.mimeType() }, { "name", a.name() } };
    if (auto *const element = const_cast<MatroskaAttachment &>(a).attachedFileElement()) {
        Diagnostics diag;
        for (const auto id : { FileUsedStartTime, FileUsedEndTime, FileReferral }) {
            if (auto *const child = element->childById(id, diag)) {
                std::string content(child->dataSize(), '\0');
                child->stream().seekg(static_cast<std::streamoff>(child->dataOffset()));
                child->stream().read(content.data(), static_cast<std::streamsize>(content.size()));
                m.items.push_back({ "further " + pbt::hex(be(id, 2)), fmt::digest(content) });
            }
        }
    }
    return m;
}
TagModel modelOf(const AbstractTrack &t)
{
    const std::string ietf = t.locale().abbreviatedName(LocaleFormat::BCP_47);
    return trackModel(t.id(), t.name(), ietf.empty() ? std::string(t.locale().abbreviatedName(LocaleFormat::ISO_639_2_B, LocaleFormat::Unknown)) : std::string(), ietf, t.isEnabled(), t.isDefault(),
        t.isForced());
}
} // namespace

fmt::Tags ofLibrary(MatroskaContainer &c)
{
    fmt::Tags r;
    for (std::size_t i = 0; i != c.titles().size(); ++i) {
        r.push_back({ "title", { { "title", c.titles()[i] } }, toStr(i) });
    }
    for (std::size_t i = 0; i != c.trackCount(); ++i) {
        r.push_back(modelOf(*c.track(i)));
    }
    for (std::size_t i = 0; i != c.attachmentCount(); ++i) {
        if (!c.attachment(i)->isIgnored()) {
            r.push_back(modelOf(*c.attachment(i)));
        }
    }
    for (std::size_t i = 0; i != c.tagCount(); ++i) {
        r.push_back(modelOf(*c.tag(i)));
    }
    return r;
}

namespace {
std::vector<TagModel *> ofType(fmt::Tags &model, const char *type)
{
    std::vector<TagModel *> r;
    for (auto &m : model) {
        if (m.type == type) {
            r.push_back(&m);
        }
    }
    return r;
}
void erase(fmt::Tags &model, const TagModel *m)
{
    model.erase(model.begin() + (m - model.data()));
}

Locale genLocale(pbt::Gen &g, std::string &lang, std::string &ietf)
{
    Locale l;
    switch (g.below(4)) {
    case 0:
        break;
    case 1:
        lang = languages[1 + g.below(std::size(languages) - 1)];
        l.emplace_back(lang, LocaleFormat::ISO_639_2_B);
        break;
    case 2:
        ietf = genIetf(g);
        l.emplace_back(ietf, LocaleFormat::BCP_47);
        break;
    default:
        lang = languages[1 + g.below(std::size(languages) - 1)];
        ietf = genIetf(g);
        l.emplace_back(lang, LocaleFormat::ISO_639_2_B);
        l.emplace_back(ietf, LocaleFormat::BCP_47);
    }
    return l;
}

void editTrack(pbt::Gen &g, MatroskaContainer &c, fmt::Tags &model, const fmt::EditOptions &o)
{
    const auto tracks = ofType(model, "track");
    CHECK_MSG(tracks.size() == c.trackCount(), "track-count", toStr(c.trackCount()) + " instead of " + toStr(tracks.size()));
    if (tracks.empty()) {
        return;
    }
    const auto index = g.below(tracks.size());
    auto &items = tracks[index]->items;
    auto *const track = c.track(index);
    g.label("track changed");
    g.describe(" track changed");
    switch (g.below(5)) {
    case 0:
        items[0].canon = toStr(!track->isDefault());
        track->setDefault(!track->isDefault());
        break;
    case 1:
        items[1].canon = toStr(!track->isEnabled());
        track->setEnabled(!track->isEnabled());
        break;
    case 2:
        items[2].canon = toStr(!track->isForced());
        track->setForced(!track->isForced());
        break;
    case 3: {
        std::string lang, ietf;
        track->setLocale(genLocale(g, lang, ietf));
        items[3].canon = ietf;
        items[4].canon = ietf.empty() ? lang : std::string();
        break;
    }
    default:
        items[5].canon = g.chance(1, 5) ? std::string() : genText(g, o.maxText);
        track->setName(items[5].canon);
    }
}

void editAttachment(pbt::Gen &g, MatroskaContainer &c, fmt::Tags &model, const fmt::EditOptions &o)
{
    std::vector<MatroskaAttachment *> list;
    for (std::size_t i = 0; i != c.attachmentCount(); ++i) {
        if (!c.attachment(i)->isIgnored()) {
            list.push_back(c.attachment(i));
        }
    }
    const auto models = ofType(model, "attachment");
    CHECK_MSG(models.size() == list.size(), "attachment-count", toStr(list.size()) + " instead of " + toStr(models.size()));
    const auto create = list.empty() || (o.structural && g.chance(1, 3));
    if (create && !o.structural) {
        return;
    }
    const auto index = create ? 0 : g.below(list.size());
    auto *const a = create ? c.createAttachment() : list[index];
    if (create) {
        // make the ID reproducible
        std::uint64_t id;
        do {
            id = 1 + g.bits(63);
        } while (std::any_of(models.begin(), models.end(), [id](const TagModel *m) { return m->target == toStr(id); }));
        a->setId(id);
        model.push_back({ "attachment", { { "data", "" }, { "description", "" }, { "mime", "" }, { "name", "" } }, toStr(id) });
    } else if (o.structural && g.chance(1, 4)) {
        a->setIgnored(true);
        erase(model, models[index]);
        g.label("attachment removed");
        g.describe(" attachment removed");
        return;
    }
    auto &items = create ? model.back().items : models[index]->items;
    const auto what = g.below(4);
    if (create || what == 0) {
        auto data = g.bytes(1 + g.length(o.maxPicture));
        items[0].canon = fmt::digest(data);
        const auto stream = std::make_shared<std::istringstream>(std::move(data));
        a->setData(std::make_unique<StreamDataBlock>([stream]() -> std::istream & { return *stream; }, 0, std::ios_base::beg, 0, std::ios_base::end));
    }
    if (what == 1) {
        items[1].canon = g.chance(1, 4) ? std::string() : genText(g, o.maxText);
        a->setDescription(items[1].canon);
    }
    if (create || what == 2) {
        items[2].canon = g.pick({ "text/plain", "image/png" });
        a->setMimeType(items[2].canon);
    }
    if (create || what == 3) {
        items[3].canon = genText(g, 50);
        a->setName(items[3].canon);
    }
    g.label(create ? "attachment added" : "attachment changed");
    g.describe(create ? " attachment added" : " attachment changed");
}

void editTag(pbt::Gen &g, MatroskaTag &tag, Items &model, const fmt::EditOptions &o)
{
    const auto encoding = [&](const std::string &t) {
        const auto e = g.pick({ TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian, TagTextEncoding::Latin1 });
        return tp::canRepresent(t, e) ? e : TagTextEncoding::Utf8;
    };
    const auto custom = g.chance(1, 6);
    const auto &s = specs[g.below(std::size(specs))];
    const std::string id = custom ? customIds[g.below(std::size(customIds))] : s.id;
    const auto field = custom ? KnownField::Invalid : s.field;
    const auto existing = static_cast<std::size_t>(std::count_if(model.begin(), model.end(), [&](const fmt::Item &i) { return i.id == id; }));
    if (g.chance(1, 8)) {
        tag.fields().erase(id);
        model.erase(std::remove_if(model.begin(), model.end(), [&](const fmt::Item &i) { return i.id == id; }), model.end());
        g.describe(" " + id + " erased");
        return;
    }
    std::vector<TagValue> values;
    std::vector<std::string> canons;
    // shrinking the number of values of fields with attributes would be ambiguous
    const auto count = std::max<std::size_t>(existing, g.chance(1, 3) ? static_cast<std::size_t>(g.range(2, 4)) : 1u);
    for (std::size_t i = 0; i < count; ++i) {
        Value v;
        TagValue value;
        if (field == KnownField::Rating) {
            v.text = genRating(g);
            if (g.flip() && v.text != "0") {
                Popularity p;
                p.rating = std::strtod(v.text.data(), nullptr);
                p.scale = TagType::MatroskaTag;
                value = TagValue(p);
            } else {
                value = tp::text(v.text, encoding(v.text));
            }
        } else if ((field == KnownField::Bpm || field == KnownField::PartNumber || field == KnownField::TotalParts) && g.flip()) {
            const auto n = static_cast<int>(g.bits(31));
            v.text = std::to_string(n);
            value = TagValue(n);
        } else if (custom && g.chance(1, 6)) {
            v.binary = true;
            v.text = g.bytes(1 + g.length(o.maxText));
            value.assignData(v.text.data(), v.text.size(), TagDataType::Undefined);
            g.label("binary value");
        } else {
            v.text = genText(g, o.maxText);
            value = tp::text(v.text, encoding(v.text));
        }
        value.setLocale(genLocale(g, v.lang, v.ietf));
        values.push_back(std::move(value));
        canons.push_back(canonValue(id, v));
    }
    if (count > 1) {
        g.label("several values");
    }
    if (custom) {
        tag.setValues(id, values);
    } else {
        CHECK_MSG(tag.setValues(field, values), "set-refused", id);
    }
    // fields without value which do not count for the model might exist; re-read the attributes
    std::vector<const MatroskaTagField *> fields;
    for (auto r = tag.fields().equal_range(id); r.first != r.second; ++r.first) {
        fields.push_back(&r.first->second);
    }
    std::size_t k = 0;
    for (auto &i : model) {
        if (i.id == id) {
            i.canon = canons[k++] + i.canon.substr(i.canon.find(separator));
        }
    }
    for (; k < canons.size(); ++k) {
        model.push_back({ id, canons[k] + attributes(fields.size() > k ? fields[k]->isDefault() : true, {}) });
    }
    g.describe(" " + id + "=" + pbt::quote(canons.front(), 40) + (canons.size() > 1 ? "+" + toStr(canons.size() - 1) : std::string()));
    mkv::sort(model);
}
} // namespace

void edit(pbt::Gen &g, MatroskaContainer &c, fmt::Tags &model, const fmt::EditOptions &o)
{
    switch (g.weighted({ 10, 2, 2, 1, 2, 1 })) {
    case 1:
        return editTrack(g, c, model, o);
    case 2:
        return editAttachment(g, c, model, o);
    case 3: {
        const auto t = ofType(model, "title");
        const auto title = g.chance(1, 4) ? std::string() : genText(g, o.maxText);
        CHECK_MSG(t.size() == 1 && c.titles().size() == 1, "title-count", toStr(c.titles().size()));
        t.front()->items.front().canon = title;
        c.setTitle(title);
        g.label("title changed");
        g.describe(" title changed");
        return;
    }
    case 4: {
        if (!o.structural) {
            break;
        }
        // create a tag
        TagTarget target;
        if (g.chance(3, 4)) {
            target.setLevel(g.pick<std::uint64_t>({ 0, 10, 30, 50, 70 }));
            if (c.trackCount() && g.chance(1, 3)) {
                target.tracks().push_back(c.track(g.below(c.trackCount()))->id());
            }
            for (auto *const ids : { &target.editions(), &target.chapters(), &target.attachments() }) {
                for (auto k = g.chance(1, 6) ? g.range(1, 3) : 0; k; --k) {
                    ids->push_back(1 + g.bits(63));
                }
            }
            if (g.chance(1, 6)) {
                target.setLevelName("LEVEL");
            }
        }
        const auto before = c.tagCount();
        auto *const tag = c.createTag(target);
        CHECK_MSG(tag, "create-refused", "");
        if (c.tagCount() > before) {
            model.push_back({ "matroska", {}, targetText(tag->target()) });
            CHECK_MSG(targetText(tag->target()) == targetText(target), "created-target", targetText(tag->target()) + " instead of " + targetText(target));
        }
        // empty tags would be dropped
        const auto tags = ofType(model, "matroska");
        CHECK_MSG(tags.size() == c.tagCount(), "tag-count", toStr(c.tagCount()) + " instead of " + toStr(tags.size()));
        for (std::size_t i = 0; i != tags.size(); ++i) {
            if (c.tag(i) == tag) {
                editTag(g, *tag, tags[i]->items, o);
            }
        }
        g.label("tag created");
        g.describe(" tag created " + targetText(target));
        return;
    }
    case 5: {
        if (!o.structural) {
            break;
        }
        auto tags = ofType(model, "matroska");
        CHECK_MSG(tags.size() == c.tagCount(), "tag-count", toStr(c.tagCount()) + " instead of " + toStr(tags.size()));
        if (tags.empty()) {
            return;
        }
        g.label("tag removed");
        if (g.chance(1, 4)) {
            c.removeAllTags();
            while (!tags.empty()) {
                erase(model, tags.back());
                tags.pop_back();
            }
            g.describe(" all tags removed");
        } else {
            const auto index = g.below(tags.size());
            CHECK_MSG(c.removeTag(c.tag(index)), "remove-refused", "");
            erase(model, tags[index]);
            g.describe(" tag removed");
        }
        return;
    }
    default:;
    }
    const auto tags = ofType(model, "matroska");
    CHECK_MSG(tags.size() == c.tagCount(), "tag-count", toStr(c.tagCount()) + " instead of " + toStr(tags.size()));
    if (!tags.empty()) {
        const auto index = g.below(tags.size());
        editTag(g, *c.tag(index), tags[index]->items, o);
    }
}

} // namespace mkv
