#include "id3model.h"
#include <algorithm>
#include <set>

using namespace TagParser;
using namespace util;

namespace id3m {

namespace {

enum class Kind { Text, Genre, Position, Length, Bpm, Language, Date, RecordDate, Comment, Cover, Counter, Rating, Url, Binary };

struct Spec {
    KnownField field;
    const char *longId, *shortId; // shortId is null if ID3v2.2 does not have it
    Kind kind;
};

const Spec specs[] = {
    { KnownField::Title, "TIT2", "TT2", Kind::Text },
    { KnownField::Album, "TALB", "TAL", Kind::Text },
    { KnownField::Artist, "TPE1", "TP1", Kind::Text },
    { KnownField::Comment, "COMM", "COM", Kind::Comment },
    { KnownField::RecordDate, "DATE", "DATE", Kind::RecordDate },
    { KnownField::ReleaseDate, "TDRL", nullptr, Kind::Date },
    { KnownField::Genre, "TCON", "TCO", Kind::Genre },
    { KnownField::TrackPosition, "TRCK", "TRK", Kind::Position },
    { KnownField::DiskPosition, "TPOS", "TPA", Kind::Position },
    { KnownField::Encoder, "TENC", "TEN", Kind::Text },
    { KnownField::Bpm, "TBPM", "TBP", Kind::Bpm },
    { KnownField::Cover, "APIC", "PIC", Kind::Cover },
    { KnownField::Lyricist, "TEXT", "TXT", Kind::Text },
    { KnownField::Length, "TLEN", "TLE", Kind::Length },
    { KnownField::Language, "TLAN", "TLA", Kind::Language },
    { KnownField::EncoderSettings, "TSSE", "TSS", Kind::Text },
    { KnownField::Lyrics, "USLT", "ULT", Kind::Comment },
    { KnownField::SynchronizedLyrics, "SYLT", "SLT", Kind::Binary },
    { KnownField::Grouping, "TIT1", "TT1", Kind::Text },
    { KnownField::Publisher, "TPUB", "TPB", Kind::Text },
    { KnownField::Composer, "TCOM", "TCM", Kind::Text },
    { KnownField::PlayCounter, "PCNT", "CNT", Kind::Counter },
    { KnownField::Rating, "POPM", "POP", Kind::Rating },
    { KnownField::AlbumArtist, "TPE2", "TP2", Kind::Text },
    { KnownField::RemixedBy, "TPE4", "TP4", Kind::Text },
    { KnownField::Copyright, "TCOP", "TCR", Kind::Text },
    { KnownField::TaggingDate, "TDTG", nullptr, Kind::Date },
    { KnownField::EncodingDate, "TDEN", nullptr, Kind::Date },
    { KnownField::OriginalReleaseDate, "TDOR", nullptr, Kind::Date },
    { KnownField::OriginalMediaType, "TMED", "TMT", Kind::Text },
    { KnownField::Mood, "TMOO", nullptr, Kind::Text },
    { KnownField::InitialKey, "TKEY", "TKE", Kind::Text },
    { KnownField::PublisherWebpage, "WPUB", "WPB", Kind::Url },
    { KnownField::PerformerWebpage, "WOAR", "WAR", Kind::Url },
    { KnownField::PurchaseItem, "WPAY", nullptr, Kind::Url },
    { KnownField::Subtitle, "TIT3", "TT3", Kind::Text },
    { KnownField::Synopsis, "TDES", nullptr, Kind::Text },
};

Kind kindOf(const std::string &id)
{
    for (const auto &s : specs) {
        if (id == s.longId || (s.shortId && id == s.shortId)) {
            return s.kind;
        }
    }
    if (id == "TDRC") {
        return Kind::RecordDate;
    }
    if (id[0] == 'T' && id != "TXXX" && id != "TXX") {
        return Kind::Text;
    }
    if (id[0] == 'W' && id != "WXXX" && id != "WXX") {
        return Kind::Url;
    }
    return Kind::Binary;
}

std::string blob(std::string_view d)
{
    return toStr(d.size()) + ":" + toStr(crc32Ieee(d));
}

bool digits(std::string_view s)
{
    return !s.empty() && std::all_of(s.begin(), s.end(), [](char c) { return c >= '0' && c <= '9'; });
}

std::string canonText(Kind kind, const std::string &t)
{
    switch (kind) {
    case Kind::Genre: {
        auto n = t;
        if (n.size() > 2 && n[0] == '(' && n.back() == ')') {
            n = n.substr(1, n.size() - 2);
        }
        return digits(n) && n.size() < 4 ? "genre " + toStr(std::stoul(n)) : t;
    }
    case Kind::Position: {
        const auto slash = t.find('/');
        const auto pos = t.substr(0, slash), total = slash == std::string::npos ? std::string() : t.substr(slash + 1);
        if ((!pos.empty() && !digits(pos)) || (!total.empty() && !digits(total)) || pos.size() > 9 || total.size() > 9) {
            return "?" + t;
        }
        return "pos " + toStr(pos.empty() ? 0 : std::stoul(pos)) + "/" + toStr(total.empty() ? 0 : std::stoul(total));
    }
    case Kind::Length:
        return digits(t) && t.size() < 15 ? "ms " + toStr(std::stoull(t)) : "?" + t;
    case Kind::RecordDate:
        return canonDate(t);
    default:
        return t;
    }
}

std::string canonComment(const std::string &language, const std::string &description, const std::string &text)
{
    return "[" + (language == std::string(3, '\0') ? std::string() : language) + "|" + description + "] " + text;
}

std::string canonPicture(unsigned type, const std::string &mime, const std::string &description, std::string_view data)
{
    return "type " + toStr(type) + " mime " + mime + " [" + description + "] " + blob(data);
}

std::string shortMime(const std::string &f)
{
    return f == "JPG" ? "image/jpeg" : f == "PNG" ? "image/png" : f == "GIF" ? "image/gif" : f == "-->" ? f : std::string();
}

std::string isoFromExpression(const CppUtilities::DateTimeExpression &e)
{
    using CppUtilities::DateTimeParts;
    char buf[64];
    std::string r;
    auto has = [&](DateTimeParts p) { return static_cast<std::uint64_t>(e.parts) & static_cast<std::uint64_t>(p); };
    if (has(DateTimeParts::Year)) {
        snprintf(buf, sizeof buf, "%04d", e.value.year());
        r += buf;
    }
    if (has(DateTimeParts::Month)) {
        snprintf(buf, sizeof buf, "-%02d", e.value.month());
        r += buf;
    }
    if (has(DateTimeParts::Day)) {
        snprintf(buf, sizeof buf, "-%02d", e.value.day());
        r += buf;
    }
    if (has(DateTimeParts::Hour)) {
        snprintf(buf, sizeof buf, "T%02d", e.value.hour());
        r += buf;
    }
    if (has(DateTimeParts::Minute)) {
        snprintf(buf, sizeof buf, ":%02d", e.value.minute());
        r += buf;
    }
    if (has(DateTimeParts::Second)) {
        snprintf(buf, sizeof buf, ":%02d", e.value.second());
        r += buf;
    }
    return r;
}

std::string popm(const std::string &user, std::uint64_t rating, std::uint64_t counter)
{
    return "user " + user + " rating " + toStr(rating) + " count " + toStr(counter);
}

} // namespace

std::string canonDate(const std::string &t)
{
    // positions of digits within an ISO date of increasing precision
    static const char pattern[] = "dddd-dd-ddTdd:dd:dd";
    static const std::set<std::size_t> stops = { 4, 7, 10, 13, 16, 19 };
    if (!stops.count(t.size())) {
        return t;
    }
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (pattern[i] == 'd' ? !(t[i] >= '0' && t[i] <= '9') : (t[i] != pattern[i] && !(pattern[i] == 'T' && t[i] == ' '))) {
            return t;
        }
    }
    auto r = t;
    if (r.size() > 10) {
        r[10] = 'T';
    }
    return r;
}

Items ofFile(const id3::Tag &tag)
{
    Items r;
    std::string year, date, time;
    for (const auto &f : tag.frames) {
        auto first = [&f] {
            const auto t = id3::text(f);
            return t.empty() ? std::string() : t.front();
        };
        if (tag.major < 4) {
            if (f.id == "TYER" || f.id == "TYE") {
                year = first();
                continue;
            } else if (f.id == "TDAT" || f.id == "TDA") {
                date = first();
                continue;
            } else if (f.id == "TIME" || f.id == "TIM") {
                time = first();
                continue;
            }
        }
        const auto kind = kindOf(f.id);
        switch (kind) {
        case Kind::Comment: {
            const auto c = id3::comment(f);
            r.push_back({ f.id, canonComment(c.language, c.description, c.text) });
            break;
        }
        case Kind::Cover: {
            const auto p = id3::picture(f);
            r.push_back({ f.id, canonPicture(p.type, tag.major == 2 ? shortMime(p.mime) : p.mime, p.description, p.data) });
            break;
        }
        case Kind::Counter:
            if (f.data.size() < 4) {
                throw Malformed("play counter has less than 4 bytes");
            }
            r.push_back({ f.id, toStr(id3::counter(f.data)) });
            break;
        case Kind::Rating: {
            const auto p = id3::popm(f);
            r.push_back({ f.id, popm(p.user, p.rating, p.counter) });
            break;
        }
        case Kind::Url:
            r.push_back({ f.id, id3::url(f) });
            break;
        case Kind::Binary:
            r.push_back({ f.id, blob(f.data) });
            break;
        default:
            for (const auto &t : id3::text(f)) {
                if (!t.empty()) {
                    r.push_back({ f.id == "TDRC" ? std::string("DATE") : f.id, canonText(kind, t) });
                }
            }
        }
    }
    auto iso = year;
    if (date.size() == 4) {
        iso += "-" + date.substr(2, 2) + "-" + date.substr(0, 2);
    } else if (!date.empty()) {
        throw Malformed("TDAT is not DDMM but " + date);
    }
    if (time.size() == 4) {
        iso += "T" + time.substr(0, 2) + ":" + time.substr(2, 2);
    } else if (!time.empty()) {
        throw Malformed("TIME is not HHMM but " + time);
    }
    if (!iso.empty()) {
        r.push_back({ "DATE", iso });
    }
    return r;
}

Items ofLibrary(const Id3v2Tag &tag)
{
    Items r;
    auto hasDate = false;
    for (const auto &pair : tag.fields()) {
        hasDate = hasDate || (pair.first == Id3v2FrameIds::lRecordingTime && !pair.second.value().isEmpty());
    }
    for (const auto &pair : tag.fields()) {
        const auto &field = pair.second;
        auto id = Id3v2Frame::fieldIdToString(pair.first);
        if (hasDate) {
            static const std::set<std::string> old = { "TYER", "TYE", "TDAT", "TDA", "TIME", "TIM" };
            if (old.count(id)) {
                continue;
            }
        }
        const auto kind = kindOf(id);
        if (id == "TDRC") {
            id = "DATE";
        }
        std::vector<const TagValue *> values;
        values.push_back(&field.value());
        for (const auto &v : field.additionalValues()) {
            values.push_back(&v);
        }
        for (const auto *const v : values) {
            if (v->isEmpty()) {
                continue;
            }
            std::string canon;
            try {
            switch (kind) {
            case Kind::Comment:
                canon = canonComment(v->locale().abbreviatedName(LocaleFormat::ISO_639_2_B), tp::descriptionUtf8(*v), tp::utf8Of(*v));
                break;
            case Kind::Cover:
                canon = canonPicture(field.isTypeInfoAssigned() ? field.typeInfo() : 0, v->mimeType(), tp::descriptionUtf8(*v), std::string_view(v->dataPointer(), v->dataSize()));
                break;
            case Kind::Counter:
                canon = toStr(v->toUnsignedInteger());
                break;
            case Kind::Rating: {
                const auto p = v->toScaledPopularity(TagType::Id3v2Tag);
                canon = popm(p.user, static_cast<std::uint64_t>(p.rating + 0.5), p.playCounter);
                break;
            }
            case Kind::Binary:
                canon = blob(std::string_view(v->dataPointer(), v->dataSize()));
                break;
            case Kind::Genre:
                canon = v->type() == TagDataType::StandardGenreIndex ? "genre " + toStr(static_cast<unsigned>(v->toStandardGenreIndex())) : tp::utf8Of(*v);
                break;
            case Kind::Position: {
                const auto p = v->toPositionInSet();
                canon = "pos " + toStr(static_cast<unsigned>(p.position())) + "/" + toStr(static_cast<unsigned>(p.total()));
                break;
            }
            case Kind::Length:
                canon = "ms " + toStr(static_cast<std::uint64_t>(v->toTimeSpan().totalMilliseconds()));
                break;
            case Kind::RecordDate:
                canon = v->type() == TagDataType::DateTimeExpression ? isoFromExpression(v->toDateTimeExpression()) : canonDate(tp::utf8Of(*v));
                break;
            default:
                canon = tp::utf8Of(*v);
            }
            } catch (const CppUtilities::ConversionException &e) { // possible for values of damaged files
                canon = std::string("not convertible: ") + e.what();
            }
            r.push_back({ id, canon });
        }
    }
    return r;
}

void sort(Items &items)
{
    std::stable_sort(items.begin(), items.end(), [](const Item &a, const Item &b) { return a.id < b.id; });
}

std::string dump(const Items &items)
{
    std::string r;
    for (const auto &i : items) {
        r += " " + i.id + "=" + pbt::quote(i.canon, 60);
    }
    return r;
}

std::string difference(Items expected, Items actual)
{
    sort(expected);
    sort(actual);
    for (std::size_t i = 0; i < std::max(expected.size(), actual.size()); ++i) {
        if (i >= expected.size() || i >= actual.size() || !(expected[i] == actual[i])) {
            const auto show = [](const Items &l, std::size_t n) { return n < l.size() ? l[n].id + "=" + pbt::quote(l[n].canon, 200) : std::string("nothing"); };
            return "expected " + show(expected, i) + ", found " + show(actual, i) + " (" + toStr(expected.size()) + " values expected, " + toStr(actual.size()) + " found)";
        }
    }
    return std::string();
}

namespace {

std::string genText(pbt::Gen &g, unsigned kind, std::size_t max)
{
    auto s = g.text(max, kind, 1);
    if (s.compare(0, 3, "\xEF\xBB\xBF") == 0 || s.compare(0, 2, "\xC3\xAF") == 0) {
        s = "x" + s; // no byte order mark (also not one shown as Latin-1)
    }
    return s;
}

std::string genGenreText(pbt::Gen &g, std::size_t max)
{
    auto s = genText(g, 3, max);
    const auto start = s.find_first_not_of(' ');
    if (start == std::string::npos || s[start] == '(' || (s[start] >= '0' && s[start] <= '9')) {
        s = "x" + s; // no reference to a standard genre
    }
    return s;
}

std::string genIso(pbt::Gen &g, bool old)
{
    char buf[32];
    snprintf(buf, sizeof buf, "%04d-%02d-%02dT%02d:%02d:%02d", static_cast<int>(g.range(1, 9999)), static_cast<int>(g.range(1, 12)), static_cast<int>(g.range(1, 28)),
        static_cast<int>(g.below(24)), static_cast<int>(g.below(60)), static_cast<int>(g.below(60)));
    const std::size_t all[] = { 4, 10, 16, 7, 13, 19 };
    return std::string(buf).substr(0, all[g.below(old ? 3 : 6)]);
}

TagTextEncoding genEncoding(pbt::Gen &g, const std::string &utf8)
{
    const auto e = g.pick({ TagTextEncoding::Utf8, TagTextEncoding::Latin1, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian });
    return tp::canRepresent(utf8, e) ? e : TagTextEncoding::Utf8;
}

std::string genLanguage(pbt::Gen &g)
{
    return g.pick({ "eng", "deu", "jpn", "xxx", "fra" });
}

} // namespace

void edit(pbt::Gen &g, Id3v2Tag &tag, Items &model, const EditOptions &o)
{
    const auto v22 = tag.majorVersion() < 3;
    auto replace = [&](const std::string &id, const std::vector<std::string> &canons) {
        model.erase(std::remove_if(model.begin(), model.end(), [&](const Item &i) { return i.id == id; }), model.end());
        for (const auto &c : canons) {
            model.push_back({ id, c });
        }
        g.describe(" " + id + (canons.empty() ? " cleared" : "=" + pbt::quote(canons.front(), 40) + (canons.size() > 1 ? "+" + toStr(canons.size() - 1) : std::string())));
    };
    if (o.raw && g.chance(1, 8)) {
        // frames without known field
        static const char *const longIds[] = { "TXXX", "PRIV", "XABC", "UFID", "WXXX", "GEOB" };
        static const char *const shortIds[] = { "TXX", "XAB", "UFI", "WXX", "GEO" };
        const std::string id = v22 ? shortIds[g.below(5)] : longIds[g.below(6)];
        auto data = g.bytes(1 + g.length(300));
        const auto numericId = Id3v2Frame::fieldIdFromString(id);
        tag.fields().emplace(numericId, Id3v2Frame(numericId, TagValue(data.data(), data.size(), TagDataType::Undefined)));
        model.push_back({ id, blob(data) });
        g.describe(" " + id + "+=" + toStr(data.size()));
        g.label("raw frame");
        return;
    }
    const Spec *s;
    do {
        s = specs + g.below(std::size(specs));
    } while (v22 && !s->shortId);
    const std::string id = v22 ? s->shortId : s->longId;
    CHECK_MSG(tag.supportsField(s->field), "field-not-supported", id);
    if (o.clearing && g.chance(1, 12)) {
        tag.setValues(s->field, {});
        replace(id, {});
        g.label("clear");
        return;
    }
    const auto multi = s->kind != Kind::RecordDate && s->kind != Kind::Length && tag.supportsMultipleValues(s->field);
    const auto count = multi && g.chance(1, 3) ? static_cast<std::size_t>(g.range(2, 4)) : 1u;
    std::vector<TagValue> values;
    std::vector<std::string> canons;
    std::vector<unsigned> types;
    if (count > 1) {
        g.label("several values");
    }
    for (std::size_t i = 0; i < count; ++i) {
        values.emplace_back();
        auto &v = values.back();
        std::string c;
        switch (s->kind) {
        case Kind::Text:
        case Kind::Language:
        case Kind::Date: {
            c = s->kind == Kind::Text ? genText(g, static_cast<unsigned>(g.below(4)), o.maxText) : s->kind == Kind::Language ? genLanguage(g) : genIso(g, false);
            v = tp::text(c, genEncoding(g, c));
            g.label(std::string("text ") + tp::encodingName(v.dataEncoding()));
            break;
        }
        case Kind::Genre:
            if (g.flip()) {
                const auto index = static_cast<int>(g.below(192));
                v.assignStandardGenreIndex(index);
                c = "genre " + toStr(static_cast<unsigned>(index));
            } else {
                c = genGenreText(g, 40);
                v = tp::text(c, genEncoding(g, c));
            }
            break;
        case Kind::Position: {
            auto p = PositionInSet(static_cast<int>(g.bits(20)), static_cast<int>(g.bits(20)));
            if (p.isNull()) {
                p.setPosition(1);
            }
            v = g.flip() ? TagValue(p) : tp::text(p.toString(), genEncoding(g, "1"));
            c = "pos " + toStr(static_cast<unsigned>(p.position())) + "/" + toStr(static_cast<unsigned>(p.total()));
            break;
        }
        case Kind::Length: {
            const auto ms = g.bits(40);
            v = TagValue(CppUtilities::TimeSpan::fromMilliseconds(static_cast<double>(ms)));
            c = "ms " + toStr(ms);
            break;
        }
        case Kind::Bpm: {
            const auto n = static_cast<int>(g.bits(31));
            v = g.flip() ? TagValue(n) : tp::text(std::to_string(n), genEncoding(g, "1"));
            c = std::to_string(n);
            break;
        }
        case Kind::RecordDate:
            c = genIso(g, tag.majorVersion() < 4);
            switch (g.below(2)) {
            case 0:
                v = tp::text(c, genEncoding(g, c));
                break;
            default:
                v = TagValue(CppUtilities::DateTimeExpression::fromIsoString(c.data()));
            }
            break;
        case Kind::Comment: {
            const auto text = genText(g, static_cast<unsigned>(g.below(4)), o.maxText);
            auto description = g.flip() ? genText(g, static_cast<unsigned>(g.below(4)), 40) : std::string();
            auto e = genEncoding(g, text + description);
            v = tp::text(text, e);
            if (!description.empty()) {
                tp::setDescription(v, description, e);
            }
            std::string language;
            if (g.flip()) {
                language = genLanguage(g);
                v.setLocale(Locale(std::string(language), LocaleFormat::ISO_639_2_B));
            }
            c = canonComment(language, description, text);
            g.label(std::string("comment ") + tp::encodingName(e));
            break;
        }
        case Kind::Cover: {
            auto data = g.bytes(1 + g.length(o.maxPicture));
            std::string mime = g.pick({ "image/jpeg", "image/png", "image/gif", "-->", "image/webp", "" });
            auto description = g.flip() ? genText(g, static_cast<unsigned>(g.below(4)), 40) : std::string();
            v = TagValue(data.data(), data.size(), TagDataType::Picture);
            v.setMimeType(mime);
            const auto e = genEncoding(g, description);
            tp::setDescription(v, description, e);
            types.push_back(static_cast<unsigned>(g.below(21)));
            c = canonPicture(types.back(), v22 && mime == "image/webp" ? std::string() : mime, description, data);
            g.label(std::string("cover ") + tp::encodingName(e));
            break;
        }
        case Kind::Counter: {
            const auto n = g.bits(64);
            v = TagValue(n);
            c = toStr(n);
            break;
        }
        case Kind::Rating: {
            Popularity p;
            p.user = g.flip() ? g.asciiWord(20) : std::string();
            const auto rating = 1 + g.below(255);
            p.rating = static_cast<double>(rating);
            p.playCounter = g.bits(64);
            p.scale = TagType::Id3v2Tag;
            v = TagValue(p);
            c = popm(p.user, rating, p.playCounter);
            break;
        }
        case Kind::Url:
            c = "https://" + genText(g, 1, 60);
            v = tp::text(c, genEncoding(g, c));
            break;
        case Kind::Binary: {
            const auto data = g.bytes(1 + g.length(200));
            v = TagValue(data.data(), data.size(), TagDataType::Undefined);
            c = blob(data);
            break;
        }
        }
        canons.push_back(c);
    }
    if (s->kind == Kind::Cover) {
        // the type is part of the frame
        const auto cover = tag.fieldId(KnownField::Cover);
        tag.fields().erase(cover);
        for (std::size_t i = 0; i < values.size(); ++i) {
            Id3v2Frame frame(cover, values[i]);
            frame.setTypeInfo(static_cast<std::uint8_t>(types[i]));
            tag.fields().emplace(cover, frame);
        }
    } else {
        CHECK_MSG(tag.setValues(s->field, values), "set-refused", id);
    }
    replace(id, canons);
}

id3::Tag genTag(pbt::Gen &g, unsigned major, std::size_t maxFrames, Items &model, id3::EncodeOptions &o)
{
    id3::Tag t;
    t.major = major;
    const auto v22 = major == 2;
    std::set<std::string> used;
    const auto n = g.below(maxFrames + 1);
    const auto enc = [&](const std::string &utf8) {
        std::string r;
        auto e = static_cast<unsigned>(g.below(major >= 4 ? 4 : 2));
        if (!e && !toLatin1(fromUtf8(utf8), r)) {
            e = 1;
        }
        return e;
    };
    auto bigEndian = false; // all strings of a frame must have the same byte order
    const auto one = [&](const std::string &utf8, unsigned e) { return id3::encodeText(utf8, e, bigEndian); };
    for (std::uint64_t i = 0; i < n; ++i) {
        const Spec *s;
        do {
            s = specs + g.below(std::size(specs));
        } while ((v22 && !s->shortId) || (major == 3 && s->kind == Kind::Date));
        id3::Frame f;
        f.id = v22 ? s->shortId : s->longId;
        bigEndian = g.flip();
        std::vector<std::string> canons;
        const auto once = s->kind != Kind::Comment && s->kind != Kind::Cover && s->kind != Kind::Rating && s->kind != Kind::Binary;
        if (once && used.count(f.id)) {
            continue;
        }
        used.insert(f.id);
        const auto count = major >= 4 && g.chance(1, 3) ? static_cast<std::size_t>(g.range(2, 4)) : 1u;
        const auto textFrame = [&](const std::vector<std::string> &texts) {
            std::string all;
            for (const auto &x : texts) {
                all += x;
            }
            const auto e = enc(all);
            f.data += static_cast<char>(e);
            for (std::size_t k = 0; k < texts.size(); ++k) {
                f.data += one(texts[k], e);
                if (k + 1 < texts.size() || g.flip()) {
                    f.data += id3::terminator(e);
                }
            }
        };
        switch (s->kind) {
        case Kind::Text:
        case Kind::Language:
        case Kind::Date:
            for (std::size_t k = 0; k < count; ++k) {
                canons.push_back(s->kind == Kind::Text ? genText(g, static_cast<unsigned>(g.below(4)), 60) : s->kind == Kind::Language ? genLanguage(g) : genIso(g, false));
            }
            textFrame(canons);
            break;
        case Kind::Genre:
            if (g.flip()) {
                const auto index = g.below(192);
                canons.push_back("genre " + toStr(index));
                textFrame({ major < 4 && g.flip() ? "(" + toStr(index) + ")" : toStr(index) });
            } else {
                canons.push_back(genGenreText(g, 30));
                textFrame(canons);
            }
            break;
        case Kind::Position: {
            const auto pos = 1 + g.bits(16), total = g.bits(16);
            canons.push_back("pos " + toStr(pos) + "/" + toStr(total));
            textFrame({ toStr(pos) + (total ? "/" + toStr(total) : std::string()) });
            break;
        }
        case Kind::Length: {
            const auto ms = g.bits(40);
            canons.push_back("ms " + toStr(ms));
            textFrame({ toStr(ms) });
            break;
        }
        case Kind::Bpm:
            canons.push_back(toStr(g.bits(31)));
            textFrame(canons);
            break;
        case Kind::RecordDate: {
            const auto iso = genIso(g, major < 4);
            canons.push_back(iso);
            if (major >= 4) {
                f.id = "TDRC";
                textFrame({ iso });
            } else {
                const auto addOld = [&](const char *longId, const char *shortId, const std::string &text) {
                    id3::Frame old;
                    old.id = v22 ? shortId : longId;
                    const auto e = enc(text);
                    old.data = static_cast<char>(e) + one(text, e);
                    t.frames.push_back(old);
                };
                addOld("TYER", "TYE", iso.substr(0, 4));
                if (iso.size() >= 10) {
                    addOld("TDAT", "TDA", iso.substr(8, 2) + iso.substr(5, 2));
                }
                if (iso.size() >= 16) {
                    addOld("TIME", "TIM", iso.substr(11, 2) + iso.substr(14, 2));
                }
                f.id.clear();
            }
            model.push_back({ "DATE", iso });
            canons.clear();
            break;
        }
        case Kind::Comment: {
            const auto text = genText(g, static_cast<unsigned>(g.below(4)), 60);
            const auto description = g.flip() ? genText(g, static_cast<unsigned>(g.below(4)), 30) : std::string();
            const auto language = genLanguage(g);
            const auto e = enc(text + description);
            f.data = static_cast<char>(e) + language + (description.empty() && g.flip() ? std::string() : one(description, e)) + id3::terminator(e);
            if (g.chance(1, 4)) {
                bigEndian = !bigEndian;
            }
            f.data += one(text, e);
            canons.push_back(canonComment(language, description, text));
            break;
        }
        case Kind::Cover: {
            const auto description = g.flip() ? genText(g, static_cast<unsigned>(g.below(4)), 30) : std::string();
            const auto e = enc(description);
            const auto type = static_cast<unsigned>(g.below(21));
            const auto data = g.bytes(1 + g.length(3000));
            const std::string format = v22 ? g.pick({ "JPG", "PNG", "GIF", "-->" }) : g.pick({ "image/jpeg", "image/png", "-->", "" });
            f.data = static_cast<char>(e) + format + (v22 ? std::string() : std::string(1, '\0')) + static_cast<char>(type) + one(description, e) + id3::terminator(e) + data;
            canons.push_back(canonPicture(type, v22 ? shortMime(format) : format, description, data));
            break;
        }
        case Kind::Counter: {
            const auto value = g.bits(64);
            f.data = be(value, value >> 32 ? 8 : 4);
            canons.push_back(toStr(value));
            break;
        }
        case Kind::Rating: {
            const auto user = g.asciiWord(20) + toStr(i);
            const auto rating = 1 + g.below(255), value = g.bits(32);
            f.data = user + std::string(1, '\0') + static_cast<char>(rating) + be(value, 4);
            canons.push_back(popm(user, rating, value));
            break;
        }
        case Kind::Url: {
            const auto url = "http://" + genText(g, 1, 40);
            f.data = id3::encodeText(url, 0) + (g.flip() ? std::string(1, '\0') : std::string());
            canons.push_back(url);
            break;
        }
        case Kind::Binary: {
            f.data = g.bytes(1 + g.length(100));
            canons.push_back(blob(f.data));
            break;
        }
        }
        if (f.id.empty()) {
            continue;
        }
        if (major >= 3 && g.chance(1, 4)) {
            // flags
            const auto group = g.flip(), compressed = g.flip();
            if (major == 3) {
                f.flags = static_cast<unsigned>(g.below(8)) << 13 | (compressed ? 0x80 : 0) | (group ? 0x20 : 0);
            } else {
                f.flags = static_cast<unsigned>(g.below(8)) << 12 | (compressed ? 0x08 : 0) | (group ? 0x40 : 0) | (compressed || g.flip() ? 0x01 : 0)
                    | (g.flip() ? 0x02 : 0);
            }
            f.group = group ? static_cast<int>(g.below(256)) : -1;
            g.label("frame flags");
        }
        const auto id = f.id == "TDRC" ? std::string("DATE") : f.id;
        for (const auto &c : canons) {
            model.push_back({ id, c });
        }
        t.frames.push_back(f);
    }
    if (g.chance(1, 3)) {
        id3::Frame f;
        f.id = v22 ? "XYZ" : "XYZ1";
        f.data = g.bytes(1 + g.length(200));
        model.push_back({ f.id, blob(f.data) });
        t.frames.push_back(f);
    }
    o.padding = g.chance(1, 3) ? g.length(2000) : 0;
    o.unsync = g.chance(1, 4);
    o.extendedHeader = major >= 3 && g.chance(1, 4);
    o.experimental = major >= 3 && g.chance(1, 8);
    o.footer = major >= 4 && g.chance(1, 5);
    if (t.frames.empty()) {
        t.frames.push_back({ v22 ? "TT2" : "TIT2", 0, -1, std::string(1, '\0') + "x", {} });
        model.push_back({ v22 ? "TT2" : "TIT2", "x" });
    }
    return t;
}

} // namespace id3m
