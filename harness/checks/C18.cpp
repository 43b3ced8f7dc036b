// C18: a tag behaves like a map from fields to lists of values.
#include "tp.h"
#include <algorithm>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2frameids.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/vorbis/vorbiscomment.h>

using namespace TagParser;
using namespace tp;
using namespace std::literals;
namespace pbt {
const char *g_property = "C18";
const char *g_rule = "histories of set/set list/clear/remove all/raw ID access/copy operations on ID3v1, ID3v2 (2.2, 2.3, 2.4), Vorbis, Ogg, MP4 and Matroska tags with values of every type "
                     "and encoding; after every operation the value, list of values, presence of the field and number of fields of every known field are compared with a reference map; "
                     "non-trivial: at least three operations which changed the tag";
const char *g_level = "exploration";
}

namespace {

enum class TagKind { Id3v1, Id3v22, Id3v23, Id3v24, Vorbis, Ogg, Mp4, Matroska };
const char *const kindNames[] = { "ID3v1", "ID3v2.2", "ID3v2.3", "ID3v2.4", "Vorbis", "Ogg", "MP4", "Matroska" };

std::unique_ptr<Tag> makeTag(TagKind k)
{
    switch (k) {
    case TagKind::Id3v1:
        return std::make_unique<Id3v1Tag>();
    case TagKind::Id3v22:
    case TagKind::Id3v23:
    case TagKind::Id3v24: {
        auto t = std::make_unique<Id3v2Tag>();
        t->setVersion(static_cast<std::uint8_t>(2 + static_cast<int>(k) - static_cast<int>(TagKind::Id3v22)), 0);
        return t;
    }
    case TagKind::Vorbis:
        return std::make_unique<VorbisComment>();
    case TagKind::Ogg:
        return std::make_unique<OggVorbisComment>();
    case TagKind::Mp4:
        return std::make_unique<Mp4Tag>();
    case TagKind::Matroska:
        break;
    }
    return std::make_unique<MatroskaTag>();
}

bool isId3v2(TagKind k)
{
    return k == TagKind::Id3v22 || k == TagKind::Id3v23 || k == TagKind::Id3v24;
}
bool isVorbis(TagKind k)
{
    return k == TagKind::Vorbis || k == TagKind::Ogg;
}

const std::vector<KnownField> &allFields()
{
    static const std::vector<KnownField> r = [] {
        std::vector<KnownField> v;
        for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
            v.push_back(f);
        }
        return v;
    }();
    return r;
}

// The name a field has in the format: fields which share a name are the same entry of the map. "" if not supported.
// Only the aliases are stated here; which fields exist is taken from a table of the formats' own documentation.
std::string key(TagKind k, KnownField f)
{
    using F = KnownField;
    if (k == TagKind::Matroska && f == F::Performers) {
        f = F::Actor; // both are "ACTOR"
    }
    return std::to_string(static_cast<unsigned>(f));
}

// Fields every version of the format can represent (per the format's specification and the library's documentation)
bool mustSupport(TagKind k, KnownField f)
{
    using F = KnownField;
    static const std::initializer_list<F> basic = { F::Title, F::Album, F::Artist, F::Genre, F::Comment, F::TrackPosition, F::RecordDate };
    static const std::initializer_list<F> id3v2 = { F::Title, F::Album, F::Artist, F::Genre, F::Comment, F::TrackPosition, F::DiskPosition, F::RecordDate, F::Encoder,
        F::Bpm, F::Cover, F::Lyricist, F::Length, F::Language, F::EncoderSettings, F::Lyrics, F::SynchronizedLyrics, F::Grouping, F::Publisher, F::Composer,
        F::Rating, F::PlayCounter, F::AlbumArtist, F::RemixedBy, F::Copyright, F::OriginalMediaType, F::InitialKey, F::PublisherWebpage, F::PerformerWebpage, F::Subtitle };
    static const std::initializer_list<F> id3v23 = { F::ReleaseDate, F::TaggingDate, F::EncodingDate, F::OriginalReleaseDate, F::Mood, F::PurchaseItem };
    static const std::initializer_list<F> vorbis = { F::Title, F::Album, F::Artist, F::Genre, F::Comment, F::TrackPosition, F::DiskPosition, F::PartNumber, F::RecordDate, F::Cover,
        F::Composer, F::Encoder, F::EncodedBy, F::EncoderSettings, F::Description, F::Grouping, F::RecordLabel, F::Performers, F::Language, F::Lyricist, F::Lyrics,
        F::AlbumArtist, F::Conductor, F::Copyright, F::License, F::Director, F::ISRC, F::Rating, F::Bpm, F::Publisher, F::PublisherWebpage, F::PerformerWebpage, F::Arranger };
    static const std::initializer_list<F> mp4 = { F::Title, F::Album, F::Artist, F::Genre, F::Comment, F::TrackPosition, F::DiskPosition, F::RecordDate, F::Composer, F::Encoder,
        F::EncoderSettings, F::Bpm, F::Cover, F::Grouping, F::Description, F::Lyrics, F::RecordLabel, F::Performers, F::Lyricist, F::AlbumArtist, F::Copyright, F::Conductor,
        F::Director, F::Publisher, F::SoundEngineer, F::Producer, F::ExecutiveProducer, F::ArtDirector, F::Arranger, F::Synopsis };
    static const std::initializer_list<F> matroska = { F::Title, F::Album, F::Artist, F::Genre, F::Comment, F::PartNumber, F::TotalParts, F::RecordDate, F::ReleaseDate, F::Encoder,
        F::EncoderSettings, F::Bpm, F::Bps, F::Rating, F::Description, F::Lyrics, F::RecordLabel, F::Performers, F::Lyricist, F::Composer, F::Language, F::AlbumArtist, F::Subtitle,
        F::LeadPerformer, F::Arranger, F::Conductor, F::Director, F::Actor, F::Character, F::WrittenBy, F::Producer, F::EncodedBy, F::MixedBy, F::RemixedBy, F::Publisher, F::Mood,
        F::Subject, F::Keywords, F::Summary, F::Synopsis, F::InitialKey, F::EncodingDate, F::TaggingDate, F::PlayCounter, F::ISRC, F::Barcode, F::CatalogNumber, F::IMDB,
        F::TMDB, F::Copyright, F::License, F::TermsOfUse };
    const auto in = [f](const std::initializer_list<F> &l) { return std::find(l.begin(), l.end(), f) != l.end(); };
    switch (k) {
    case TagKind::Id3v1:
        return in(basic);
    case TagKind::Id3v22:
        return in(id3v2);
    case TagKind::Id3v23:
    case TagKind::Id3v24:
        return in(id3v2) || in(id3v23);
    case TagKind::Vorbis:
    case TagKind::Ogg:
        return in(vorbis);
    case TagKind::Mp4:
        return in(mp4);
    case TagKind::Matroska:
        return in(matroska);
    }
    return false;
}

TagValue genValue(pbt::Gen &g)
{
    switch (g.weighted({ 10, 2, 2, 1, 1, 1, 1, 1, 1 })) {
    case 1:
        return TagValue(static_cast<int>(g.range(-5, 1000)));
    case 2:
        return TagValue(PositionInSet(static_cast<std::int32_t>(g.range(1, 99)), static_cast<std::int32_t>(g.range(0, 99))));
    case 3: {
        TagValue v;
        const auto data = g.bytes(1 + g.length(200));
        v.assignData(data.data(), data.size(), TagDataType::Picture);
        v.setMimeType("image/png");
        v.setDescription(g.text(8, 1), TagTextEncoding::Utf8);
        return v;
    }
    case 4: {
        TagValue v;
        const auto data = g.bytes(1 + g.length(50));
        v.assignData(data.data(), data.size(), TagDataType::Binary);
        return v;
    }
    case 5: {
        TagValue v;
        v.assignStandardGenreIndex(static_cast<int>(g.below(192)));
        return v;
    }
    case 6: {
        TagValue v;
        v.assignTimeSpan(CppUtilities::TimeSpan::fromSeconds(static_cast<double>(1 + g.below(10000))));
        return v;
    }
    case 7: {
        Popularity p;
        p.user = g.asciiWord(8);
        p.rating = static_cast<double>(1 + g.below(255));
        p.playCounter = g.below(100);
        p.scale = g.pick({ TagType::Id3v2Tag, TagType::VorbisComment, TagType::MatroskaTag });
        return TagValue(p);
    }
    case 8: {
        auto v = text(g.text(8, 1, 1), TagTextEncoding::Utf8);
        v.setLocale(Locale("eng"sv, LocaleFormat::ISO_639_2_B));
        v.setDescription(g.text(6, 1), TagTextEncoding::Utf8);
        return v;
    }
    default: {
        const auto t = g.text(12, g.chance(1, 3) ? 3 : 0, 1);
        const auto e = g.pick({ TagTextEncoding::Utf8, TagTextEncoding::Latin1, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian });
        return text(t, canRepresent(t, e) ? e : TagTextEncoding::Utf8);
    }
    }
}

// everything a value is made of including its encoding
std::string full(const TagValue &v)
{
    return canon(v) + "/" + std::to_string(static_cast<int>(v.type())) + "/" + encodingName(v.dataEncoding()) + "/" + pbt::quote(std::string(v.dataPointer(), v.dataSize()));
}

struct Slot {
    std::vector<std::string> values; // empty string: cleared
};
using Map = std::map<std::string, std::vector<Slot>>;

std::vector<std::string> listOf(const Map &m, const std::string &k)
{
    std::vector<std::string> r;
    if (const auto i = m.find(k); i != m.end()) {
        for (const auto &s : i->second) {
            for (const auto &v : s.values) {
                if (!v.empty()) {
                    r.push_back(v);
                }
            }
        }
    }
    return r;
}

std::vector<std::string> fullList(const std::vector<const TagValue *> &values)
{
    std::vector<std::string> r;
    for (const auto *v : values) {
        r.push_back(full(*v));
    }
    return r;
}

std::string join(const std::vector<std::string> &l)
{
    std::string r = "[";
    for (const auto &v : l) {
        r += " {" + v + "}";
    }
    return r + " ]";
}

// A text frame of ID3v2 keeps all its values in one frame
bool oneSlot(TagKind k, const Tag &tag, KnownField f)
{
    return isId3v2(k) && Id3v2FrameIds::isTextFrame(static_cast<const Id3v2Tag &>(tag).fieldId(f));
}

void compare(TagKind k, const Tag &tag, const Map &model, const std::string &vendor, const std::string &after)
{
    const auto at = std::string(kindNames[static_cast<int>(k)]) + " tag after " + after;
    std::size_t count = 0;
    std::string seen;
    for (const auto f : allFields()) {
        const auto where = at + ", field " + std::to_string(static_cast<unsigned>(f)) + ": ";
        if (isVorbis(k) && f == KnownField::Vendor) {
            // the vendor is no field of the comment but accessible as if it was one
            const auto &v = tag.value(f);
            CHECK_MSG((v.isEmpty() ? std::string() : full(v)) == vendor, "vendor", where + (v.isEmpty() ? "empty" : full(v)) + " instead of " + vendor);
            continue;
        }
        const auto expected = listOf(model, key(k, f));
        const auto actual = fullList(tag.values(f));
        CHECK_MSG(actual == expected, "values", where + join(actual) + " instead of " + join(expected));
        CHECK_MSG(tag.hasField(f) == !expected.empty(), "has-field", where + (tag.hasField(f) ? "present" : "not present") + " but values " + join(expected));
        const auto &v = tag.value(f);
        const auto i = model.find(key(k, f));
        const auto first = i == model.end() || i->second.empty() || i->second.front().values.empty() ? std::string() : i->second.front().values.front();
        const auto single = v.isEmpty() ? std::string() : full(v);
        CHECK_MSG(single == first, "value", where + single + " instead of " + first);
    }
    for (const auto &[name, slots] : model) {
        count += static_cast<std::size_t>(std::count_if(
            slots.begin(), slots.end(), [](const Slot &s) { return std::any_of(s.values.begin(), s.values.end(), [](const std::string &v) { return !v.empty(); }); }));
    }
    CHECK_MSG(tag.fieldCount() == count, "count", at + ": " + std::to_string(tag.fieldCount()) + " fields instead of " + std::to_string(count));
}

void setOne(Map &m, TagKind k, const std::string &name, const TagValue &v)
{
    const auto text = v.isEmpty() ? std::string() : full(v);
    auto &slots = m[name];
    if (k == TagKind::Id3v1) {
        slots = { Slot{ { text } } };
    } else if (slots.empty()) {
        if (!text.empty()) {
            slots.push_back({ { text } });
        }
    } else {
        slots.front().values.front() = text;
    }
}

void setList(Map &m, TagKind k, const std::string &name, const std::vector<TagValue> &values, bool single)
{
    if (k == TagKind::Id3v1) {
        return setOne(m, k, name, values.empty() ? TagValue() : values.front());
    }
    auto &slots = m[name];
    if (single) {
        for (auto &s : slots) {
            s.values = { std::string() };
        }
        if (values.empty()) {
            return;
        }
        if (slots.empty()) {
            slots.emplace_back();
        }
        slots.front().values.clear();
        for (const auto &v : values) {
            slots.front().values.push_back(v.isEmpty() ? std::string() : full(v));
        }
        return;
    }
    std::size_t n = 0;
    for (auto &s : slots) {
        s.values = { std::string() };
    }
    for (const auto &v : values) {
        if (v.isEmpty()) {
            continue;
        }
        if (n == slots.size()) {
            slots.emplace_back();
        }
        slots[n++].values = { full(v) };
    }
}

// The fields of the map usable for a kind; MP4's record label exists twice when the extended field is present which is not modelled
KnownField pickField(pbt::Gen &g, const std::vector<KnownField> &few)
{
    return g.chance(1, 3) ? g.pickFrom(allFields()) : g.pickFrom(few);
}

bool accepts(TagKind k, const Tag &tag, KnownField f)
{
    return tag.supportsField(f) || (isVorbis(k) && f == KnownField::Vendor);
}

// MP4 stores a predefined genre in another field than a genre given as text
std::vector<TagValue> genList(pbt::Gen &g, std::size_t max)
{
    std::vector<TagValue> r;
    for (auto n = g.below(max + 1); n; --n) {
        r.push_back(genValue(g));
    }
    return r;
}

struct Subject {
    TagKind kind;
    std::unique_ptr<Tag> tag;
    Map model;
    std::string vendor;
};

void randomSet(pbt::Gen &g, Subject &s, const std::vector<KnownField> &few, std::string &what)
{
    const auto f = pickField(g, few);
    const auto ok = accepts(s.kind, *s.tag, f);
    const auto name = key(s.kind, f);
    what += "(" + std::to_string(static_cast<unsigned>(f)) + ")";
    if (g.chance(1, 3)) {
        auto list = genList(g, 4);
        if (isVorbis(s.kind) && f == KnownField::Vendor) {
            return; // can only be set as single value
        }
        const auto result = s.tag->setValues(f, list);
        CHECK_MSG(result == ok, "set-result", std::string("setting values of ") + (ok ? "supported" : "unsupported") + " field " + name + " returned " + (result ? "true" : "false"));
        if (ok) {
            if (s.kind == TagKind::Mp4 && f == KnownField::Genre && s.model.erase("gnre")) {
                s.model.erase(name);
            }
            setList(s.model, s.kind, name, list, oneSlot(s.kind, *s.tag, f));
        }
        what += "=" + std::to_string(list.size()) + " values";
    } else {
        const auto v = g.chance(1, 5) ? TagValue() : genValue(g);
        const auto hadSlot = s.model.count(name) && !s.model[name].empty();
        const auto result = s.tag->setValue(f, v);
        // clearing a field which is not there may be reported either way
        if (!v.isEmpty() || (hadSlot && !(s.kind == TagKind::Mp4 && f == KnownField::Genre))) {
            CHECK_MSG(result == ok, "set-result", std::string("setting ") + (ok ? "supported" : "unsupported") + " field " + name + " returned " + (result ? "true" : "false"));
        }
        if (ok) {
            if (isVorbis(s.kind) && f == KnownField::Vendor) {
                s.vendor = v.isEmpty() ? std::string() : full(v);
            } else if (s.kind == TagKind::Mp4 && f == KnownField::Genre) {
                // switching between predefined genres and others replaces the field
                auto &slots = s.model[name];
                if (!slots.empty() && (v.type() == TagDataType::StandardGenreIndex) != s.model.count("gnre")) {
                    slots.clear();
                }
                v.type() == TagDataType::StandardGenreIndex ? (void)(s.model["gnre"]) : (void)(s.model.erase("gnre"));
                setOne(s.model, s.kind, name, v);
            } else {
                setOne(s.model, s.kind, name, v);
            }
        }
        what += v.isEmpty() ? "=empty" : "=value";
    }
}

void checkNames(TagKind k, const Tag &tag)
{
    for (const auto f : allFields()) {
        if (mustSupport(k, f)) {
            CHECK_MSG(tag.supportsField(f), "supported", std::string(kindNames[static_cast<int>(k)]) + " field " + std::to_string(static_cast<unsigned>(f)));
        }
    }
}

template <class T> void checkIds(TagKind k, const T &tag)
{
    std::map<decltype(tag.fieldId(KnownField::Title)), KnownField> ids;
    for (const auto f : allFields()) {
        const auto id = tag.fieldId(f);
        if (id == decltype(id)()) {
            continue;
        }
        const auto where = std::string(kindNames[static_cast<int>(k)]) + " field " + std::to_string(static_cast<unsigned>(f));
        const auto known = tag.knownField(id);
        CHECK_MSG(key(k, known) == key(k, f), "field-of-id", where + " is field " + std::to_string(static_cast<unsigned>(known)) + " when looked up by its ID");
        const auto [i, inserted] = ids.emplace(id, f);
        CHECK_MSG(inserted || key(k, i->second) == key(k, f), "shared-id", where + " has the ID of " + std::to_string(static_cast<unsigned>(i->second)));
    }
}

} // namespace

PBT_TEST(ids, 40, 40)
{
    const auto k = static_cast<TagKind>(g.below(8));
    const auto tag = makeTag(k);
    g.label(kindNames[static_cast<int>(k)]);
    g.nontrivial();
    checkNames(k, *tag);
    if (isId3v2(k)) {
        checkIds(k, static_cast<const Id3v2Tag &>(*tag));
    } else if (isVorbis(k)) {
        checkIds(k, static_cast<const VorbisComment &>(*tag));
    } else if (k == TagKind::Mp4) {
        checkIds(k, static_cast<const Mp4Tag &>(*tag));
    } else if (k == TagKind::Matroska) {
        checkIds(k, static_cast<const MatroskaTag &>(*tag));
    }
    // an unknown field is refused
    CHECK_MSG(!tag->supportsField(KnownField::Invalid) && !tag->setValue(KnownField::Invalid, TagValue(5)) && !tag->hasField(KnownField::Invalid) && tag->fieldCount() == 0,
        "invalid-field", kindNames[static_cast<int>(k)]);
}

PBT_TEST(history, 60000, 1000000)
{
    Subject s;
    s.kind = static_cast<TagKind>(g.below(8));
    s.tag = makeTag(s.kind);
    g.label(kindNames[static_cast<int>(s.kind)]);
    g.describe(kindNames[static_cast<int>(s.kind)]);
    std::vector<KnownField> few = { KnownField::Title, KnownField::Genre, KnownField::Comment };
    for (int i = 0; i < 4; ++i) {
        few.push_back(g.pickFrom(allFields()));
    }
    compare(s.kind, *s.tag, s.model, s.vendor, "creation");
    auto changes = 0;
    for (auto n = g.range(1, 12); n; --n) {
        std::string what;
        switch (g.weighted({ 16, 1, 2, 2, 1 })) {
        case 0:
            what = "set";
            randomSet(g, s, few, what);
            ++changes;
            break;
        case 1:
            what = "remove all";
            s.tag->removeAllFields();
            s.model.clear();
            ++changes;
            break;
        case 2: {
            // a field nobody knows must not show up anywhere but be counted
            what = "foreign";
            if (s.model.count("foreign")) {
                break;
            }
            const auto v = genValue(g);
            if (isId3v2(s.kind)) {
                const auto id = s.kind == TagKind::Id3v22 ? std::uint32_t(0x585959) : std::uint32_t(0x58595a5a);
                auto &t = static_cast<Id3v2Tag &>(*s.tag);
                CHECK_MSG(t.setValue(id, v), "set-id", "");
                CHECK_MSG(t.hasField(id) && full(t.value(id)) == full(v) && fullList(t.values(id)) == std::vector<std::string>{ full(v) }, "get-id", full(t.value(id)));
            } else if (isVorbis(s.kind)) {
                auto &t = static_cast<VorbisComment &>(*s.tag);
                CHECK_MSG(t.setValue(std::string("X-Foreign"), v), "set-id", "");
                // names are case-insensitive
                CHECK_MSG(t.hasField(std::string("X-FOREIGN")) && full(t.value(std::string("x-foreign"))) == full(v), "get-id", full(t.value(std::string("x-foreign"))));
            } else if (s.kind == TagKind::Matroska) {
                auto &t = static_cast<MatroskaTag &>(*s.tag);
                CHECK_MSG(t.setValue(std::string("X-FOREIGN"), v), "set-id", "");
                CHECK_MSG(t.hasField(std::string("X-FOREIGN")) && full(t.value(std::string("X-FOREIGN"))) == full(v), "get-id", full(t.value(std::string("X-FOREIGN"))));
            } else if (s.kind == TagKind::Mp4) {
                auto &t = static_cast<Mp4Tag &>(*s.tag);
                CHECK_MSG(t.setValue("com.example", "foreign", v), "set-id", "");
                CHECK_MSG(full(t.value("com.example", "foreign")) == full(v) && t.value("com.example", "other").isEmpty() && t.value("com.other", "foreign").isEmpty(), "get-id",
                    full(t.value("com.example", "foreign")));
            } else {
                break;
            }
            s.model["foreign"] = { Slot{ { full(v) } } };
            ++changes;
            break;
        }
        case 3: {
            // set via ID, read via known field
            const auto f = pickField(g, few);
            what = "set by ID(" + std::to_string(static_cast<unsigned>(f)) + ")";
            if (!s.tag->supportsField(f) || (s.kind == TagKind::Mp4 && (f == KnownField::EncoderSettings || f == KnownField::Genre))) {
                break;
            }
            const auto v = genValue(g);
            if (isId3v2(s.kind)) {
                auto &t = static_cast<Id3v2Tag &>(*s.tag);
                t.setValue(t.fieldId(f), v);
            } else if (isVorbis(s.kind)) {
                auto &t = static_cast<VorbisComment &>(*s.tag);
                auto id = t.fieldId(f);
                if (g.flip()) {
                    std::transform(id.begin(), id.end(), id.begin(), [](unsigned char c) { return static_cast<char>(std::tolower(c)); });
                }
                t.setValue(id, v);
            } else if (s.kind == TagKind::Matroska) {
                auto &t = static_cast<MatroskaTag &>(*s.tag);
                t.setValue(t.fieldId(f), v);
            } else if (s.kind == TagKind::Mp4) {
                auto &t = static_cast<Mp4Tag &>(*s.tag);
                t.setValue(t.fieldId(f), v);
            } else {
                break;
            }
            setOne(s.model, s.kind, key(s.kind, f), v);
            ++changes;
            break;
        }
        default:
            // another tag of the same kind shares nothing with this one
            what = "other tag";
            {
                auto other = makeTag(s.kind);
                other->setValue(KnownField::Title, genValue(g));
                other->removeAllFields();
            }
        }
        g.describe(" " + what);
        compare(s.kind, *s.tag, s.model, s.vendor, what);
    }
    if (changes >= 3) {
        g.nontrivial();
    }
}

namespace {

std::map<std::string, std::vector<std::string>> allValues(TagKind k, const Tag &tag)
{
    std::map<std::string, std::vector<std::string>> r;
    for (const auto f : allFields()) {
        if (isVorbis(k) && f == KnownField::Vendor) {
            if (const auto &v = tag.value(f); !v.isEmpty()) {
                r[key(k, f)] = { full(v) };
            }
            continue;
        }
        if (auto l = fullList(tag.values(f)); !l.empty()) {
            r[key(k, f)] = std::move(l);
        }
    }
    return r;
}

void fillTag(pbt::Gen &g, Subject &s, const std::vector<KnownField> &few)
{
    for (auto n = g.below(8); n; --n) {
        const auto f = pickField(g, few);
        if (s.kind == TagKind::Mp4 && f == KnownField::Genre) {
            continue; // stored in two different fields
        }
        if (!s.tag->supportsField(f)) {
            continue;
        }
        if (s.kind == TagKind::Id3v1 || g.chance(2, 3)) {
            s.tag->setValue(f, genValue(g));
        } else {
            auto l = genList(g, 3);
            l.push_back(genValue(g));
            s.tag->setValues(f, l);
        }
    }
}

} // namespace

// Copying between tags
PBT_TEST(copying, 40000, 600000)
{
    Subject a, b;
    a.kind = static_cast<TagKind>(g.below(8));
    b.kind = g.flip() ? a.kind : static_cast<TagKind>(g.below(8));
    if (isId3v2(a.kind) && isId3v2(b.kind) && a.kind != b.kind) {
        b.kind = a.kind; // frame IDs differ between versions
    }
    a.tag = makeTag(a.kind);
    b.tag = makeTag(b.kind);
    std::vector<KnownField> few = { KnownField::Title, KnownField::Comment };
    for (int i = 0; i < 4; ++i) {
        few.push_back(g.pickFrom(allFields()));
    }
    fillTag(g, a, few);
    fillTag(g, b, few);
    const auto overwrite = g.flip();
    g.describe(std::string(kindNames[static_cast<int>(b.kind)]) + " into " + kindNames[static_cast<int>(a.kind)] + (overwrite ? " overwriting" : ""));
    g.label(kindNames[static_cast<int>(a.kind)]);
    const auto own = allValues(a.kind, *a.tag), from = allValues(b.kind, *b.tag);
    const auto count = a.tag->insertValues(*b.tag, overwrite);
    const auto result = allValues(a.kind, *a.tag);
    CHECK_MSG(allValues(b.kind, *b.tag) == from, "source-changed", "");
    const auto sameType = a.tag->type() == b.tag->type();
    std::size_t expectedCount = 0;
    const auto single = a.kind == TagKind::Id3v1 || !sameType;
    for (const auto f : allFields()) {
        const auto name = key(a.kind, f);
        const auto get = [](const auto &m, const std::string &n) {
            const auto i = m.find(n);
            return i == m.end() ? std::vector<std::string>() : i->second;
        };
        const auto was = get(own, name), is = get(result, name);
        auto other = get(from, key(b.kind, f));
        if (a.kind == TagKind::Matroska && (f == KnownField::Performers || f == KnownField::Actor) && b.kind != TagKind::Matroska) {
            // both are stored in the same field
            other = get(from, key(b.kind, KnownField::Performers));
        }
        const auto where = "field " + std::to_string(static_cast<unsigned>(f)) + ": had " + join(was) + ", inserted " + join(other) + ", has " + join(is);
        if (other.empty() || !accepts(a.kind, *a.tag, f) || (isVorbis(a.kind) && f == KnownField::Vendor)) {
            CHECK_MSG(is == was, "touched", where);
        } else if (!overwrite && !was.empty()) {
            CHECK_MSG(is == was, "overwritten", where);
        } else if (was.empty()) {
            if (single) {
                CHECK_MSG(is == std::vector<std::string>{ other.front() }, "not-inserted", where);
            } else {
                CHECK_MSG(is == other, "not-inserted", where);
            }
            ++expectedCount;
        } else {
            // existing values are replaced
            if (single) {
                CHECK_MSG(!is.empty() && is.front() == other.front() && is.size() == was.size(), "not-overwritten", where);
            } else {
                CHECK_MSG(is.size() >= other.size() && std::equal(other.begin(), other.end(), is.begin()), "not-overwritten", where);
            }
            ++expectedCount;
        }
    }
    CHECK_MSG((count != 0) == (expectedCount != 0), "insert-count", std::to_string(count) + " reported but " + std::to_string(expectedCount) + " fields inserted");
    if (!own.empty() && !from.empty()) {
        g.nontrivial();
    }
}

// Fields nobody knows are copied as well and don't get mixed up
PBT_TEST(copying_extended_fields, 6000, 60000)
{
    Mp4Tag a, b;
    static const std::vector<std::pair<std::string, std::string>> names
        = { { "com.apple.iTunes", "cdec" }, { "com.apple.iTunes", "X" }, { "com.example", "X" }, { "com.example", "Y" }, { "", "Z" } };
    std::map<std::string, std::string> ma, mb;
    const auto fill = [&](Mp4Tag &t, std::map<std::string, std::string> &m) {
        for (auto n = g.below(4); n; --n) {
            const auto &[mean, name] = g.pickFrom(names);
            const auto v = genValue(g);
            t.setValue(mean, name, v);
            m[mean + "/" + name] = full(v);
        }
    };
    fill(a, ma);
    fill(b, mb);
    const auto overwrite = g.flip();
    a.insertValues(b, overwrite);
    for (const auto &[k, v] : mb) {
        if (overwrite || !ma.count(k)) {
            ma[k] = v;
        }
    }
    for (const auto &[mean, name] : names) {
        for (int i = 0; i < 2; ++i) {
            const auto &m = i ? mb : ma;
            const auto &v = (i ? b : a).value(mean, name);
            const auto e = m.find(mean + "/" + name);
            CHECK_MSG((v.isEmpty() ? std::string() : full(v)) == (e == m.end() ? std::string() : e->second), i ? "extended-source" : "extended",
                mean + "/" + name + ": " + (v.isEmpty() ? "empty" : full(v)) + " instead of " + (e == m.end() ? "empty" : e->second));
        }
    }
    if (ma.size() > 1 && !mb.empty()) {
        g.nontrivial();
    }
}

// Converting the encoding for the tag doesn't change the text
PBT_TEST(encodings, 20000, 200000)
{
    const auto k = static_cast<TagKind>(g.below(8));
    auto tag = makeTag(k);
    g.label(kindNames[static_cast<int>(k)]);
    std::map<KnownField, std::vector<std::string>> texts;
    for (auto n = g.range(1, 4); n; --n) {
        const auto f = g.pickFrom(allFields());
        if (!tag->supportsField(f)) {
            continue;
        }
        std::vector<TagValue> values;
        std::vector<std::string> expected;
        const auto max = k == TagKind::Id3v1 || (k == TagKind::Mp4) ? 1 : 3;
        for (auto m = g.range(1, max); m; --m) {
            const auto t = g.text(10, 3, 1);
            const auto e = g.pick({ TagTextEncoding::Utf8, TagTextEncoding::Latin1, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian });
            values.push_back(text(t, canRepresent(t, e) ? e : TagTextEncoding::Utf8));
            expected.push_back(t);
        }
        tag->setValues(f, values);
        texts[f] = expected;
        if (k == TagKind::Matroska && (f == KnownField::Performers || f == KnownField::Actor)) {
            texts[KnownField::Performers] = texts[KnownField::Actor] = expected;
        }
        g.nontrivial();
    }
    tag->ensureTextValuesAreProperlyEncoded();
    for (const auto &[f, expected] : texts) {
        std::vector<std::string> actual;
        for (const auto *v : tag->values(f)) {
            actual.push_back(utf8Of(*v));
            CHECK_MSG(k == TagKind::Id3v1 ? v->dataEncoding() == TagTextEncoding::Utf8 || v->dataEncoding() == TagTextEncoding::Latin1 : tag->canEncodingBeUsed(v->dataEncoding()),
                "encoding", std::string(kindNames[static_cast<int>(k)]) + " field " + std::to_string(static_cast<unsigned>(f)) + " is in " + encodingName(v->dataEncoding()));
        }
        CHECK_MSG(actual == expected, "encoded-text", join(actual) + " instead of " + join(expected));
    }
}
