// C19: tag creation settings produce exactly the requested tags and lose no values.
#include "id3.h"
#include "mpeg.h"
#include "scenario.h"
#include <algorithm>
#include <set>
#include <tagparser/abstractcontainer.h>
#include <tagparser/id3/id3genres.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C19";
const char *g_rule = "MPEG audio, ADTS and unknown files with 0-1 ID3v1 and 0-3 ID3v2 tags (2.2-2.4) with overlapping values and generated files of the other formats; all combinations of tag "
                     "usages, flags, versions and targets; tags in memory, the saved file (independent decoder) and the file read again are compared with what the settings ask for; "
                     "non-trivial: there was at least one tag with values before";
const char *g_level = "exploration";
}

namespace {

constexpr KnownField fields[] = { KnownField::Title, KnownField::Artist, KnownField::Album, KnownField::RecordDate, KnownField::Comment, KnownField::TrackPosition, KnownField::Genre };

using Values = std::map<std::string, std::string>; // field or frame ID -> text

std::string valueText(KnownField f, const TagValue &v)
{
    if (v.isEmpty()) {
        return std::string();
    }
    switch (f) {
    case KnownField::RecordDate:
        return v.toString(TagTextEncoding::Utf8).substr(0, 4);
    case KnownField::Genre:
        return v.type() == TagDataType::StandardGenreIndex ? std::string(Id3Genres::stringFromIndex(v.toStandardGenreIndex())) : v.toString(TagTextEncoding::Utf8);
    case KnownField::TrackPosition:
        return std::to_string(v.toPositionInSet().position());
    default:
        return v.toString(TagTextEncoding::Utf8);
    }
}

Values valuesOf(const Tag &tag)
{
    Values r;
    for (const auto f : fields) {
        if (auto t = valueText(f, tag.value(f)); !t.empty()) {
            r[std::to_string(static_cast<int>(f))] = std::move(t);
        }
    }
    if (tag.type() == TagType::Id3v2Tag) {
        const auto &t = static_cast<const Id3v2Tag &>(tag);
        for (const auto &[id, frame] : t.fields()) {
            if (id == 0x54434f4d || id == 0x54434d) { // TCOM, TCM
                r["composer"] += canon(frame.value()) + ";";
                for (const auto &v : frame.additionalValues()) {
                    r["composer"] += canon(v) + ";";
                }
            } else if (id == 0x50524956) { // PRIV (not known by the library, no short form)
                r["PRIV"] += std::string(frame.value().dataPointer(), frame.value().dataSize()) + ";";
            } else if (id == 0x54585858 || id == 0x545858) { // TXXX, TXX
                r["TXXX"] += canon(frame.value()) + ";";
            }
        }
    }
    return r;
}

std::string show(const Values &v)
{
    std::string r;
    for (const auto &[k, t] : v) {
        r += k + ": " + pbt::quote(t) + "  ";
    }
    return "{" + r + "}";
}

std::string genWord(pbt::Gen &g)
{
    auto s = g.chance(1, 3) ? g.text(8, 3, 1) : g.asciiWord(12);
    // no surrounding spaces: padding in ID3v1; several values are separated differently in each version
    std::string r;
    for (const auto c : s) {
        if (c != ' ' && c != '/' && c != '(' && c != ';') {
            r += c;
        }
    }
    return r.empty() ? "x" : r;
}

/// A tag as other software would write it along with the values the library is expected to report
std::string genV2(pbt::Gen &g, unsigned major, bool &extra)
{
    id3::Tag t;
    t.major = major;
    const auto v22 = major == 2;
    const auto add = [&](const char *id, std::string data) {
        id3::Frame f;
        f.id = id;
        f.data = std::move(data);
        t.frames.push_back(std::move(f));
    };
    const auto textData = [&](const std::string &s) {
        std::string latin1;
        auto e = static_cast<unsigned>(g.below(major >= 4 ? 4 : 2));
        if (!e && !toLatin1(fromUtf8(s), latin1)) {
            e = 1;
        }
        return std::string(1, static_cast<char>(e)) + id3::encodeText(s, e);
    };
    if (g.flip()) {
        add(v22 ? "TT2" : "TIT2", textData(genWord(g)));
    }
    if (g.flip()) {
        add(v22 ? "TP1" : "TPE1", textData(genWord(g)));
    }
    if (g.flip()) {
        add(v22 ? "TAL" : "TALB", textData(genWord(g)));
    }
    if (g.flip()) {
        const auto year = std::to_string(g.range(1900, 2099));
        add(v22 ? "TYE" : major == 3 ? "TYER" : "TDRC", textData(year));
    }
    if (g.flip()) {
        add(v22 ? "TRK" : "TRCK", textData(std::to_string(g.range(1, 255))));
    }
    if (g.flip()) {
        const auto genre = g.below(80);
        add(v22 ? "TCO" : "TCON", textData(major >= 4 || g.flip() ? std::string(Id3Genres::stringFromIndex(static_cast<int>(genre))) : "(" + std::to_string(genre) + ")"));
    }
    if (g.flip()) {
        std::string latin1;
        const auto s = genWord(g);
        const auto e = toLatin1(fromUtf8(s), latin1) ? 0u : 1u;
        add(v22 ? "COM" : "COMM", std::string(1, static_cast<char>(e)) + "eng" + id3::terminator(e) + id3::encodeText(s, e));
    }
    extra = false;
    if (g.flip()) {
        add(v22 ? "TCM" : "TCOM", textData(genWord(g)));
        extra = true;
    }
    if (g.flip()) {
        for (auto n = g.range(1, 2); n; --n) {
            add(v22 ? "TXX" : "TXXX", std::string(1, '\0') + g.asciiWord(5) + '\0' + g.asciiWord(8));
        }
        extra = true;
    }
    if (!v22 && g.flip()) {
        add("PRIV", g.asciiWord(5) + '\0' + g.bytes(1 + g.below(10)));
        extra = true;
    }
    if (t.frames.empty()) {
        add(v22 ? "TT2" : "TIT2", textData(genWord(g)));
    }
    id3::EncodeOptions o;
    o.padding = g.length(100);
    return id3::encode(t, o);
}

std::string genV1(pbt::Gen &g)
{
    id3::V1 t;
    const auto word = [&](std::size_t max) { return g.flip() ? g.asciiWord(max) : std::string(); };
    t.title = word(30);
    t.artist = word(30);
    t.album = word(30);
    t.comment = word(28);
    t.year = g.flip() ? std::to_string(g.range(1900, 2099)) : std::string();
    t.track = g.flip() ? static_cast<int>(g.range(1, 255)) : 0;
    t.genre = g.flip() ? static_cast<unsigned>(g.below(80)) : 255;
    return id3::encodeV1(t);
}

const char *usageName(TagUsage u)
{
    return u == TagUsage::Always ? "always" : u == TagUsage::KeepExisting ? "keep" : "never";
}

TagUsage genUsage(pbt::Gen &g)
{
    return g.pick({ TagUsage::Always, TagUsage::KeepExisting, TagUsage::Never });
}

struct Before {
    bool v1 = false;
    Values v1Values;
    std::vector<Values> v2;
    std::vector<unsigned> versions;
};

// candidates: the field must have one of these values; none: the field must not be there
using Candidates = std::vector<std::string>;

Candidates from(const std::vector<Values> &tags, const std::string &k, bool first)
{
    Candidates r;
    for (const auto &t : tags) {
        if (const auto i = t.find(k); i != t.end()) {
            r.push_back(i->second);
            if (first) {
                break;
            }
        }
    }
    return r;
}

void expectValue(const std::string &k, const Candidates &candidates, const Values &actual, const char *what)
{
    const auto i = actual.find(k);
    const auto is = i == actual.end() ? std::string() : i->second;
    if (candidates.empty()) {
        CHECK_MSG(is.empty(), std::string(what) + "-invented", "field " + k + " is " + pbt::quote(is) + " but nothing was there");
        return;
    }
    CHECK_MSG(std::find(candidates.begin(), candidates.end(), is) != candidates.end(), std::string(what) + (is.empty() ? "-lost" : "-wrong"),
        "field " + k + " is " + pbt::quote(is) + " instead of " + pbt::quote(candidates.front()));
}

} // namespace

PBT_TEST(id3_tags, 80000, 800000)
{
    // make a file
    const auto what = g.weighted({ 6, 2, 1 });
    const auto v2Count = g.weighted({ 2, 4, 2, 1 });
    std::string data;
    Before b;
    std::vector<bool> extra;
    for (std::size_t i = 0; i < v2Count; ++i) {
        bool e;
        b.versions.push_back(static_cast<unsigned>(g.range(2, 4)));
        data += genV2(g, b.versions.back(), e);
    }
    if (what == 0) {
        data += mpeg::genAudio(g, 3).data;
    } else if (what == 1) {
        data += mpeg::genAdts(g, 3).data;
    } else {
        data += "some text which is no media file at all, just a long text" + std::string(2200, 'x'); // junk is only skipped up to a limit
    }
    if (g.flip()) {
        data += genV1(g);
        b.v1 = true;
    }
    const auto path = g.dir + "/a." + (what == 0 ? "mp3" : what == 1 ? "aac" : "txt");
    writeFile(path, data);
    if (const auto *const copy = std::getenv("PBT_COPY")) {
        writeFile(copy, data);
    }

    TagCreationSettings settings;
    settings.id3v1usage = genUsage(g);
    settings.id3v2usage = genUsage(g);
    settings.flags = TagCreationFlags::None;
    const auto flag = [&](TagCreationFlags f) {
        const auto on = g.flip();
        settings.setFlag(f, on);
        return on;
    };
    const auto unknownAsMp3 = flag(TagCreationFlags::TreatUnknownFilesAsMp3Files), init = flag(TagCreationFlags::Id3InitOnCreate),
               transfer = flag(TagCreationFlags::Id3TransferValuesOnRemoval), merge = flag(TagCreationFlags::MergeMultipleSuccessiveId3v2Tags),
               keepVersion = flag(TagCreationFlags::KeepExistingId3v2Version);
    settings.id3v2MajorVersion = static_cast<std::uint8_t>(g.range(2, 4));
    g.describe(std::to_string(v2Count) + " ID3v2" + (b.v1 ? ", ID3v1" : "") + " v1=" + usageName(settings.id3v1usage) + " v2=" + usageName(settings.id3v2usage) + (init ? " init" : "")
        + (transfer ? " transfer" : "") + (merge ? " merge" : "") + (keepVersion ? " keep-version" : "") + (unknownAsMp3 ? " unknown-as-mp3" : "") + " version 2."
        + std::to_string(settings.id3v2MajorVersion));

    Session s(path);
    if (g.chance(1, 20)) {
        CHECK_MSG(!s.file.createAppropriateTags(settings) && !s.file.hasAnyTag(), "not-parsed", "tags created before parsing");
    }
    s.parse();
    CHECK_MSG(s.file.id3v2Tags().size() == v2Count && s.file.hasId3v1Tag() == b.v1, "parse", diagText(s.diag));
    for (const auto &t : s.file.id3v2Tags()) {
        b.v2.push_back(valuesOf(*t));
    }
    if (b.v1) {
        b.v1Values = valuesOf(*s.file.id3v1Tag());
    }
    if (!b.v1Values.empty() || !b.v2.empty()) {
        g.nontrivial();
    }
    const auto supported = what != 2 || unknownAsMp3 || b.v1 || v2Count;
    const auto created = s.file.createAppropriateTags(settings);
    CHECK_MSG(created == supported, "result", created ? "tags created for an unsupported file" : "no tags created for a supported file");
    const auto twice = g.chance(1, 4);
    if (!supported) {
        CHECK_MSG(!s.file.hasAnyTag(), "unsupported-tags", "");
        return;
    }
    // kinds
    const auto v1 = settings.id3v1usage == TagUsage::Always || (settings.id3v1usage == TagUsage::KeepExisting && b.v1);
    auto count = settings.id3v2usage == TagUsage::Never ? std::size_t(0) : settings.id3v2usage == TagUsage::Always && !v2Count ? std::size_t(1) : v2Count;
    if (merge && count > 1) {
        count = 1;
    }
    const auto checkKinds = [&](const char *when) {
        const auto &tags = s.file.id3v2Tags();
        CHECK_MSG(s.file.hasId3v1Tag() == v1, "id3v1-kind", std::string(when) + (v1 ? ": missing" : ": not removed"));
        CHECK_MSG(tags.size() == count, "id3v2-kind", std::string(when) + ": " + std::to_string(tags.size()) + " instead of " + std::to_string(count) + " ID3v2 tags");
        for (std::size_t i = 0; i < count; ++i) {
            const auto expected = v2Count && keepVersion ? b.versions[i] : settings.id3v2MajorVersion;
            CHECK_MSG(tags[i]->majorVersion() == expected, "version", std::string(when) + ": 2." + std::to_string(tags[i]->majorVersion()) + " instead of 2." + std::to_string(expected));
        }
    };
    checkKinds("after creation");
    const auto checkValues = [&](const char *when, bool saved) {
        const auto name = [&](const char *n) { return std::string(n) + (saved ? "-saved" : ""); };
        if (v1) {
            auto actual = valuesOf(*s.file.id3v1Tag());
            for (const auto f : fields) {
                const auto k = std::to_string(static_cast<int>(f));
                Candidates c;
                if (b.v1 && b.v1Values.count(k)) {
                    c = { b.v1Values[k] };
                } else if (!b.v1 && init) {
                    // a value of any of the tags; the first one must be preferred when they are merged as well (see C19 in DESIGN.md)
                    c = from(b.v2, k, false);
                } else if (settings.id3v2usage == TagUsage::Never && transfer) {
                    c = from(b.v2, k, true);
                }
                if (saved) {
                    // slots have a limited size; the genre is a number
                    if (!c.empty() && (c.front().size() > 20 || std::any_of(c.begin(), c.end(), [](const auto &t) { return std::any_of(t.begin(), t.end(), [](char ch) { return ch & 0x80; }); }))) {
                        continue;
                    }
                    if (f == KnownField::Genre && c.empty()) {
                        continue; // there is always a genre in the file
                    }
                }
                expectValue(k, c, actual, name("id3v1").c_str());
            }
        }
        for (std::size_t i = 0; i < count; ++i) {
            const auto actual = valuesOf(*s.file.id3v2Tags()[i]);
            for (const auto f : fields) {
                const auto k = std::to_string(static_cast<int>(f));
                Candidates c;
                if (v2Count) {
                    c = merge ? from(b.v2, k, true) : from({ b.v2[i] }, k, true);
                }
                if (c.empty() && b.v1 && b.v1Values.count(k)) {
                    if (!v2Count ? init || (transfer && settings.id3v1usage == TagUsage::Never) : i == 0 && transfer && settings.id3v1usage == TagUsage::Never) {
                        c = { b.v1Values[k] };
                    }
                }
                expectValue(k, c, actual, name("id3v2").c_str());
            }
            for (const auto *const k : { "composer", "TXXX", "PRIV" }) {
                Candidates c;
                if (v2Count) {
                    c = merge ? from(b.v2, k, true) : from({ b.v2[i] }, k, true);
                }
                if (saved && c.size() && k == std::string("PRIV") && s.file.id3v2Tags()[i]->majorVersion() < 3) {
                    continue; // can not be represented
                }
                expectValue(k, c, actual, name(k).c_str());
            }
        }
        (void)when;
    };
    checkValues("after creation", false);
    if (twice) {
        // nothing changes when the tags match already; the initialization only concerns new tags
        s.file.createAppropriateTags(settings);
        checkKinds("after creating again");
        checkValues("after creating again", false);
    }
    // values need to be there so all tags are actually written
    const auto emptyTag = [&] {
        return std::any_of(s.file.id3v2Tags().begin(), s.file.id3v2Tags().end(), [](const auto &t) { return !t->fieldCount(); });
    }();
    sc::Settings layout;
    layout.forceRewrite = g.flip();
    layout.maxPadding = 100000;
    layout.apply(s.file);
    sc::save(s);
    const auto result = readFile(path);
    std::size_t end = 0;
    const auto tags = id3::decodeAll(result, end);
    if (!emptyTag) {
        CHECK_MSG(tags.size() == count, "file-id3v2", std::to_string(tags.size()) + " instead of " + std::to_string(count) + " ID3v2 tags in the saved file");
        for (std::size_t i = 0; i < count; ++i) {
            CHECK_MSG(tags[i].major == (v2Count && keepVersion ? b.versions[i] : settings.id3v2MajorVersion), "file-version", std::to_string(tags[i].major));
        }
    }
    id3::V1 tag;
    CHECK_MSG(id3::decodeV1(result, tag) == v1, "file-id3v1", v1 ? "missing in the saved file" : "not removed from the saved file");
    if (!emptyTag) {
        s.diag.clear();
        s.file.clearParsingResults();
        s.parse();
        checkKinds("after saving");
        checkValues("after saving", true);
    }
}

// the convenience functions for converting
PBT_TEST(converting, 20000, 200000)
{
    std::string data;
    const auto v2Count = g.below(3);
    std::vector<unsigned> versions;
    for (std::size_t i = 0; i < v2Count; ++i) {
        bool e;
        versions.push_back(static_cast<unsigned>(g.range(2, 4)));
        data += genV2(g, versions.back(), e);
    }
    data += mpeg::genAudio(g, 2).data;
    const auto hadV1 = g.flip();
    if (hadV1) {
        data += genV1(g);
    }
    const auto path = g.dir + "/a.mp3";
    writeFile(path, data);
    Session s(path);
    s.parse();
    std::vector<Values> v2;
    Values v1;
    for (const auto &t : s.file.id3v2Tags()) {
        v2.push_back(valuesOf(*t));
    }
    if (hadV1) {
        v1 = valuesOf(*s.file.id3v1Tag());
    }
    if (v2Count || hadV1) {
        g.nontrivial();
    }
    switch (g.below(3)) {
    case 0:
        g.describe("ID3v1 to ID3v2");
        CHECK_MSG(s.file.id3v1ToId3v2() == hadV1, "to-v2-result", "");
        if (!hadV1) {
            CHECK_MSG(s.file.id3v2Tags().size() == v2Count, "to-v2-untouched", "");
            return;
        }
        CHECK_MSG(!s.file.hasId3v1Tag() && s.file.id3v2Tags().size() == 1, "to-v2-kinds", "");
        {
            auto all = v2;
            all.push_back(v1);
            for (const auto f : fields) {
                const auto k = std::to_string(static_cast<int>(f));
                expectValue(k, from(all, k, true), valuesOf(*s.file.id3v2Tags().front()), "to-v2");
            }
        }
        break;
    case 1:
        g.describe("ID3v2 to ID3v1");
        CHECK_MSG(s.file.id3v2ToId3v1() == (v2Count != 0), "to-v1-result", "");
        if (!v2Count) {
            CHECK_MSG(s.file.hasId3v1Tag() == hadV1, "to-v1-untouched", "");
            return;
        }
        CHECK_MSG(s.file.hasId3v1Tag() && !s.file.hasId3v2Tag(), "to-v1-kinds", "");
        {
            auto all = v2;
            all.insert(all.begin(), v1);
            for (const auto f : fields) {
                const auto k = std::to_string(static_cast<int>(f));
                auto c = from(all, k, hadV1);
                expectValue(k, c, valuesOf(*s.file.id3v1Tag()), "to-v1");
            }
        }
        break;
    default:
        g.describe("merging ID3v2");
        s.file.mergeId3v2Tags();
        CHECK_MSG(s.file.id3v2Tags().size() == std::min<std::size_t>(v2Count, 1) && s.file.hasId3v1Tag() == hadV1, "merge-kinds", "");
        if (!v2Count) {
            return;
        }
        CHECK_MSG(s.file.id3v2Tags().front()->majorVersion() == versions.front(), "merge-version", "");
        for (const auto &t : v2) {
            for (const auto &[k, v] : t) {
                expectValue(k, from(v2, k, true), valuesOf(*s.file.id3v2Tags().front()), "merge");
            }
        }
        if (hadV1) {
            CHECK_MSG(valuesOf(*s.file.id3v1Tag()) == v1, "merge-id3v1", show(valuesOf(*s.file.id3v1Tag())));
        }
    }
}

// formats whose container manages the tags
PBT_TEST(container_tags, 10000, 100000)
{
    std::vector<fmt::Kind> kinds;
    for (const auto k : sc::kinds()) {
        if (k == fmt::Kind::Flac || k == fmt::Kind::Ogg || k == fmt::Kind::Mp4 || k == fmt::Kind::Matroska) {
            kinds.push_back(k);
        }
    }
    if (kinds.empty()) {
        g.discard();
    }
    auto s = sc::make(g, fmt::GenOptions(), kinds);
    Session session(s.path);
    session.parse();
    std::map<const Tag *, std::string> existing;
    const auto describe = [](const Tag &t) {
        std::string r = t.targetString() + " ";
        for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
            for (const auto *v : t.values(f)) {
                r += std::to_string(static_cast<int>(f)) + "=" + canon(*v) + ";";
            }
        }
        return r;
    };
    std::vector<TagTarget> targets;
    const auto tagsOf = [&] {
        // ID3 tags in front of FLAC files are none of the container's business
        auto tags = session.file.tags();
        tags.erase(std::remove_if(tags.begin(), tags.end(), [](const Tag *t) { return t->type() == TagType::Id3v1Tag || t->type() == TagType::Id3v2Tag; }), tags.end());
        return tags;
    };
    for (const auto *t : tagsOf()) {
        existing[t] = describe(*t);
        targets.push_back(t->target());
    }
    if (!existing.empty()) {
        g.nontrivial();
    }
    TagCreationSettings settings;
    std::vector<std::string> required;
    if (s.kind == fmt::Kind::Matroska) {
        for (auto n = g.below(4); n; --n) {
            TagTarget t;
            if (g.flip()) {
                t.setLevel(10 * static_cast<std::uint64_t>(g.range(1, 7)));
            }
            for (auto m = g.below(3); m; --m) {
                (g.flip() ? t.tracks() : g.flip() ? t.chapters() : g.flip() ? t.editions() : t.attachments()).push_back(g.below(100));
            }
            if (!targets.empty() && g.chance(1, 3)) {
                t = g.pickFrom(targets);
            }
            settings.requiredTargets.push_back(t);
        }
    }
    settings.id3v1usage = TagUsage::KeepExisting;
    settings.id3v2usage = TagUsage::KeepExisting;
    const auto before = existing.size();
    const auto created = session.file.createAppropriateTags(settings);
    CHECK_MSG(created, "container-result", s.file.what);
    const auto after = tagsOf();
    std::size_t kept = 0;
    for (const auto *t : after) {
        if (const auto i = existing.find(t); i != existing.end()) {
            ++kept;
            CHECK_MSG(describe(*t) == i->second, "container-changed", i->second + "\nbecame " + describe(*t));
        } else {
            CHECK_MSG(!t->fieldCount(), "container-new-not-empty", describe(*t));
        }
    }
    CHECK_MSG(kept == before, "container-removed", std::to_string(before - kept) + " tags removed");
    std::vector<TagTarget> missing;
    for (const auto &t : settings.requiredTargets) {
        if (!t.isEmpty() && std::find(targets.begin(), targets.end(), t) == targets.end() && std::find(missing.begin(), missing.end(), t) == missing.end()) {
            missing.push_back(t);
        }
    }
    for (const auto &t : settings.requiredTargets) {
        CHECK_MSG(t.isEmpty() || std::any_of(after.begin(), after.end(), [&](const Tag *a) { return a->target() == t; }), "container-target", t.toString(TagTargetLevel::Unspecified));
    }
    auto expected = before + missing.size();
    // an unspecific target is fine with any tag
    if (!expected) {
        expected = 1;
    }
    const auto unspecific = std::any_of(settings.requiredTargets.begin(), settings.requiredTargets.end(), [](const TagTarget &t) { return t.isEmpty(); });
    CHECK_MSG(after.size() == expected || (unspecific && !before && after.size() == expected + 1), "container-count",
        std::to_string(after.size()) + " instead of " + std::to_string(expected) + " tags");
    // nothing to do the second time
    session.file.createAppropriateTags(settings);
    CHECK_MSG(tagsOf() == after, "container-again", std::to_string(tagsOf().size()) + " instead of " + std::to_string(after.size()) + " tags");
}

// Removing tags removes exactly the tags asked for, regardless of the format.
PBT_TEST(tags_removed, 15000, 200000)
{
    auto s = sc::make(g);
    if (s.kind == fmt::Kind::Mp4 && g.chance(1, 10)) {
        // looks like there was also an ID3v1 tag
        s.file.bytes += be(136, 4) + "freeTAG" + g.bytes(125);
        writeFile(s.path, s.file.bytes);
        g.label("ID3v1 in container");
    }
    std::optional<Session> session;
    session.emplace(s.path);
    session->allowId3v1InContainer = true;
    session->parse();
    const auto describe = [](const Tag &t) {
        auto r = std::string(t.typeName()) + " " + t.targetString() + " ";
        for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
            for (const auto *v : t.values(f)) {
                r += std::to_string(static_cast<int>(f)) + "=" + canon(*v) + ";";
            }
        }
        return r;
    };
    const auto hasContainer = session->file.container() != nullptr;
    // the tags expected to be present after saving
    struct Expected {
        Tag *tag;
        std::string text;
        TagType type;
        std::size_t fields;
    };
    std::vector<Expected> expected;
    for (auto *t : session->file.tags()) {
        expected.push_back({ t, describe(*t), t->type(), t->fieldCount() });
    }
    if (expected.empty()) {
        g.discard();
    }
    const auto checkTags = [&](const char *when) {
        auto &f = session->file;
        const auto tags = f.tags();
        auto id3v1 = false, id3v2 = false, vorbis = false;
        for (const auto *t : tags) {
            id3v1 |= t->type() == TagType::Id3v1Tag;
            id3v2 |= t->type() == TagType::Id3v2Tag;
            vorbis |= t->type() == TagType::VorbisComment || t->type() == TagType::OggVorbisComment;
        }
        CHECK_MSG(f.hasAnyTag() == !tags.empty(), "has-any-tag", when + std::string(": ") + s.file.what);
        CHECK_MSG(f.hasId3v1Tag() == id3v1, "has-id3v1", when);
        CHECK_MSG((f.id3v1Tag() != nullptr) == id3v1, "id3v1", when);
        CHECK_MSG(f.hasId3v2Tag() == id3v2 && !f.id3v2Tags().empty() == id3v2, "has-id3v2", when);
        CHECK_MSG((f.vorbisComment() != nullptr) == vorbis, "vorbis-comment", when + std::string(": ") + s.file.what);
        // (a FLAC file might have pictures but no comment)
        CHECK_MSG(s.kind == fmt::Kind::Flac || f.parsedTags() == tags, "parsed-tags", when + std::string(": ") + s.file.what);
        return tags;
    };
    checkTags("initially");
    for (auto n = g.range(1, 3); n && !expected.empty(); --n) {
        auto &f = session->file;
        const auto index = g.below(expected.size());
        auto *const tag = expected[index].tag;
        const auto type = tag->type();
        auto many = false;
        switch (g.below(6)) {
        case 0:
            f.removeAllTags();
            expected.clear();
            g.describe(" all removed");
            break;
        case 1:
            if (type == TagType::Id3v1Tag) {
                CHECK_MSG(f.removeId3v1Tag(), "id3v1-refused", "");
                expected.erase(expected.begin() + static_cast<std::ptrdiff_t>(index));
                break;
            }
            if (type == TagType::Id3v2Tag) {
                many = g.flip();
                CHECK_MSG(many ? f.removeAllId3v2Tags() : f.removeId3v2Tag(static_cast<Id3v2Tag *>(tag)), "id3v2-refused", "");
                if (many) {
                    expected.erase(std::remove_if(expected.begin(), expected.end(), [](const auto &e) { return e.type == TagType::Id3v2Tag; }), expected.end());
                } else {
                    expected.erase(expected.begin() + static_cast<std::ptrdiff_t>(index));
                }
                break;
            }
            [[fallthrough]];
        default:
            CHECK_MSG(f.removeTag(tag), "refused", expected[index].text);
            g.describe(" removed " + expected[index].text);
            expected.erase(expected.begin() + static_cast<std::ptrdiff_t>(index));
        }
        CHECK_MSG(!f.removeTag(nullptr), "null-removed", "");
        // the remaining tags are still the same objects having the same values
        const auto tags = checkTags("after removing");
        CHECK_MSG(tags.size() == expected.size(), "count", toStr(tags.size()) + " instead of " + toStr(expected.size()) + " tags of " + s.file.what);
        for (const auto &e : expected) {
            CHECK_MSG(std::find(tags.begin(), tags.end(), e.tag) != tags.end(), "wrong-tag-removed", e.text);
            CHECK_MSG(describe(*e.tag) == e.text, "changed", e.text + "\nbecame " + describe(*e.tag));
        }
    }
    g.nontrivial();
    std::multiset<std::string> expectedTexts, actualTexts;
    for (const auto &e : expected) {
        const auto id3 = e.type == TagType::Id3v1Tag || e.type == TagType::Id3v2Tag;
        if (!(hasContainer && id3) && e.fields) {
            expectedTexts.insert(e.text);
        }
    }
    sc::genSettings(g, s.before).apply(session->file);
    sc::save(*session);
    session.emplace(s.path);
    session->allowId3v1InContainer = true;
    session->parse();
    for (const auto *t : checkTags("after saving")) {
        const auto id3 = t->type() == TagType::Id3v1Tag || t->type() == TagType::Id3v2Tag;
        if (!(hasContainer && id3) && t->fieldCount()) {
            actualTexts.insert(describe(*t));
        }
    }
    std::string d;
    for (const auto &t : expectedTexts) {
        d += actualTexts.count(t) < expectedTexts.count(t) ? "missing: " + t + "\n" : std::string();
    }
    for (const auto &t : actualTexts) {
        d += expectedTexts.count(t) < actualTexts.count(t) ? "unexpected: " + t + "\n" : std::string();
    }
    CHECK_MSG(d.empty(), std::string("saved-") + fmt::name(s.kind), d);
}
