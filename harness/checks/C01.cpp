// C01: ID3v1 tags survive saving and reading back.
#include "id3.h"
#include "mpeg.h"
#include "tp.h"
#include <optional>
#include <tagparser/id3/id3genres.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C01";
const char *g_rule = "files (MPEG audio, ADTS, unknown contents; with and without existing ID3v1, ID3v2 and APE tags) whose ID3v1 tag is set, changed or removed in one or two "
                     "saves; non-trivial: at least two fields set or a tag removed, with values of the whole range of lengths and of non-ASCII characters";
const char *g_level = "exploration";
}

namespace {

/// What is expected in a text slot and when reading the value back.
struct Expected {
    std::string slot; // exact bytes up to the first NUL
    std::string read; // as UTF-8 (possibly cut within a character)
};

std::string genText(pbt::Gen &g, unsigned kind, std::size_t max)
{
    auto s = fromUtf8(g.text(max, kind));
    while (!s.empty() && (s.back() == U' ' || s.back() == U'\0')) {
        s.pop_back(); // trailing spaces are padding in this format
    }
    if (!s.empty() && s[0] == 0xFEFF) {
        s[0] = U'x';
    }
    return toUtf8(s);
}

std::string rtrim(std::string s)
{
    while (!s.empty() && (s.back() == ' ')) {
        s.pop_back();
    }
    return s;
}

Expected expect(const std::string &utf8, TagTextEncoding encoding, std::size_t slot)
{
    Expected e;
    if (encoding == TagTextEncoding::Latin1) {
        std::string raw;
        toLatin1(fromUtf8(utf8), raw);
        e.slot = rtrim(raw.substr(0, slot));
        e.read = toUtf8(fromLatin1(e.slot));
    } else {
        auto ascii = true;
        for (const auto c : utf8) {
            ascii = ascii && !(c & 0x80);
        }
        e.slot = rtrim(ascii ? utf8.substr(0, slot) : "\xEF\xBB\xBF" + utf8.substr(0, slot - 3));
        e.read = ascii ? e.slot : e.slot.substr(3);
        if (e.read.empty()) {
            e.slot.clear();
        }
    }
    return e;
}

bool isLatin1Slot(const std::string &slot)
{
    return slot.compare(0, 3, "\xEF\xBB\xBF") != 0;
}

struct Model {
    std::map<KnownField, Expected> texts;
    int track = 0; // 0: none
    unsigned genre = 255;
    bool genreSet = false;
};

const std::pair<KnownField, std::size_t> slots[] = { { KnownField::Title, 30 }, { KnownField::Artist, 30 }, { KnownField::Album, 30 },
    { KnownField::RecordDate, 4 }, { KnownField::Comment, 28 } };

void checkFile(const std::string &path, const Model &m, bool genreKnown)
{
    const auto bytes = readFile(path);
    id3::V1 t;
    CHECK_MSG(id3::decodeV1(bytes, t), "no-tag", "the last 128 bytes are no ID3v1 tag: " + pbt::hex(bytes.substr(bytes.size() < 128 ? 0 : bytes.size() - 128), 128));
    const std::string *const actual[] = { &t.title, &t.artist, &t.album, &t.year, &t.comment };
    auto i = 0;
    for (const auto &s : slots) {
        const auto e = m.texts.find(s.first);
        auto want = e == m.texts.end() ? std::string() : e->second.slot;
        if (!isLatin1Slot(want)) {
            want.erase(0, 3);
        }
        auto have = rtrim(*actual[i]);
        if (!isLatin1Slot(have)) {
            have.erase(0, 3); // a byte order mark (is needed only for non-ASCII text)
        }
        CHECK_MSG(have == want, "slot-" + toStr(static_cast<unsigned>(s.first)), "slot contains " + pbt::quote(*actual[i]) + ", expected " + pbt::quote(want));
        ++i;
    }
    CHECK_MSG(bytes[bytes.size() - 3] == 0, "not-version-1.1", "");
    CHECK_MSG(t.track == m.track, "track-byte", "is " + toStr(static_cast<unsigned>(t.track)) + ", expected " + toStr(static_cast<unsigned>(m.track)));
    if (genreKnown) {
        // a number which is not assigned to a genre can not be set but must not turn into another genre
        CHECK_MSG(t.genre == m.genre || (m.genre >= 192 && t.genre == 255), "genre-byte", "is " + toStr(t.genre) + ", expected " + toStr(m.genre));
    }
    // what the library reads back
    Session s(path);
    s.parse();
    auto *const tag = s.file.id3v1Tag();
    CHECK_MSG(tag, "tag-not-read-back", diagText(s.diag));
    std::size_t count = 0;
    for (const auto &sl : slots) {
        const auto e = m.texts.find(sl.first);
        const auto want = e == m.texts.end() ? std::string() : e->second.read;
        const auto &value = tag->value(sl.first);
        const auto got = value.dataEncoding() == TagTextEncoding::Latin1 ? utf8Of(value) : std::string(value.dataPointer(), value.dataSize());
        CHECK_MSG(got == want, "read-back-" + toStr(static_cast<unsigned>(sl.first)), "value read back is " + pbt::quote(got) + ", expected " + pbt::quote(want));
        CHECK_MSG(tag->hasField(sl.first) == !want.empty(), "presence-" + toStr(static_cast<unsigned>(sl.first)), pbt::quote(want));
        count += !want.empty();
    }
    CHECK_MSG(tag->hasField(KnownField::TrackPosition) == (m.track != 0), "presence-track", toStr(static_cast<unsigned>(m.track)));
    if (m.track) {
        CHECK_MSG(tag->value(KnownField::TrackPosition).toPositionInSet().position() == m.track, "read-back-track", tag->value(KnownField::TrackPosition).toString());
        ++count;
    }
    if (genreKnown) {
        const auto &genre = tag->value(KnownField::Genre);
        CHECK_MSG(tag->hasField(KnownField::Genre) == (t.genre != 255), "presence-genre", toStr(m.genre));
        if (t.genre != 255) {
            if (t.genre < 192) {
                CHECK_MSG(genre.toStandardGenreIndex() == static_cast<int>(m.genre), "read-back-genre", toStr(m.genre));
            }
            ++count;
        }
        CHECK_MSG(tag->fieldCount() == count, "field-count", toStr(tag->fieldCount()) + " instead of " + toStr(count));
    }
}

} // namespace

PBT_TEST(save_and_read_back, 120000, 2000000)
{
    // the file
    std::string media, lead, ape;
    const auto kind = g.weighted({ 4, 2, 1 });
    switch (kind) {
    case 0:
        media = mpeg::genAudio(g, 3).data;
        break;
    case 1:
        media = mpeg::genAdts(g, 3).data;
        break;
    default:
        // no bytes which could be mistaken for the signature of a known format
        media = "some unknown data";
        for (const auto c : g.bytes(g.length(3000))) {
            media += static_cast<char>('q' + (static_cast<unsigned char>(c) & 7));
        }
        // the first 2 KiB are searched for signatures of known formats so ensure there is none within the tag either
        media.resize(std::max<std::size_t>(media.size(), 0x800), 'z');
    }
    if (g.chance(1, 3)) {
        id3::Tag v2;
        v2.major = static_cast<unsigned>(g.range(2, 4));
        v2.frames.push_back({ v2.major == 2 ? "TT2" : "TIT2", 0, -1, std::string(1, '\0') + "title", {} });
        id3::EncodeOptions o;
        o.padding = g.length(300);
        lead = id3::encode(v2, o);
    }
    if (g.chance(1, 5)) {
        ape = id3::encodeApe({ { "Title", "ape title" } }, g.flip());
    }
    id3::V1 old;
    const auto hadTag = g.flip();
    if (hadTag) {
        old.title = g.asciiWord(30);
        old.comment = g.flip() ? g.asciiWord(28) : std::string();
        old.album = g.flip() ? g.asciiWord(30) : std::string();
        old.year = g.flip() ? "1999" : "";
        old.track = static_cast<int>(g.below(256));
        old.genre = static_cast<unsigned>(g.below(g.flip() ? 256 : 192));
        if (g.chance(1, 6)) {
            old.track = 0;
            old.comment = "a comment with thirty letters.";
        }
    }
    const auto path = g.dir + "/test.mp3";
    const auto original = lead + media + ape + (hadTag ? id3::encodeV1(old) : std::string());
    writeFile(path, original);
    g.label(std::string(kind == 0 ? "mpeg" : kind == 1 ? "adts" : "unknown") + (lead.empty() ? "" : " +id3v2") + (ape.empty() ? "" : " +ape"));
    g.describe(std::string(kind == 0 ? "mpeg" : kind == 1 ? "adts" : "unknown") + (lead.empty() ? "" : " +id3v2") + (ape.empty() ? "" : " +ape") + (hadTag ? " +id3v1" : "") + ":");

    Model m;
    auto present = hadTag;
    if (hadTag) {
        const std::string *const values[] = { &old.title, &old.artist, &old.album, &old.year, &old.comment };
        auto i = 0;
        for (const auto &s : slots) {
            if (!values[i]->empty()) {
                m.texts[s.first] = expect(*values[i], TagTextEncoding::Latin1, s.second);
            }
            ++i;
        }
        m.track = old.track;
        m.genre = old.genre;
    }

    std::optional<Session> session;
    const auto rounds = 1 + g.below(2);
    for (std::uint64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(path);
        }
        auto &s = *session;
        g.describe("; ");
        s.parse();
        if (present) {
            CHECK_MSG(s.file.id3v1Tag(), "existing-tag-not-found", diagText(s.diag));
        } else {
            CHECK_MSG(!s.file.id3v1Tag(), "tag-invented", "");
        }
        const auto action = g.weighted({ 8, 2, 1 });
        if (action == 1) {
            s.file.removeId3v1Tag();
            present = false;
            m = Model();
            g.describe(" remove");
            g.nontrivial();
        } else if (action == 0 || present) {
            auto *const tag = s.file.createId3v1Tag();
            CHECK_MSG(tag && tag == s.file.id3v1Tag(), "tag-not-created", "");
            if (!present) {
                m = Model();
            }
            present = true;
            if (action == 2) {
                g.describe(" clear");
                tag->removeAllFields();
                m = Model();
            }
            const auto changes = g.range(action == 2 ? 0 : 1, 7);
            for (std::int64_t i = 0; i < changes; ++i) {
                const auto f = g.below(7);
                if (f < 5) {
                    const auto &sl = slots[f];
                    const auto encoding = g.flip() ? TagTextEncoding::Latin1 : TagTextEncoding::Utf8;
                    std::string text;
                    if (sl.first == KnownField::RecordDate && g.flip()) {
                        text = toStr(static_cast<unsigned>(g.range(0, 9999)));
                    } else {
                        text = genText(g, encoding == TagTextEncoding::Latin1 ? 1 : 3, g.flip() ? sl.second : 2 * sl.second);
                    }
                    TagValue value = tp::text(text, encoding);
                    if (text.empty()) {
                        value = TagValue();
                    } else if (encoding == TagTextEncoding::Utf8 && g.chance(1, 4)) {
                        // UTF-16 is to be converted before
                        value = tp::text(text, g.flip() ? TagTextEncoding::Utf16LittleEndian : TagTextEncoding::Utf16BigEndian);
                    }
                    g.describe(" " + toStr(f) + "=" + pbt::quote(text, 40));
                    CHECK_MSG(tag->setValue(sl.first, value), "set-refused", "");
                    const auto e = expect(text, encoding, sl.second);
                    if (e.read.empty()) {
                        m.texts.erase(sl.first);
                    } else {
                        m.texts[sl.first] = e;
                    }
                    if (text.size() > 1) {
                        g.nontrivial();
                    }
                } else if (f == 5) {
                    const auto track = static_cast<int>(g.below(256));
                    TagValue value;
                    switch (g.below(3)) {
                    case 0:
                        value = TagValue(PositionInSet(track, static_cast<int>(g.below(256))));
                        break;
                    case 1:
                        value = tp::text(std::to_string(track) + (g.flip() ? "/12" : ""), TagTextEncoding::Latin1);
                        break;
                    default:
                        value = TagValue(track);
                    }
                    tag->setValue(KnownField::TrackPosition, value);
                    m.track = track;
                    g.describe(" track=" + std::to_string(track));
                } else {
                    const auto genre = static_cast<unsigned>(g.below(192));
                    TagValue value;
                    switch (g.below(3)) {
                    case 0:
                        value.assignStandardGenreIndex(static_cast<int>(genre));
                        break;
                    case 1:
                        value = tp::text(std::string(Id3Genres::stringFromIndex(static_cast<int>(genre))), TagTextEncoding::Utf8);
                        break;
                    default:
                        value = TagValue();
                    }
                    m.genre = value.isEmpty() ? 255 : static_cast<unsigned>(value.toStandardGenreIndex());
                    if (!value.isEmpty()) {
                        CHECK_MSG(Id3Genres::stringFromIndex(static_cast<int>(m.genre)) == Id3Genres::stringFromIndex(static_cast<int>(genre)), "genre-name", toStr(genre));
                    }
                    tag->setValue(KnownField::Genre, value);
                    g.describe(" genre=" + toStr(m.genre));
                }
            }
            tag->ensureTextValuesAreProperlyEncoded();
        }
        const auto rewrite = g.flip();
        s.file.setForceRewrite(rewrite);
        g.describe(rewrite ? " rewrite" : " in place");
        s.diag.clear();
        s.apply();
        const auto bytes = readFile(path);
        if (present) {
            checkFile(path, m, true);
        } else {
            id3::V1 t;
            CHECK_MSG(!id3::decodeV1(bytes, t), "removed-tag-still-there", "");
            Session again(path);
            again.parse();
            CHECK_MSG(!again.file.id3v1Tag(), "removed-tag-read-back", "");
        }
        // the tag is exactly the end of the file: everything before is the media data (and the APE tag)
        const auto rest = present ? bytes.substr(0, bytes.size() - 128) : bytes;
        const auto tail = media + ape;
        CHECK_MSG(rest.size() >= tail.size() && rest.compare(rest.size() - tail.size(), tail.size(), tail) == 0, "not-last-128-bytes", "data before the tag differs from the original media data: " + firstDifference(rest, tail) + ", format " + std::string(s.file.containerFormatName()) + ", now " + pbt::hex(rest, 40) + " originally " + pbt::hex(tail, 40));
        if (lead.empty()) {
            CHECK_MSG(rest.size() == tail.size(), "file-size", toStr(bytes.size()));
        }
    }
}
