// C13: any input is parsed safely and read-only.
#include "../mutate.h"
#include "scenario.h"
#include <ctime>
#include <sanitizer/allocator_interface.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/ogg/oggcontainer.h>
#include <sys/stat.h>

using namespace TagParser;
using namespace util;
using namespace tp;
using namespace std::string_literals;
namespace pbt {
const char *g_property = "C13";
const char *g_rule = "generated files of all formats which are damaged (truncated, changed sizes/flags/identifiers, removed/repeated/spliced ranges), signatures followed by random bytes, and structures "
                     "repeated/nested very often; parsed completely and everything which can be queried is queried, under ASan+UBSan with limits on CPU time and allocated memory; non-trivial: "
                     "the damage was noticed (a diagnostic message of at least level warning) or the library recognised a format which it supports";
const char *g_level = "exploration";
}

namespace {

// allocated memory
std::atomic<std::uint64_t> s_live { 0 }, s_peak { 0 }, s_largest { 0 };
std::atomic<bool> s_counting { false };

void onMalloc(const volatile void *, std::size_t size)
{
    if (!s_counting) {
        return;
    }
    const auto live = s_live += size;
    if (live > s_peak && live < (std::uint64_t(1) << 60)) {
        s_peak = live;
    }
    if (size > s_largest) {
        s_largest = size;
    }
}

void onFree(const volatile void *p)
{
    if (s_counting && p) {
        s_live -= __sanitizer_get_allocated_size(p);
    }
}

struct Memory {
    Memory()
    {
        static const auto installed = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
        (void)installed;
        s_live = std::uint64_t(1) << 20; // memory allocated before might be freed
        s_peak = s_largest = 0;
        s_counting = true;
    }
    ~Memory()
    {
        s_counting = false;
    }
};

/// runs a query; only documented exceptions are accepted
template <typename F> bool documented(const char *what, F &&f)
{
    try {
        f();
        return true;
    } catch (const pbt::Failure &) {
        throw;
    } catch (const TagParser::Failure &) {
    } catch (const std::ios_base::failure &) {
    } catch (...) {
        const auto text = currentExceptionText();
        pbt::fail("undocumented-exception:" + text.substr(0, text.find(": ")) + ":" + what, std::string(what) + ": " + text);
    }
    return false;
}

template <typename Element> std::size_t walk(Element *element, std::size_t &count, unsigned depth = 0)
{
    std::size_t n = 0;
    Diagnostics diag;
    for (; element && count < 3000; ) {
        ++n;
        ++count;
        element->parse(diag);
        (void)element->idToString();
        (void)element->endOffset();
        if (depth < 30) {
            walk(element->firstChild(), count, depth + 1);
        }
        element = element->nextSibling();
        if (element) {
            element->parse(diag);
        }
    }
    return n;
}

void query(MediaFileInfo &f)
{
    documented("snapshot", [&] { (void)sc::snapshot(f); });
    documented("technical summary", [&] {
        (void)f.technicalSummary();
        (void)f.duration();
        (void)f.overallAverageBitrate();
        (void)f.mimeType();
        (void)f.availableLanguages();
        (void)f.effectiveSize();
        (void)f.areTracksSupported();
        (void)f.areTagsSupported();
        (void)f.areChaptersSupported();
        (void)f.areAttachmentsSupported();
        (void)f.hasTracksOfType(MediaType::Video);
    });
    for (const auto *const t : f.tracks()) {
        documented("track", [&] {
            (void)t->description();
            (void)t->label();
            (void)t->shortDescription();
            (void)t->bitrate();
            (void)t->maxBitrate();
            (void)t->mediaTypeName();
            (void)t->format().extensionName();
            (void)t->format().abbreviation();
            (void)t->pixelSize().toString();
            (void)t->displaySize().toString();
            (void)t->fps();
            (void)t->pixelAspectRatio().isValid();
        });
    }
    for (const auto *const a : f.attachments()) {
        documented("attachment", [&] {
            (void)a->label();
            if (a->data()) {
                std::ostringstream s;
                a->data()->copyTo(s);
                CHECK_MSG(s.str().size() <= f.size(), "attachment-size", "attachment has " + toStr(s.str().size()) + " bytes");
            }
        });
    }
    documented("elements", [&] {
        std::size_t count = 0;
        if (auto *const mp4 = dynamic_cast<Mp4Container *>(f.container())) {
            walk(mp4->firstElement(), count);
        } else if (auto *const mkv = dynamic_cast<MatroskaContainer *>(f.container())) {
            walk(mkv->firstElement(), count);
        }
    });
}

bool parseAndQuery(pbt::Gen &g, const std::string &bytes, double secondsPerMegabyte = 0)
{
    const auto path = g.dir + "/test";
    writeFile(path, bytes);
    struct stat before, after;
    ::stat(path.c_str(), &before);
    auto noticed = false;
    const auto start = std::clock();
    {
        Memory memory;
        Session session(path);
        session.allowId3v1InContainer = true;
        session.file.setForceFullParse(g.flip());
        if (g.chance(1, 4)) {
            documented("partial parsing", [&] { sc::parsePartially(g, session); });
        }
        documented("parsing", [&] { session.parse(); });
        if (g.chance(1, 4)) {
            documented("parsing separately", [&] {
                session.file.parseContainerFormat(session.diag, session.progress);
                session.file.parseTags(session.diag, session.progress);
                session.file.parseTracks(session.diag, session.progress);
                session.file.parseChapters(session.diag, session.progress);
                session.file.parseAttachments(session.diag, session.progress);
            });
        }
        query(session.file);
        noticed = countDiag(session.diag, DiagLevel::Warning) || session.file.container() || session.file.trackCount();
        session.file.close();
        documented("opening again", [&] {
            session.file.open(true);
            session.file.close();
        });
    }
    const auto seconds = static_cast<double>(std::clock() - start) / CLOCKS_PER_SEC;
    if (::getenv("PBT_STAT")) {
        fprintf(stderr, "STAT size %zu peak %llu largest %llu seconds %f\n", bytes.size(), static_cast<unsigned long long>(s_peak), static_cast<unsigned long long>(s_largest), seconds);
    }
    const auto limit = (std::uint64_t(8) << 20) + bytes.size() * 200;
    CHECK_MSG(s_peak <= limit, "memory", toStr(s_peak.load()) + " bytes allocated (at most " + toStr(s_largest.load()) + " at once) for a file of " + toStr(bytes.size()) + " bytes");
    if (secondsPerMegabyte > 0) {
        const auto allowed = 2.0 + secondsPerMegabyte * static_cast<double>(bytes.size()) / 1e6;
        CHECK_MSG(seconds <= allowed, "time", std::to_string(seconds) + " s for " + toStr(bytes.size()) + " bytes");
    }
    ::stat(path.c_str(), &after);
    CHECK_MSG(readFile(path) == bytes, "file-modified", "parsing changed the file");
    CHECK_MSG(before.st_ino == after.st_ino && before.st_mtim.tv_nsec == after.st_mtim.tv_nsec && before.st_mtim.tv_sec == after.st_mtim.tv_sec, "file-modified", "parsing wrote to the file");
    return noticed;
}

} // namespace

PBT_TEST(damaged_files, 150000, 1000000)
{
    fmt::GenOptions options;
    options.rich = g.chance(2, 3);
    options.maxPicture = 500;
    const auto kind = g.pickFrom(sc::kinds());
    g.label(fmt::name(kind));
    auto file = fmt::generate(g, kind, options);
    std::string other;
    if (g.chance(1, 12)) {
        other = fmt::generate(g, g.pickFrom(sc::kinds()), options).bytes;
    }
    const auto bytes = mut::mutate(g, std::move(file.bytes), other);
    g.describe(file.what);
    if (parseAndQuery(g, bytes)) {
        g.nontrivial();
    }
}

PBT_TEST(random_files, 75000, 500000)
{
    static const std::vector<std::string> starts = { "ID3\3", "ID3\4", "ID3\2", "fLaC", "OggS", "RIFF\x24\x10\0\0WAVE"s, "\xFF\xFB\x90\x64", "\xFF\xF1\x50\x80", "DKIF",
        "\x1A\x45\xDF\xA3", "\0\0\0\x18""ftypM4A \0\0\0\0M4A mp42"s, "\0\0\0\x08moov"s, "\0\0\1\0moov\0\0\0\x6Cmvhd"s, "APETAGEX", "\0\0\0\0", "" };
    std::string bytes = g.pickFrom(starts);
    bytes += g.bytes(g.length(g.chance(1, 10) ? 5000 : 300));
    if (g.chance(1, 6)) {
        bytes += "TAG" + g.bytes(125);
    }
    if (g.flip()) {
        bytes = mut::mutate(g, bytes);
    }
    g.describe(pbt::hex(bytes.substr(0, 100)));
    if (parseAndQuery(g, bytes)) {
        g.nontrivial();
    }
}

namespace {

/// encodes an EBML element
std::string ebml(std::uint32_t id, const std::string &data)
{
    std::string head;
    for (auto shift = 24; shift >= 0; shift -= 8) {
        if (id >> shift) {
            head += static_cast<char>(id >> shift);
        }
    }
    return head + be(0x0100000000000000u | data.size(), 8) + data;
}

std::string atom(const std::string &id, const std::string &data)
{
    return be(data.size() + 8, 4) + id + data;
}

} // namespace

PBT_TEST(repeated_structures, 1500, 30000)
{
    // repeat or nest one of the structures very often
    std::string bytes;
    const auto n = static_cast<std::size_t>(g.range(50, g.thorough ? 30000 : 4000));
    const auto repeat = [n](const std::string &s) {
        std::string res;
        for (std::size_t i = 0; i != n; ++i) {
            res += s;
        }
        return res;
    };
    static const auto ebmlHead = ebml(0x1A45DFA3, ebml(0x4282, "matroska") + ebml(0x4287, "\4") + ebml(0x4285, "\2"));
    switch (const auto what = g.below(12)) {
    case 0:
    case 1: { // nested MP4 atoms
        static const std::vector<std::string> ids = { "moov", "udta", "meta", "ilst", "trak", "mdia", "minf", "stbl", "stsd", "moof", "traf", "dinf", "mvex", "esds", "mp4a", "\xA9nam", "data", "----", "sinf", "avc1" };
        std::string data = what ? atom("ftyp", "M4A \0\0\0\0"s) : std::string();
        std::string nested;
        const auto id = g.pickFrom(ids), other = g.chance(1, 3) ? g.pickFrom(ids) : id, outer = g.pickFrom(ids);
        const auto full = [](const std::string &i) { return i == "meta" || i == "stsd" || i == "esds" ? 4u : i == "mp4a" ? 28u : 0u; };
        const auto depth = std::min<std::size_t>(n, 20000);
        std::string head;
        std::vector<std::string> heads;
        std::size_t size = 0;
        for (std::size_t i = 0; i != depth; ++i) {
            const auto &current = i % 2 ? other : id;
            size += 8 + full(current);
            heads.push_back(be(size, 4) + current + std::string(full(current), '\0'));
        }
        for (auto i = heads.rbegin(); i != heads.rend(); ++i) {
            head += *i;
        }
        bytes = data + (g.flip() ? atom(outer, head) : head);
        g.describe(" nested " + id + "/" + other + " in " + outer + " x" + toStr(depth));
        break;
    }
    case 2:
    case 3: { // repeated MP4 atoms
        static const std::vector<std::string> ids = { "moov", "udta", "meta", "ilst", "trak", "mdia", "minf", "stbl", "stsd", "moof", "mdat", "free", "traf", "ftyp", "mvhd", "tkhd", "mdhd", "hdlr", "stts", "stsz", "stco", "stsc", "sidx" };
        const auto id = g.pickFrom(ids);
        auto content = repeat(atom(id, g.flip() ? "" : g.bytes(g.below(40))));
        for (auto depth = g.below(5); depth; --depth) {
            const auto outer = g.pickFrom(ids);
            content = atom(outer, outer == "meta" || outer == "stsd" ? std::string(outer == "meta" ? 4 : 8, '\0') + content : content);
            g.describe(" " + outer);
        }
        bytes = atom("ftyp", "M4A \0\0\0\0"s) + content;
        g.describe(" repeated " + id + " x" + toStr(n));
        break;
    }
    case 4:
    case 5: { // nested Matroska elements
        static const std::vector<std::uint32_t> ids = { 0x1549A966, 0x1654AE6B, 0xAE, 0x6D80, 0x6240, 0x1043A770, 0x45B9, 0xB6, 0x80, 0x8F, 0x1254C367, 0x7373, 0x63C0, 0x67C8, 0x1941A469, 0x61A7, 0x1F43B675, 0xA0, 0x1C53BB6B, 0xBB, 0xB7, 0x114D9B74, 0x4DBB, 0x18538067 };
        const auto id = g.pickFrom(ids), other = g.chance(1, 3) ? g.pickFrom(ids) : id;
        const auto depth = std::min<std::size_t>(n, 20000);
        std::vector<std::string> heads;
        std::size_t size = 0;
        for (std::size_t i = 0; i != depth; ++i) {
            const auto current = i % 2 ? other : id;
            std::string head;
            for (auto shift = 24; shift >= 0; shift -= 8) {
                if (current >> shift) {
                    head += static_cast<char>(current >> shift);
                }
            }
            head += be(0x10000000u | size, 4);
            size += head.size();
            heads.push_back(head);
        }
        std::string nested;
        for (auto i = heads.rbegin(); i != heads.rend(); ++i) {
            nested += *i;
        }
        for (auto outer = g.below(3); outer; --outer) {
            const auto o = g.pickFrom(ids);
            nested = ebml(o, nested);
            g.describe(" " + pbt::hex(be(o, 4)));
        }
        bytes = ebmlHead + ebml(0x18538067, nested);
        g.describe(" nested " + pbt::hex(be(id, 4)) + "/" + pbt::hex(be(other, 4)) + " x" + toStr(depth));
        break;
    }
    case 6:
    case 7: { // repeated Matroska elements
        static const std::vector<std::uint32_t> ids = { 0x1549A966, 0x1654AE6B, 0xAE, 0x6D80, 0x1043A770, 0x45B9, 0xB6, 0x80, 0x1254C367, 0x7373, 0x63C0, 0x67C8, 0x1941A469, 0x61A7, 0x1F43B675, 0xA0, 0x1C53BB6B, 0xBB, 0xB7, 0x114D9B74, 0x4DBB, 0x18538067, 0xEC, 0xBF, 0xE7, 0x45A3, 0x4487, 0x466E, 0x465C, 0x85 };
        const auto id = g.pickFrom(ids);
        auto content = repeat(ebml(id, g.flip() ? "" : g.bytes(g.below(30))));
        for (auto depth = g.below(5); depth; --depth) {
            const auto o = g.pickFrom(ids);
            content = ebml(o, content);
            g.describe(" " + pbt::hex(be(o, 4)));
        }
        bytes = ebmlHead + ebml(0x18538067, content);
        g.describe(" repeated " + pbt::hex(be(id, 4)) + " x" + toStr(n));
        break;
    }
    case 8: { // many tags or frames in front of MPEG audio
        if (g.flip()) {
            bytes = repeat("ID3\3\0\0\0\0\0\0"s);
        } else {
            static const std::vector<std::string> frames = { "TIT2\0\0\0\2\0\0\0a"s, "COMM\0\0\0\5\0\0\0eng\0"s, "APIC\0\0\0\4\0\0\0\0\0\0"s, "XXXX\0\0\0\0\0\0"s };
            const auto content = repeat(g.pickFrom(frames));
            std::string size;
            for (auto shift = 21; shift >= 0; shift -= 7) {
                size += static_cast<char>((content.size() >> shift) & 0x7F);
            }
            bytes = "ID3\4\0\0" + size + content;
        }
        bytes += std::string(4, '\0') + "\xFF\xFB\x90\x64" + std::string(413, '\0');
        g.describe(" ID3v2 x" + toStr(n));
        break;
    }
    case 9: { // many FLAC metadata blocks
        static const std::vector<std::string> blocks = { "\4\0\0\0"s, "\1\0\0\0"s, "\6\0\0\0"s, "\4\0\0\x08\0\0\0\0\0\0\0\0"s, "\0\0\0\0"s, "\2\0\0\4test"s };
        bytes = "fLaC\0\0\0\x22" + std::string(34, '\1') + repeat(g.pickFrom(blocks)) + "\x81\0\0\0"s;
        g.describe(" FLAC blocks x" + toStr(n));
        break;
    }
    case 10: { // many Ogg pages/streams
        const auto streams = g.flip();
        const auto body = g.pickFrom(std::vector<std::string>{ "", "\1vorbis" + std::string(23, '\1'), "\3vorbis\0\0\0\0\0\0\0\0\1"s, "OpusHead\1\2\0\0\x80\xBB\0\0\0\0\0"s, std::string("OpusTags\0\0\0\0\0\0\0\0", 16) });
        for (std::size_t i = 0; i != n; ++i) {
            bytes += "OggS\0\2"s + std::string(8, '\0') + le(streams ? i : 7, 4) + le(streams ? 0 : i, 4) + std::string(4, '\0') + std::string(1, '\1') + std::string(1, static_cast<char>(body.size())) + body;
        }
        g.describe(" Ogg pages x" + toStr(n) + (streams ? " of different streams " : " ") + pbt::hex(body));
        break;
    }
    default: { // a tag with very many fields
        std::string comment = le(0, 4) + le(n, 4) + repeat(g.pickFrom(std::vector<std::string>{ le(7, 4) + "TITLE=a", le(0, 4), le(5, 4) + "a=b=c", le(23, 4) + "METADATA_BLOCK_PICTURE=" }));
        bytes = "fLaC\0\0\0\x22" + std::string(34, '\1') + "\x84" + be(comment.size(), 3) + comment;
        g.describe(" Vorbis comment fields x" + toStr(n));
    }
    }
    if (parseAndQuery(g, bytes, 20)) {
        g.nontrivial();
    }
}
