// C24: Pages, packets and elements are addressed exactly
#include "../pbt.h"
#include "../util.h"
#include <algorithm>
#include <cstring>
#include <sstream>
#include <tagparser/exceptions.h>
#include <tagparser/matroska/ebmlelement.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskaid.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4atom.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/ogg/oggiterator.h>
#include <tagparser/ogg/oggpage.h>
#include <tagparser/progressfeedback.h>

using namespace TagParser;
using namespace util;

namespace pbt {
const char *g_property = "C24";
const char *g_rule = "a bitstream with at least two non-empty pages or a tree with at least two elements was generated and at least one page, packet or element of it compared";
const char *g_level = "model-based testing: generated Ogg bitstreams and element trees, every access compared with an independent model of the file";
}

namespace {

// --- Ogg ---------------------------------------------------------------------------------------------------

struct ModelPage {
    std::uint8_t version = 0, flags = 0;
    std::uint64_t granule = 0, start = 0;
    std::uint32_t serial = 0, sequence = 0, checksum = 0;
    std::string lacing, data;
    std::vector<std::uint32_t> segments; // sizes of the packets or parts of packets on the page
    bool unconcluded = false;
    std::uint64_t dataStart() const { return start + 27 + lacing.size(); }
    std::uint64_t end() const { return dataStart() + data.size(); }
};

struct Bitstream {
    std::string bytes;
    std::vector<ModelPage> pages;
    std::vector<std::uint32_t> serials;
};

// contents never contain the letter which starts a capture pattern
std::string plain(pbt::Gen &g, std::size_t n)
{
    auto s = g.bytes(n);
    for (auto &c : s) {
        if (c == 'O') {
            c = 'o';
        }
    }
    return s;
}

Bitstream genBitstream(pbt::Gen &g, std::size_t prefix)
{
    Bitstream b;
    b.bytes = plain(g, prefix);
    const auto streams = static_cast<std::size_t>(g.range(1, 3));
    for (std::size_t i = 0; i < streams; ++i) {
        b.serials.push_back(static_cast<std::uint32_t>(g.flip() ? i : g.bits(32)));
        for (std::size_t k = 0; k < i; ++k) {
            if (b.serials[k] == b.serials[i]) {
                b.serials[i] += static_cast<std::uint32_t>(7 + i);
                k = static_cast<std::size_t>(-1);
            }
        }
    }
    for (auto &s : b.serials) { // numbers within headers must not look like a capture pattern
        for (auto shift = 0; shift < 32; shift += 8) {
            if ((s >> shift & 0xFF) == 'O') {
                s += 1u << shift;
            }
        }
    }
    std::vector<std::uint32_t> sequence(streams);
    std::vector<bool> continued(streams);
    for (auto n = g.range(1, 12); n; --n) {
        ModelPage p;
        const auto stream = g.below(streams);
        p.start = b.bytes.size();
        p.serial = b.serials[stream];
        p.sequence = sequence[stream]++;
        p.granule = g.chance(1, 6) ? ~std::uint64_t() : g.bits(62);
        p.flags = static_cast<std::uint8_t>((continued[stream] ? 1 : 0) | (p.sequence ? 0 : 2) | (g.chance(1, 6) ? 4 : 0));
        if (!g.chance(1, 8)) { // there might be pages without any packet
            const auto kind = g.below(4);
            const auto entries = kind == 0 ? 255 : kind == 1 ? g.range(1, 255) : g.range(1, 12);
            for (auto i = entries; i; --i) {
                p.lacing += static_cast<char>(g.chance(1, 3) ? 255 : g.chance(1, 6) ? 0 : g.below(255));
            }
        }
        std::size_t size = 0;
        auto fresh = true;
        for (const auto c : p.lacing) {
            const auto v = static_cast<unsigned char>(c);
            size += v;
            if (fresh) {
                p.segments.push_back(0);
            }
            p.segments.back() += v;
            fresh = v < 255;
        }
        p.unconcluded = !p.lacing.empty() && static_cast<unsigned char>(p.lacing.back()) == 255;
        if (!p.lacing.empty()) {
            continued[stream] = p.unconcluded;
        }
        p.data = plain(g, size);
        auto header = std::string("OggS");
        header += static_cast<char>(p.version);
        header += static_cast<char>(p.flags);
        std::string rest;
        le(rest, p.granule, 8);
        le(rest, p.serial, 4);
        le(rest, p.sequence, 4);
        header += rest;
        header += std::string(4, '\0');
        header += static_cast<char>(p.lacing.size());
        header += p.lacing;
        auto page = header + p.data;
        p.checksum = crc32Ogg(page);
        std::string crc;
        le(crc, p.checksum, 4);
        page.replace(22, 4, crc);
        b.bytes += page;
        b.pages.push_back(std::move(p));
    }
    return b;
}

struct Memory : std::stringstream {
    explicit Memory(const std::string &s)
        : std::stringstream(s, std::ios_base::in | std::ios_base::out | std::ios_base::binary)
    {
        exceptions(std::ios_base::failbit | std::ios_base::badbit);
    }
};

void comparePage(const OggPage &actual, const ModelPage &p, const char *where)
{
    const auto same = [&](const char *what, std::uint64_t a, std::uint64_t e) {
        CHECK_MSG(a == e, std::string("page-") + what, std::string(what) + " of page at " + toStr(p.start) + " is " + toStr(a) + " instead of " + toStr(e) + " (" + where + ")");
    };
    same("start", actual.startOffset(), p.start);
    same("version", actual.streamStructureVersion(), p.version);
    same("flags", actual.headerTypeFlag(), p.flags);
    same("continued", actual.isContinued(), p.flags & 1 ? 1 : 0);
    same("first", actual.isFirstpage(), p.flags & 2 ? 1 : 0);
    same("last", actual.isLastPage(), p.flags & 4 ? 1 : 0);
    same("granule", actual.absoluteGranulePosition(), p.granule);
    same("serial", actual.streamSerialNumber(), p.serial);
    same("serial-match", actual.matchesStreamSerialNumber(p.serial) && !actual.matchesStreamSerialNumber(p.serial + 1), 1);
    same("sequence", actual.sequenceNumber(), p.sequence);
    same("checksum", actual.checksum(), p.checksum);
    same("table", actual.segmentTableSize(), p.lacing.size());
    same("unconcluded", actual.isLastSegmentUnconcluded(), p.unconcluded);
    CHECK_MSG(actual.segmentSizes() == p.segments, "page-segments", "segment sizes of page at " + toStr(p.start) + " differ");
    same("header-size", actual.headerSize(), 27 + p.lacing.size());
    same("data-size", actual.dataSize(), p.data.size());
    same("total-size", actual.totalSize(), p.end() - p.start);
    auto offset = p.dataStart();
    for (std::size_t i = 0; i < p.segments.size(); ++i) {
        same("data-offset", actual.dataOffset(i), offset);
        offset += p.segments[i];
    }
}

std::string describe(const Bitstream &b)
{
    std::string s;
    for (const auto &p : b.pages) {
        s += (s.empty() ? "" : ", ") + toStr(p.data.size()) + " bytes in " + toStr(p.segments.size()) + " segments of " + toStr(p.serial);
    }
    return s;
}

} // namespace

PBT_TEST(ogg_pages, 30000, 400000)
{
    const auto b = genBitstream(g, g.flip() ? 0 : g.length(300));
    g.describe(describe(b));
    Memory stream(b.bytes);
    OggPage reused;
    for (const auto &p : b.pages) {
        const auto available = static_cast<std::int32_t>(b.bytes.size() - p.start);
        comparePage(OggPage(stream, p.start, available), p, "new page");
        comparePage(OggPage(stream, p.start, static_cast<std::int32_t>(p.end() - p.start)), p, "exact size");
        CHECK_MSG(OggPage::computeChecksum(stream, p.start) == p.checksum, "checksum", "computed checksum of the page at " + toStr(p.start) + " is wrong");
        // a page which does not fit into the specified size is refused
        const auto limit = static_cast<std::int32_t>(g.below(p.end() - p.start));
        try {
            OggPage truncated(stream, p.start, limit);
            pbt::fail("truncated-page", "a page of " + toStr(p.end() - p.start) + " bytes has been accepted although there are only " + toStr(limit));
        } catch (const TruncatedDataException &) {
        }
        // something which is no page is refused as well
        if (p.start) {
            try {
                OggPage none(stream, p.start - 1, available);
                pbt::fail("no-page", "a page has been found at the wrong offset");
            } catch (const InvalidDataException &) {
            }
        }
    }
    // checksums are only updated on the specified page
    const auto &p = b.pages[g.below(b.pages.size())];
    auto damaged = b.bytes;
    damaged.replace(static_cast<std::size_t>(p.start) + 22, 4, g.bytes(4));
    Memory damagedStream(damaged);
    OggPage::updateChecksum(damagedStream, p.start);
    CHECK_MSG(damagedStream.str() == b.bytes, "update-checksum", "updating the checksum of the page at " + toStr(p.start) + " does not restore it or alters something else");
    if (b.pages.size() > 1) {
        g.nontrivial();
    }
}

// a history of accesses through the iterator compared with a list of segments
PBT_TEST(ogg_iterator, 40000, 400000)
{
    const auto prefix = g.flip() ? 0 : g.length(300);
    auto b = genBitstream(g, prefix);
    const auto suffix = g.chance(1, 4) ? g.length(200) : 0; // behind the specified size
    const auto size = b.bytes.size();
    Memory stream(b.bytes + plain(g, suffix));
    OggIterator it(stream, prefix, size);
    auto filtered = g.chance(2, 3);
    auto filter = b.serials[g.below(b.serials.size())];
    if (filtered) {
        it.setFilter(filter);
    }
    struct Segment {
        std::size_t page, index;
        std::uint64_t offset;
        std::string data;
    };
    std::vector<Segment> segments;
    std::vector<std::size_t> firstOfPage;
    const auto list = [&] {
        segments.clear();
        firstOfPage.assign(b.pages.size(), static_cast<std::size_t>(-1));
        for (std::size_t n = 0; n < b.pages.size(); ++n) {
            const auto &p = b.pages[n];
            if (filtered && p.serial != filter) {
                continue;
            }
            std::size_t offset = 0;
            for (std::size_t i = 0; i < p.segments.size(); ++i) {
                if (!i) {
                    firstOfPage[n] = segments.size();
                }
                segments.push_back({ n, i, p.dataStart() + offset, p.data.substr(offset, p.segments[i]) });
                offset += p.segments[i];
            }
        }
    };
    list();
    std::string history;
    // position within the model
    std::size_t at = 0, done = 0;
    const auto check = [&](const std::string &operation) {
        history += (history.empty() ? "" : ", ") + operation;
        const auto valid = at < segments.size();
        CHECK_MSG(static_cast<bool>(it) == valid, "iterator-validity", "iterator is " + std::string(it ? "valid" : "invalid") + " after: " + history);
        if (!valid) {
            return;
        }
        const auto &s = segments[at];
        const auto same = [&](const char *what, std::uint64_t a, std::uint64_t e) {
            CHECK_MSG(a == e, std::string("iterator-") + what, std::string(what) + " is " + toStr(a) + " instead of " + toStr(e) + " after: " + history);
        };
        same("page", it.currentPageIndex(), s.page);
        same("segment", it.currentSegmentIndex(), s.index);
        same("segment-offset", it.currentSegmentOffset(), s.offset);
        same("segment-size", it.currentSegmentSize(), s.data.size());
        same("read", it.bytesReadFromCurrentSegment(), done);
        same("remaining", it.remainingBytesInCurrentSegment(), s.data.size() - done);
        same("offset", it.currentCharacterOffset(), s.offset + done);
        same("tellg", it.tellg(), s.offset + done);
        same("page-offset", it.currentPageOffset(), b.pages[s.page].start);
        comparePage(it.currentPage(), b.pages[s.page], "current page");
    };
    // reads as many bytes as possible from the model; the position stays at the end of a segment which has been read completely
    const auto take = [&](std::size_t count) {
        std::string r;
        while (at < segments.size() && count) {
            const auto available = segments[at].data.size() - done;
            if (count <= available) {
                r += segments[at].data.substr(done, count);
                done += count;
                return r;
            }
            r += segments[at].data.substr(done);
            count -= available;
            ++at;
            done = 0;
        }
        return r;
    };
    g.describe(describe(b) + (filtered ? " filter " + toStr(filter) : ""));
    it.reset();
    check("reset");
    if (segments.size() > 1) {
        g.nontrivial();
    }
    for (auto n = g.range(1, 25); n; --n) {
        if (at >= segments.size()) {
            CHECK_MSG(it.isLastPageFetched(), "iterator-last", "the last page is not considered fetched after: " + history);
            if (segments.empty()) {
                break;
            }
            if (g.flip()) {
                --it;
                at = segments.size() - 1;
                done = 0;
                check("-- from the end");
            } else {
                it.reset();
                at = done = 0;
                check("reset");
            }
            continue;
        }
        switch (g.below(10)) {
        case 9: {
            // consider a different stream from now on
            const auto current = segments[at];
            filtered = g.chance(3, 4);
            filter = b.serials[g.below(b.serials.size())];
            if (filtered) {
                it.setFilter(filter);
            } else {
                it.removeFilter();
            }
            list();
            at = 0;
            while (at < segments.size() && segments[at].page < current.page) {
                ++at;
            }
            if (!filtered || b.pages[current.page].serial == filter) {
                at += current.index;
                history += ", keep";
            } else {
                done = 0;
                ++it;
            }
            check("set filter");
            break;
        }
        case 0:
            it.nextPage();
            for (const auto page = segments[at].page; at < segments.size() && segments[at].page == page;) {
                ++at;
            }
            done = 0;
            check("next page");
            break;
        case 1:
            ++it;
            ++at;
            done = 0;
            check("next segment");
            break;
        case 2:
            if (at) {
                it.previousSegment();
                --at;
                done = 0;
                check("previous segment");
            }
            break;
        case 3:
            if (firstOfPage[segments[at].page]) {
                it.previousPage();
                at = firstOfPage[segments[at].page] - 1; // last segment of the previous page
                done = 0;
                check("previous page");
            }
            break;
        case 4:
        case 5: {
            const auto count = g.chance(1, 3) ? g.length(70000) : g.chance(1, 3) ? segments[at].data.size() - done + g.below(3) : g.length(600);
            std::string buffer(count + 1, '\x7E');
            auto complete = true;
            try {
                it.read(buffer.data(), count);
            } catch (const TruncatedDataException &) {
                complete = false;
            }
            const auto expected = take(count);
            CHECK_MSG(complete == (expected.size() == count), "read-completeness",
                "reading " + toStr(count) + " bytes " + (complete ? "succeeds" : "fails") + " although there are " + toStr(expected.size()) + " after: " + history);
            CHECK_MSG(!std::memcmp(buffer.data(), expected.data(), expected.size()), "read-data", "wrong bytes read after: " + history);
            CHECK_MSG(buffer[count] == '\x7E', "read-overflow", "more bytes read than specified after: " + history);
            check("read " + toStr(count));
            break;
        }
        case 6: {
            const auto count = g.chance(1, 3) ? g.length(70000) : g.length(600);
            std::string buffer(count + 1, '\x7E');
            const auto got = it.readAll(buffer.data(), count);
            const auto expected = take(count);
            CHECK_MSG(got == expected.size(), "read-all-size", toStr(got) + " bytes read instead of " + toStr(expected.size()) + " after: " + history);
            CHECK_MSG(!std::memcmp(buffer.data(), expected.data(), expected.size()), "read-data", "wrong bytes read after: " + history);
            CHECK_MSG(buffer[count] == '\x7E', "read-overflow", "more bytes read than specified after: " + history);
            check("read all " + toStr(count));
            break;
        }
        case 7: {
            const auto count = g.chance(1, 3) ? g.length(70000) : g.length(600);
            auto complete = true;
            try {
                it.ignore(count);
            } catch (const TruncatedDataException &) {
                complete = false;
            }
            const auto skipped = take(count).size();
            CHECK_MSG(complete == (skipped == count), "ignore-completeness",
                "skipping " + toStr(count) + " bytes " + (complete ? "succeeds" : "fails") + " although there are " + toStr(skipped) + " after: " + history);
            check("ignore " + toStr(count));
            break;
        }
        default: {
            const auto to = g.below(segments.size());
            if (segments[to].page < it.pages().size()) {
                it.setPageIndex(segments[to].page);
                it.setSegmentIndex(segments[to].index);
                at = to;
                done = 0;
                check("set to segment " + toStr(segments[to].index) + " of page " + toStr(segments[to].page));
            }
        }
        }
    }
}

// finding pages at arbitrary positions
PBT_TEST(ogg_resync, 30000, 300000)
{
    const auto b = genBitstream(g, g.flip() ? 0 : g.length(300));
    g.describe(describe(b));
    Memory stream(b.bytes);
    OggIterator it(stream, 0, b.bytes.size());
    std::uint64_t known = 0;
    for (auto n = g.range(1, 4); n; --n) {
        const auto &near = b.pages[g.below(b.pages.size())];
        const auto offset = static_cast<std::uint64_t>(std::max<std::int64_t>(0, g.flip() ? static_cast<std::int64_t>(near.start) + g.range(-3, 3) : static_cast<std::int64_t>(g.below(b.bytes.size() + 10))));
        const auto pages = it.pages().size();
        const auto found = it.resyncAt(offset);
        const ModelPage *expected = nullptr;
        auto certain = true;
        if (offset < b.bytes.size() && offset >= known) {
            for (const auto &p : b.pages) {
                if (p.start >= offset) {
                    // pages which start beyond the maximum size of a page or are very small and at the end might be omitted
                    certain = p.start - offset < 65307 - 30 && b.bytes.size() - p.start >= 30;
                    expected = &p;
                    break;
                }
            }
        }
        if (!expected) {
            CHECK_MSG(!found, "resync-none", "a page has been found searching from " + toStr(offset));
        } else if (!found) {
            CHECK_MSG(!certain, "resync-missed", "no page found searching from " + toStr(offset) + " although there's one at " + toStr(expected->start));
        }
        if (!found) {
            CHECK_MSG(it.pages().size() == pages, "resync-alters", "pages have been added although none has been found");
            continue;
        }
        CHECK_MSG(it.pages().size() == pages + 1, "resync-pages", "number of pages is wrong");
        CHECK_MSG(it.currentPageIndex() == pages, "resync-index", "page index is wrong");
        comparePage(it.pages().back(), *expected, "resync");
        known = expected->end();
        g.label("found");
        if (b.pages.size() > 1) {
            g.nontrivial();
        }
        if (!expected->segments.empty()) {
            std::string buffer(expected->segments.front(), '\0');
            it.read(buffer.data(), buffer.size());
            CHECK_MSG(buffer == expected->data.substr(0, buffer.size()), "resync-data", "wrong bytes read from the page found");
        }
    }
}

// --- element trees -----------------------------------------------------------------------------------------

namespace {

struct Node {
    std::uint32_t id = 0;
    bool parent = false;
    unsigned idLength = 0, sizeLength = 0;
    std::string payload; // of elements without children
    std::vector<Node> children;
    std::uint64_t start = 0;
    std::uint64_t dataSize = 0;
    std::uint64_t total() const { return idLength + sizeLength + dataSize; }
};

// element IDs and whether they're known to have children, arranged in levels
struct Vocabulary {
    std::vector<std::uint32_t> parents, leafs;
};

Node genNode(pbt::Gen &g, const Vocabulary &v, unsigned depth, bool matroska)
{
    Node n;
    n.parent = depth && g.chance(2, 3);
    n.id = n.parent ? v.parents[g.below(v.parents.size())] : v.leafs[g.below(v.leafs.size())];
    if (n.parent) {
        for (auto count = g.range(0, 4); count; --count) {
            n.children.push_back(genNode(g, v, depth - 1, matroska));
            n.dataSize += n.children.back().total();
        }
    } else {
        n.payload = g.bytes(g.chance(1, 5) ? g.length(20000) : g.length(150));
        n.dataSize = n.payload.size();
    }
    if (matroska) {
        n.idLength = n.id <= 0xff ? 1u : n.id <= 0xffff ? 2u : n.id <= 0xffffff ? 3u : 4u;
        unsigned minimum = 1;
        while (n.dataSize >= (std::uint64_t(1) << (7 * minimum)) - 1) {
            ++minimum;
        }
        n.sizeLength = static_cast<unsigned>(g.flip() ? minimum : g.range(minimum, 8));
    } else {
        n.idLength = 4;
        n.sizeLength = g.chance(1, 6) ? 12 : 4; // 64-bit size
    }
    return n;
}

void place(Node &n, std::uint64_t at, std::string &out, bool matroska)
{
    n.start = at;
    if (matroska) {
        be(out, n.id, n.idLength);
        be(out, (std::uint64_t(1) << (7 * n.sizeLength)) | n.dataSize, n.sizeLength);
    } else if (n.sizeLength == 12) {
        be(out, 1, 4);
        be(out, n.id, 4);
        be(out, n.total(), 8);
    } else {
        be(out, n.total(), 4);
        be(out, n.id, 4);
    }
    out += n.payload;
    auto offset = at + n.idLength + n.sizeLength;
    for (auto &c : n.children) {
        place(c, offset, out, matroska);
        offset += c.total();
    }
}

std::size_t countNodes(const std::vector<Node> &nodes)
{
    auto n = nodes.size();
    for (const auto &c : nodes) {
        n += countNodes(c.children);
    }
    return n;
}

struct RootEbml : EbmlElement {
    RootEbml(MatroskaContainer &c, std::uint64_t start, std::uint64_t max)
        : EbmlElement(c, start, max)
    {
    }
};
struct RootAtom : Mp4Atom {
    RootAtom(Mp4Container &c, std::uint64_t start, std::uint64_t max)
        : Mp4Atom(c, start, max)
    {
    }
};

template <class Element> struct Tree {
    pbt::Gen &g;
    const std::string &file;
    Diagnostics diag = Diagnostics();
    AbortableProgressFeedback progress = AbortableProgressFeedback();

    void fail(const char *key, const Node &n, const std::string &what) { pbt::fail(key, "element at " + toStr(n.start) + ": " + what); }

    void compare(Element &e, const Node &n, Element *parent, std::uint8_t level)
    {
        const auto same = [&](const char *what, std::uint64_t a, std::uint64_t x) {
            if (a != x) {
                fail((std::string("element-") + what).c_str(), n, std::string(what) + " is " + toStr(a) + " instead of " + toStr(x));
            }
        };
        e.parse(diag);
        same("id", e.id(), n.id);
        same("start", e.startOffset(), n.start);
        same("relative-start", e.relativeStartOffset(), parent ? n.start - parent->startOffset() : n.start);
        same("id-length", e.idLength(), n.idLength);
        same("size-length", e.sizeLength(), n.sizeLength);
        same("header-size", e.headerSize(), n.idLength + n.sizeLength);
        same("data-size", e.dataSize(), n.dataSize);
        same("data-offset", e.dataOffset(), n.start + n.idLength + n.sizeLength);
        same("total-size", e.totalSize(), n.total());
        same("end", e.endOffset(), n.start + n.total());
        same("level", e.level(), level);
        same("is-parent", e.isParent(), n.parent);
        same("parsed", e.isParsed(), 1);
        if (e.parent() != parent) {
            fail("element-parent", n, "the parent is wrong");
        }
        if (e.parent(0) != &e || e.parent(1) != parent || e.parent(static_cast<std::uint8_t>(level + 1)) != nullptr) {
            fail("element-ancestor", n, "an ancestor is wrong");
        }
        list(e.firstChild(), n.children, &e, static_cast<std::uint8_t>(level + 1));
        const auto *const last = e.lastChild();
        if (n.children.empty() ? last != nullptr : !last || last->startOffset() != n.children.back().start) {
            fail("element-last-child", n, "the last child is wrong");
        }
        // find elements by ID
        std::vector<std::uint32_t> ids{ static_cast<std::uint32_t>(n.id) };
        for (const auto &c : n.children) {
            ids.push_back(c.id);
        }
        for (const auto id : ids) {
            const auto i = std::find_if(n.children.begin(), n.children.end(), [&](const Node &c) { return c.id == id; });
            const auto *const found = e.childById(id, diag);
            if (i == n.children.end() ? found != nullptr : !found || found->startOffset() != i->start) {
                fail("child-by-id", n, "looking up child " + toStr(id) + (found ? " yields the one at " + toStr(found->startOffset()) : " yields nothing"));
            }
        }
        // the path to the first grandchild with a certain ID considers only the first child with the certain ID
        if (const auto i = std::find_if(n.children.begin(), n.children.end(), [](const Node &c) { return !c.children.empty(); }); i != n.children.end()) {
            const auto &first = *std::find_if(n.children.begin(), n.children.end(), [&](const Node &c) { return c.id == i->id; });
            const auto grandchild = i->children[g.below(i->children.size())].id;
            const auto expected = std::find_if(first.children.begin(), first.children.end(), [&](const Node &c) { return c.id == grandchild; });
            if (auto *const child = e.firstChild()) {
                const auto *const found = child->subelementByPath(diag, static_cast<typename Element::IdentifierType>(first.id), static_cast<typename Element::IdentifierType>(grandchild));
                if (expected != first.children.end() && (!found || found->startOffset() != expected->start)) {
                    fail("path", n, "looking up a grandchild yields " + (found ? "the element at " + toStr(found->startOffset()) : std::string("nothing")));
                }
            }
        }
        copies(e, n);
    }

    void copies(Element &e, const Node &n)
    {
        const auto expected = file.substr(static_cast<std::size_t>(n.start), static_cast<std::size_t>(n.total()));
        const auto header = expected.substr(0, n.idLength + n.sizeLength);
        const auto copied = [&](const char *what, const std::string &actual, const std::string &x) {
            if (actual != x) {
                fail((std::string("copy-") + what).c_str(), n, std::string(what) + " yields " + pbt::hex(actual) + " instead of " + pbt::hex(x));
            }
        };
        const auto out = [](auto &&f) {
            std::ostringstream s;
            s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            f(s);
            return s.str();
        };
        switch (g.below(5)) {
        case 0:
            copied("header", out([&](std::ostream &s) { e.copyHeader(s, diag, &progress); }), header);
            break;
        case 1:
            copied("without-children", out([&](std::ostream &s) { e.copyWithoutChilds(s, diag, &progress); }),
                n.parent ? expected.substr(0, static_cast<std::size_t>(n.children.empty() ? header.size() : n.children.front().start - n.start)) : expected);
            break;
        case 2:
            copied("entirely", out([&](std::ostream &s) { e.copyEntirely(s, diag, nullptr); }), expected);
            break;
        case 3: {
            e.makeBuffer();
            CHECK_MSG(e.buffer() != nullptr, "no-buffer", "the element has not been buffered");
            if (g.flip()) {
                copied("from-buffer", out([&](std::ostream &s) { e.copyBuffer(s); }), expected);
            } else {
                copied("preferably-from-buffer", out([&](std::ostream &s) { e.copyPreferablyFromBuffer(s, diag, &progress); }), expected);
            }
            e.discardBuffer();
            CHECK_MSG(!e.buffer(), "buffer-kept", "the buffer has not been discarded");
            break;
        }
        default:
            copied("preferably-from-buffer", out([&](std::ostream &s) { e.copyPreferablyFromBuffer(s, diag, &progress); }), expected);
        }
    }

    void list(Element *e, const std::vector<Node> &nodes, Element *parent, std::uint8_t level)
    {
        std::vector<Element *> elements;
        for (const auto &n : nodes) {
            if (!e) {
                fail("element-missing", n, "not found");
            }
            compare(*e, n, parent, level);
            elements.push_back(e);
            e = e->nextSibling();
        }
        CHECK_MSG(!e, "element-surplus", "there's an additional element at " + toStr(e ? e->startOffset() : 0));
        if (nodes.empty()) {
            return;
        }
        // find siblings by ID
        const auto from = g.below(nodes.size());
        const auto id = nodes[g.below(nodes.size())].id;
        for (auto including = 0; including < 2; ++including) {
            const Node *expected = nullptr;
            for (auto i = including ? from : from + 1; i < nodes.size(); ++i) {
                if (nodes[i].id == id) {
                    expected = &nodes[i];
                    break;
                }
            }
            auto *const found = including ? elements[from]->siblingByIdIncludingThis(id, diag) : elements[from]->siblingById(id, diag);
            if (expected ? !found || found->startOffset() != expected->start : found != nullptr) {
                fail("sibling-by-id", nodes[from], "looking up sibling " + toStr(id) + (found ? " yields the one at " + toStr(found->startOffset()) : " yields nothing"));
            }
        }
    }
};

} // namespace

PBT_TEST(element_trees, 250000, 1500000)
{
    const auto matroska = g.flip();
    static const Vocabulary ebml{ { MatroskaIds::Segment, MatroskaIds::Tracks, MatroskaIds::TrackEntry, MatroskaIds::Cluster, MatroskaIds::BlockGroup, MatroskaIds::Tags, MatroskaIds::Tag,
                                      MatroskaIds::SimpleTag, MatroskaIds::Targets, MatroskaIds::Cues, MatroskaIds::CuePoint, MatroskaIds::Attachments, MatroskaIds::SeekHead },
        { MatroskaIds::TrackUID, MatroskaIds::SimpleBlock, MatroskaIds::TagName, MatroskaIds::TagString, MatroskaIds::CodecPrivate, EbmlIds::Void, MatroskaIds::CueTime, MatroskaIds::FileData, 0x4FFFu } };
    static const Vocabulary mp4{ { Mp4AtomIds::Movie, Mp4AtomIds::Track, Mp4AtomIds::Media, Mp4AtomIds::MediaInformation, Mp4AtomIds::SampleTable, Mp4AtomIds::UserData, Mp4AtomIds::MovieFragment },
        { Mp4AtomIds::MediaData, Mp4AtomIds::Free, Mp4AtomIds::MovieHeader, Mp4AtomIds::TrackHeader, Mp4AtomIds::SampleSize, 0x7A7A7A7Au } };
    std::vector<Node> nodes;
    std::string file = g.bytes(g.flip() ? 0 : g.length(100));
    const auto start = file.size();
    for (auto n = g.range(1, 4); n; --n) {
        nodes.push_back(genNode(g, matroska ? ebml : mp4, 3, matroska));
        place(nodes.back(), file.size(), file, matroska);
    }
    g.describe(std::string(matroska ? "Matroska" : "MP4") + ", " + toStr(countNodes(nodes)) + " elements, " + toStr(file.size()) + " bytes");
    g.label(matroska ? "Matroska" : "MP4");
    if (countNodes(nodes) > 1) {
        g.nontrivial();
    }
    const auto path = g.dir + "/elements";
    writeFile(path, file);
    MediaFileInfo info(path);
    info.open(true);
    if (matroska) {
        MatroskaContainer container(info, start);
        RootEbml first(container, start, file.size() - start);
        Tree<EbmlElement> tree{ g, file };
        tree.list(&first, nodes, nullptr, 0);
    } else {
        Mp4Container container(info, start);
        RootAtom first(container, start, file.size() - start);
        Tree<Mp4Atom> tree{ g, file };
        tree.list(&first, nodes, nullptr, 0);
    }
    CHECK_MSG(readFile(path) == file, "file-altered", "reading alters the file");
}
