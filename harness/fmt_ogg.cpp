// Ogg files with one or more (multiplexed) logical streams.
#include "fmt.h"
#include "vorbis.h"
#include <algorithm>
#include <tagparser/ogg/oggcontainer.h>

using namespace TagParser;
using namespace util;

namespace fmt::oggf {

namespace {
constexpr std::uint64_t noGranule = ~std::uint64_t(0);

struct Packet {
    std::string data;
    std::uint64_t granule = 0;
    bool flush = false; // a new page must be started afterwards
};
struct Page {
    std::string lacing, data;
    std::uint64_t granule = noGranule;
    bool continued = false, bos = false, eos = false;
    std::size_t packetsBegun = 0; // number of packets begun including this page
};
struct Stream {
    std::uint32_t serial = 0;
    std::string codec;
    std::vector<Packet> headers, data;
    std::vector<Page> pages;
    std::size_t headerPages = 0;
};

std::string encodePage(const Page &p, std::uint32_t serial, std::uint32_t sequence)
{
    std::string r = "OggS";
    r += '\0';
    r += static_cast<char>((p.continued ? 1 : 0) | (p.bos ? 2 : 0) | (p.eos ? 4 : 0));
    le(r, p.granule, 8);
    le(r, serial, 4);
    le(r, sequence, 4);
    le(r, 0, 4);
    r += static_cast<char>(p.lacing.size());
    r += p.lacing;
    r += p.data;
    r.replace(22, 4, le(crc32Ogg(r), 4));
    return r;
}

void paginate(pbt::Gen &g, Stream &s, const std::vector<Packet> &packets, bool simple)
{
    const auto limit = simple ? std::size_t(255) : g.pick({ std::size_t(255), std::size_t(255), std::size_t(17), std::size_t(4), std::size_t(1), std::size_t(2) });
    const auto perPage = simple ? 10u : g.pick({ 1u, 3u, 10u, 255u });
    Page page;
    auto packetsOnPage = 0u;
    auto first = true;
    const auto finish = [&](bool more) {
        s.pages.push_back(page);
        page = Page();
        page.continued = more;
        packetsOnPage = 0;
    };
    for (const auto &p : packets) {
        if (!first && (packetsOnPage >= perPage || page.lacing.size() >= limit)) {
            finish(false);
        }
        first = false;
        std::size_t pos = 0;
        for (;;) {
            if (page.lacing.size() >= limit) {
                finish(true);
            }
            const auto n = std::min<std::size_t>(p.data.size() - pos, 255);
            page.lacing += static_cast<char>(n);
            page.data += p.data.substr(pos, n);
            pos += n;
            if (n < 255) {
                break;
            }
        }
        page.granule = p.granule;
        ++packetsOnPage;
        if (p.flush) {
            finish(false);
            first = true;
        }
    }
    if (!page.lacing.empty()) {
        finish(false);
    }
}

std::string commentPacket(pbt::Gen &g, const GenOptions &o, const std::string &codec, bool lastBlock)
{
    const auto c = o.tags ? vorbis::genForeign(g, o, true) : vorbis::Comment{ "vendor", {} };
    const auto encoded = vorbis::encode(c);
    std::string r;
    if (codec == "vorbis") {
        r = "\x03vorbis" + encoded + '\x01';
    } else if (codec == "opus") {
        r = "OpusTags" + encoded;
    } else if (codec == "flac") {
        r += static_cast<char>(4 | (lastBlock ? 0x80 : 0));
        be(r, encoded.size(), 3);
        return r + encoded;
    } else {
        return "\x81theora" + encoded;
    }
    if (o.padding && o.rich && g.chance(1, 4)) {
        r.append(g.length(700), '\0');
    }
    return r;
}

Stream genStream(pbt::Gen &g, const GenOptions &o, std::size_t index, std::map<std::string, std::string> &declared)
{
    Stream s;
    const auto prefix = "track" + toStr(index) + ".";
    s.serial = static_cast<std::uint32_t>(g.bits(32));
    static const char *const codecs[] = { "vorbis", "opus", "flac", "theora", "speex", "skeleton" };
    s.codec = codecs[index && o.rich ? g.weighted({ 4, 3, 2, 3, 1, 1 }) : g.weighted({ 5, 4, 2 })];
    // granule position per sample and the number of samples
    const auto channels = static_cast<unsigned>(g.range(1, 8));
    auto rate = g.pick({ 44100u, 48000u, 8000u, 96000u });
    auto samples = std::uint64_t(0);
    auto preSkip = 0u;
    std::string ident;
    declared[prefix + "id"] = toStr(s.serial);
    const auto packetCount = static_cast<std::size_t>(g.range(0, o.rich ? 12 : 4));
    if (s.codec == "vorbis") {
        const auto nominal = g.pick({ 128000u, 0u, 320000u, 0xFFFFFFFFu }); // unset or even -1
        ident = "\x01vorbis";
        le(ident, 0, 4);
        le(ident, channels, 1);
        le(ident, rate, 4);
        const auto limit = g.pick({ 0u, 256000u, 0xFFFFFFFFu });
        le(ident, limit, 4);
        le(ident, nominal, 4);
        le(ident, limit, 4);
        ident += "\xB8\x01";
        declared[prefix + "format"] = "Vorbis";
        declared[prefix + "kbps"] = std::to_string((nominal && nominal != 0xFFFFFFFFu ? nominal : limit != 0xFFFFFFFFu ? limit : 0) / 1000.0);
    } else if (s.codec == "opus") {
        ident = "OpusHead\x01";
        preSkip = static_cast<unsigned>(g.below(4000));
        le(ident, channels, 1);
        le(ident, preSkip, 2);
        rate = g.pick({ 48000u, 44100u, 0u });
        le(ident, rate, 4);
        le(ident, g.below(65536), 2);
        if (channels > 2 || g.chance(1, 5)) {
            le(ident, 1, 1);
            le(ident, channels, 1);
            le(ident, 0, 1);
            ident += g.bytes(channels);
        } else {
            le(ident, 0, 1);
        }
        declared[prefix + "format"] = "Opus";
    } else if (s.codec == "flac") {
        samples = g.bits(36);
        declared[prefix + "format"] = "Free Lossless Audio Codec";
    } else if (s.codec == "theora") {
        ident = "\x80theora\x03\x02\x01" + g.bytes(32);
        declared[prefix + "format"] = "Theora";
    } else if (s.codec == "speex") {
        ident = "Speex   1.2" + g.bytes(69);
        declared[prefix + "format"] = "Speex";
    } else {
        ident = std::string("fishead\0", 8) + g.bytes(56);
    }
    std::vector<std::string> headers;
    if (s.codec == "flac") {
        // further metadata blocks
        const auto more = o.rich ? g.below(3) : 0;
        ident = std::string("\x7F" "FLAC\x01\x00", 7);
        be(ident, 1 + more, 2);
        ident += "fLaC";
        be(ident, 34, 4);
        const auto bits = static_cast<unsigned>(g.range(4, 32));
        be(ident, 4096, 2);
        be(ident, 4096, 2);
        be(ident, 0, 6);
        be(ident, (static_cast<std::uint64_t>(rate) << 44) | (static_cast<std::uint64_t>(channels - 1) << 41) | (static_cast<std::uint64_t>(bits - 1) << 36) | samples, 8);
        ident += g.bytes(16);
        declared[prefix + "bits"] = toStr(bits);
        headers.push_back(commentPacket(g, o, s.codec, !more));
        for (std::uint64_t i = 0; i < more; ++i) {
            const auto data = g.bytes(18 * static_cast<std::size_t>(g.range(0, 30)));
            std::string block;
            block += static_cast<char>((g.flip() ? 3 : 2) | (i + 1 == more ? 0x80 : 0));
            be(block, data.size(), 3);
            headers.push_back(block + data);
        }
    } else if (s.codec == "vorbis" || s.codec == "theora") {
        headers.push_back(commentPacket(g, o, s.codec, false));
        const auto size = g.pick({ g.length(3000), static_cast<std::size_t>(255 * g.below(10)), g.length(300) });
        headers.push_back((s.codec == "vorbis" ? "\x05vorbis" : "\x82theora") + g.bytes(size));
    } else if (s.codec == "opus") {
        headers.push_back(commentPacket(g, o, s.codec, false));
    } else if (s.codec == "speex") {
        headers.push_back(vorbis::encode({ "speex", {} }));
    }
    s.headers.push_back({ ident, 0, true });
    for (auto &h : headers) {
        s.headers.push_back({ std::move(h), 0, s.codec == "opus" });
    }
    s.headers.back().flush = true;
    auto granule = std::uint64_t(0);
    for (std::size_t i = 0; i < packetCount; ++i) {
        granule += g.below(5000) + 1;
        auto size = g.chance(1, 4) ? static_cast<std::size_t>(255 * g.below(5)) : g.length((o.rich && g.chance(1, 20) ? 70000 : 700) * o.big);
        if (s.codec == "flac") {
            size = std::max<std::size_t>(size, 2);
        }
        auto data = g.bytes(size);
        if (s.codec == "flac") {
            data.replace(0, 2, "\xFF\xF8");
        }
        s.data.push_back({ std::move(data), granule, false });
    }
    if (s.codec == "vorbis" || s.codec == "opus" || s.codec == "flac") {
        declared[prefix + "channels"] = toStr(channels);
        if (rate) {
            declared[prefix + "rate"] = toStr(rate);
        }
        auto n = granule;
        if (s.codec == "flac" && samples) {
            n = samples;
        }
        if (s.codec == "opus") {
            n = n > preSkip ? n - preSkip : 0;
        }
        if (n) {
            declared[prefix + "samples"] = toStr(n);
            declared[prefix + "seconds"] = std::to_string(static_cast<double>(n) / (s.codec == "opus" ? 48000 : rate));
        }
    }
    paginate(g, s, s.headers, !o.rich || g.flip());
    s.headerPages = s.pages.size();
    paginate(g, s, s.data, !o.rich || g.flip());
    s.pages.front().bos = true;
    if (o.rich && g.chance(1, 8)) {
        Page eos;
        eos.granule = granule;
        s.pages.push_back(eos);
    }
    s.pages.back().eos = true;
    return s;
}
} // namespace

File generate(pbt::Gen &g, const GenOptions &o)
{
    File f;
    std::vector<Stream> streams;
    const auto count = o.rich && g.chance(1, 3) ? g.range(2, 3) : 1;
    f.what = "Ogg (";
    for (std::int64_t i = 0; i < count; ++i) {
        streams.push_back(genStream(g, o, static_cast<std::size_t>(i), f.declared));
        for (std::size_t k = 0; k + 1 < streams.size(); ++k) {
            if (streams[k].serial == streams.back().serial) {
                g.discard();
            }
        }
        const auto &s = streams.back();
        g.label("Ogg " + s.codec);
        f.what += (i ? ", " : "") + s.codec + " " + toStr(s.serial) + ": " + toStr(s.headerPages) + " header and " + toStr(s.pages.size() - s.headerPages) + " data pages";
    }
    f.what += ")";
    f.declared["tracks"] = toStr(streams.size());
    // multiplex: the first page of each stream, further header pages, data pages
    std::vector<std::size_t> next(streams.size());
    const auto write = [&](std::size_t i) {
        const auto &s = streams[i];
        f.bytes += encodePage(s.pages[next[i]], s.serial, static_cast<std::uint32_t>(next[i]));
        ++next[i];
    };
    for (std::size_t i = 0; i < streams.size(); ++i) {
        write(i);
    }
    for (const auto header : { true, false }) {
        for (;;) {
            std::vector<std::size_t> available;
            for (std::size_t i = 0; i < streams.size(); ++i) {
                if (next[i] < (header ? streams[i].headerPages : streams[i].pages.size())) {
                    available.push_back(i);
                }
            }
            if (available.empty()) {
                break;
            }
            write(available.size() == 1 ? available[0] : available[g.below(available.size())]);
        }
    }
    return f;
}

Analysis analyze(std::string_view bytes)
{
    Analysis a;
    struct State {
        std::uint32_t nextSequence = 0;
        bool unfinished = false, eos = false;
        bool lastBlockFlag = false, hasComment = false;
        std::string packet, codec, all, granules;
        std::size_t index = 0, packets = 0, tag = ~std::size_t(0);
    };
    std::map<std::uint32_t, State> streams;
    std::vector<std::uint32_t> order;
    std::string interleaving;
    const auto problem = [&](const std::string &what, std::size_t offset) {
        if (a.problems.size() < 20) {
            a.problems.push_back(what + " (page at " + toStr(offset) + ")");
        }
    };
    a.padding = 0;
    Rd rd(bytes);
    while (!rd.end()) {
        const auto begin = rd.p;
        if (rd.take(4, "capture pattern") != "OggS") {
            throw Malformed("no capture pattern at " + toStr(begin));
        }
        if (rd.u8()) {
            problem("version is not zero", begin);
        }
        const auto flags = rd.u8();
        const auto granule = rd.le(8);
        const auto serial = static_cast<std::uint32_t>(rd.le(4)), sequence = static_cast<std::uint32_t>(rd.le(4)), crc = static_cast<std::uint32_t>(rd.le(4));
        const auto lacing = rd.take(rd.u8(), "segment table");
        std::size_t size = 0;
        for (const auto c : lacing) {
            size += static_cast<unsigned char>(c);
        }
        const auto data = rd.take(size, "page");
        std::string copy(bytes.substr(begin, rd.p - begin));
        copy.replace(22, 4, std::string(4, '\0'));
        if (crc32Ogg(copy) != crc) {
            problem("checksum is wrong", begin);
        }
        const auto known = streams.find(serial) != streams.end();
        auto &s = streams[serial];
        if (!known) {
            s.index = order.size();
            order.push_back(serial);
        }
        if (known == ((flags & 2) != 0)) {
            problem(known ? "first page flag on a page which is not the first" : "first page flag is missing", begin);
        }
        if (sequence != s.nextSequence) {
            problem("sequence number is " + toStr(sequence) + " instead of " + toStr(s.nextSequence), begin);
        }
        s.nextSequence = sequence + 1;
        if (s.eos) {
            problem("page after the last page of the stream", begin);
        }
        s.eos = flags & 4;
        if (flags & ~7u) {
            problem("unknown flags", begin);
        }
        if (!lacing.empty() && ((flags & 1) != 0) != s.unfinished) {
            problem(s.unfinished ? "continued packet flag is missing" : "continued packet flag although the previous packet is complete", begin);
        }
        auto finished = false;
        std::size_t pos = 0;
        auto finishedOtherThanComment = false, finishedComment = false;
        for (const auto c : lacing) {
            const auto n = static_cast<unsigned char>(c);
            s.packet += data.substr(pos, n);
            pos += n;
            s.unfinished = n == 255;
            if (s.unfinished) {
                continue;
            }
            finished = true;
            const auto &p = s.packet;
            if (!s.packets) {
                s.codec = p.compare(0, 7, "\x01vorbis") == 0 ? "vorbis" : p.compare(0, 8, "OpusHead") == 0 ? "opus" : p.compare(0, 5, "\x7F" "FLAC") == 0 ? "flac" : "other";
                if (lacing.size() != pos / 255 + 1) {
                    problem("first page contains more than the first packet", begin);
                }
            }
            if (s.packets == 2 && s.codec == "flac" && !s.all.empty()) {
                // metadata blocks follow unless the block of the comment is the last one
                const auto flaggedAsLast = s.lastBlockFlag, isLast = p.empty() || p[0] == '\xFF';
                if (s.hasComment && flaggedAsLast != isLast) {
                    problem(isLast ? "last metadata block is not flagged as such" : "metadata block follows the one flagged as last", begin);
                }
            }
            auto isComment = false;
            if (s.packets == 1 && s.codec != "other") {
                isComment = finishedComment = true;
                Rd r(p);
                const auto signature = s.codec == "vorbis" ? std::string("\x03vorbis") : s.codec == "opus" ? std::string("OpusTags") : std::string();
                if (r.take(std::min(signature.size(), p.size()), "signature") != signature) {
                    problem("comment header is missing in " + s.codec + " stream", begin);
                    isComment = finishedComment = false;
                } else {
                    TagModel t;
                    t.type = "vorbis";
                    t.target = toStr(serial);
                    try {
                        auto end = p.size();
                        if (s.codec == "flac") {
                            const auto type = r.u8();
                            if ((type & 0x7F) != 4) {
                                problem("second packet of the FLAC stream is not the comment", begin);
                            }
                            s.all += type & 0x80 ? "last" : "not last";
                            s.lastBlockFlag = type & 0x80;
                            s.hasComment = true;
                            end = 4 + r.be(3);
                            if (end != p.size()) {
                                problem("size of the metadata block does not match the packet", begin);
                            }
                        }
                        const auto comment = vorbis::decode(r);
                        if (s.codec == "vorbis" && !(r.u8() & 1)) {
                            problem("framing bit is not set", begin);
                        }
                        const auto rest = r.rest();
                        if (std::any_of(rest.begin(), rest.end(), [](char ch) { return ch; })) {
                            problem("non-zero bytes after the comment", begin);
                        }
                        a.padding += rest.size();
                        t.items = vorbis::items(comment);
                    } catch (const Malformed &e) {
                        problem(std::string("Vorbis comment: ") + e.what(), begin);
                    }
                    s.tag = a.tags.size();
                    a.tags.push_back(std::move(t));
                }
            }
            if (!isComment) {
                finishedOtherThanComment = true;
                be(s.all, p.size(), 8);
                s.all += p;
            }
            ++s.packets;
            s.packet.clear();
        }
        if (finishedComment && s.codec == "opus" && (s.packets > 2 || s.unfinished)) {
            problem("audio packet begins on the page of the comment", begin);
        }
        if (finished != (granule != noGranule) && !lacing.empty()) {
            problem(finished ? "granule position is unset although a packet ends on the page" : "granule position is set although no packet ends on the page", begin);
        }
        if (finishedOtherThanComment || (lacing.empty() && (flags & 4))) {
            s.granules += "|" + toStr(s.packets) + ":" + toStr(granule);
            interleaving += toStr(s.index) + ":" + toStr(s.packets) + " ";
        } else if (finished && granule) {
            problem("granule position of the page where the comment ends is not zero", begin);
        }
    }
    std::sort(a.tags.begin(), a.tags.end(), [&](const TagModel &x, const TagModel &y) {
        const auto pos = [&](const TagModel &t) { return std::find_if(order.begin(), order.end(), [&](auto serial) { return toStr(serial) == t.target; }); };
        return pos(x) < pos(y);
    });
    for (const auto serial : order) {
        const auto &s = streams[serial];
        if (!s.eos) {
            a.problems.push_back("last page flag is missing for stream " + toStr(serial));
        }
        if (s.unfinished) {
            a.problems.push_back("last packet of stream " + toStr(serial) + " is incomplete");
        }
        a.payload.emplace_back("stream " + toStr(serial) + " " + s.codec + " packets", digest(s.all));
        a.payload.emplace_back("stream " + toStr(serial) + " granule positions", digest(s.granules));
    }
    a.payload.emplace_back("interleaving", digest(interleaving));
    return a;
}

void edit(pbt::Gen &g, MediaFileInfo &file, Tags &model, const EditOptions &o)
{
    auto *const container = static_cast<OggContainer *>(file.container());
    CHECK_MSG(container && container->tagCount() == model.size(), "comments-not-found", toStr(container ? container->tagCount() : 0) + " instead of " + dump(model));
    if (model.empty()) {
        return;
    }
    const auto i = g.below(model.size());
    auto *const tag = container->tag(i);
    CHECK_MSG(tag->target().tracks().size() == 1 && toStr(tag->target().tracks().front()) == model[i].target, "target", dump(model));
    vorbis::edit(g, *tag, model[i].items, o);
}

} // namespace fmt::oggf
