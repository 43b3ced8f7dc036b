// Raw FLAC streams.
#include "fmt.h"
#include "vorbis.h"
#include <algorithm>
#include <tagparser/flac/flacstream.h>

using namespace TagParser;
using namespace util;

namespace fmt::flacf {

namespace {
enum { StreamInfo = 0, Padding = 1, Application = 2, SeekTable = 3, VorbisCommentBlock = 4, CueSheet = 5, PictureBlock = 6 };

std::string streamInfo(pbt::Gen &g, std::map<std::string, std::string> &declared)
{
    const auto rate = g.pick({ 44100u, 48000u, 96000u, 8000u, 655350u, 1u });
    const auto channels = static_cast<unsigned>(g.range(1, 8)), bits = static_cast<unsigned>(g.range(4, 32));
    const auto samples = g.bits(36);
    std::string r;
    be(r, 16 + g.below(4000), 2);
    be(r, 4096 + g.below(4000), 2);
    be(r, g.below(1 << 24), 3);
    be(r, g.below(1 << 24), 3);
    be(r, (static_cast<std::uint64_t>(rate) << 44) | (static_cast<std::uint64_t>(channels - 1) << 41) | (static_cast<std::uint64_t>(bits - 1) << 36) | samples, 8);
    r += g.bytes(16);
    declared["track0.format"] = "Free Lossless Audio Codec";
    declared["track0.rate"] = toStr(rate);
    declared["track0.channels"] = toStr(channels);
    declared["track0.bits"] = toStr(bits);
    declared["track0.samples"] = toStr(samples);
    declared["track0.seconds"] = std::to_string(static_cast<double>(samples) / rate);
    return r;
}
} // namespace

File generate(pbt::Gen &g, const GenOptions &o)
{
    File f;
    bool footer;
    auto o2 = o;
    o2.tags = o.tags && o.rich && g.chance(1, 4);
    const auto leading = id3f::genLeading(g, o2, footer);
    std::vector<std::pair<unsigned, std::string>> blocks;
    blocks.emplace_back(StreamInfo, streamInfo(g, f.declared));
    std::vector<std::pair<unsigned, std::string>> more;
    if (o.rich) {
        if (g.chance(1, 4)) {
            more.emplace_back(Application, "TEST" + g.bytes(g.length(50)));
        }
        if (g.chance(1, 4)) {
            more.emplace_back(SeekTable, g.bytes(18 * static_cast<std::size_t>(g.range(0, 4))));
        }
        if (g.chance(1, 8)) {
            more.emplace_back(CueSheet, g.bytes(396));
        }
        if (g.chance(1, 12)) {
            more.emplace_back(static_cast<unsigned>(g.range(7, 126)), g.bytes(g.length(30)));
        }
    }
    if (o.tags && !g.chance(1, 4)) {
        const auto c = vorbis::genForeign(g, o, false);
        more.emplace_back(VorbisCommentBlock, vorbis::encode(c));
    }
    if (o.tags && g.chance(1, 3)) {
        for (auto n = g.range(1, 3); n; --n) {
            auto p = vorbis::genPicture(g, o.maxPicture);
            more.emplace_back(PictureBlock, vorbis::encodePicture(p));
        }
    }
    if (o.padding && g.flip()) {
        for (auto n = g.range(1, 2); n; --n) {
            more.emplace_back(Padding, std::string(g.length(3000), '\0'));
        }
    }
    // any order
    for (std::size_t i = more.size(); o.rich && i > 1; --i) {
        std::swap(more[i - 1], more[g.below(i)]);
    }
    blocks.insert(blocks.end(), more.begin(), more.end());
    f.bytes = leading + "fLaC";
    f.what = "FLAC (blocks:";
    for (std::size_t i = 0; i < blocks.size(); ++i) {
        f.bytes += static_cast<char>(blocks[i].first | (i + 1 == blocks.size() ? 0x80 : 0));
        be(f.bytes, blocks[i].second.size(), 3);
        f.bytes += blocks[i].second;
        f.what += " " + toStr(blocks[i].first) + "/" + toStr(blocks[i].second.size());
    }
    f.bytes += "\xFF\xF8";
    f.bytes += g.bytes(g.length(5000 * o.big));
    f.what += ")";
    if (o2.tags) {
        f.bytes += id3f::genTrailing(g, o2);
        f.what += " with ID3 tags";
    }
    return f;
}

Analysis analyze(std::string_view bytes)
{
    Analysis a;
    const auto framing = id3f::analyzeFraming(bytes, a);
    Rd rd(bytes.substr(0, framing.end));
    rd.p = framing.begin;
    while (!rd.end() && !bytes[rd.p]) {
        ++rd.p;
    }
    if (rd.take(4, "signature") != "fLaC") {
        throw Malformed("FLAC signature not found");
    }
    a.padding = framing.padding;
    auto comments = 0u, index = 0u;
    Items tag;
    auto vendor = false;
    for (auto last = false; !last; ++index) {
        const auto h = rd.u8();
        last = h & 0x80;
        const auto type = h & 0x7F;
        const auto data = rd.take(rd.be(3), "metadata block");
        if (!index != (type == StreamInfo)) {
            a.problems.push_back("STREAMINFO is not the first block or not the only one of its kind");
        }
        switch (type) {
        case Padding:
            a.padding += data.size();
            a.paddingOverhead += 4;
            if (std::any_of(data.begin(), data.end(), [](char c) { return c; })) {
                a.problems.push_back("padding contains non-zero bytes");
            }
            break;
        case VorbisCommentBlock:
            if (comments++) {
                a.problems.push_back("several Vorbis comments");
            }
            try {
                Rd r(data);
                const auto c = vorbis::decode(r);
                if (!r.end()) {
                    a.problems.push_back("trailing data in Vorbis comment");
                }
                for (auto &i : vorbis::items(c)) {
                    tag.push_back(i);
                }
                vendor = true;
            } catch (const Malformed &e) {
                a.problems.push_back(std::string("Vorbis comment: ") + e.what());
            }
            break;
        case PictureBlock:
            try {
                tag.push_back({ "METADATA_BLOCK_PICTURE", vorbis::canonPicture(vorbis::decodePicture(data)) });
            } catch (const Malformed &e) {
                a.problems.push_back(std::string("picture: ") + e.what());
            }
            break;
        case 127:
            a.problems.push_back("invalid block type");
            break;
        default:
            a.kept.push_back({ "block " + toStr(type), digest(data) });
        }
    }
    if (vendor || !tag.empty()) {
        a.tags.push_back({ "vorbis", tag, {} });
    }
    a.mediaOffset = rd.p;
    const auto media = rd.rest();
    if (media.substr(0, 2) != "\xFF\xF8") {
        a.problems.push_back("audio frames do not follow the metadata");
    }
    a.payload.emplace_back("frames", digest(media));
    return a;
}

void edit(pbt::Gen &g, MediaFileInfo &file, Tags &model, const EditOptions &o)
{
    if (g.chance(1, 6) && id3f::editId3(g, file, model, o)) {
        return;
    }
    auto i = std::find_if(model.begin(), model.end(), [](const TagModel &t) { return t.type == "vorbis"; });
    CHECK_MSG((file.vorbisComment() != nullptr) == (i != model.end()), "comment-not-found", dump(model));
    if (i == model.end()) {
        if (!o.structural) {
            return;
        }
        CHECK_MSG(file.createVorbisComment(), "create-comment", "");
        model.push_back({ "vorbis", { { "VENDOR", "" } }, {} });
        i = model.end() - 1;
        g.describe(" +comment");
    } else if (o.structural && g.chance(1, 15)) {
        CHECK_MSG(file.removeVorbisComment(), "remove-comment", "");
        model.erase(i);
        g.describe(" -comment");
        return;
    }
    auto *const c = static_cast<FlacStream *>(file.tracks().front())->vorbisComment();
    CHECK_MSG(c == file.vorbisComment(), "comment-of-track", "");
    vorbis::edit(g, *c, i->items, o);
}

} // namespace fmt::flacf
