#include "sparse.h"
#include "minimal.h"
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace TagParser;
using namespace util;

namespace sparse {

namespace {
/// Contents of a file except for the holes.
struct Pieces {
    std::vector<std::pair<std::uint64_t, std::string>> pieces;
    std::uint64_t end = 0;

    void add(const std::string &data)
    {
        pieces.emplace_back(end, data);
        end += data.size();
    }
    void hole(std::uint64_t size)
    {
        end += size;
    }
    void write(const std::string &path) const
    {
        const auto fd = ::open(path.data(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
        auto ok = fd >= 0 && !::ftruncate(fd, static_cast<off_t>(end));
        for (const auto &[offset, data] : pieces) {
            ok = ok && ::pwrite(fd, data.data(), data.size(), static_cast<off_t>(offset)) == static_cast<ssize_t>(data.size());
        }
        if (fd >= 0) {
            ::close(fd);
        }
        if (!ok) {
            throw std::runtime_error("unable to write " + path);
        }
    }
};

std::uint64_t genHole(pbt::Gen &g, bool copied)
{
    constexpr auto limit = std::uint64_t(1) << 32;
    if (copied) {
        // offsets might be above the limit before and below afterwards (or vice versa)
        return limit - g.length(100000);
    }
    switch (g.below(4)) {
    case 0: // somewhat below or above
        return limit - g.length(4000);
    case 1:
        return limit + g.length(4000);
    case 2:
        return 2 * limit + g.below(limit);
    default:
        return limit / 2 + g.below(limit);
    }
}

std::string genSample(pbt::Gen &g)
{
    return g.bytes(1 + g.length(60));
}

void makeMp4(pbt::Gen &g, Pieces &file, bool copied)
{
    const auto front = g.flip();
    const auto hole = genHole(g, copied);
    // the media data in front of and behind the hole
    std::vector<minimal::Mp4Track> tracks(static_cast<std::size_t>(g.range(1, 3)));
    std::string parts[2];
    struct Place {
        std::size_t track, part;
        std::uint64_t offset; // within the part
    };
    std::vector<Place> places;
    for (std::size_t t = 0; t < tracks.size(); ++t) {
        tracks[t].id = static_cast<std::uint32_t>(t + 1);
        tracks[t].entry = minimal::audioEntry("lpcm", 2, 16, 48000);
        tracks[t].name = g.asciiWord(10);
    }
    for (std::size_t part = 0; part < 2; ++part) {
        for (auto n = g.length(10); n; --n) {
            const auto t = g.below(tracks.size());
            places.push_back({ t, part, parts[part].size() });
            std::vector<std::string> chunk(1 + g.length(3));
            for (auto &s : chunk) {
                parts[part] += s = genSample(g);
            }
            tracks[t].chunks.push_back(chunk);
        }
    }
    std::string udta;
    if (g.chance(3, 4)) {
        udta = mp4::box("udta", mp4::encodeMeta(mp4::genForeign(g, fmt::GenOptions())));
    }
    // the hole might be within the media data or an own element
    const auto structure = g.below(4);
    const auto wide = [](const char *id, std::uint64_t payload) { return be(1, 4) + id + be(payload + 16, 8); };
    const auto padding = mp4::box("free", std::string(30000 + g.length(30000), '\0'));
    const auto build = [&](std::uint64_t offset1, std::uint64_t offset2) {
        for (auto &t : tracks) {
            t.offsets.clear();
            t.wideOffsets = false;
        }
        for (const auto &p : places) {
            tracks[p.track].offsets.push_back((p.part ? offset2 : offset1) + p.offset);
            tracks[p.track].wideOffsets |= tracks[p.track].offsets.back() >> 32 != 0;
        }
        const auto matrix = be(0x10000, 4) + std::string(12, '\0') + be(0x10000, 4) + std::string(12, '\0') + be(0x40000000, 4);
        auto movie = mp4::fullBox("mvhd", 0, 0, be(0, 8) + be(1000, 4) + be(0, 4) + be(0x10000, 4) + be(0x100, 2) + std::string(10, '\0') + matrix + std::string(24, '\0') + be(tracks.size() + 1, 4));
        for (const auto &t : tracks) {
            movie += minimal::mp4Trak(t, 0);
        }
        return mp4::box("moov", movie + udta);
    };
    std::uint64_t offset1 = 0, offset2 = 0;
    const auto assemble = [&] {
        file = Pieces();
        file.add(mp4::box("ftyp", "isom" + be(0x200, 4) + "isom"));
        if (front) {
            file.add(build(offset1, offset2));
            file.add(padding);
        } else if (structure & 1) {
            file.add(padding);
        }
        const auto part = [&](std::size_t i, std::uint64_t &offset) {
            offset = file.end;
            file.add(parts[i]);
        };
        switch (structure) {
        case 0:
        case 1:
            file.add(wide("mdat", parts[0].size() + hole + parts[1].size()));
            part(0, offset1);
            file.hole(hole);
            part(1, offset2);
            break;
        case 2:
            file.add(be(8 + parts[0].size(), 4) + "mdat");
            part(0, offset1);
            file.add(wide("mdat", hole + parts[1].size()));
            file.hole(hole);
            part(1, offset2);
            break;
        default:
            file.add(be(8 + parts[0].size(), 4) + "mdat");
            part(0, offset1);
            file.add(wide("mdat", hole));
            file.hole(hole);
            if (front && g.flip()) {
                file.add(be(0, 4) + "mdat"); // until the end of the file
            } else {
                file.add(be(8 + parts[1].size(), 4) + "mdat");
            }
            part(1, offset2);
        }
        if (!front) {
            file.add(build(offset1, offset2));
        }
    };
    // the size of the movie box depends on the offsets; one of the parts might not use any
    assemble();
    for (auto i = 0; i < 3; ++i) {
        const auto previous1 = offset1, previous2 = offset2;
        assemble();
        if (previous1 == offset1 && previous2 == offset2) {
            break;
        }
    }
    g.label(front ? "index in front" : "index behind");
}

void makeMatroska(pbt::Gen &g, Pieces &file, bool copied)
{
    using namespace mkv;
    const auto hole = genHole(g, copied);
    const auto tagsBehind = g.flip(), cuesBehind = g.chance(3, 4), attachmentsBehind = g.flip(), holeInside = g.flip(), holeInBlock = holeInside && g.chance(2, 3);
    std::string tracks;
    std::vector<std::uint64_t> uids;
    for (auto n = g.range(1, 3); n; --n) {
        uids.push_back(1 + g.below(1000000) * 4 + uids.size());
        tracks += el(TrackEntry, num(TrackNumber, uids.size()) + num(TrackUid, uids.back()) + num(mkv::TrackType, 2) + el(CodecId, "A_VORBIS") + el(TrackName, g.asciiWord(10)));
    }
    const auto tracksElement = el(mkv::Tracks, tracks);
    const auto info = el(Info, num(TimestampScale, 1000000) + flt(Duration, 1000) + el(MuxingApp, "m") + el(WritingApp, "w"));
    const auto tags = g.chance(4, 5) ? el(mkv::Tags, genTags(g, fmt::GenOptions(), uids)) : std::string();
    const auto attachments = g.flip() ? el(mkv::Attachments, genAttachments(g, fmt::GenOptions())) : std::string();
    const auto padding = voidElement(30000 + g.length(30000));
    const auto block = [&] {
        auto payload = be(0x80 | (1 + g.below(uids.size())), 1) + be(g.below(1000), 2) + be(0, 1) + genSample(g);
        return el(SimpleBlock, payload);
    };
    std::string clusterContents[2];
    for (std::size_t i = 0; i < 2; ++i) {
        for (auto n = 1 + g.length(4); n; --n) {
            clusterContents[i] += block();
        }
    }
    const auto holeHeader = holeInBlock ? id(SimpleBlock) + size(hole, 8) : id(Void) + size(hole, 8);
    const auto position = g.flip(), previousSize = g.flip();
    struct Positions {
        std::uint64_t info = 0, tracks = 0, tags = 0, attachments = 0, cues = 0, cluster1 = 0, cluster2 = 0;
    } at;
    std::uint64_t segmentSize = 0;
    const auto assemble = [&] {
        file = Pieces();
        file.add(master(Ebml, el(DocType, "matroska") + num(DocTypeVersion, 4) + num(DocTypeReadVersion, 2)) + id(Segment) + size(segmentSize, 8));
        const auto base = file.end;
        const auto add = [&](const std::string &element, std::uint64_t &start) {
            start = file.end - base;
            file.add(element);
        };
        const auto seek = [&](std::uint32_t i, const std::string &element, std::uint64_t p) {
            return element.empty() ? std::string() : el(Seek, el(SeekId, id(i)) + num(SeekPosition, p, 8));
        };
        std::string points;
        for (const auto p : { at.cluster1, at.cluster2 }) {
            points += el(CuePoint, num(CueTime, p == at.cluster1 ? 0 : 5) + el(CueTrackPositions, num(CueTrack, 1) + num(CueClusterPosition, p, 8)));
        }
        const auto cues = el(Cues, points);
        file.add(el(SeekHead,
            seek(Info, info, at.info) + seek(mkv::Tracks, tracksElement, at.tracks) + seek(mkv::Tags, tags, at.tags) + seek(mkv::Attachments, attachments, at.attachments)
                + seek(Cues, cues, at.cues)));
        add(info, at.info);
        add(tracksElement, at.tracks);
        if (!cuesBehind) {
            add(cues, at.cues);
        }
        if (!tagsBehind) {
            add(tags, at.tags);
        }
        if (!attachmentsBehind) {
            add(attachments, at.attachments);
        }
        file.add(padding);
        // clusters
        const auto cluster = [&](std::size_t i, std::uint64_t &start, bool withHole, std::uint64_t previous) {
            start = file.end - base;
            auto head = num(Timestamp, i * 5);
            if (position) {
                head += num(mkv::Position, start, 8);
            }
            if (previous && previousSize) {
                head += num(PrevSize, previous, 8);
            }
            const auto contents = head + (withHole ? holeHeader : std::string());
            file.add(id(Cluster) + size(contents.size() + (withHole ? hole : 0) + clusterContents[i].size(), 8));
            file.add(contents);
            if (withHole) {
                file.hole(hole);
            }
            file.add(clusterContents[i]);
            return file.end - base - start;
        };
        const auto first = cluster(0, at.cluster1, holeInside, 0);
        if (!holeInside) {
            file.add(holeHeader);
            file.hole(hole);
        }
        cluster(1, at.cluster2, false, holeInside ? first : 0);
        if (cuesBehind) {
            add(cues, at.cues);
        }
        if (tagsBehind) {
            add(tags, at.tags);
        }
        if (attachmentsBehind) {
            add(attachments, at.attachments);
        }
        segmentSize = file.end - base;
    };
    assemble(); // all fields have a fixed size
    assemble();
    assemble();
    g.label(holeInBlock ? "huge block" : holeInside ? "hole within cluster" : "hole between clusters");
    g.label(tagsBehind ? "tags behind" : "tags in front");
}
} // namespace

fmt::Analysis analyze(fmt::Kind kind, const std::string &path, const char *when)
{
    const auto fd = ::open(path.data(), O_RDONLY | O_CLOEXEC);
    struct stat st;
    if (fd < 0 || ::fstat(fd, &st) || !st.st_size) {
        pbt::fail("malformed-file", std::string(when) + ": unable to open or empty");
    }
    const auto size = static_cast<std::size_t>(st.st_size);
    auto *const data = ::mmap(nullptr, size, PROT_READ, MAP_PRIVATE | MAP_NORESERVE, fd, 0);
    ::close(fd);
    if (data == MAP_FAILED) {
        throw std::runtime_error("unable to map " + path);
    }
    struct Unmap {
        void *data;
        std::size_t size;
        ~Unmap()
        {
            ::munmap(data, size);
        }
    } unmap{ data, size };
    try {
        return fmt::analyze(kind, std::string_view(static_cast<const char *>(data), size));
    } catch (const Malformed &e) {
        pbt::fail("malformed-file", std::string(when) + ": " + e.what());
    }
}

sc::Scenario make(pbt::Gen &g, fmt::Kind kind, bool copied)
{
    sc::Scenario s;
    s.kind = kind;
    g.label(fmt::name(kind));
    pbt::limitFileSize(64ull << 30);
    Pieces file;
    kind == fmt::Kind::Mp4 ? makeMp4(g, file, copied) : makeMatroska(g, file, copied);
    s.path = g.dir + "/huge" + fmt::extension(kind);
    file.write(s.path);
    s.before = analyze(kind, s.path, "generated file");
    CHECK_MSG(s.before.problems.empty(), "generated-file-invalid", fmt::problemsText(s.before));
    s.model = s.before.tags;
    g.describe(fmt::name(kind) + std::string(" of ") + toStr(file.end) + " bytes " + fmt::dump(s.model));
    return s;
}

bool save(tp::Session &s, const std::string &path)
{
    // prevent the hole from being copied
    auto &f = s.file;
    f.setForceRewrite(false);
    f.setForceTagPosition(false);
    f.setForceIndexPosition(false);
    f.setTagPosition(ElementPosition::Keep);
    f.setIndexPosition(ElementPosition::Keep);
    f.setMinPadding(0);
    f.setMaxPadding(~std::uint64_t(0));
    const auto inode = sc::inode(path);
    auto rewriting = false;
    AbortableProgressFeedback::Callback abort = [&](AbortableProgressFeedback &progress) {
        if (sc::inode(path) != inode) {
            rewriting = true;
            progress.tryToAbort();
        }
    };
    AbortableProgressFeedback progress(abort, abort);
    s.diag.clear();
    try {
        f.applyChanges(s.diag, progress);
    } catch (const pbt::Failure &) {
        throw;
    } catch (...) {
        if (rewriting) {
            return false;
        }
        pbt::fail("saving-failed", tp::currentExceptionText() + "\n" + tp::diagText(s.diag));
    }
    return !rewriting;
}

} // namespace sparse
