// Formats which are plain streams with ID3 tags around them.
#include "fmt.h"
#include "mpeg.h"
#include <algorithm>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>

using namespace TagParser;
using namespace util;

namespace fmt {

const char *name(Kind kind)
{
    static const char *const names[] = { "MPEG audio", "ADTS", "WAV", "IVF", "FLAC", "Ogg", "MP4", "Matroska" };
    return names[static_cast<unsigned>(kind)];
}

const char *extension(Kind kind)
{
    static const char *const names[] = { ".mp3", ".aac", ".wav", ".ivf", ".flac", ".ogg", ".m4a", ".mkv" };
    return names[static_cast<unsigned>(kind)];
}

std::string digest(std::string_view d)
{
    if (d.size() > 0x4000000) {
        // sparse file; samples are sufficient
        constexpr std::size_t step = 0x100000;
        std::string samples(d.substr(0, step));
        samples += d.substr(d.size() - step);
        for (std::size_t i = 0; i < d.size(); i += step) {
            samples += d.substr(i, 16);
        }
        return toStr(d.size()) + ":" + toStr(crc32Ieee(samples));
    }
    return toStr(d.size()) + ":" + toStr(crc32Ieee(d));
}

std::string dump(const Tags &tags)
{
    std::string r;
    for (const auto &t : tags) {
        r += "{" + t.type + (t.target.empty() ? std::string() : " @" + t.target) + ":" + id3m::dump(t.items) + "} ";
    }
    return r;
}

std::string problemsText(const Analysis &a)
{
    std::string r;
    for (const auto &p : a.problems) {
        r += p + "\n";
    }
    return r;
}

std::string itemsDifference(const Items &expected, const Items &actual)
{
    for (std::size_t i = 0; i < std::max(expected.size(), actual.size()); ++i) {
        if (i >= expected.size() || i >= actual.size() || !(expected[i] == actual[i])) {
            const auto show = [](const Items &l, std::size_t n) { return n < l.size() ? l[n].id + "=" + pbt::quote(l[n].canon, 200) : std::string("nothing"); };
            return "expected " + show(expected, i) + ", found " + show(actual, i) + " (" + toStr(expected.size()) + " expected, " + toStr(actual.size()) + " found)";
        }
    }
    return std::string();
}

std::string payloadDifference(const Analysis &a, const Analysis &b)
{
    for (std::size_t i = 0; i < std::max(a.payload.size(), b.payload.size()); ++i) {
        if (i >= a.payload.size() || i >= b.payload.size() || a.payload[i] != b.payload[i]) {
            const auto show = [](const Analysis &l, std::size_t n) { return n < l.payload.size() ? l.payload[n].first + " " + l.payload[n].second : std::string("nothing"); };
            return "media data was " + show(a, i) + ", is now " + show(b, i) + " (" + toStr(a.payload.size()) + " parts before, " + toStr(b.payload.size()) + " now)";
        }
    }
    return std::string();
}

std::string tagsDifference(Tags expected, Tags actual)
{
    // tags without any contents might be written or not
    const auto dropEmpty = [](Tags &tags) {
        tags.erase(std::remove_if(tags.begin(), tags.end(), [](const TagModel &t) { return t.items.empty() && t.type != "id3v1"; }), tags.end());
    };
    // a vendor is added when there is only a picture
    const auto isVendor = [](const Item &item) { return item.id == "VENDOR"; };
    if (std::any_of(expected.begin(), expected.end(), [&](const TagModel &t) { return t.type == "vorbis" && std::none_of(t.items.begin(), t.items.end(), isVendor); })) {
        for (auto *const tags : { &expected, &actual }) {
            for (auto &t : *tags) {
                if (t.type == "vorbis") {
                    t.items.erase(std::remove_if(t.items.begin(), t.items.end(), isVendor), t.items.end());
                }
            }
        }
    }
    dropEmpty(expected);
    dropEmpty(actual);
    std::stable_sort(expected.begin(), expected.end(), [](const TagModel &a, const TagModel &b) { return a.type.substr(0, 5) < b.type.substr(0, 5); });
    std::stable_sort(actual.begin(), actual.end(), [](const TagModel &a, const TagModel &b) { return a.type.substr(0, 5) < b.type.substr(0, 5); });
    const auto all = [&] { return "\nexpected: " + dump(expected) + "\nfound:    " + dump(actual); };
    for (std::size_t i = 0; i < std::max(expected.size(), actual.size()); ++i) {
        if (i >= actual.size()) {
            return "tag " + expected[i].type + " is missing" + all();
        }
        if (i >= expected.size()) {
            return "there is an unexpected tag " + actual[i].type + all();
        }
        if (expected[i].type != actual[i].type) {
            return "expected tag " + expected[i].type + ", found " + actual[i].type + all();
        }
        if (expected[i].target != actual[i].target) {
            return "expected tag for " + expected[i].target + ", found for " + actual[i].target + all();
        }
        if (auto d = id3m::difference(expected[i].items, actual[i].items); !d.empty()) {
            return "tag " + toStr(i) + " " + expected[i].type + ": " + d;
        }
    }
    return std::string();
}

File generate(pbt::Gen &g, Kind kind, const GenOptions &options)
{
    File f;
    switch (kind) {
    case Kind::Flac:
        f = flacf::generate(g, options);
        break;
    case Kind::Ogg:
        f = oggf::generate(g, options);
        break;
    case Kind::Mp4:
        f = mp4f::generate(g, options);
        break;
    case Kind::Matroska:
        f = mkvf::generate(g, options);
        break;
    default:
        f = id3f::generate(g, kind, options);
    }
    f.kind = kind;
    return f;
}

Analysis analyze(Kind kind, std::string_view bytes)
{
    switch (kind) {
    case Kind::Flac:
        return flacf::analyze(bytes);
    case Kind::Ogg:
        return oggf::analyze(bytes);
    case Kind::Mp4:
        return mp4f::analyze(bytes);
    case Kind::Matroska:
        return mkvf::analyze(bytes);
    default:
        return id3f::analyze(kind, bytes);
    }
}

void edit(pbt::Gen &g, MediaFileInfo &file, Kind kind, Tags &model, const EditOptions &options)
{
    switch (kind) {
    case Kind::Flac:
        return flacf::edit(g, file, model, options);
    case Kind::Ogg:
        return oggf::edit(g, file, model, options);
    case Kind::Mp4:
        return mp4f::edit(g, file, model, options);
    case Kind::Matroska:
        return mkvf::edit(g, file, model, options);
    default:
        return id3f::edit(g, file, kind, model, options);
    }
}

namespace id3f {

namespace {

std::string slotText(pbt::Gen &g, std::size_t max)
{
    auto s = g.text(max, 0);
    while (!s.empty() && s.back() == ' ') {
        s.pop_back();
    }
    return s;
}

Items v1Items(const id3::V1 &t)
{
    Items items;
    const auto add = [&](const char *id, const std::string &raw) {
        auto v = raw;
        while (!v.empty() && v.back() == ' ') {
            v.pop_back();
        }
        if (!v.empty()) {
            items.push_back({ id, v });
        }
    };
    add("title", t.title);
    add("artist", t.artist);
    add("album", t.album);
    add("year", t.year);
    add("comment", t.comment);
    if (t.track) {
        items.push_back({ "track", toStr(static_cast<unsigned>(t.track)) });
    }
    if (t.genre != 255) {
        items.push_back({ "genre", toStr(t.genre) });
    }
    return items;
}

std::string makeWav(pbt::Gen &g, unsigned big, std::map<std::string, std::string> &declared)
{
    std::string fmtChunk, data;
    const auto format = g.weighted({ 4, 2, 1, 1 }); // PCM, float, MP3, extensible
    const auto channels = static_cast<unsigned>(g.range(1, 6));
    const auto bits = format == 1 ? 32u : g.pick({ 16u, 8u, 24u, 32u });
    const auto rate = g.pick({ 44100u, 8000u, 48000u, 96000u });
    const auto block = channels * bits / 8;
    if (format == 2) {
        auto audio = mpeg::genAudio(g, 5 * big);
        const auto rate2 = audio.sampleRate;
        data = audio.data;
        le(fmtChunk, 0x55, 2);
        le(fmtChunk, audio.channels, 2);
        le(fmtChunk, rate2, 4);
        le(fmtChunk, audio.bitrate * 125, 4);
        le(fmtChunk, 1, 2);
        le(fmtChunk, 0, 2);
        le(fmtChunk, 12, 2);
        fmtChunk += g.bytes(12);
        declared["track0.channels"] = toStr(audio.channels);
        declared["track0.rate"] = toStr(rate2);
        declared["track0.layer"] = toStr(audio.layer);
        declared["track0.version"] = std::to_string(audio.version);
        const auto seconds = audio.xingFrames ? static_cast<double>(audio.xingFrames) * audio.samplesPerFrame / rate2 : static_cast<double>(data.size()) / (audio.bitrate * 125.0);
        declared["track0.seconds"] = std::to_string(seconds);
        declared["track0.kbps"] = std::to_string(static_cast<double>(data.size()) / seconds / 125);
    } else {
        le(fmtChunk, format == 0 ? 1 : format == 1 ? 3 : 0xFFFE, 2);
        le(fmtChunk, channels, 2);
        le(fmtChunk, rate, 4);
        le(fmtChunk, rate * block, 4);
        le(fmtChunk, block, 2);
        le(fmtChunk, bits, 2);
        if (format == 3) {
            le(fmtChunk, 22, 2);
            le(fmtChunk, bits, 2);
            le(fmtChunk, 3, 4);
            fmtChunk += std::string("\x01\x00\x00\x00\x00\x00\x10\x00\x80\x00\x00\xaa\x00\x38\x9b\x71", 16);
        }
        const auto samples = g.range(1, 500 * big);
        data = g.bytes(static_cast<std::size_t>(samples) * block);
        declared["track0.channels"] = toStr(channels);
        declared["track0.rate"] = toStr(rate);
        declared["track0.bits"] = toStr(bits);
        declared["track0.samples"] = toStr(static_cast<unsigned>(samples));
        declared["track0.seconds"] = std::to_string(static_cast<double>(samples) / rate);
        declared["track0.kbps"] = std::to_string(static_cast<double>(rate) * block * 8 / 1000.0);
    }
    declared["track0.type"] = "audio";
    declared["track0.size"] = toStr(data.size());
    declared["track0.format"] = format == 2 ? "MPEG-1 Audio" : format == 1 ? "float, IEEE" : "integer, little endian";
    std::string body = "WAVE";
    const auto chunk = [&](const char *id, const std::string &contents) {
        body += id;
        le(body, contents.size(), 4);
        body += contents;
        if (contents.size() % 2) {
            body += '\0';
        }
    };
    if (g.chance(1, 4)) {
        chunk("JUNK", std::string(static_cast<std::size_t>(g.range(0, 41)), '\0'));
    }
    chunk("fmt ", fmtChunk);
    if (g.chance(1, 4)) {
        chunk("LIST", "INFO" + g.bytes(static_cast<std::size_t>(g.range(0, 41))));
    }
    chunk("data", data);
    if (g.chance(1, 4)) {
        chunk("LIST", "INFO" + g.bytes(static_cast<std::size_t>(g.range(0, 20))));
    }
    std::string r = "RIFF";
    le(r, body.size(), 4);
    return r + body;
}

std::string makeIvf(pbt::Gen &g, unsigned big, std::map<std::string, std::string> &declared)
{
    std::string r = "DKIF";
    const auto frames = static_cast<unsigned>(g.range(1, 20)), width = static_cast<unsigned>(g.range(1, 4000)), height = static_cast<unsigned>(g.range(1, 4000));
    const auto rate = g.pick({ 25u, 30u, 60u, 30000u }), scale = rate == 30000u ? 1001u : 1u;
    const auto codec = g.pick({ "VP80", "VP90", "AV01" });
    le(r, 0, 2);
    le(r, 32, 2);
    r += codec;
    le(r, width, 2);
    le(r, height, 2);
    le(r, rate, 4);
    le(r, scale, 4);
    le(r, frames, 4);
    le(r, 0, 4);
    for (unsigned i = 0; i < frames; ++i) {
        const auto data = g.bytes(static_cast<std::size_t>(g.range(1, 100 * big)));
        le(r, data.size(), 4);
        le(r, i, 8);
        r += data;
    }
    declared["track0.type"] = "video";
    declared["track0.width"] = toStr(width);
    declared["track0.height"] = toStr(height);
    declared["track0.formatId"] = codec;
    declared["track0.samples"] = toStr(frames);
    declared["track0.seconds"] = std::to_string(static_cast<double>(frames) * scale / rate);
    return r;
}

} // namespace

std::string genLeading(pbt::Gen &g, const GenOptions &o, bool &footer, Tags *)
{
    std::string r;
    footer = false;
    if (!o.tags) {
        return r;
    }
    const auto n = g.weighted({ 2, 5, 1 });
    for (std::size_t i = 0; i < n; ++i) {
        Items model;
        id3::EncodeOptions eo;
        auto t = id3m::genTag(g, static_cast<unsigned>(g.pick({ 4, 3, 2 })), 5, model, eo);
        if (!o.padding) {
            eo.padding = 0;
        } else if (!eo.footer && g.flip()) {
            eo.padding = g.length(3000);
        }
        footer = footer || eo.footer;
        r += id3::encode(t, eo);
    }
    return r;
}

std::string genTrailing(pbt::Gen &g, const GenOptions &o)
{
    std::string r;
    if (!o.tags) {
        return r;
    }
    if (o.rich && g.chance(1, 8)) {
        const auto title = g.text(20, 0);
        const auto artist = g.text(20, 3);
        const auto header = g.flip();
        r += id3::encodeApe({ { "Title", title }, { "Artist", artist } }, header);
        if (r.size() == 131) {
            r = id3::encodeApe({ { "Title", title + "." }, { "Artist", artist } }, header); // "TAG" of "APETAGEX" looks like an ID3v1 tag otherwise
        }
    }
    if (g.chance(1, 3)) {
        id3::V1 t;
        t.title = slotText(g, 30);
        t.artist = slotText(g, 30);
        t.album = slotText(g, 30);
        t.year = g.flip() ? toStr(static_cast<unsigned>(g.range(1900, 2030))) : "";
        t.comment = slotText(g, 28);
        t.track = static_cast<int>(g.below(256));
        t.genre = static_cast<unsigned>(g.flip() ? 255 : g.below(192));
        r += id3::encodeV1(t);
    }
    return r;
}

File generate(pbt::Gen &g, Kind kind, const GenOptions &o)
{
    File f;
    std::string media;
    switch (kind) {
    case Kind::Mpeg: {
        const auto a = mpeg::genAudio(g, 6 * o.big);
        media = a.data;
        f.declared["track0.channels"] = toStr(a.channels);
        f.declared["track0.rate"] = toStr(a.sampleRate);
        f.declared["track0.format"] = "MPEG-1 Audio";
        f.declared["track0.type"] = "audio";
        f.declared["track0.channelConfig"] = toStr(a.channelMode);
        f.declared["track0.layer"] = toStr(a.layer);
        f.declared["track0.mpegVersion"] = std::to_string(a.version);
        if (a.xingFrames) {
            f.declared["track0.xingFrames"] = toStr(a.xingFrames);
        }
        f.declared["track0.frames"] = toStr(a.frames);
        f.declared["track0.samplesPerFrame"] = toStr(a.samplesPerFrame);
        f.declared["track0.frameBitrate"] = toStr(a.bitrate);
        f.declared["track0.mediaSize"] = toStr(a.data.size());
        break;
    }
    case Kind::Adts: {
        const auto a = mpeg::genAdts(g, 6 * o.big);
        media = a.data;
        static const unsigned rates[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
        static const unsigned channels[] = { 0, 1, 2, 3, 4, 5, 6, 8 };
        f.declared["track0.format"] = "Advanced Audio Coding";
        if (a.sampleRateIndex < std::size(rates)) {
            f.declared["track0.rate"] = toStr(rates[a.sampleRateIndex]);
        }
        f.declared["track0.channels"] = toStr(channels[a.channelConfig]);
        f.declared["track0.channelConfig"] = toStr(a.channelConfig);
        f.declared["track0.aac"] = toStr(a.objectType);
        break;
    }
    case Kind::Wav:
        media = makeWav(g, o.big, f.declared);
        break;
    default:
        media = makeIvf(g, o.big, f.declared);
    }
    bool footer;
    auto leading = genLeading(g, o, footer);
    f.bytes = leading;
    if (o.rich && o.padding && !footer && g.chance(1, 12)) {
        f.bytes.append(static_cast<std::size_t>(g.range(4, 1000)), '\0');
    }
    f.bytes += media;
    f.bytes += genTrailing(g, o);
    f.what = std::string(name(kind)) + " with " + toStr(leading.size()) + " bytes of ID3v2 and " + toStr(f.bytes.size()) + " bytes in total";
    return f;
}

Framing analyzeFraming(std::string_view bytes, Analysis &a)
{
    Framing f;
    std::vector<id3::Tag> tags;
    try {
        tags = id3::decodeAll(bytes, f.begin);
    } catch (const Malformed &e) {
        a.problems.push_back(std::string("ID3v2 tag: ") + e.what());
        // locate the end by the headers only
        f.begin = 0;
        while (bytes.size() - f.begin >= 10 && bytes.substr(f.begin, 3) == "ID3") {
            const auto *const h = reinterpret_cast<const unsigned char *>(bytes.data()) + f.begin;
            const auto size = (h[6] << 21) | (h[7] << 14) | (h[8] << 7) | h[9];
            f.begin = std::min(f.begin + static_cast<std::size_t>(size) + (h[5] & 0x10 ? 20u : 10u), bytes.size());
        }
    }
    for (const auto &t : tags) {
        TagModel m;
        m.type = "id3v2." + toStr(t.major);
        try {
            m.items = id3m::ofFile(t);
        } catch (const Malformed &e) {
            a.problems.push_back(std::string("frame of ID3v2 tag: ") + e.what());
        }
        f.padding += t.padding;
        a.tags.push_back(std::move(m));
    }
    f.end = bytes.size();
    id3::V1 v1;
    if (f.end >= f.begin + 128 && id3::decodeV1(bytes, v1)) {
        f.end -= 128;
        a.tags.push_back({ "id3v1", v1Items(v1), std::string() });
    }
    return f;
}

Analysis analyze(Kind kind, std::string_view bytes)
{
    Analysis a;
    auto f = analyzeFraming(bytes, a);
    const auto begin = f.begin;
    while (f.begin < f.end && !bytes[f.begin]) {
        ++f.begin;
    }
    a.mediaOffset = f.begin;
    a.padding = f.padding + (f.begin - begin);
    const auto media = bytes.substr(f.begin, f.end - f.begin);
    a.payload.emplace_back("stream", digest(media));
    const auto startsWith = [&](std::string_view s) { return media.substr(0, s.size()) == s; };
    const auto ok = kind == Kind::Wav ? startsWith("RIFF") : kind == Kind::Ivf ? startsWith("DKIF") : media.size() > 1 && media[0] == '\xFF' && (media[1] & 0xE0) == 0xE0;
    if (!ok) {
        a.problems.push_back("media data does not start as expected: " + pbt::hex(std::string(media.substr(0, 16))));
    }
    return a;
}

bool editId3(pbt::Gen &g, MediaFileInfo &file, Tags &model, const EditOptions &o)
{
    const auto find1 = std::find_if(model.begin(), model.end(), [](const TagModel &t) { return t.type == "id3v1"; });
    std::vector<std::size_t> v2;
    for (std::size_t i = 0; i < model.size(); ++i) {
        if (model[i].type.compare(0, 5, "id3v2") == 0) {
            v2.push_back(i);
        }
    }
    CHECK_MSG(v2.size() == file.id3v2Tags().size() && (find1 != model.end()) == (file.id3v1Tag() != nullptr), "tags-not-found",
        toStr(file.id3v2Tags().size()) + " ID3v2 tags and " + (file.id3v1Tag() ? "an" : "no") + " ID3v1 tag found, expected " + dump(model));
    if (g.chance(1, 4)) {
        // ID3v1
        if (find1 == model.end()) {
            if (!o.structural) {
                return false;
            }
            file.createId3v1Tag();
            model.push_back({ "id3v1", {}, {} });
            g.describe(" +ID3v1");
        } else if (o.structural && g.chance(1, 3)) {
            file.removeId3v1Tag();
            model.erase(find1);
            g.describe(" -ID3v1");
            return true;
        }
        auto &tag = *file.id3v1Tag();
        auto &items = std::find_if(model.begin(), model.end(), [](const TagModel &t) { return t.type == "id3v1"; })->items;
        const auto set = [&](const char *id, const std::string &canon) {
            items.erase(std::remove_if(items.begin(), items.end(), [&](const Item &i) { return i.id == id; }), items.end());
            if (!canon.empty()) {
                items.push_back({ id, canon });
            }
            g.describe(std::string(" ") + id + "=" + pbt::quote(canon));
        };
        static const std::tuple<const char *, KnownField, std::size_t> slots[] = { { "title", KnownField::Title, 30 }, { "artist", KnownField::Artist, 30 },
            { "album", KnownField::Album, 30 }, { "comment", KnownField::Comment, 28 } };
        switch (g.below(4)) {
        case 0: {
            const auto n = static_cast<int>(g.range(1, 255));
            tag.setValue(KnownField::TrackPosition, TagValue(PositionInSet(n)));
            set("track", std::to_string(n));
            break;
        }
        case 1: {
            const auto n = static_cast<int>(g.below(192));
            TagValue v;
            v.assignStandardGenreIndex(n);
            tag.setValue(KnownField::Genre, v);
            set("genre", std::to_string(n));
            break;
        }
        default: {
            const auto &[id, field, size] = slots[g.below(4)];
            const auto text = slotText(g, size);
            tag.setValue(field, tp::text(text, TagTextEncoding::Latin1));
            set(id, text);
        }
        }
        return true;
    }
    if (v2.empty()) {
        if (!o.structural) {
            return false;
        }
        auto *const tag = file.createId3v2Tag();
        const auto major = static_cast<std::uint8_t>(g.pick({ 4, 3, 2 }));
        tag->setVersion(major, 0);
        auto at = model.begin();
        model.insert(at, TagModel{ "id3v2." + toStr(major), {}, {} });
        v2.push_back(0);
        g.describe(" +ID3v2." + toStr(major));
    } else if (o.structural && g.chance(1, 12)) {
        const auto which = g.below(v2.size());
        file.removeId3v2Tag(file.id3v2Tags()[which].get());
        model.erase(model.begin() + static_cast<std::ptrdiff_t>(v2[which]));
        g.describe(" -ID3v2");
        return true;
    }
    const auto which = g.below(v2.size());
    auto &tag = *file.id3v2Tags()[which];
    id3m::EditOptions eo;
    eo.maxText = o.maxText;
    eo.maxPicture = o.maxPicture;
    id3m::edit(g, tag, model[v2[which]].items, eo);
    return true;
}

void edit(pbt::Gen &g, MediaFileInfo &file, Kind, Tags &model, const EditOptions &o)
{
    editId3(g, file, model, o);
}

} // namespace id3f
} // namespace fmt
