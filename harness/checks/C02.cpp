// C02: ID3v2 tags survive saving and reading back in every version.
#include "id3model.h"
#include "mpeg.h"
#include <optional>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C02";
const char *g_rule = "ID3v2 tags of version 2.2, 2.3 and 2.4 of MPEG/ADTS files: new ones, ones built by an independent encoder (with unsynchronisation, extended header, "
                     "footer, padding, frame flags) which are read, edited and saved (also several times); non-trivial: at least two values or one with non-ASCII text or flags";
const char *g_level = "exploration";
}

namespace {

id3::Tag decodeFile(const std::string &path, unsigned major, const char *when)
{
    const auto bytes = readFile(path);
    std::size_t end = 0;
    std::vector<id3::Tag> tags;
    try {
        tags = id3::decodeAll(bytes, end);
    } catch (const Malformed &e) {
        pbt::fail("malformed-tag", std::string(when) + ": " + e.what());
    }
    CHECK_MSG(tags.size() == 1, "number-of-tags", std::string(when) + ": " + toStr(tags.size()));
    CHECK_MSG(tags[0].major == major, "version", toStr(tags[0].major));
    return tags[0];
}

void compareWithFile(const std::string &path, unsigned major, const id3m::Items &model, const char *when)
{
    const auto t = decodeFile(path, major, when);
    id3m::Items items;
    try {
        items = id3m::ofFile(t);
    } catch (const Malformed &e) {
        pbt::fail("malformed-frame", std::string(when) + ": " + e.what());
    }
    const auto d = id3m::difference(model, items);
    CHECK_MSG(d.empty(), "file-differs", std::string(when) + ": " + d);
}

void compareWithLibrary(const std::string &path, unsigned major, const id3m::Items &model, const char *when)
{
    Session s(path);
    s.parse();
    CHECK_MSG(s.file.id3v2Tags().size() == 1, "tag-not-read", std::string(when) + diagText(s.diag));
    const auto &tag = *s.file.id3v2Tags().front();
    CHECK_MSG(tag.majorVersion() == major, "version-read", toStr(tag.majorVersion()));
    const auto d = id3m::difference(model, id3m::ofLibrary(tag));
    CHECK_MSG(d.empty(), "read-differs", std::string(when) + ": " + d + "\n" + diagText(s.diag));
}

std::string genMedia(pbt::Gen &g)
{
    return g.chance(1, 4) ? mpeg::genAdts(g, 3).data : mpeg::genAudio(g, 3).data;
}

bool interesting(const id3m::Items &m)
{
    for (const auto &i : m) {
        for (const auto c : i.canon) {
            if (c & 0x80) {
                return true;
            }
        }
    }
    return m.size() > 1;
}

} // namespace

PBT_TEST(set_save_read, 72000, 500000)
{
    const auto path = g.dir + "/test.mp3";
    writeFile(path, genMedia(g));
    const auto major = static_cast<unsigned>(g.pick({ 4, 3, 2 }));
    g.label("version 2." + toStr(major));
    g.describe("2." + toStr(major) + ":");
    id3m::Items model;
    std::optional<Session> session;
    const auto rounds = g.range(1, 3);
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(path);
        }
        auto &s = *session;
        s.diag.clear();
        s.parse();
        if (s.file.id3v2Tags().empty()) {
            TagCreationSettings settings;
            settings.id3v1usage = TagUsage::Never;
            settings.id3v2usage = TagUsage::Always;
            settings.id3v2MajorVersion = static_cast<std::uint8_t>(major);
            CHECK_MSG(s.file.createAppropriateTags(settings), "create", std::string(s.file.containerFormatName()) + " " + pbt::hex(readFile(path), 40));
        }
        auto &tag = *s.file.id3v2Tags().front();
        CHECK_MSG(tag.majorVersion() == major, "version-created", toStr(tag.majorVersion()));
        const auto edits = g.range(1, 6);
        for (std::int64_t i = 0; i < edits; ++i) {
            id3m::edit(g, tag, model);
        }
        s.file.setForceRewrite(g.flip());
        const auto saveAs = g.chance(1, 6);
        if (saveAs) {
            s.file.setSaveFilePath(path + ".new");
        }
        try {
            s.apply();
        } catch (...) {
            pbt::fail("saving-failed", currentExceptionText() + "\n" + diagText(s.diag));
        }
        if (saveAs) {
            std::rename((path + ".new").data(), path.data());
            session.reset();
        }
        g.describe("; ");
        if (interesting(model)) {
            g.nontrivial();
        }
        if (model.empty()) {
            // an empty tag might be written or not
            session.reset();
            continue;
        }
        compareWithFile(path, major, model, "after saving");
        compareWithLibrary(path, major, model, "after saving");
    }
}

PBT_TEST(read_save_foreign_tag, 72000, 500000)
{
    // tags written by an independent encoder using features the library does not use for writing
    const auto path = g.dir + "/test.mp3";
    const auto major = static_cast<unsigned>(g.pick({ 4, 3, 2 }));
    g.label("version 2." + toStr(major));
    g.describe("2." + toStr(major) + ":");
    id3m::Items model;
    id3::EncodeOptions o;
    auto t = id3m::genTag(g, major, 6, model, o);
    const auto encoded = id3::encode(t, o);
    const auto media = genMedia(g);
    writeFile(path, encoded + media);
    g.describe(id3m::dump(model) + (o.unsync ? " unsync" : "") + (o.extendedHeader ? " ext" : "") + (o.footer ? " footer" : "") + " pad " + toStr(o.padding));
    for (const auto &f : t.frames) {
        if (f.flags) {
            g.describe(" flags of " + f.id + ": " + toStr(f.flags));
        }
    }
    if (o.unsync) {
        g.label("unsynchronisation");
    }
    if (o.extendedHeader) {
        g.label("extended header");
    }
    if (o.footer) {
        g.label("footer");
    }
    if (interesting(model) || o.unsync || o.footer || o.extendedHeader) {
        g.nontrivial();
    }
    compareWithFile(path, major, model, "as generated"); // checks the model itself
    Session s(path);
    s.parse();
    CHECK_MSG(s.file.id3v2Tags().size() == 1, "tag-not-read", diagText(s.diag));
    auto &tag = *s.file.id3v2Tags().front();
    CHECK_MSG(tag.size() == encoded.size(), "tag-size", toStr(tag.size()) + " instead of " + toStr(encoded.size()));
    CHECK_MSG(tag.hasFooter() == (o.footer && major >= 4) && tag.isUnsynchronisationUsed() == o.unsync && tag.hasExtendedHeader() == (o.extendedHeader && major >= 3), "tag-flags", "");
    if (!o.footer) {
        CHECK_MSG(tag.paddingSize() == o.padding, "padding-size", toStr(tag.paddingSize()) + " instead of " + toStr(o.padding) + "\n" + diagText(s.diag));
    }
    const auto d = id3m::difference(model, id3m::ofLibrary(tag));
    CHECK_MSG(d.empty(), "read-differs", "reading foreign tag: " + d + "\n" + diagText(s.diag));
    CHECK_MSG(countDiag(s.diag, DiagLevel::Warning) == 0, "problems-reported", diagText(s.diag));
    // edit and save
    const auto edits = g.range(0, 3);
    for (std::int64_t i = 0; i < edits; ++i) {
        id3m::edit(g, tag, model);
    }
    s.file.setForceRewrite(g.flip());
    s.diag.clear();
    try {
        s.apply();
    } catch (...) {
        pbt::fail("saving-failed", currentExceptionText() + "\n" + diagText(s.diag));
    }
    if (model.empty()) {
        return;
    }
    compareWithFile(path, major, model, "after saving foreign tag");
    compareWithLibrary(path, major, model, "after saving foreign tag");
    // the additional information of frames which have not been touched
    const auto now = decodeFile(path, major, "after saving foreign tag");
    for (const auto &f : t.frames) {
        if (f.group >= 0 || id3::flagCompressed(major, f.flags)) {
            for (const auto &n : now.frames) {
                if (n.id == f.id && n.data == f.data && !edits) {
                    CHECK_MSG(n.group == f.group && id3::flagCompressed(major, n.flags) == id3::flagCompressed(major, f.flags), "frame-flags", f.id);
                }
            }
        }
    }
}
