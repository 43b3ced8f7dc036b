// C09: padding, tag position and index position settings are honoured.
#include "scenario.h"
#include <algorithm>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C09";
const char *g_rule = "files of all formats with tags and existing padding which are edited and saved one to three times with random layout settings (limits around the existing padding); padding, media "
                     "offset and the position of tags and index are determined by independent parsers; whether the file has been rewritten is seen from its inode; non-trivial: the file has been "
                     "written (rewritten or in place)";
const char *g_level = "exploration";
}

namespace {

bool hasId3v2(const fmt::Analysis &a)
{
    return std::any_of(a.tags.begin(), a.tags.end(), [](const fmt::TagModel &t) { return t.type.compare(0, 5, "id3v2") == 0; });
}

bool isFlac(fmt::Kind k)
{
    return k == fmt::Kind::Flac;
}

void checkId3AndFlac(pbt::Gen &g, fmt::Kind kind, const fmt::Analysis &before, const fmt::Analysis &after, const sc::Settings &s, bool rewritten, const std::string &info)
{
    const auto had = hasId3v2(before), has = hasId3v2(after);
    const auto flac = isFlac(kind);
    const auto canPad = flac || has;
    // the header of a FLAC padding block counts as padding when it comes to the available space
    const auto slackOf = [](const fmt::Analysis &a) { return a.padding + a.paddingOverhead; };
    if (rewritten) {
        g.label("rewritten");
        CHECK_MSG(after.padding == (canPad ? s.preferredPadding : 0), "preferred-padding", toStr(after.padding) + info);
        if (!s.forceRewrite) {
            const auto tagsSize = after.mediaOffset - slackOf(after);
            if (tagsSize <= before.mediaOffset) {
                const auto slack = before.mediaOffset - tagsSize;
                const auto ok = canPad ? slack < s.minPadding || slack > s.maxPadding || (flac && !has && slack && slack < 4) : slack != 0;
                CHECK_MSG(ok, "unnecessary-rewrite", toStr(slack) + " bytes of padding would have been ok" + info);
            }
        }
        return;
    }
    g.label("in place");
    CHECK_MSG(before.mediaOffset == after.mediaOffset, "media-moved", toStr(before.mediaOffset) + " to " + toStr(after.mediaOffset) + info);
    if (!had && !has && !flac) {
        return; // nothing in front of the media data is altered at all
    }
    if (!canPad) {
        CHECK_MSG(after.mediaOffset == 0, "padding-without-tag", toStr(after.mediaOffset) + info);
        return;
    }
    // zero bytes between the ID3v2 tag and the stream are not the tag's padding unless the tag is written
    const auto slack = slackOf(after);
    CHECK_MSG(slack >= s.minPadding && slack <= s.maxPadding, "padding-limits", toStr(slack) + info);
}

void checkOgg(pbt::Gen &g, const fmt::Analysis &after, const sc::Settings &s, const std::string &info)
{
    g.label("rewritten");
    std::uint64_t streams = 0;
    for (const auto &p : after.payload) {
        for (const auto *const codec : { " vorbis ", " opus " }) {
            streams += p.first.find(codec) != std::string::npos ? 1 : 0;
        }
    }
    CHECK_MSG(after.padding == streams * s.preferredPadding, "preferred-padding", toStr(after.padding) + " for " + toStr(streams) + " comments" + info);
}

void checkMp4(pbt::Gen &g, const fmt::Analysis &before, const fmt::Analysis &after, const sc::Settings &s, bool rewritten, const std::string &info)
{
    const auto forced = s.forceTagPosition || s.forceIndexPosition;
    const auto configured = s.forceTagPosition || !s.forceIndexPosition ? s.tagPosition : s.indexPosition;
    auto position = configured == ElementPosition::Keep ? before.tagPosition : std::string(configured == ElementPosition::BeforeData ? "before" : "after");
    if (before.segmented) {
        position = "before"; // the only possible position
    }
    const auto media = before.mediaOffset != fmt::unknown;
    if (media) {
        CHECK_MSG(after.tagPosition == position || (!forced && !rewritten && after.tagPosition == "after"), "position", after.tagPosition + " instead of " + position + info);
        if (after.tagPosition != before.tagPosition) {
            g.label("position changed");
        }
    }
    if (rewritten) {
        g.label("rewritten");
        const auto preferred = s.preferredPadding && s.preferredPadding < 8 ? 8 : s.preferredPadding; // there are no smaller boxes
        CHECK_MSG(after.padding == preferred && after.paddingEnd == 0, "preferred-padding", toStr(after.padding) + " + " + toStr(after.paddingEnd) + info);
        const auto headerSize = after.mediaOffset - after.padding;
        if (!s.forceRewrite && media && headerSize <= before.mediaOffset) {
            const auto space = before.mediaOffset - headerSize;
            CHECK_MSG(space < s.minPadding || space + before.between > s.maxPadding || (space && space < 8), "unnecessary-rewrite",
                toStr(space) + " + " + toStr(before.between) + " bytes of padding would have been ok" + info);
        }
        return;
    }
    g.label("in place");
    CHECK_MSG(before.mediaOffset == after.mediaOffset, "media-moved", toStr(before.mediaOffset) + " to " + toStr(after.mediaOffset) + info);
    CHECK_MSG(after.padding >= s.minPadding && after.padding + after.between <= s.maxPadding, "padding-limits", toStr(after.padding) + " + " + toStr(after.between) + info);
    CHECK_MSG(after.between == after.paddingEnd, "unused-space", toStr(after.between) + " vs. " + toStr(after.paddingEnd) + info);
}

void checkMatroska(pbt::Gen &g, const fmt::Analysis &before, const fmt::Analysis &after, const sc::Settings &s, bool rewritten, const std::string &info)
{
    if (after.mediaOffset == fmt::unknown) {
        g.label("no clusters");
        CHECK_MSG(rewritten, "not-rewritten", info);
        return;
    }
    const auto checkPosition = [&](ElementPosition configured, bool forced, const std::string &previous, const std::string &now, const char *key) {
        const auto expected = configured == ElementPosition::Keep ? previous : std::string(configured == ElementPosition::BeforeData ? "before" : "after");
        if (now.empty() || expected.empty() || expected == "mixed") {
            return; // not present (before)
        }
        CHECK_MSG(now == expected || (!forced && !rewritten && now == "after"), key, now + " instead of " + expected + info);
        if (!previous.empty() && now != previous) {
            g.label(key + std::string(" changed"));
        }
    };
    checkPosition(s.tagPosition, s.forceTagPosition, before.tagPosition, after.tagPosition, "position");
    checkPosition(s.indexPosition, s.forceIndexPosition, before.indexPosition, after.indexPosition, "index-position");
    if (rewritten) {
        g.label("rewritten");
        const auto preferred = s.preferredPadding == 1 ? 2 : s.preferredPadding; // there are no smaller elements
        CHECK_MSG(after.padding == preferred, "preferred-padding", toStr(after.padding) + info);
        const auto headerSize = after.mediaOffset - after.padding;
        if (!s.forceRewrite && after.indexPosition != "before" && headerSize <= before.mediaOffset) {
            // the size of offsets and sizes within the header might differ
            const auto space = before.mediaOffset - headerSize;
            CHECK_MSG(space < s.minPadding + 64 || space + 64 > s.maxPadding, "unnecessary-rewrite", toStr(space) + " bytes of padding would have been ok" + info);
        }
        return;
    }
    g.label("in place");
    CHECK_MSG(before.mediaOffset == after.mediaOffset, "media-moved", toStr(before.mediaOffset) + " to " + toStr(after.mediaOffset) + info);
    CHECK_MSG(after.padding >= s.minPadding && after.padding <= s.maxPadding, "padding-limits", toStr(after.padding) + info);
}

} // namespace

PBT_TEST(layout_settings, 90000, 400000)
{
    auto s = sc::make(g);
    std::optional<Session> session;
    const auto rounds = g.range(1, 3);
    auto before = s.before;
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        sc::editSome(g, session->file, s, 3);
        const auto settings = sc::genSettings(g, before);
        settings.apply(session->file);
        g.describe(settings.describe());
        const auto content = readFile(s.path);
        const auto inode = sc::inode(s.path);
        sc::save(*session);
        session->file.close();
        const auto rewritten = sc::inode(s.path) != inode;
        const auto after = sc::analyze(s.kind, s.path, "saved file");
        const auto info = " " + settings.describe() + "\n" + diagText(session->diag);
        const auto changed = readFile(s.path) != content;
        if (rewritten || changed) {
            g.nontrivial();
        }
        if (settings.forceRewrite && changed) {
            CHECK_MSG(rewritten, "not-rewritten", info);
        }
        switch (s.kind) {
        case fmt::Kind::Ogg:
            checkOgg(g, after, settings, info);
            break;
        case fmt::Kind::Mp4:
            checkMp4(g, before, after, settings, rewritten, info);
            break;
        case fmt::Kind::Matroska:
            checkMatroska(g, before, after, settings, rewritten, info);
            break;
        default:
            checkId3AndFlac(g, s.kind, before, after, settings, rewritten, info);
        }
        before = after;
    }
}
