// C03: Vorbis comments survive saving in FLAC and Ogg files.
#include "scenario.h"
#include "vorbis.h"
#include <algorithm>
#include <tagparser/flac/flacstream.h>

using namespace TagParser;
using namespace util;
using namespace tp;
namespace pbt {
const char *g_property = "C03";
const char *g_rule = "FLAC files and Ogg files with Vorbis, Opus and FLAC streams (own generators, foreign comments, several streams, chained streams) whose comments are edited (all fields, "
                     "repeated values, covers, up to several Ogg pages) and saved one to three times; the comments are decoded independently and read again by the library and compared with a "
                     "model value by value and in order; non-trivial: at least two values or a non-ASCII value have been set";
const char *g_level = "exploration";
}

namespace {

/// order of values matters only among the values of one field
std::string perField(fmt::Items items, bool vendor)
{
    std::stable_sort(items.begin(), items.end(), [](const fmt::Item &a, const fmt::Item &b) { return a.id < b.id; });
    std::string r;
    for (const auto &i : items) {
        if (i.id != "VENDOR" || (vendor && !i.canon.empty())) { // an empty vendor and no vendor is the same thing
            r += i.id + "=" + i.canon + "\n";
        }
    }
    return r;
}

using Comments = std::vector<fmt::Items>;

Comments comments(const fmt::Tags &tags)
{
    Comments r;
    for (const auto &t : tags) {
        if (t.type == "vorbis" && !t.items.empty()) {
            r.push_back(t.items);
        }
    }
    return r;
}

void compare(Comments expected, Comments actual, const std::string &key, const std::string &more)
{
    // a comment which only has a vendor might be written or not (only possible in FLAC files)
    const auto dropEmpty = [](Comments &c) {
        c.erase(std::remove_if(c.begin(), c.end(), [](const fmt::Items &items) { return items.size() == 1 && items.front().id == "VENDOR"; }), c.end());
    };
    if (expected.size() != actual.size()) {
        dropEmpty(expected);
        dropEmpty(actual);
    }
    CHECK_MSG(expected.size() == actual.size(), key + "-count", toStr(expected.size()) + " comments expected, " + toStr(actual.size()) + " found\n" + more);
    for (std::size_t i = 0; i != expected.size(); ++i) {
        // there might be pictures without a comment (in FLAC files)
        const auto vendor = std::any_of(expected[i].begin(), expected[i].end(), [](const fmt::Item &item) { return item.id == "VENDOR"; });
        const auto e = perField(expected[i], vendor), a = perField(actual[i], vendor);
        if (e != a) {
            pbt::fail(key, "comment " + toStr(i) + "\nexpected:\n" + e.substr(0, 3000) + "found:\n" + a.substr(0, 3000) + firstDifference(e, a) + "\n" + more);
        }
    }
}

Comments ofLibrary(MediaFileInfo &file, fmt::Kind kind)
{
    Comments r;
    const auto add = [&r](const VorbisComment &c) {
        if (auto items = vorbis::ofLibrary(c); !items.empty()) {
            r.push_back(std::move(items));
        }
    };
    if (kind == fmt::Kind::Ogg) {
        auto *const c = file.container();
        for (std::size_t i = 0; c && i != c->tagCount(); ++i) {
            add(*static_cast<VorbisComment *>(c->tag(i)));
        }
    } else if (file.vorbisComment()) {
        add(*file.vorbisComment());
    }
    return r;
}

void roundTrip(pbt::Gen &g, const fmt::EditOptions &editOptions, unsigned maxEdits)
{
    static const std::vector<fmt::Kind> kinds = { fmt::Kind::Flac, fmt::Kind::Ogg };
    fmt::GenOptions o;
    o.rich = g.flip();
    auto s = sc::make(g, o, kinds);
    std::optional<Session> session;
    auto before = s.before;
    const auto rounds = g.range(1, 3);
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        compare(comments(before.tags), ofLibrary(session->file, s.kind), "original-read-differs", diagText(session->diag));
        g.describe(" edits:");
        for (auto n = g.range(1, maxEdits); n; --n) {
            fmt::edit(g, session->file, s.kind, s.model, editOptions);
        }
        const auto settings = sc::genSettings(g, before);
        settings.apply(session->file);
        g.describe(settings.describe());
        const auto saveAs = g.chance(1, 6);
        if (saveAs) {
            session->file.setSaveFilePath(s.path + ".new");
        }
        sc::save(*session);
        if (saveAs) {
            s.path += ".new";
        }
        before = sc::analyze(s.kind, s.path, "saved file");
        const auto expected = comments(s.model);
        compare(expected, comments(before.tags), "file-differs", diagText(session->diag));
        Session fresh(s.path);
        fresh.parse();
        compare(expected, ofLibrary(fresh.file, s.kind), "read-differs", diagText(fresh.diag));
    }
    std::size_t values = 0;
    for (const auto &t : s.model) {
        for (const auto &i : t.items) {
            values += t.type == "vorbis" ? 1 : 0;
            if (std::any_of(i.canon.begin(), i.canon.end(), [](char c) { return c & 0x80; })) {
                ++values;
            }
        }
    }
    if (values > 1) {
        g.nontrivial();
    }
}

} // namespace

PBT_TEST(comments_survive, 60000, 300000)
{
    roundTrip(g, fmt::EditOptions(), 8);
}

PBT_TEST(large_comments_survive, 6000, 40000)
{
    fmt::EditOptions o;
    o.maxText = 4000;
    o.maxPicture = 200000;
    roundTrip(g, o, 5);
}

// comments are removed and created
PBT_TEST(comments_added_and_removed, 30000, 150000)
{
    fmt::GenOptions o;
    o.rich = g.flip();
    auto s = sc::make(g, o, { fmt::Kind::Flac, fmt::Kind::Ogg });
    struct Stream {
        bool present = false; // whether there's a comment in the file (flagged as removed or not)
        bool removed = false;
        bool canBeCreated = true;
        fmt::Items items;
    };
    const auto withoutVendor = [](fmt::Items items) {
        items.erase(std::remove_if(items.begin(), items.end(), [](const fmt::Item &i) { return i.id == "VENDOR"; }), items.end());
        return items;
    };
    const auto ogg = s.kind == fmt::Kind::Ogg;
    std::vector<std::pair<std::string, Stream>> model; // by stream ID
    std::optional<Session> session;
    const auto rounds = g.range(1, 3);
    auto changes = 0u;
    auto payload = s.before.payload;
    for (std::int64_t round = 0; round < rounds; ++round) {
        if (!session || g.flip()) {
            session.emplace(s.path);
        }
        session->diag.clear();
        session->parse();
        auto &file = session->file;
        auto *const container = ogg ? file.container() : nullptr;
        const auto stream = [&](const std::string &id) -> Stream & {
            for (auto &m : model) {
                if (m.first == id) {
                    return m.second;
                }
            }
            return model.emplace_back(id, Stream()).second;
        };
        if (!round) {
            for (auto *const t : file.tracks()) {
                if (t->format() == GeneralMediaFormat::Vorbis || t->format() == GeneralMediaFormat::Opus || t->format() == GeneralMediaFormat::Flac) {
                    stream(ogg ? toStr(t->id()) : std::string()).canBeCreated = !ogg || t->format() != GeneralMediaFormat::Flac;
                }
            }
            for (const auto &t : s.before.tags) {
                if (t.type == "vorbis") {
                    auto &m = stream(t.target);
                    m.present = true;
                    m.items = withoutVendor(t.items);
                }
            }
        }
        const auto tagOf = [&](const std::string &id) -> VorbisComment * {
            if (!ogg) {
                return file.vorbisComment();
            }
            for (std::size_t i = 0; i != container->tagCount(); ++i) {
                auto *const t = container->tag(i);
                if (!t->target().tracks().empty() && toStr(t->target().tracks().front()) == id) {
                    return static_cast<VorbisComment *>(t);
                }
            }
            return nullptr;
        };
        g.describe(" ops:");
        for (auto n = g.range(1, 5); n; --n) {
            switch (g.weighted({ 3, 3, 2, 2, 3 })) {
            case 0: { // create the comment of a certain stream
                if (!ogg || model.empty()) {
                    continue;
                }
                auto &[id, m] = model[g.below(model.size())];
                g.describe(" create for " + id);
                TagTarget target;
                target.tracks().emplace_back(std::stoull(id));
                auto *const t = container->createTag(target);
                const auto possible = m.present || m.canBeCreated;
                CHECK_MSG((t != nullptr) == possible, "creating-comment", "the comment for stream " + id + (t ? " has" : " has not") + " been created");
                CHECK_MSG(!t || t == tagOf(id), "created-comment-not-returned", "the created comment of stream " + id + " is not returned");
                if (t && (!m.present || m.removed)) {
                    ++changes;
                    m.present = true;
                    m.removed = false;
                    CHECK_MSG(!t->fieldCount(), "created-comment-not-empty", "the created comment of stream " + id + " is not empty");
                }
                break;
            }
            case 1: { // remove a certain comment
                if (!ogg || model.empty()) {
                    continue;
                }
                auto &[id, m] = model[g.below(model.size())];
                auto *const t = tagOf(id);
                CHECK_MSG((t != nullptr) == (m.present && !m.removed), "comment-presence", "there's " + std::string(t ? "a" : "no") + " comment for stream " + id);
                g.describe(" remove " + id);
                if (t) {
                    const auto count = container->tagCount();
                    const auto ok = g.flip() ? container->removeTag(t) : file.removeTag(t);
                    CHECK_MSG(ok && container->tagCount() == count - 1 && !tagOf(id), "removing-comment", "the comment of stream " + id + " has not been removed");
                    m.removed = true;
                    m.items.clear();
                    ++changes;
                }
                break;
            }
            case 2: { // create any comment
                g.describe(" create");
                auto *const t = file.createVorbisComment();
                if (!ogg) {
                    auto &m = stream(std::string());
                    CHECK_MSG(t && t == file.vorbisComment(), "creating-comment", "the comment has not been created");
                    changes += !m.present;
                    m.present = true;
                    break;
                }
                if (std::any_of(model.begin(), model.end(), [](const auto &m) { return m.second.present && !m.second.removed; })) {
                    CHECK_MSG(t && t == file.vorbisComment(), "creating-comment", "the existing comment is not returned");
                    break;
                }
                const auto possible = std::any_of(model.begin(), model.end(), [](const auto &m) { return m.second.present || m.second.canBeCreated; });
                CHECK_MSG((t != nullptr) == possible, "creating-comment", std::string("a comment has ") + (t ? "" : "not ") + "been created");
                if (t) {
                    ++changes;
                    CHECK_MSG(!t->target().tracks().empty(), "created-comment-lacks-target", "the created comment lacks a target");
                    auto &m = stream(toStr(t->target().tracks().front()));
                    m.present = true;
                    m.removed = false;
                }
                break;
            }
            case 3: { // remove all
                const auto any = std::any_of(model.begin(), model.end(), [](const auto &m) { return m.second.present && !m.second.removed; });
                g.describe(" remove all");
                if (g.flip()) {
                    const auto r = file.removeVorbisComment();
                    CHECK_MSG(r == any, "removing-all-comments", std::string("removing the comment returned ") + (r ? "true" : "false"));
                } else {
                    file.removeAllTags();
                }
                CHECK_MSG(!file.vorbisComment(), "comment-not-removed", "there's still a comment");
                for (auto &m : model) {
                    changes += m.second.present && !m.second.removed;
                    m.second.removed = m.second.present && ogg;
                    m.second.present = m.second.present && ogg;
                    m.second.items.clear();
                }
                break;
            }
            default: { // edit
                if (model.empty()) {
                    continue;
                }
                auto &[id, m] = model[g.below(model.size())];
                if (auto *const t = tagOf(id)) {
                    g.describe(" edit " + id);
                    for (auto k = g.range(1, 3); k; --k) {
                        vorbis::edit(g, *t, m.items, fmt::EditOptions());
                    }
                }
            }
            }
        }
        sc::genSettings(g, s.before).apply(file);
        sc::save(*session);
        auto missing = false, missingFlac = false;
        Comments expected;
        for (auto &[id, m] : model) {
            m.items = withoutVendor(m.items);
            if (m.removed) {
                m.removed = m.present = false;
            }
            missing = missing || (ogg && !m.present);
            missingFlac = missingFlac || (ogg && !m.present && !m.canBeCreated);
            if (!m.items.empty()) {
                expected.push_back(m.items);
            }
        }
        Session fresh(s.path);
        fresh.parse();
        auto actual = ofLibrary(fresh.file, s.kind);
        for (auto &c : actual) {
            c = withoutVendor(c);
        }
        actual.erase(std::remove_if(actual.begin(), actual.end(), [](const fmt::Items &c) { return c.empty(); }), actual.end());
        compare(expected, actual, "read-after-adding-and-removing-differs", diagText(fresh.diag));
        if (missingFlac) {
            g.label("FLAC stream without comment");
            return; // can't be created again
        }
        const auto a = fmt::analyze(s.kind, readFile(s.path));
        for (const auto &p : a.problems) {
            CHECK_MSG(missing && p.find("comment header is missing") != std::string::npos, "invalid-after-adding-and-removing", p);
        }
        for (const auto &[k, v] : a.payload) {
            if (missing && k.find("packets") == std::string::npos) {
                continue; // the denoted number of packets is different
            }
            for (const auto &[k2, v2] : payload) {
                CHECK_MSG(k != k2 || v == v2, "payload-changed", k + " have changed");
            }
        }
        if (missing) {
            g.label("stream without comment");
        }
    }
    if (changes) {
        g.nontrivial();
    }
}

namespace {

std::string asciiLower(std::string s)
{
    for (auto &c : s) {
        c = c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
    }
    return s;
}

} // namespace

// denoting the total number of tracks, disks and parts via separate fields
PBT_TEST(total_fields, 60000, 300000)
{
    static const std::pair<const char *, const char *> ids[] = { { "TRACKNUMBER", "TRACKTOTAL" }, { "DISCNUMBER", "DISCTOTAL" }, { "PARTNUMBER", "PARTTOTAL" } };
    auto foreign = vorbis::genForeign(g, fmt::GenOptions(), false);
    foreign.fields.erase(std::remove_if(foreign.fields.begin(), foreign.fields.end(),
                             [](const auto &f) {
                                 const auto l = asciiLower(f.first); // the date might be converted
                                 return l == "date" || l == "year" || std::any_of(std::begin(ids), std::end(ids), [&](const auto &id) { return l == asciiLower(id.first) || l == asciiLower(id.second); });
                             }),
        foreign.fields.end());
    struct Set {
        std::vector<PositionInSet> positions;
        std::vector<std::string> others, unconverted;
    };
    Set sets[3];
    const auto convert = g.chance(3, 4);
    for (auto i = 0; i < 3; ++i) {
        auto &s = sets[i];
        std::vector<PositionInSet> totals;
        std::vector<std::pair<std::string, std::string>> numbers, totalFields;
        for (auto n = g.below(3); n; --n) {
            const auto position = static_cast<std::int32_t>(g.range(1, 100000)), total = g.flip() ? 0 : static_cast<std::int32_t>(g.range(1, 100000));
            s.positions.emplace_back(position, total);
            auto text = toStr(static_cast<std::uint64_t>(position)) + (total ? "/" + toStr(static_cast<std::uint64_t>(total)) : std::string());
            if (g.chance(1, 8)) { // not a position at all
                s.others.push_back(text = g.pick({ "A", "side", "!" }));
                s.positions.back() = PositionInSet(-1, 0);
            }
            numbers.emplace_back(g.chance(1, 4) ? asciiLower(ids[i].first) : ids[i].first, std::move(text));
        }
        std::size_t index = 0;
        for (auto n = g.below(3); n; --n, ++index) {
            auto total = static_cast<std::int32_t>(g.range(1, 100000));
            auto text = toStr(static_cast<std::uint64_t>(total));
            if (g.chance(1, 6)) {
                text = g.pick({ "twelve", "x", "?" });
                s.unconverted.push_back(text);
                total = 0;
            } else if (!convert) {
                s.unconverted.push_back(text);
            }
            totalFields.emplace_back(g.chance(1, 4) ? asciiLower(ids[i].second) : ids[i].second, text);
            if (!convert || !total) {
                continue;
            }
            if (index >= s.positions.size()) {
                s.positions.emplace_back(0, total);
            } else if (s.positions[index].position() < 0) {
                s.unconverted.push_back(text);
            } else if (!s.positions[index].total()) {
                s.positions[index].setTotal(total);
            }
        }
        if (g.flip()) {
            std::swap(numbers, totalFields);
        }
        foreign.fields.insert(g.flip() ? foreign.fields.begin() : foreign.fields.end(), numbers.begin(), numbers.end());
        foreign.fields.insert(g.flip() ? foreign.fields.begin() : foreign.fields.end(), totalFields.begin(), totalFields.end());
    }
    const auto data = vorbis::encode(foreign);
    g.describe(pbt::quote(data));
    std::stringstream stream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    stream << data;
    Diagnostics diag;
    VorbisComment comment;
    comment.parse(stream, data.size(), VorbisCommentFlags::NoSignature | VorbisCommentFlags::NoFramingByte | (convert ? VorbisCommentFlags::ConvertTotalFields : VorbisCommentFlags::None), diag);
    for (auto i = 0; i < 3; ++i) {
        std::vector<std::string> actual, expected, others;
        for (const auto *const v : comment.values(std::string(ids[i].first))) {
            try {
                actual.push_back(v->toPositionInSet().toString());
            } catch (const CppUtilities::ConversionException &) {
                actual.push_back(v->toString());
            }
        }
        auto other = sets[i].others.begin();
        for (const auto &p : sets[i].positions) {
            expected.push_back(p.position() < 0 ? *other++ : p.toString());
        }
        for (const auto *const v : comment.values(std::string(ids[i].second))) {
            others.push_back(v->toString());
        }
        std::sort(others.begin(), others.end());
        std::sort(sets[i].unconverted.begin(), sets[i].unconverted.end());
        const auto join = [](const std::vector<std::string> &v) {
            std::string r;
            for (const auto &s : v) {
                r += s + ", ";
            }
            return r;
        };
        CHECK_MSG(actual == expected, "positions-differ", std::string(ids[i].first) + " is " + join(actual) + "instead of " + join(expected) + diagText(diag));
        CHECK_MSG(others == sets[i].unconverted, "totals-differ", std::string(ids[i].second) + " is " + join(others) + "instead of " + join(sets[i].unconverted) + diagText(diag));
        if (!expected.empty()) {
            g.nontrivial();
        }
    }
    // other fields are not affected
    std::map<std::string, std::size_t> counts;
    for (const auto &f : foreign.fields) {
        ++counts[asciiLower(f.first)];
    }
    for (const auto &[id, n] : counts) {
        const auto isTotal = std::any_of(std::begin(ids), std::end(ids), [&, &name = id](const auto &i) { return name == asciiLower(i.first) || name == asciiLower(i.second); });
        CHECK_MSG(isTotal || comment.values(id).size() == n, "other-field-affected", "there are " + toStr(comment.values(id).size()) + " values of " + id + " instead of " + toStr(n));
    }
}
