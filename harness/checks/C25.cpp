// C25: Interruption, progress and diagnostics are coherent
#include "scenario.h"
#include <map>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace TagParser;
using namespace util;
using namespace tp;

namespace pbt {
const char *g_property = "C25";
const char *g_rule = "parsing was interrupted after at least one read or percentages were reported while saving or at least two messages were combined";
const char *g_level = "metamorphic testing: interrupted and continued parsing compared with uninterrupted parsing; invariants over the history of progress reports; reference model of diagnostics";
}

namespace {
// interrupts at a chosen read
AbortableProgressFeedback *toAbort = nullptr;
std::uint64_t readsSeen = 0, abortAt = 0;
bool countingReads = false;

void beforeRead(int fd)
{
    if (!countingReads || fd <= 2) {
        return;
    }
    if (toAbort && readsSeen == abortAt) {
        toAbort->tryToAbort();
    }
    ++readsSeen;
}
} // namespace

extern "C" {
ssize_t read(int fd, void *buffer, size_t size)
{
    beforeRead(fd);
    return syscall(SYS_read, fd, buffer, size);
}
ssize_t readv(int fd, const struct iovec *iov, int count)
{
    beforeRead(fd);
    return syscall(SYS_readv, fd, iov, count);
}
}

namespace {

struct Counting {
    explicit Counting(AbortableProgressFeedback *progress = nullptr, std::uint64_t at = 0)
    {
        toAbort = progress;
        abortAt = at;
        readsSeen = 0;
        countingReads = true;
    }
    ~Counting()
    {
        countingReads = false;
        toAbort = nullptr;
    }
};

std::string withoutPadding(std::string s)
{
    const auto begin = s.find("\npadding ");
    if (begin != std::string::npos) {
        s.erase(begin, s.find(' ', begin + 9) - begin);
    }
    return s;
}

} // namespace

// Parsing which has been interrupted at any point can be continued; the result is the same as without interruption.
PBT_TEST(interrupted_parsing, 30000, 300000)
{
    auto s = sc::make(g);
    const auto full = g.flip();
    Session fresh(s.path);
    fresh.file.setForceFullParse(full);
    std::uint64_t reads;
    {
        Counting counting;
        fresh.parse();
        reads = readsSeen;
    }
    const auto worst = std::max(fresh.diag.level(), DiagLevel::Information);
    auto expected = sc::snapshot(fresh.file);

    Session session(s.path);
    session.file.setForceFullParse(full);
    const auto rounds = g.range(1, 3);
    auto paddingKnown = true;
    auto interrupted = 0u;
    for (std::int64_t i = 0; i != rounds; ++i) {
        AbortableProgressFeedback progress;
        const auto at = g.below(std::max<std::uint64_t>(reads, 1));
        Diagnostics diag;
        try {
            if (!i) {
                session.file.open();
            }
            const auto early = g.chance(1, 10);
            if (early) {
                progress.tryToAbort();
            }
            Counting counting(&progress, at);
            if (session.file.containerParsingStatus() == ParsingStatus::NotParsedYet) {
                session.file.parseContainerFormat(diag, progress);
                if (progress.isAborted()) {
                    paddingKnown = false; // the structure has possibly not been validated completely
                }
            }
            const auto what = g.weighted({ 3, 1, 1, 1, 1, 1 });
            if (what && session.file.containerParsingStatus() == ParsingStatus::NotParsedYet) {
                ++interrupted; // the format needs to be parsed first
                continue;
            }
            switch (what) {
            case 0:
                session.file.parseEverything(diag, progress);
                break;
            case 1:
                session.file.parseTracks(diag, progress);
                break;
            case 2:
                session.file.parseTags(diag, progress);
                break;
            case 3:
                session.file.parseChapters(diag, progress);
                break;
            case 4:
                session.file.parseAttachments(diag, progress);
                break;
            default:
                session.file.parseTags(diag, progress);
                session.file.parseTracks(diag, progress);
                session.file.parseChapters(diag, progress);
            }
        } catch (const OperationAbortedException &) {
            pbt::fail("abort-thrown", "parsing functions report an interruption via an exception");
        }
        if (progress.isAborted()) {
            ++interrupted;
        }
        g.describe("interrupted at read " + toStr(at) + " of " + toStr(reads));
        CHECK_MSG(diag.level() <= worst, "abort-reported-as-error", "when interrupted at read " + toStr(at) + ":\n" + diagText(diag));
    }
    if (!interrupted) {
        return;
    }
    g.nontrivial();
    g.label(paddingKnown ? "interrupted after the format" : "interrupted within the format");
    session.diag.clear();
    session.parse();
    CHECK_MSG(session.diag.level() <= worst, "continuing-reports-error", diagText(session.diag) + "\nfresh: " + diagText(fresh.diag));
    auto actual = sc::snapshot(session.file);
    if (!paddingKnown) {
        actual = withoutPadding(std::move(actual));
        expected = withoutPadding(std::move(expected));
    }
    CHECK_MSG(actual == expected, "continued-differs", "continued: " + actual + "\nfresh: " + expected);
}

// Steps and percentages reported when saving are coherent.
PBT_TEST(progress_reports, 24000, 240000)
{
    fmt::GenOptions options;
    options.big = g.chance(1, 3) ? 40 : 1;
    auto s = sc::make(g, options);
    struct Step {
        std::string name;
        std::vector<unsigned> percentages;
    };
    std::vector<Step> steps;
    auto separate = g.flip();
    const auto onStep = [&](AbortableProgressFeedback &f) {
        if (!separate && !steps.empty() && steps.back().name == f.step() && f.stepPercentage()) {
            steps.back().percentages.push_back(f.stepPercentage());
        } else {
            steps.push_back({ f.step(), { f.stepPercentage() } });
        }
        CHECK_MSG(!f.step().empty(), "step-without-name", "a step without name is reported");
        CHECK_MSG(f.overallPercentage() <= 100, "overall-percentage", toStr(unsigned(f.overallPercentage())));
    };
    const auto onPercentage = [&](AbortableProgressFeedback &f) {
        CHECK_MSG(!steps.empty() && steps.back().name == f.step(), "percentage-of-other-step", "percentage reported for step \"" + f.step() + "\" which has not been announced");
        steps.back().percentages.push_back(f.stepPercentage());
    };
    Session session(s.path);
    session.parse();
    sc::editSome(g, session.file, s, 2);
    if (s.kind == fmt::Kind::Mp4 && !s.before.segmented && session.file.container() && session.file.container()->trackCount() && g.chance(1, 3)) {
        // the media data is written chunk by chunk
        auto *const container = session.file.container();
        auto *const track = container->track(g.below(container->trackCount()));
        CHECK_MSG(container->removeTrack(track), "remove-refused", "track can not be removed");
        delete track;
        g.describe(" track removed");
        g.label("written chunk by chunk");
    }
    const auto settings = sc::genSettings(g, s.before);
    settings.apply(session.file);
    g.describe(settings.describe());
    const auto inodeBefore = sc::inode(s.path);
    auto progress = separate ? AbortableProgressFeedback(onStep, onPercentage) : AbortableProgressFeedback(onStep);
    session.diag.clear();
    session.file.applyChanges(session.diag, progress);
    session.file.close();
    const auto rewritten = sc::inode(s.path) != inodeBefore;
    auto copied = false;
    for (const auto &step : steps) {
        for (std::size_t i = 0; i != step.percentages.size(); ++i) {
            CHECK_MSG(step.percentages[i] <= 100, "percentage-too-high", toStr(step.percentages[i]) + " % reported for step \"" + step.name + "\"");
            CHECK_MSG(!i || step.percentages[i] >= step.percentages[i - 1], "percentage-decreases",
                toStr(step.percentages[i]) + " % reported after " + toStr(step.percentages[i - 1]) + " % for step \"" + step.name + "\"");
        }
        if (step.percentages.size() > 1) {
            g.nontrivial();
            const auto byChunk = step.name.rfind("Reading chunk", 0) == 0;
            if (s.kind != fmt::Kind::Matroska && !byChunk) {
                // the step has been completed
                CHECK_MSG(step.percentages.back() == 100, "percentage-not-finished",
                    "the last percentage reported for step \"" + step.name + "\" is " + toStr(step.percentages.back()));
                copied = true;
            }
        }
    }
    if (rewritten && s.kind != fmt::Kind::Matroska && s.kind != fmt::Kind::Mp4) {
        CHECK_MSG(copied, "no-percentage", "no percentage has been reported when rewriting the file");
    }
    g.label(rewritten ? "rewritten" : "updated");
}

// Combining diagnostic messages
PBT_TEST(diagnostics, 100000, 1000000)
{
    Diagnostics diag;
    std::vector<std::tuple<int, std::string, std::string>> model;
    const auto n = g.length(8);
    for (std::size_t i = 0; i != n; ++i) {
        const auto level = static_cast<int>(g.range(1, 5));
        const auto message = g.asciiWord(6), context = g.asciiWord(6);
        switch (g.below(4)) {
        case 0:
            diag.emplace_back(static_cast<DiagLevel>(level), message, context);
            break;
        case 1:
            diag.emplace_back(static_cast<DiagLevel>(level), std::string(message), context);
            break;
        case 2:
            diag.emplace_back(static_cast<DiagLevel>(level), message, std::string(context));
            break;
        default:
            diag.emplace_back(static_cast<DiagLevel>(level), std::string(message), std::string(context));
        }
        model.emplace_back(level, message, context);
    }
    auto worst = 0;
    for (std::size_t i = 0; i != n; ++i) {
        const auto &[level, message, context] = model[i];
        worst = std::max(worst, level);
        CHECK_MSG(static_cast<int>(diag[i].level()) == level && diag[i].message() == message && diag[i].context() == context, "message", message);
        for (std::size_t j = 0; j != n; ++j) {
            CHECK_MSG((diag[i] == diag[j]) == (model[i] == model[j]), "message-equality", "messages are wrongly considered equal or different");
        }
        static constexpr const char *names[] = { "", "debug", "information", "warning", "critical" };
        if (level < 5) {
            CHECK_MSG(diag[i].levelName() == names[level], "level-name", std::string(diag[i].levelName()));
        }
    }
    CHECK_MSG(static_cast<int>(diag.level()) == worst, "worst-level", "worst level is " + toStr(static_cast<unsigned>(diag.level())));
    for (auto level = 1; level <= 5; ++level) {
        CHECK_MSG(diag.has(static_cast<DiagLevel>(level)) == (worst >= level), "has-level", "level " + toStr(static_cast<unsigned>(level)));
    }
    auto a = static_cast<DiagLevel>(g.range(0, 5));
    const auto b = static_cast<DiagLevel>(g.range(0, 5)), max = std::max(a, b);
    CHECK_MSG((a |= b) == max && a == max, "combined-level", "combining levels does not yield the worse one");
    // lists within messages
    std::vector<std::string> values;
    std::string expected;
    const auto count = g.length(5);
    for (std::size_t i = 0; i != count; ++i) {
        values.emplace_back(g.asciiWord(6));
        expected += (!i ? "" : i + 1 == count ? " and " : ", ") + ('"' + values.back() + '"');
    }
    g.describe(expected);
    const auto list = DiagMessage::formatList(values);
    CHECK_MSG(list == expected, "list", list + " instead of " + expected);
    if (n > 1 || count > 1) {
        g.nontrivial();
    }
}
