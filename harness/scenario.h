// A generated file which is edited and saved with random settings; shared by the checks about saving.
#pragma once
#include "fmt.h"
#include <optional>

namespace sc {

struct Settings {
    bool forceRewrite = true, forceTagPosition = true, forceIndexPosition = true;
    std::uint64_t minPadding = 0, maxPadding = 0, preferredPadding = 0;
    TagParser::ElementPosition tagPosition = TagParser::ElementPosition::BeforeData, indexPosition = TagParser::ElementPosition::BeforeData;
    std::string describe() const;
    void apply(TagParser::MediaFileInfo &file) const;
};
Settings genSettings(pbt::Gen &g, const fmt::Analysis &analysis);

struct Scenario {
    fmt::Kind kind;
    fmt::File file;
    std::string path;
    fmt::Analysis before; // of the original file
    fmt::Tags model; // expected tags
};

/// kinds the checks deal with (restricted via environment variable PBT_KINDS for development)
const std::vector<fmt::Kind> &kinds();
/// Writes a generated file into the scratch directory.
Scenario make(pbt::Gen &g, const fmt::GenOptions &options = fmt::GenOptions(), const std::vector<fmt::Kind> &kinds = sc::kinds());
/// Analyzes, turning a file which can not be analyzed into a failure.
fmt::Analysis analyze(fmt::Kind kind, const std::string &path, const char *when);
void editSome(pbt::Gen &g, TagParser::MediaFileInfo &file, Scenario &s, std::size_t max, const fmt::EditOptions &options = fmt::EditOptions());
/// Saves; anything thrown is a failure.
void save(tp::Session &session);
/// Everything the library says about a parsed file.
std::string snapshot(TagParser::MediaFileInfo &file);
/// Parses only parts of the file in random order (querying in between).
void parsePartially(pbt::Gen &g, tp::Session &session);
std::uint64_t inode(const std::string &path);

} // namespace sc
