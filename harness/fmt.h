// Independent generators and parsers/validators for the supported file formats and a model of the tags they contain.
#pragma once
#include "id3model.h"
#include "pbt.h"
#include "tp.h"
#include "util.h"
#include <map>

namespace fmt {

using id3m::Item;
using id3m::Items;

enum class Kind { Mpeg, Adts, Wav, Ivf, Flac, Ogg, Mp4, Matroska };
constexpr Kind allKinds[] = { Kind::Mpeg, Kind::Adts, Kind::Wav, Kind::Ivf, Kind::Flac, Kind::Ogg, Kind::Mp4, Kind::Matroska };
const char *name(Kind kind);
const char *extension(Kind kind);

struct TagModel {
    std::string type; // "id3v1", "id3v2.3", "vorbis", "mp4", "matroska"
    Items items;
    std::string target; // where the tag is attached
};
using Tags = std::vector<TagModel>;

constexpr std::uint64_t unknown = ~std::uint64_t(0);

/// What an independent parser finds in a file.
struct Analysis {
    std::vector<std::string> problems; // violations of the format's structure
    std::vector<std::pair<std::string, std::string>> payload; // media data: name and digest, in order
    Items kept; // everything which is neither media data nor a tag
    Tags tags;
    std::uint64_t padding = unknown;
    std::uint64_t paddingEnd = 0; // unused space between or after media data
    std::uint64_t between = 0; // anything else than media data between media data
    std::uint64_t paddingOverhead = 0; // size of headers around the padding which count as available space
    std::uint64_t mediaOffset = unknown; // first byte of the media data
    std::string tagPosition, indexPosition; // "before", "after", "" (none)
    bool segmented = false; // e.g. fragmented MP4
};

struct GenOptions {
    bool tags = true; // generate (foreign) tags
    bool padding = true;
    bool rich = true; // unusual structures
    std::size_t maxText = 60;
    std::size_t maxPicture = 3000;
    unsigned big = 1; // factor for the size of the media data
};

struct File {
    Kind kind = Kind::Mpeg;
    std::string bytes;
    std::map<std::string, std::string> declared; // technical information declared by the headers
    std::string what; // short description
};

File generate(pbt::Gen &g, Kind kind, const GenOptions &options = GenOptions());
/// Parses strictly; violations are recorded as problems. Throws util::Malformed if nothing can be made of the file.
Analysis analyze(Kind kind, std::string_view bytes);

struct EditOptions {
    std::size_t maxText = 60;
    std::size_t maxPicture = 3000;
    bool structural = true; // create and remove whole tags
};
/// Applies a random change to the tags (or attachments) of the parsed file and to the model.
void edit(pbt::Gen &g, TagParser::MediaFileInfo &file, Kind kind, Tags &model, const EditOptions &options = EditOptions());

std::string tagsDifference(Tags expected, Tags actual);
std::string itemsDifference(const Items &expected, const Items &actual); // order matters
std::string payloadDifference(const Analysis &a, const Analysis &b);
std::string dump(const Tags &tags);
std::string problemsText(const Analysis &a);
std::string digest(std::string_view data);

// per family
namespace id3f {
File generate(pbt::Gen &g, Kind kind, const GenOptions &options);
Analysis analyze(Kind kind, std::string_view bytes);
void edit(pbt::Gen &g, TagParser::MediaFileInfo &file, Kind kind, Tags &model, const EditOptions &options);
/// tags in front of and behind the media data
std::string genLeading(pbt::Gen &g, const GenOptions &options, bool &footer, Tags *model = nullptr);
std::string genTrailing(pbt::Gen &g, const GenOptions &options);
struct Framing {
    std::size_t begin = 0, end = 0; // media data
    std::size_t padding = 0;
};
Framing analyzeFraming(std::string_view bytes, Analysis &a);
bool editId3(pbt::Gen &g, TagParser::MediaFileInfo &file, Tags &model, const EditOptions &options);
} // namespace id3f
namespace flacf {
File generate(pbt::Gen &g, const GenOptions &options);
Analysis analyze(std::string_view bytes);
void edit(pbt::Gen &g, TagParser::MediaFileInfo &file, Tags &model, const EditOptions &options);
} // namespace flacf
namespace oggf {
File generate(pbt::Gen &g, const GenOptions &options);
Analysis analyze(std::string_view bytes);
void edit(pbt::Gen &g, TagParser::MediaFileInfo &file, Tags &model, const EditOptions &options);
} // namespace oggf
namespace mp4f {
File generate(pbt::Gen &g, const GenOptions &options);
Analysis analyze(std::string_view bytes);
void edit(pbt::Gen &g, TagParser::MediaFileInfo &file, Tags &model, const EditOptions &options);
} // namespace mp4f
namespace mkvf {
File generate(pbt::Gen &g, const GenOptions &options);
Analysis analyze(std::string_view bytes);
void edit(pbt::Gen &g, TagParser::MediaFileInfo &file, Tags &model, const EditOptions &options);
} // namespace mkvf

} // namespace fmt
