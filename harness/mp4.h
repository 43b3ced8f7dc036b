// Independent encoder/decoder of the MP4 box structure and of iTunes-style tags.
#pragma once
#include "fmt.h"
#include <tagparser/mp4/mp4tag.h>

namespace mp4 {

struct Box {
    std::string id;
    std::uint64_t start = 0, headerSize = 8; // absolute
    std::string_view data; // without header
    bool toEnd = false; // size field is zero
    std::uint64_t size() const
    {
        return headerSize + data.size();
    }
    std::uint64_t dataStart() const
    {
        return start + headerSize;
    }
};
using Boxes = std::vector<Box>;

std::string box(const std::string &id, std::string_view payload, bool wide = false);
std::string fullBox(const std::string &id, unsigned version, std::uint32_t flags, std::string_view payload);
/// Splits into boxes which must fill the data exactly; throws util::Malformed otherwise
Boxes boxes(std::string_view data, std::uint64_t start, bool topLevel = false);
const Box *find(const Boxes &boxes, const std::string &id);

// tags
struct Data {
    std::uint32_t type = 1;
    std::uint16_t country = 0, lang = 0;
    std::string data;
};
struct Field {
    std::string id, mean, name;
    std::vector<Data> data;
};
std::string encodeField(const Field &f);
std::string encodeMeta(const std::vector<Field> &fields);
std::vector<Field> genForeign(pbt::Gen &g, const fmt::GenOptions &o);
/// decodes the contents of the meta box (after version and flags)
fmt::Items decodeMeta(std::string_view data, std::vector<std::string> &problems);
fmt::Items ofLibrary(const TagParser::Mp4Tag &tag);
void edit(pbt::Gen &g, TagParser::Mp4Tag &tag, fmt::Items &model, const fmt::EditOptions &o);

} // namespace mp4
