// Vorbis comments: independent encoder/decoder, random foreign comments and random edits with a model.
#pragma once
#include "fmt.h"
#include <tagparser/vorbis/vorbiscomment.h>

namespace vorbis {

using id3m::Item;
using id3m::Items;

struct Comment {
    std::string vendor;
    std::vector<std::pair<std::string, std::string>> fields;
};
struct Picture {
    std::uint32_t type = 3, width = 0, height = 0, depth = 0, colors = 0;
    std::string mime, description, data;
};
std::string encodePicture(const Picture &picture);
Picture decodePicture(std::string_view data); // throws Malformed
std::string encode(const Comment &comment); // without signature and framing
/// Decodes a comment; the position of rd is right behind it afterwards; throws Malformed.
Comment decode(util::Rd &rd);

Picture genPicture(pbt::Gen &g, std::size_t maxData);
Comment genForeign(pbt::Gen &g, const fmt::GenOptions &options, bool pictures);
std::string canonPicture(const Picture &picture);
Items items(const Comment &comment); // including the vendor
void canonicalize(Items &items);
Items ofLibrary(const TagParser::VorbisComment &comment);
void edit(pbt::Gen &g, TagParser::VorbisComment &comment, Items &model, const fmt::EditOptions &options);

} // namespace vorbis
