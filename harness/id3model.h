// What an ID3v2 tag is expected to contain: a list of (frame ID, canonical value), computed from the independent
// decoder, from the library's fields or from a random sequence of edits.
#pragma once
#include "id3.h"
#include "tp.h"
#include <tagparser/id3/id3v2tag.h>

namespace id3m {

struct Item {
    std::string id; // as in the tag of that version; "DATE" for the recording date however it is stored
    std::string canon;
    bool operator==(const Item &o) const
    {
        return id == o.id && canon == o.canon;
    }
};
using Items = std::vector<Item>;

Items ofFile(const id3::Tag &tag);
Items ofLibrary(const TagParser::Id3v2Tag &tag);
void sort(Items &items); // stable, by ID
std::string dump(const Items &items);
/// Describes the first difference or returns an empty string.
std::string difference(Items expected, Items actual);
/// Canonical date from an ISO date or the text as-is
std::string canonDate(const std::string &text);

struct EditOptions {
    bool raw = true; // frames the library has no name for
    bool clearing = true;
    std::size_t maxText = 200;
    std::size_t maxPicture = 20000;
};
/// Sets or clears a random field of the tag and updates the model accordingly.
void edit(pbt::Gen &g, TagParser::Id3v2Tag &tag, Items &model, const EditOptions &options = EditOptions());

/// A random tag built by the independent encoder along with the expected contents.
id3::Tag genTag(pbt::Gen &g, unsigned major, std::size_t maxFrames, Items &model, id3::EncodeOptions &options);

} // namespace id3m
