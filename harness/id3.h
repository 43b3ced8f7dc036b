// Independent ID3v1/ID3v2/APE encoder and decoder, written from the format descriptions.
#pragma once
#include "util.h"
#include <string>
#include <vector>

namespace id3 {

struct V1 {
    std::string title, artist, album, year, comment; // slot contents up to the first NUL
    int track = 0; // 0: none
    unsigned genre = 0;
};
std::string encodeV1(const V1 &tag); // v1.1 if the comment fits
bool decodeV1(std::string_view file, V1 &tag);

struct Frame {
    std::string id;
    unsigned flags = 0;
    int group = -1;
    std::string data; // plain data: decompressed, resynchronised
    std::string stored; // as stored in the file (without header)
    unsigned status() const
    {
        return flags >> 8;
    }
};
struct Tag {
    unsigned major = 4, revision = 0, flags = 0;
    std::size_t offset = 0;
    std::size_t totalSize = 0; // header, frames, padding and footer
    std::size_t padding = 0;
    std::vector<Frame> frames;
    std::size_t framesSize = 0;
};
struct EncodeOptions {
    std::size_t padding = 0;
    bool unsync = false; // whole tag (2.2, 2.3) or all frames (2.4)
    bool extendedHeader = false;
    bool footer = false; // only 2.4
    bool experimental = false;
};
// per frame flags which are honoured when encoding (in the version's own bit positions)
bool flagGroup(unsigned major, unsigned flags);
bool flagCompressed(unsigned major, unsigned flags);
bool flagEncrypted(unsigned major, unsigned flags);
bool flagUnsync(unsigned major, unsigned flags);
bool flagLengthIndicator(unsigned major, unsigned flags);

std::string syncsafe(std::uint32_t v);
std::string unsynchronise(std::string_view data);
std::string resynchronise(std::string_view data);
std::string encodeFrame(const Frame &frame, unsigned major);
std::string encode(const Tag &tag, const EncodeOptions &options);
/// Decodes the tag at the offset strictly; throws util::Malformed if it is not a well-formed tag.
Tag decode(std::string_view file, std::size_t offset);
/// Decodes all successive tags at the start of the file; end is set to the first byte after them.
std::vector<Tag> decodeAll(std::string_view file, std::size_t &end);

// frame contents; all text is returned as UTF-8
std::vector<std::string> text(const Frame &frame); // T***
std::string url(const Frame &frame); // W***
struct Comment {
    std::string language, description, text;
    unsigned encoding = 0;
};
Comment comment(const Frame &frame); // COMM, COM, USLT, ULT
struct Picture {
    std::string mime, description, data;
    unsigned type = 0;
};
Picture picture(const Frame &frame); // APIC, PIC
struct Popm {
    std::string user;
    unsigned rating = 0;
    std::uint64_t counter = 0;
};
Popm popm(const Frame &frame);
std::uint64_t counter(std::string_view data);

/// Encodes text for a frame (without the encoding byte): encoding 0 Latin-1, 1 UTF-16 with BOM, 2 UTF-16BE, 3 UTF-8
std::string encodeText(const std::string &utf8, unsigned encoding, bool bigEndianBom = false);
std::string terminator(unsigned encoding);

std::string encodeApe(const std::vector<std::pair<std::string, std::string>> &items, bool withHeader);
} // namespace id3
