// Independent encoder/decoder of EBML elements and Matroska tags, attachments and track settings.
#pragma once
#include "fmt.h"
#include <tagparser/matroska/matroskacontainer.h>

namespace mkv {

enum Id : std::uint32_t {
    Ebml = 0x1A45DFA3, EbmlVersion = 0x4286, EbmlReadVersion = 0x42F7, EbmlMaxId = 0x42F2, EbmlMaxSize = 0x42F3, DocType = 0x4282, DocTypeVersion = 0x4287, DocTypeReadVersion = 0x4285,
    Void = 0xEC, Crc32 = 0xBF, Segment = 0x18538067,
    SeekHead = 0x114D9B74, Seek = 0x4DBB, SeekId = 0x53AB, SeekPosition = 0x53AC,
    Info = 0x1549A966, SegmentUid = 0x73A4, SegmentFilename = 0x7384, TimestampScale = 0x2AD7B1, Duration = 0x4489, DateUtc = 0x4461, Title = 0x7BA9, MuxingApp = 0x4D80, WritingApp = 0x5741,
    Tracks = 0x1654AE6B, TrackEntry = 0xAE, TrackNumber = 0xD7, TrackUid = 0x73C5, TrackType = 0x83, FlagEnabled = 0xB9, FlagDefault = 0x88, FlagForced = 0x55AA, FlagLacing = 0x9C, MinCache = 0x6DE7,
    DefaultDuration = 0x23E383, TrackName = 0x536E, Language = 0x22B59C, LanguageIetf = 0x22B59D, CodecId = 0x86, CodecPrivate = 0x63A2, CodecName = 0x258688, CodecDelay = 0x56AA, SeekPreRoll = 0x56BB,
    Video = 0xE0, PixelWidth = 0xB0, PixelHeight = 0xBA, DisplayWidth = 0x54B0, DisplayHeight = 0x54BA, FlagInterlaced = 0x9A,
    Audio = 0xE1, SamplingFrequency = 0xB5, OutputSamplingFrequency = 0x78B5, Channels = 0x9F, BitDepth = 0x6264, ContentEncodings = 0x6D80,
    Chapters = 0x1043A770, EditionEntry = 0x45B9, EditionUid = 0x45BC, EditionFlagHidden = 0x45BD, EditionFlagDefault = 0x45DB, EditionFlagOrdered = 0x45DD, ChapterAtom = 0xB6, ChapterUid = 0x73C4,
    ChapterTimeStart = 0x91, ChapterTimeEnd = 0x92, ChapterFlagHidden = 0x98, ChapterFlagEnabled = 0x4598, ChapterTrack = 0x8F, ChapterTrackUid = 0x89, ChapterDisplay = 0x80, ChapString = 0x85, ChapLanguage = 0x437C,
    Tags = 0x1254C367, Tag = 0x7373, Targets = 0x63C0, TargetTypeValue = 0x68CA, TargetType = 0x63CA, TagTrackUid = 0x63C5, TagEditionUid = 0x63C9, TagChapterUid = 0x63C4, TagAttachmentUid = 0x63C6,
    SimpleTag = 0x67C8, TagName = 0x45A3, TagLanguage = 0x447A, TagLanguageIetf = 0x447B, TagDefault = 0x4484, TagString = 0x4487, TagBinary = 0x4485,
    Attachments = 0x1941A469, AttachedFile = 0x61A7, FileDescription = 0x467E, FileName = 0x466E, FileMimeType = 0x4660, FileData = 0x465C, FileUid = 0x46AE, FileReferral = 0x4675, FileUsedStartTime = 0x4661, FileUsedEndTime = 0x4662,
    Cues = 0x1C53BB6B, CuePoint = 0xBB, CueTime = 0xB3, CueTrackPositions = 0xB7, CueTrack = 0xF7, CueClusterPosition = 0xF1, CueRelativePosition = 0xF0, CueDuration = 0xB2, CueBlockNumber = 0x5378,
    CueCodecState = 0xEA, CueReference = 0xDB, CueRefTime = 0x96, CueRefCluster = 0x97, CueRefNumber = 0x535F, CueRefCodecState = 0xEB,
    Cluster = 0x1F43B675, Timestamp = 0xE7, Position = 0xA7, PrevSize = 0xAB, SimpleBlock = 0xA3, BlockGroup = 0xA0, Block = 0xA1, BlockDuration = 0x9B, ReferenceBlock = 0xFB,
};

// encoding
std::string id(std::uint32_t id);
/// data size; \a length = 0 uses the shortest possible form
std::string size(std::uint64_t value, unsigned length = 0);
std::string el(std::uint32_t id, std::string_view payload, unsigned sizeLength = 0);
std::string num(std::uint32_t id, std::uint64_t value, unsigned width = 0);
std::string flt(std::uint32_t id, double value, bool wide = true);
std::string voidElement(std::uint64_t total); // at least 2 bytes
/// master element which might start with a CRC-32
std::string master(std::uint32_t id, std::string_view payload, bool crc = false, unsigned sizeLength = 0);

// decoding
struct Element {
    std::uint32_t id = 0;
    std::uint64_t start = 0, headerSize = 0; // absolute
    std::string_view data;
    bool unknownSize = false;
    std::uint64_t dataStart() const
    {
        return start + headerSize;
    }
    std::uint64_t end() const
    {
        return dataStart() + data.size();
    }
};
using Elements = std::vector<Element>;
/// Splits into elements which must fill the data exactly; elements of unknown size extend up to the next element of a level above.
Elements elements(std::string_view data, std::uint64_t start, int level);
/// children of an element; verifies a CRC-32 and omits it as well as Void elements
Elements children(const Element &e, std::vector<std::string> &problems);
const Element *find(const Elements &elements, std::uint32_t id);
std::uint64_t readNum(const Element &e);
std::string readStr(const Element &e);

// tags
fmt::TagModel decodeTag(const Element &tag, std::vector<std::string> &problems);
fmt::TagModel decodeAttachment(const Element &file, std::vector<std::string> &problems);
fmt::TagModel decodeTrackSettings(const Elements &trackChildren);
void sort(fmt::Items &items);
std::string genTags(pbt::Gen &g, const fmt::GenOptions &o, const std::vector<std::uint64_t> &trackUids);
std::string genAttachments(pbt::Gen &g, const fmt::GenOptions &o);

/// everything which can be edited: tags, attachments, track settings and the title
fmt::Tags ofLibrary(TagParser::MatroskaContainer &container);
void edit(pbt::Gen &g, TagParser::MatroskaContainer &container, fmt::Tags &model, const fmt::EditOptions &o);
std::string scratchText(pbt::Gen &g, std::size_t max);

} // namespace mkv
