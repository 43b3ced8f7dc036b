#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in git; run by hand when the text of a property changes).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

NOMEDIA="The tests which edit media files need sample files which are not part of the repository, and even with them only a handful of fixed files and values would be tried; "

p("C01","ID3v1 tags survive saving and reading back",
 "After ID3v1 fields have been set and the file has been saved, re-reading the file yields exactly those values, truncated only by the documented limits of the fixed-size slots (30 bytes, 28 for the comment, 4 for the year; trailing spaces are padding and a byte order mark marks UTF-8), the track number when it fits one byte and the genre when it is one of the standard genres. The tag occupies exactly the last 128 bytes of the file and a removed tag is gone.",
 ["inputs"],"all Latin-1/ASCII/UTF-8 representable texts of any length (including empty and one-character ones), track numbers 0-255, all standard genres, with or without a tag already present",
 NOMEDIA+"no test writes an ID3v1 tag from generated values.",
 ["id3/id3v1tag.cpp","id3/id3genres.cpp","mediafileinfo.cpp"],
 [("fixed-size slot encoder/decoder","id3/id3v1tag.cpp Id3v1Tag::make/parse"),("tag placement at the end of the file","mediafileinfo.cpp MediaFileInfo::makeMp3File")],
 ["fields of the ID3v1 tag after re-parsing","last 128 bytes of the saved file decoded by an independent reader"])

p("C02","ID3v2 tags survive saving and reading back in every version",
 "For ID3v2 tags of version 2.2, 2.3 and 2.4, every value set for a supported field (text in any supported text encoding, multiple values where allowed, track and disk positions, comments and lyrics with language and description, cover art with MIME type, picture type and description, ratings with user and play counter, genres, dates) is read back unchanged after saving. Both the library and an independent decoder of the ID3v2 format see the same values in the saved file.",
 ["inputs"],"all combinations of tag version, field, text encoding and value (ASCII, Latin-1, BMP and astral characters; empty, short and multi-kilobyte texts; 1-n values per field; binary picture data of any content and size)",
 NOMEDIA+"none of the passing tests writes an ID3v2 frame.",
 ["id3/id3v2tag.cpp","id3/id3v2frame.cpp","id3/id3v2frameids.cpp","mediafileinfo.cpp"],
 [("frame encoder","id3/id3v2frame.cpp Id3v2FrameMaker"),("frame decoder","id3/id3v2frame.cpp Id3v2Frame::parse"),("field to frame ID mapping","id3/id3v2tag.cpp Id3v2Tag::internallyGetFieldId/internallyGetKnownField")],
 ["ID3v2 tag fields after re-parsing","bytes of the saved tag decoded by an independent reader"])

p("C03","Vorbis comments survive saving in FLAC and Ogg files",
 "Every value set in a Vorbis comment (text of any length, repeated values of one field, track and disk positions, covers with type, MIME type and description, the vendor string) is read back unchanged after saving a raw FLAC file or an Ogg file carrying Vorbis, Opus or FLAC, no matter how many Ogg pages the comment spans. Both the library and an independent decoder see the same values.",
 ["inputs"],"all fields, UTF-8 values from empty to several hundred kilobytes, 1-n values per field and 0-n covers, for raw FLAC, Ogg Vorbis, Ogg Opus and Ogg FLAC",
 NOMEDIA+"page-spanning and lacing boundaries (multiples of 255 and 65025 bytes) are never sampled.",
 ["vorbis/vorbiscomment.cpp","vorbis/vorbiscommentfield.cpp","flac/flacstream.cpp","flac/flacmetadata.cpp","ogg/oggcontainer.cpp","ogg/oggiterator.cpp","ogg/oggpage.cpp"],
 [("comment encoder/decoder","vorbis/vorbiscomment.cpp VorbisComment::internalParse/make"),("picture block coding","flac/flacmetadata.cpp FlacMetaDataBlockPicture"),("packet re-lacing","ogg/oggcontainer.cpp OggContainer::internalMakeFile")],
 ["Vorbis comment fields after re-parsing","comment packet/metadata block decoded by an independent reader"])

p("C04","MP4 (iTunes) tags survive saving and reading back",
 "Every value set for a supported field of an MP4 tag (UTF-8 text of any length, track and disk positions, integers such as the tempo, predefined and free genres, ratings, covers, free-form fields with arbitrary owner and name) is read back unchanged after saving. Both the library and an independent decoder of the atom structure see the same values.",
 ["inputs"],"all fields the MP4 tag supports, all value types, sizes from empty to hundreds of kilobytes, multiple values per field",
 NOMEDIA+"none of the passing tests writes an MP4 tag.",
 ["mp4/mp4tag.cpp","mp4/mp4tagfield.cpp","mp4/mp4atom.cpp","mp4/mp4container.cpp"],
 [("field encoder/decoder","mp4/mp4tagfield.cpp Mp4TagField::reparse / Mp4TagFieldMaker"),("tag encoder/decoder","mp4/mp4tag.cpp Mp4Tag::parse / Mp4TagMaker")],
 ["MP4 tag fields after re-parsing","ilst atom of the saved file decoded by an independent reader"])

p("C05","Matroska tags, targets and attachments survive saving and reading back",
 "Every value set in a Matroska tag (with language, default flag and nested values), every tag target (level, level name, tracks, chapters, editions, attachments), the segment title and every attachment (name, description, MIME type, ID, data) is read back unchanged after saving. Both the library and an independent EBML decoder see the same values.",
 ["inputs"],"any number of tags with any targets, fields, nested fields and UTF-8 values of any length; attachments of any size added, changed or ignored",
 NOMEDIA+"none of the passing tests writes a Matroska element.",
 ["matroska/matroskatag.cpp","matroska/matroskatagfield.cpp","matroska/matroskaattachment.cpp","matroska/ebmlelement.cpp","matroska/matroskacontainer.cpp"],
 [("tag encoder/decoder","matroska/matroskatag.cpp MatroskaTagMaker / MatroskaTag::parse2"),("field encoder/decoder","matroska/matroskatagfield.cpp"),("attachment encoder/decoder","matroska/matroskaattachment.cpp")],
 ["Matroska tags, attachments and titles after re-parsing","Tags/Attachments elements decoded by an independent reader"])

p("C06","Saving never alters the audio and video payload",
 "Whatever tags are added, changed or removed and whatever layout is chosen, the media data of the saved file is the media data of the original: the same MPEG frames, FLAC frames, Ogg packets with their granule positions, MP4 samples found through the sample tables, and Matroska blocks per cluster, byte for byte and in the same order. Adding a track from another MP4 file or removing one affects this track only: the media data of all remaining and added tracks is found unchanged through their tables. All indexes of the file (MP4 chunk offsets and fragment offsets, Matroska seek information, cues and cluster positions) point at the same media data as before.",
 ["inputs","configurations"],"all supported containers with any number of tracks, chunks, pages and clusters, any combination of tag edit, padding, tag position, index position, forced rewrite or in-place update, including files beyond 4 GiB where offsets do not fit into 32 bit",
 NOMEDIA+"no test compares the payload of files of varied structure before and after saving.",
 ["mediafileinfo.cpp","mp4/mp4container.cpp","mp4/mp4track.cpp","matroska/matroskacontainer.cpp","matroska/matroskacues.cpp","matroska/matroskaseekinfo.cpp","ogg/oggcontainer.cpp","flac/flacstream.cpp"],
 [("MP3/FLAC stream copy","mediafileinfo.cpp MediaFileInfo::makeMp3File"),("chunk offset update","mp4/mp4track.cpp Mp4Track::updateChunkOffsets and mp4/mp4container.cpp Mp4Container::updateOffsets"),("cue/seek update","matroska/matroskacues.cpp, matroska/matroskaseekinfo.cpp"),("page copy","ogg/oggcontainer.cpp OggContainer::internalMakeFile")],
 ["payload extracted from original and saved file by independent demuxers"])

p("C07","Saved files are structurally valid",
 "Every file the library writes is well-formed according to its container format: sizes of nested structures add up exactly without gaps or overlaps, ID3v2 sizes are sync-safe where required, FLAC metadata ends with exactly one last-block marker, Ogg pages have consecutive sequence numbers, valid checksums, lacing and begin/end markers, MP4 atoms and EBML elements nest exactly and checksums in EBML files match. A fresh parse of the result by the library reports no warnings or critical problems the original did not have.",
 ["inputs","configurations"],"all supported containers, all tag edits and all layout/padding settings",
 NOMEDIA+"a broken length field or checksum is only seen by validating files of many different shapes.",
 ["mediafileinfo.cpp","mp4/mp4container.cpp","mp4/mp4atom.cpp","matroska/matroskacontainer.cpp","matroska/ebmlelement.cpp","ogg/oggcontainer.cpp","ogg/oggpage.cpp","flac/flacstream.cpp","id3/id3v2tag.cpp"],
 [("size pre-calculation","MatroskaContainer::internalMakeFile, Mp4Container::internalMakeFile, Id3v2TagMaker"),("checksum update","ogg/oggpage.cpp OggPage::updateChecksum")],
 ["saved file checked by independent strict validators","diagnostics of a fresh parse"])

p("C08","Metadata the user did not touch is kept",
 "Saving keeps all metadata which has not been changed: tag fields the library has no name for, unknown ID3v2 frames, further FLAC metadata blocks, unrelated MP4 atoms, Matroska tracks with their codec data, chapters, attachments, unknown top-level elements, and the other tags of the file. Changing or removing one field or tag does not change any other.",
 ["inputs","configurations"],"generated files carrying arbitrary additional metadata in all supported containers, and all edits",
 NOMEDIA+"loss of data shows only in files which carry unusual content in unusual places.",
 ["mp4/mp4container.cpp","mp4/mp4tag.cpp","mp4/mp4track.cpp","matroska/matroskacontainer.cpp","matroska/matroskatrack.cpp","flac/flacstream.cpp","id3/id3v2frame.cpp","vorbis/vorbiscomment.cpp"],
 [("copy of unknown atoms/elements/blocks","Mp4Container::internalMakeFile, MatroskaContainer::internalMakeFile, FlacStream::makeHeader"),("unknown field storage","fieldbasedtag.h FieldMapBasedTag")],
 ["inventory of all metadata in original and saved file taken by independent readers"])

p("C09","Padding, tag position and index position settings are honoured",
 "When a rewrite happens the file has exactly the preferred padding; when a file is updated in place its padding stays within the configured minimum and maximum and media data does not move. Forced tag and index positions are followed, the rest of the file structure is located accordingly, and a file is rewritten only when forced or when the limits require it.",
 ["inputs","configurations"],"all containers which support padding (ID3v2/MP3, FLAC, MP4, Matroska), all values of minimum, maximum and preferred padding, tag position, index position and the respective force flags",
 NOMEDIA+"the interplay of sizes and limits has thousands of boundary combinations.",
 ["mediafileinfo.cpp","mp4/mp4container.cpp","matroska/matroskacontainer.cpp","flac/flacstream.cpp"],
 [("padding decision","MediaFileInfo::makeMp3File, Mp4Container::internalMakeFile, MatroskaContainer::internalMakeFile")],
 ["padding size and element order measured in the saved file by independent readers"])

p("C10","A failed or aborted save leaves the original file intact",
 "When saving is aborted by the user at any point or fails because of an input/output error at any write, the call reports the abort or failure and the file at the original path has its original content again (byte for byte) whenever the file had to be rewritten (an in-place update which fails leaves at least the media data untouched). Nothing of the original is lost in any case: after a failure the complete original content is still available at the original path or in the backup the library reports.",
 ["fault_sequences","crash_points","inputs"],"every progress/abort checkpoint of every save, write failures after any number of bytes (full disk), unwritable target or backup locations, for all containers",
 "The tests never abort or fail a save; they would need to enumerate the abort points and fault positions of saves of many files.",
 ["backuphelper.cpp","mediafileinfo.cpp","mp4/mp4container.cpp","matroska/matroskacontainer.cpp","ogg/oggcontainer.cpp","progressfeedback.h"],
 [("backup and restore","backuphelper.cpp BackupHelper::createBackupFileCanonical/restoreOriginalFileFromBackupFileCanonical/handleFailureAfterFileModifiedCanonical"),("abort checks","progressfeedback.h AbortableProgressFeedback::stopIfAborted")],
 ["exception type, bytes at the original path and files in the directory after the failed save"])

p("C11","Save-as leaves the source untouched; rewrites keep a faithful backup",
 "Saving to another path never changes the source file and yields the same content as rewriting in place would. When a file is rewritten in place, the previous content is available byte for byte as backup next to it or in the configured directory, existing backups or unrelated files are never overwritten, and the object refers to the new file afterwards.",
 ["inputs","histories","configurations"],"all containers, edits, backup directories (none, absolute, relative, not existing) and pre-existing files of any name in the directory",
 NOMEDIA+"the passing tests cover backup creation only for one file name.",
 ["backuphelper.cpp","mediafileinfo.cpp","mp4/mp4container.cpp","matroska/matroskacontainer.cpp","ogg/oggcontainer.cpp"],
 [("save file path handling","MediaFileInfo::applyChanges and internalMakeFile of the containers"),("backup path choice","backuphelper.cpp BackupHelper::createBackupFileCanonical")],
 ["bytes of source, target and backup files; directory listing"])

p("C12","Saving is idempotent and the object in memory matches the file",
 "Saving a file again without changing anything yields the same bytes. After a save the same object can be used further - re-parsed, edited and saved again any number of times - and always shows the same tags, tracks, chapters and attachments as a fresh object opened on the saved file. Likewise, the results of parsing do not depend on the order in which tracks, tags, chapters and attachments are parsed or on accessors used in between.",
 ["histories","inputs"],"histories of parse, edit, save, re-parse and reopen steps on generated files of all containers",
 NOMEDIA+"no test performs more than two saves on one object.",
 ["mediafileinfo.cpp","abstractcontainer.cpp","mp4/mp4container.cpp","matroska/matroskacontainer.cpp","ogg/oggcontainer.cpp","flac/flacstream.cpp"],
 [("clearing parsing results after applying changes","MediaFileInfo::applyChanges/clearParsingResults, reset() of the containers")],
 ["bytes after repeated saves","tags/tracks of the used object compared with a fresh one"])

p("C13","Any input is parsed safely and read-only",
 "Parsing any file - valid, truncated, corrupted or random, of any format - terminates without crashing, without undefined behaviour and without reading outside of buffers, takes time and memory in proportion to the file size, and reports problems only through diagnostics and the documented exceptions. Parsing never modifies the file.",
 ["inputs"],"all byte sequences; explored by structure-aware mutation of generated files of every supported format plus coverage-guided fuzzing",
 "A hand-written set of damaged files cannot cover the space of damaged inputs; the tests contain none.",
 ["mediafileinfo.cpp","genericfileelement.h","mp4/mp4atom.cpp","mp4/mp4track.cpp","mp4/mp4tagfield.cpp","mp4/mpeg4descriptor.cpp","matroska/ebmlelement.cpp","matroska/matroskacontainer.cpp","matroska/matroskatrack.cpp","ogg/oggpage.cpp","ogg/oggiterator.cpp","ogg/oggcontainer.cpp","vorbis/vorbiscomment.cpp","flac/flacmetadata.cpp","flac/flacstream.cpp","id3/id3v2frame.cpp","id3/id3v2tag.cpp","id3/id3v1tag.cpp","mpegaudio/mpegaudioframestream.cpp","wav/waveaudiostream.cpp","adts/adtsframe.cpp","ivf/ivfstream.cpp","avc/avcinfo.cpp","avc/avcconfiguration.cpp"],
 [("size checks of elements against their parents","genericfileelement.h, EbmlElement::internalParse, Mp4Atom::internalParse"),("bounded readers","CHECK_MAX_SIZE style checks in vorbis/, flac/, id3/")],
 ["sanitizer reports, exceptions, run time, bytes of the file after parsing"])

p("C14","Editing a damaged file is safe",
 "Adding, changing or removing tags and saving a truncated or corrupted file either succeeds or is refused with one of the documented exceptions; it never crashes, never hangs, never grows the file without bound and never loses the original content (which stays at its path or in the backup).",
 ["inputs","fault_sequences"],"corrupted variants of generated files of every writable format combined with all edits and layouts",
 "The tests never save a damaged file.",
 ["mediafileinfo.cpp","mp4/mp4container.cpp","mp4/mp4track.cpp","matroska/matroskacontainer.cpp","matroska/matroskacues.cpp","ogg/oggcontainer.cpp","flac/flacstream.cpp","backuphelper.cpp"],
 [("refusing to apply changes when parsing failed","MediaFileInfo::applyChanges"),("restoring the original on failure","backuphelper.cpp")],
 ["sanitizer reports, exceptions, size of the output, bytes of original/backup"])

p("C15","Tag values convert faithfully between types and text encodings",
 "Converting a value to another text encoding and back yields the same text whenever the text is representable, and text, integer, position, date, duration, genre and rating representations of the same value agree with each other (parsing the textual form gives the value back). Values which cannot be converted are refused with a conversion error instead of giving a wrong result.",
 ["inputs"],"all Unicode texts in Latin-1, UTF-8, UTF-16LE and UTF-16BE (with and without BOM), all integers, positions, dates, time spans, genre indexes and ratings",
 "The tests convert about a dozen fixed values.",
 ["tagvalue.cpp","tagvalue.h","positioninset.h","id3/id3genres.cpp","id3/id3genres.h"],
 [("conversion functions","tagvalue.cpp TagValue::toString/toInteger/toPositionInSet/toTimeSpan/toDateTime/convertDataEncoding"),("position parser","positioninset.h PositionInSet")],
 ["results of the conversion functions compared with an independent transcoder and formatter"])

p("C16","Copies and comparisons of tag values are coherent",
 "A copy (or assigned or moved-to value) of a tag value equals the original in every observable respect and is independent of it, equality is reflexive, symmetric and transitive and takes content, type, encoding, description, MIME type, language and flags into account as documented, and comparisons which ignore meta-data or case differ from the strict one only in that respect.",
 ["inputs","histories"],"all value types, contents, encodings and meta-data, and sequences of copy/assign/move/modify operations",
 "The tests compare a few fixed pairs.",
 ["tagvalue.cpp","tagvalue.h"],
 [("copy and comparison","tagvalue.cpp TagValue::TagValue/operator=/compareTo/compareData")],
 ["accessors of original and copy, results of comparisons"])

p("C17","Rating scales convert consistently and reversibly",
 "A rating converted from one tag format's scale to another keeps its order relative to other ratings, stays within the target scale, and a rating given on the generic scale survives the conversion to any format's scale and back. Textual forms of ratings with user and play counter are parsed back to the same rating.",
 ["inputs"],"all ratings of all scales (generic, ID3v2, Vorbis, MP4, Matroska), all users and play counters, all pairs of scales",
 "The tests check fixed ratings only.",
 ["tagvalue.cpp","tagvalue.h"],
 [("scale conversion","tagvalue.cpp Popularity::scaleTo/isEqualTo/toString/fromString")],
 ["converted ratings"])

p("C18","A tag behaves like a map from fields to lists of values",
 "For every kind of tag, reading a field after setting it gives what was set, the presence test, the number of fields and the list of values agree with what was set, and removing a field or all fields affects exactly those. Copying values from one tag to another respects the overwrite option and never changes the source; fields a format cannot represent are refused and reported as such.",
 ["histories","inputs"],"sequences of set/get/add/remove/clear/merge operations on ID3v1, ID3v2, Vorbis, Ogg, MP4 and Matroska tags with generated values",
 "The tests exercise single operations on fixed fields only.",
 ["tag.cpp","tag.h","fieldbasedtag.h","id3/id3v1tag.cpp","id3/id3v2tag.cpp","vorbis/vorbiscomment.cpp","mp4/mp4tag.cpp","matroska/matroskatag.cpp"],
 [("field map","fieldbasedtag.h FieldMapBasedTag"),("merging","tag.cpp Tag::insertValues")],
 ["tag accessors after every step compared with a reference model"])

p("C19","Tag creation settings produce exactly the requested tags and lose no values",
 "Creating the appropriate tags with the usage settings (always, keep existing, never) for ID3v1 and ID3v2, a version and the transfer/merge flags yields exactly the kinds of tags these settings ask for after saving, and values of tags which are removed are transferred to the remaining tag when asked for without overwriting existing values. Merging several ID3v2 tags keeps the values of every field present in any of them, converting between ID3v1 and ID3v2 keeps all values both can represent, and removing a tag (or all tags) removes exactly that from the object and the saved file.",
 ["configurations","inputs","histories"],"all combinations of present tags, usage settings, flags, ID3v2 versions, targets and values",
 "The tests check a few combinations on sample files which are not available.",
 ["mediafileinfo.cpp","settings.h","tag.cpp","id3/id3v2tag.cpp"],
 [("tag creation","mediafileinfo.cpp MediaFileInfo::createAppropriateTags/removeUnsupported/id3v1ToId3v2/id3v2ToId3v1/mergeId3v2Tags")],
 ["tags in memory and in the saved file"])

p("C20","Technical information matches what the stream declares",
 "For well-formed files the reported container, tracks (number, kind, codec, ID, name, language, flags), duration, sample rate, channel count, bit depth, picture size, sample count, bitrate, titles, chapters and attachments are those the file's own headers declare, for every supported container and codec header.",
 ["inputs"],"all header values of MP3, FLAC, Ogg Vorbis/Opus/FLAC/Theora, MP4, Matroska, WAV, ADTS, IVF and raw formats which are valid in the respective format",
 NOMEDIA+"header fields have many more combinations than sample files.",
 ["abstracttrack.cpp","mpegaudio/mpegaudioframe.cpp","mpegaudio/mpegaudioframestream.cpp","flac/flacstream.cpp","ogg/oggstream.cpp","vorbis/vorbisidentificationheader.cpp","opus/opusidentificationheader.cpp","mp4/mp4track.cpp","mp4/mp4container.cpp","matroska/matroskatrack.cpp","matroska/matroskachapter.cpp","wav/waveaudiostream.cpp","adts/adtsstream.cpp","ivf/ivfstream.cpp"],
 [("header parsers","internalParseHeader of the track classes")],
 ["track and container accessors compared with the values the file was generated from"])

p("C21","The container format is recognised and tags located in any framing",
 "The format of a file is recognised from its content whether or not it is preceded by ID3v2 tags or zero padding and followed by an ID3v1 or APE tag, and the located tags, stream start and stream size are exact. File type abbreviation, extension and MIME type are those of the recognised format.",
 ["inputs"],"all recognised signatures and generated files, preceded by 0-n ID3v2 tags and 0-n zero bytes and followed by ID3v1/APE tags of any size",
 "The tests check signatures of a few files only.",
 ["signature.cpp","mediafileinfo.cpp","mediaformat.cpp"],
 [("signature matching","signature.cpp parseSignature"),("search loop","mediafileinfo.cpp MediaFileInfo::parseContainerFormat")],
 ["container format, offsets and sizes reported for generated files"])

p("C22","File name and path helpers are mutually consistent",
 "For every path, directory, file name and extension reported for it compose to the path again, the file name without extension plus the extension gives the file name, and an extension is only ever taken from the file name, never from a directory. Names of backup files derived from a path are in the requested directory and never the path itself.",
 ["inputs"],"all paths with any number of directories, dots, separators and special characters, with or without directory and extension",
 "The tests check two paths.",
 ["basicfileinfo.cpp","basicfileinfo.h","backuphelper.cpp"],
 [("path splitting","basicfileinfo.cpp BasicFileInfo::fileName/extension/pathWithoutExtension/containingDirectory")],
 ["results of the helper functions compared with a reference implementation"])

p("C23","Element headers and sizes are encoded exactly",
 "Every integer, identifier and size written as EBML element, MP4 atom header or sync-safe integer is decoded to the same number by an independent decoder, has the predicted length and uses the shortest permitted form or the requested minimum length; numbers which do not fit are refused.",
 ["inputs"],"all 64-bit sizes and integers, all EBML IDs, all minimum lengths; exhaustively around every power of two",
 "Tests cannot enumerate the boundaries and none of the passing tests checks the encoders.",
 ["matroska/ebmlelement.cpp","mp4/mp4atom.cpp","matroska/matroskaseekinfo.cpp"],
 [("EBML encoders","matroska/ebmlelement.cpp EbmlElement::makeSizeDenotation/makeUInteger/makeId/calculate*"),("atom header","mp4/mp4atom.cpp Mp4Atom::makeHeader/addHeaderSize")],
 ["encoder output decoded independently"])

p("C24","Pages, packets and elements are addressed exactly",
 "The low-level access to containers shows a file exactly as it is: every Ogg page has the version, flags, granule position, serial number, checksum, segment sizes and offset found in the stream; iterating over a bitstream (optionally filtered by one logical stream) visits every page and packet in order, and reading, seeking, ignoring and resynchronising deliver exactly the bytes of the packets; an EBML or MP4 element tree has the elements, offsets, sizes, parents, children and siblings found in the file, regardless of the order in which they are accessed, and searching it finds the first (or next) matching element and nothing else.",
 ["inputs","histories"],"all Ogg bitstreams of any page layout, number of logical streams and continued packets, all EBML/MP4 element trees, all sequences of page, segment, read, seek and element accesses",
 "The tests do not use this API apart from reading a few sample files which are not available.",
 ["ogg/oggpage.cpp","ogg/oggiterator.cpp","genericfileelement.h","matroska/ebmlelement.cpp","mp4/mp4atom.cpp"],
 [("Ogg page and packet access","ogg/oggpage.cpp OggPage::parseHeader/segment access, ogg/oggiterator.cpp OggIterator::nextPage/nextSegment/read/seekForward/resyncAt"),("element tree","genericfileelement.h GenericFileElement::parse/nextSibling/firstChild/childById/siblingById/subelementByPath")],
 ["page and element accessors and bytes read compared with an independent model of the generated file"])

p("C25","Interruption, progress and diagnostics are coherent",
"Parsing a file can be interrupted via the progress object at any time: the parsing functions then return without throwing and without reporting a warning or error the file does not cause anyway, and calling them again on the same object yields the same tracks, tags, chapters, attachments and technical information as parsing without interruption. When changes are applied, the progress object reports named steps with percentages between 0 and 100 which never decrease within a step and - unless aborted - reach 100 when the contents of the file have been copied; the callback for percentages is only invoked for a step which has been announced. A list of diagnostic messages retains level, message and context of each message, determines the worst level correctly and messages formatting lists of values mention all of them.",
["inputs","histories"],"all files of all supported formats, all points (reads) parsing is interrupted at, all orders of parsing functions, all edits and settings for saving, all lists of messages",
 "The tests neither abort parsing at arbitrary points nor look at the sequence of reported percentages.",
 ["mediafileinfo.cpp","progressfeedback.h","diagnostics.h","diagnostics.cpp","abstractcontainer.cpp","ogg/oggcontainer.cpp","matroska/matroskacontainer.cpp","mp4/mp4container.cpp","genericfileelement.h"],
 [("interruption","progressfeedback.h AbortableProgressFeedback, handling of OperationAbortedException in mediafileinfo.cpp MediaFileInfo::parse*, abstractcontainer.cpp AbstractContainer::parse*"),("diagnostics","diagnostics.cpp Diagnostics::has/level, DiagMessage::formatList")],
 ["result of parsing which has been interrupted and continued","sequence of progress callbacks invoked while saving","messages, levels and formatted lists"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
assert all(len(x["title"])<=80 for x in P)
print(len(P))
