// Helpers around the library under test used by the checks.
#pragma once
#include "pbt.h"
#include "util.h"
#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tag.h>
#include <tagparser/tagvalue.h>

namespace tp {
using namespace TagParser;

std::string diagText(const Diagnostics &diag, DiagLevel min = DiagLevel::Warning);
std::size_t countDiag(const Diagnostics &diag, DiagLevel min);

TagValue text(const std::string &utf8, TagTextEncoding encoding);
std::string utf8Of(const TagValue &value); // text as UTF-8 using an own conversion
bool canRepresent(const std::string &utf8, TagTextEncoding encoding);
const char *encodingName(TagTextEncoding e);
void setDescription(TagValue &value, const std::string &utf8, TagTextEncoding encoding);
std::string descriptionUtf8(const TagValue &value);

/// Type-aware textual form of everything a value holds which is independent of the text encoding.
std::string canon(const TagValue &value);

/// A file opened with the library.
struct Session {
    explicit Session(const std::string &path);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo file;
    void parse(); // everything; discards the case if data at the end of a container looks like an ID3v1 tag by accident
    bool allowId3v1InContainer = false;
    void apply();
};

/// Exception type name and message of the current exception.
std::string currentExceptionText();

std::string encodeTextForValue(const std::string &utf8, TagTextEncoding encoding);
std::string decodeTextOfValue(std::string_view data, TagTextEncoding encoding);
} // namespace tp
