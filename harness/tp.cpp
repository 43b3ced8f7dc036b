#include "tp.h"
#include <cxxabi.h>

using namespace util;

namespace tp {

std::string diagText(const Diagnostics &diag, DiagLevel min)
{
    std::string r;
    for (const auto &d : diag) {
        if (d.level() >= min) {
            r += std::string(d.levelName()) + ": " + d.context() + ": " + d.message() + "\n";
        }
    }
    return r;
}

std::size_t countDiag(const Diagnostics &diag, DiagLevel min)
{
    std::size_t n = 0;
    for (const auto &d : diag) {
        n += d.level() >= min;
    }
    return n;
}

std::string encodeTextForValue(const std::string &utf8, TagTextEncoding encoding)
{
    switch (encoding) {
    case TagTextEncoding::Latin1: {
        std::string r;
        if (!toLatin1(fromUtf8(utf8), r)) {
            throw std::logic_error("text not representable as Latin-1");
        }
        return r;
    }
    case TagTextEncoding::Utf16LittleEndian:
        return toUtf16(fromUtf8(utf8), false);
    case TagTextEncoding::Utf16BigEndian:
        return toUtf16(fromUtf8(utf8), true);
    default:
        return utf8;
    }
}

std::string decodeTextOfValue(std::string_view d, TagTextEncoding encoding)
{
    try {
        switch (encoding) {
        case TagTextEncoding::Latin1:
            return toUtf8(fromLatin1(d));
        case TagTextEncoding::Utf16LittleEndian:
            return toUtf8(fromUtf16(d, false));
        case TagTextEncoding::Utf16BigEndian:
            return toUtf8(fromUtf16(d, true));
        default:
            return std::string(d);
        }
    } catch (const Malformed &e) {
        return std::string("<") + e.what() + ": " + pbt::hex(std::string(d)) + ">";
    }
}

TagValue text(const std::string &utf8, TagTextEncoding encoding)
{
    const auto data = encodeTextForValue(utf8, encoding);
    return TagValue(data.data(), data.size(), TagDataType::Text, encoding);
}

bool canRepresent(const std::string &utf8, TagTextEncoding encoding)
{
    std::string r;
    return encoding != TagTextEncoding::Latin1 || toLatin1(fromUtf8(utf8), r);
}

const char *encodingName(TagTextEncoding e)
{
    switch (e) {
    case TagTextEncoding::Latin1:
        return "Latin-1";
    case TagTextEncoding::Utf8:
        return "UTF-8";
    case TagTextEncoding::Utf16LittleEndian:
        return "UTF-16LE";
    case TagTextEncoding::Utf16BigEndian:
        return "UTF-16BE";
    default:
        return "unspecified encoding";
    }
}

std::string utf8Of(const TagValue &v)
{
    if (v.isEmpty()) {
        return std::string();
    }
    if (v.type() == TagDataType::Text) {
        return decodeTextOfValue(std::string_view(v.dataPointer(), v.dataSize()), v.dataEncoding());
    }
    try {
        return v.toString(TagTextEncoding::Utf8);
    } catch (const CppUtilities::ConversionException &e) {
        return std::string("<not convertible: ") + e.what() + ">";
    }
}

void setDescription(TagValue &v, const std::string &utf8, TagTextEncoding encoding)
{
    v.setDescription(encodeTextForValue(utf8, encoding), encoding);
}

std::string descriptionUtf8(const TagValue &v)
{
    return decodeTextOfValue(v.description(), v.descriptionEncoding());
}

std::string canon(const TagValue &v)
{
    if (v.isEmpty()) {
        return "(empty)";
    }
    std::string r;
    switch (v.type()) {
    case TagDataType::Picture:
    case TagDataType::Binary:
    case TagDataType::Undefined:
        r = std::string(tagDataTypeString(v.type())) + ":" + toStr(v.dataSize()) + ":" + toStr(crc32Ieee(std::string_view(v.dataPointer(), v.dataSize())));
        break;
    default:
        try {
            r = std::string(tagDataTypeString(v.type())) + ":" + utf8Of(v);
        } catch (const CppUtilities::ConversionException &e) { // documented for values of damaged files
            r = std::string(tagDataTypeString(v.type())) + ":not convertible: " + e.what();
        }
    }
    if (!v.description().empty()) {
        r += " desc=" + descriptionUtf8(v);
    }
    if (!v.mimeType().empty()) {
        r += " mime=" + v.mimeType();
    }
    for (const auto &l : v.locale()) {
        r += " locale=" + static_cast<const std::string &>(l);
    }
    if (v.flags() != TagValueFlags::None) {
        r += " flags=" + toStr(static_cast<std::uint64_t>(v.flags()));
    }
    return r;
}

Session::Session(const std::string &path)
    : file(std::string_view(path))
{
}

void Session::parse()
{
    file.open();
    file.parseEverything(diag, progress);
    if (!allowId3v1InContainer && file.container() && file.hasId3v1Tag()) {
        throw pbt::Discard{ "data at the end of the container looks like an ID3v1 tag" };
    }
}

void Session::apply()
{
    file.applyChanges(diag, progress);
}

std::string currentExceptionText()
{
    try {
        throw;
    } catch (const std::exception &e) {
        int st = 0;
        auto *const n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        std::string r = n ? n : typeid(e).name();
        free(n);
        return r + ": " + e.what();
    } catch (...) {
        return "unknown exception";
    }
}

} // namespace tp
