// Created via CMake from template version.h.in
// WARNING! Any changes to this file will be overwritten by the next CMake run!

#ifndef TAG_PARSER_VERSION

#define TAG_PARSER_VERSION_MAJOR 12
#define TAG_PARSER_VERSION_MINOR 5
#define TAG_PARSER_VERSION_PATCH 3
#define TAG_PARSER_VERSION_VCSRE 1
#define TAG_PARSER_VERSION_VCSID "64623c9"

#define TAG_PARSER_VERSION_STR "12.5.3-1.64623c9"
#define TAG_PARSER_VERSION_CHECK(major, minor, patch) ((major<<16)|(minor<<8)|(patch))
#define TAG_PARSER_VERSION \
    TAG_PARSER_VERSION_CHECK(TAG_PARSER_VERSION_MAJOR, TAG_PARSER_VERSION_MINOR, TAG_PARSER_VERSION_PATCH)

/*!
 * \def TAG_PARSER_VERSION_MAJOR
 * \brief Mayor version of the tagparser library.
 */

/*!
 * \def TAG_PARSER_VERSION_MINOR
 * \brief Minor version of the tagparser library.
 */

/*!
 * \def TAG_PARSER_VERSION_PATCH
 * \brief Patch version of the tagparser library.
 */

/*!
 * \def TAG_PARSER_VERSION_VCSRE
 * \brief Revision number in the version control system of the tagparser library.
 */

/*!
 * \def TAG_PARSER_VERSION_VCSID
 * \brief Revision ID in the version control system of the tagparser library.
 */

/*!
 * \def TAG_PARSER_VERSION_STR
 * \brief Version of the tagparser library as string (for display purposes).
 */

/*!
 * \def TAG_PARSER_VERSION_CHECK
 * \brief Can be used like "#if (TAG_PARSER_VERSION >= TAG_PARSER_VERSION_CHECK(5, 1, 0))".
 */

/*!
 * \def TAG_PARSER_VERSION
 * \brief Defined as (major << 16) + (minor << 8) + patch.
 */

#endif // TAG_PARSER_VERSION
