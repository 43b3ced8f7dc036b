// MP4 and Matroska files exceeding 4 GiB: the files contain holes so that neither disk space nor time is wasted as long as they are modified in place.
#pragma once
#include "scenario.h"

namespace sparse {

/// \a copied: the file is going to be rewritten, so the hole should not be too big
sc::Scenario make(pbt::Gen &g, fmt::Kind kind, bool copied = false);
fmt::Analysis analyze(fmt::Kind kind, const std::string &path, const char *when);
/// Saves in place. Returns false (and leaves the file as it was) if the library started to rewrite the file.
bool save(tp::Session &session, const std::string &path);

} // namespace sparse
