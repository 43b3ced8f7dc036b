// Structure-aware damage of generated files, used by the checks about damaged files.
#pragma once
#include "pbt.h"
#include <string>

namespace mut {
/// Applies a few random changes (truncation, changed sizes/identifiers/flags, removed/repeated/inserted ranges, ...).
std::string mutate(pbt::Gen &g, std::string bytes, const std::string &other = std::string());
} // namespace mut
