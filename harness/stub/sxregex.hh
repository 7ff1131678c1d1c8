// libstdc++.so's collate facets aren't reachable from the encoded program; in the "C" locale the
// key of an equivalence class is the character itself.
#pragma once
#ifdef __cplusplus
#include <regex>
template <>
template <>
inline std::string std::regex_traits<char>::transform_primary<const char *>(const char *a, const char *b) const { return std::string(a, b); }
template <>
template <>
inline std::string std::regex_traits<char>::transform_primary<char *>(char *a, char *b) const { return std::string(a, b); }
#endif
