// Small configurations of the three models that between them use every option.
#ifndef CONFS_HPP
#define CONFS_HPP
#include "obs.hpp"
struct DC { int n, E; json o; int base() const { return o.count("base") ? o["base"].get<int>() : 2; } };
struct CC { int n, E; float min; int th, lim; json o; int base() const { return o.count("base") ? o["base"].get<int>() : 2; } };
inline const std::vector<DC>& disc_confs() {
  static const std::vector<DC> v = {{2, 3, {}}, {2, 4, {{"ignoreZero", true}}}, {2, 3, {{"completeAddressing", false}}}, {2, 2, {{"base", 3}, {"ignoreZero", true}}}, {3, 3, {{"indexes", {2, 0, 1}}}},
    {2, 3, {{"mapping", {{0}, {1, 2}, {2, 2}, {0, 1, 2}}}}}, {2, 3, {{"mapping", {{1, 0}}}, {"base", 2}}}};
  return v;
}
inline const std::vector<DC>& wis_confs() {
  static const std::vector<DC> v = {{2, 3, {}}, {2, 4, {{"ignoreZero", true}, {"verbose", true}, {"bleachingActivated", false}}}, {2, 3, {{"completeAddressing", false}, {"confidence", 1}}},
    {2, 2, {{"base", 3}}}, {2, 4, {{"indexes", {3, 1, 0, 2}}, {"confidence", 2}}}, {2, 3, {{"mapping", {{"a", {{0}, {1, 2}}}, {"c", {{2, 1, 0}}}}}}},
    {2, 3, {{"returnConfidence", true}, {"returnActivationDegree", true}, {"returnClassesDegrees", true}}}, {2, 4, {{"returnConfidence", true}, {"confidence", 2}}},
    {2, 3, {{"mapping", {{"a", {{0, 1}}}, {"b", {{1, 2}}}}}, {"indexes", {2, 1, 0}}, {"base", 2}, {"ignoreZero", true}, {"searchBestConfidence", true}}}};
  return v;
}
inline const std::vector<CC>& clus_confs() {
  static const std::vector<CC> v = {{2, 3, 0.1f, 10, 3, {}}, {2, 4, 0.5f, 2, 2, {{"ignoreZero", true}, {"verbose", true}}}, {2, 3, 1.0f, 1, 2, {{"completeAddressing", false}}}, {2, 2, 0.3f, 3, 4, {{"base", 3}}},
    {2, 4, 0.0f, 1, 1, {{"bleachingActivated", false}, {"confidence", 2}}}, {3, 3, 0.7f, 100, 12, {{"returnConfidence", true}, {"returnActivationDegree", true}, {"returnClassesDegrees", true}}},
    {2, 3, 0.33333f, 7, 5, {{"returnClassesDegrees", true}, {"confidence", 1}}}};
  return v;
}
inline VV pool3(const VV& all) { return {all[0], all[all.size() - 1], all[all.size() / 2 + 1]}; }
static const VS ODD = {"", " ", "a", "A", "aa", "a::b", "::", "::0", "a::0", "a.b", "a#b", "a\"b", "a\\b", "0", "00", "1", "10", "9", "-1", "null", "classes", "\n", "\t", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "mapping", "unsupervised_cluster__0", "__", ".wdpkg", "a:", ":", ":::", std::string(300, 'x'), std::string("\0", 1), std::string("a\0b", 3), std::string("a\0", 2)};
#endif
