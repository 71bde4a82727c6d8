// Wisards whose entries are vote matrices: every class k has R RAMs of one position each; RAM r of class k reads
// position k*R+r, and value v there has been trained table[v] times (table[0] = 0). Classifying an entry x then
// means applying the decision rule to the counts table[x[k*R+r]] -- every count matrix over the table is one entry.
#ifndef VOTES_HPP
#define VOTES_HPP
#include "ref.hpp"
struct VoteModel {
  VS labels; int R; V table;
  int K() const { return (int)labels.size(); }
  int E() const { return std::max(2, K() * R); }
  json options(bool bleaching, int confidence) const {
    json m = json::object();
    for (int k = 0; k < K(); k++) { VV c; for (int r = 0; r < R; r++) c.push_back(V{k * R + r}); m[labels[k]] = c; }
    return {{"mapping", m}, {"base", std::max(2, (int)table.size())}, {"bleachingActivated", bleaching}, {"confidence", confidence}};
  }
  // order: the order in which the classes are trained
  void train(api::Wis& w, const V& order) const {
    for (int k : order) { VV x; VS y; for (size_t v = 1; v < table.size(); v++) for (int i = 0; i < table[v]; i++) { x.push_back(V(E(), (int)v)); y.push_back(labels[k]); }
      if (x.empty()) { x.push_back(V(E(), 0)); y.push_back(labels[k]); }
      w.train(x, y); }
  }
  MapSV votes(const V& x) const { MapSV o; for (int k = 0; k < K(); k++) { V v; for (int r = 0; r < R; r++) v.push_back(table[x[k * R + r]]); o[labels[k]] = v; } return o; }
};
#endif
