#ifndef GRID_COMMON_H_
#define GRID_COMMON_H_
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "gramambular2/reading_grid.h"
#include "mc.h"

using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;
using Unigram = LanguageModel::Unigram;

struct UG {
  std::string value;
  double score;
};

// The vocabulary: joined reading -> unigrams in vocabulary order.
struct MapLM : public LanguageModel {
  std::map<std::string, std::vector<UG>> m;
  std::vector<Unigram> getUnigrams(const std::string& r) override {
    std::vector<Unigram> out;
    auto it = m.find(r);
    if (it != m.end())
      for (const UG& u : it->second) out.emplace_back(u.value, u.score);
    return out;
  }
  bool hasUnigrams(const std::string& r) override { return m.count(r) != 0; }
};

inline std::string join(const std::vector<std::string>& r, size_t from, size_t len, const std::string& sep) {
  std::string s;
  for (size_t i = 0; i < len; ++i) {
    if (i) s += sep;
    s += r[from + i];
  }
  return s;
}

// Score-ranked copy (stable), as the grid documents.
inline std::vector<UG> ranked(const MapLM& lm, const std::string& key) {
  auto it = lm.m.find(key);
  if (it == lm.m.end()) return {};
  std::vector<UG> v = it->second;
  std::stable_sort(v.begin(), v.end(), [](const UG& a, const UG& b) { return a.score > b.score; });
  return v;
}

constexpr size_t kSpan = 6;

// Reference node state.
struct RefNode {
  size_t start = 0, len = 0;
  std::string reading;
  std::vector<UG> u;
  int type = 0;  // 0 none, 1 high, 2 top score
  size_t sel = 0;
  double score() const { return type == 1 ? 42.0 : type == 2 ? u[0].score : u[sel].score; }
  const std::string& value() const { return u[sel].value; }
};

using RefLattice = std::map<std::pair<size_t, size_t>, RefNode>;

// Lattice of a composition from scratch.
inline RefLattice latticeOf(const MapLM& lm, const std::vector<std::string>& r, const std::string& sep) {
  RefLattice l;
  for (size_t i = 0; i < r.size(); ++i)
    for (size_t n = 1; n <= kSpan && i + n <= r.size(); ++n) {
      std::string key = join(r, i, n, sep);
      auto u = ranked(lm, key);
      if (u.empty()) continue;
      RefNode x;
      x.start = i;
      x.len = n;
      x.reading = key;
      x.u = u;
      l[{i, n}] = x;
    }
  return l;
}

struct RefWalk {
  double best = -INFINITY;
  bool unique = true;
  std::vector<std::pair<size_t, size_t>> path;
};

// Brute force over every segmentation.
inline void bruteRec(const RefLattice& l, size_t n, size_t pos, double sum,
                     std::vector<std::pair<size_t, size_t>>& cur, RefWalk& out) {
  if (pos == n) {
    if (sum > out.best + 1e-9) {
      out.best = sum;
      out.unique = true;
      out.path = cur;
    } else if (sum > out.best - 1e-9) {
      out.unique = false;
      if (sum > out.best) out.best = sum;
    }
    return;
  }
  for (size_t k = 1; k <= kSpan && pos + k <= n; ++k) {
    auto it = l.find({pos, k});
    if (it == l.end()) continue;
    cur.emplace_back(pos, k);
    bruteRec(l, n, pos + k, sum + it->second.score(), cur, out);
    cur.pop_back();
  }
}
inline RefWalk bruteWalk(const RefLattice& l, size_t n) {
  RefWalk w;
  if (n > 15) {  // too many: the best of each beginning
    std::vector<RefWalk> b(n + 1);
    b[0].best = 0;
    for (size_t i = 0; i < n; ++i)
      for (size_t k = 1; k <= kSpan && i + k <= n; ++k) {
        auto it = l.find({i, k});
        if (it == l.end() || b[i].best == -INFINITY) continue;
        double sum = b[i].best + it->second.score();
        RefWalk& t = b[i + k];
        if (sum > t.best + 1e-9) {
          t.best = sum;
          t.unique = b[i].unique;
          t.path = b[i].path;
          t.path.emplace_back(i, k);
        } else if (sum > t.best - 1e-9) {
          t.unique = false;
        }
      }
    return b[n];
  }
  std::vector<std::pair<size_t, size_t>> cur;
  bruteRec(l, n, 0, 0, cur, w);
  return w;
}

inline std::string show(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i];
  return s + "]";
}

// Checks a walk against the reference lattice; returns its starts.
inline void checkWalk(mc::Explorer& e, const ReadingGrid::WalkResult& w, const RefLattice& l,
                      const std::vector<std::string>& readings, const std::string& ctx) {
  size_t pos = 0;
  double sum = 0;
  size_t n = readings.size();
  for (const auto& node : w.nodes) {
    size_t len = node->spanningLength();
    auto it = l.find({pos, len});
    if (it == l.end() || it->second.reading != node->reading())
      e.fail("walk uses a word that is not there", ctx + " at " + std::to_string(pos) + " got " + node->reading());
    if (node->value() != it->second.value())
      e.fail("walk shows a wrong value", ctx + " at " + std::to_string(pos) + " reading " + node->reading() + " got " +
                                           node->value() + " want " + it->second.value());
    if (std::abs(node->score() - it->second.score()) > 1e-9)
      e.fail("walk node has a wrong score", ctx + " reading " + node->reading());
    sum += it->second.score();
    pos += len;
  }
  if (pos != n) e.fail("walk does not cover the composition", ctx + " covered " + std::to_string(pos));
  if (w.totalReadings != n) e.fail("walk reports a wrong length", ctx);
  if (n == 0) return;
  RefWalk ref = bruteWalk(l, n);
  if (sum < ref.best - 1e-9)
    e.fail("walk is not the best segmentation",
           ctx + " got " + show(w.valuesAsStrings()) + " score " + std::to_string(sum) + " best " +
               std::to_string(ref.best));
  // Queries on the result.
  std::vector<std::string> vs = w.valuesAsStrings(), rs = w.readingsAsStrings();
  if (vs.size() != w.nodes.size() || rs.size() != w.nodes.size()) e.fail("result accessors disagree", ctx);
  for (size_t i = 0; i < vs.size(); ++i)
    if (vs[i] != w.nodes[i]->value() || rs[i] != w.nodes[i]->reading()) e.fail("result accessors disagree", ctx);
  for (size_t c = 0; c <= n + 2; ++c) {
    size_t past = 9999;
    auto it = w.findNodeAt(c, &past);
    auto it2 = w.findNodeAt(c);
    if (it != it2) e.fail("findNodeAt depends on its out argument", ctx);
    if (c > n) {
      if (it != w.nodes.cend()) e.fail("findNodeAt accepts a position outside", ctx);
      continue;
    }
    size_t target = c == n ? n - 1 : c;
    size_t acc = 0, idx = 0;
    for (; idx < w.nodes.size(); ++idx) {
      acc += w.nodes[idx]->spanningLength();
      if (acc > target) break;
    }
    if (it == w.nodes.cend() || static_cast<size_t>(it - w.nodes.cbegin()) != idx || past != acc)
      e.fail("findNodeAt finds a wrong word", ctx + " cursor " + std::to_string(c));
  }
}
#endif
