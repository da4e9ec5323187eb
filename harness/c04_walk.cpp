// C04: the walk is a maximum-score segmentation, for every small vocabulary.
#include "grid_common.h"

static void body(mc::Explorer& e) {
  size_t family = e.pick(3);
  auto lm = std::make_shared<MapLM>();
  std::vector<std::string> r;
  std::string sep = "-";
  if (family == 0) {
    // Every string over {a,b} up to n; every word of it absent or with one of two scores.
    size_t maxn = e.thorough ? 5 : 4;
    size_t n = 1 + e.pick(maxn);
    for (size_t i = 0; i < n; ++i) r.push_back(i == 0 ? "a" : (e.pick(2) ? "b" : "a"));
    lm->m["a"] = {{"A", -3.1}, {"A'", -4.0}};
    lm->m["b"] = {{"B'", -6.0}, {"B", -2.2}};  // not in score order
    std::set<std::string> done;
    for (size_t len = 2; len <= n; ++len)
      for (size_t i = 0; i + len <= n; ++i) {
        std::string k = join(r, i, len, sep);
        if (!done.insert(k).second) continue;
        double lo = -2.9 * static_cast<double>(len) - 0.2, hi = -2.0 * static_cast<double>(len) + 1.0;
        switch (e.pick(3)) {
          case 0: break;
          case 1: lm->m[k] = {{"<" + k + ">", hi}, {"<" + k + "2>", hi - 3}}; break;
          case 2: lm->m[k] = {{"<" + k + ">", lo}}; break;
        }
      }
  } else if (family == 2) {
    // Near ties: the words of a two- or three-syllable phrase score a hair more or less than their parts.
    size_t n = 2 + e.pick(2);
    for (size_t i = 0; i < n; ++i) r.push_back(std::string(1, (char)('a' + i)));
    static const double d[] = {1, 1e-3, 1e-5, 1e-7, -1e-7, -1e-5, -1e-3};
    double s[] = {-3.5, -2.25, -4.125};
    for (size_t i = 0; i < n; ++i) lm->m[r[i]] = {{r[i] + "1", s[i]}, {r[i] + "2", s[i] - 1e-6}};
    for (size_t len = 2; len <= n; ++len)
      for (size_t i = 0; i + len <= n; ++i) {
        size_t k = e.pick(8);
        if (k == 7) continue;
        double sum = 0;
        for (size_t j = i; j < i + len; ++j) sum += s[j];
        // each length has its own hair, so that no two segmentations tie
        lm->m[join(r, i, len, sep)] = {{"<" + join(r, i, len, sep) + ">", sum + d[k] * (1 + 0.125 * (double)(i + 2 * len))}};
      }
  } else {
    // Long words: one reading, every subset of word lengths 2..7 (7 is beyond the maximum).
    size_t n = 5 + e.pick(e.thorough ? 8 : 5);
    for (size_t i = 0; i < n; ++i) r.push_back("a");
    lm->m["a"] = {{"A", -5}};
    for (size_t len = 2; len <= 7; ++len) {
      std::vector<std::string> rr(len, "a");
      double per[] = {0, -4.4, -5.0, -2.0};
      size_t k = e.pick(e.thorough ? 4 : 3);
      if (k) lm->m[join(rr, 0, len, sep)] = {{"L" + std::to_string(len), per[k] * static_cast<double>(len) - 0.01 * len}};
    }
  }
  ReadingGrid g(lm);
  g.setReadingSeparator(sep);
  if (g.walk().nodes.size()) e.fail("empty composition converts to something", "");
  for (const auto& x : r)
    if (!g.insertReading(x)) e.fail("known reading rejected", x);
  RefLattice l = latticeOf(*lm, r, sep);
  auto w = g.walk();
  e.transition();
  std::string ctx = "readings " + show(r) + " vocabulary of " + std::to_string(lm->m.size()) + " words";
  e.note(ctx, " -> ", show(w.valuesAsStrings()));
  checkWalk(e, w, l, r, ctx);
  e.outcome(show(w.valuesAsStrings()));
  e.state(show(w.valuesAsStrings()) + show(r));
  // Every single override (both kinds, by reading and by value).
  size_t n = r.size();
  for (const auto& kv : l) {
    const RefNode& x = kv.second;
    for (size_t s = 0; s < x.u.size(); ++s)
      for (int type = 1; type <= 2; ++type) {
        ReadingGrid h(lm);
        h.setReadingSeparator(sep);
        for (const auto& y : r) h.insertReading(y);
        using OT = ReadingGrid::Node::OverrideType;
        OT ot = type == 1 ? OT::kOverrideValueWithHighScore : OT::kOverrideValueWithScoreFromTopUnigram;
        if (!h.overrideCandidate(x.start, ReadingGrid::Candidate(x.reading, x.u[s].value), ot))
          e.fail("listed candidate cannot be chosen", ctx + " " + x.u[s].value);
        RefLattice l2 = l;
        // A same-reading word starting elsewhere may be the one that was chosen only if it also covers the place;
        // at its own start the word itself comes first.
        RefNode& y = l2[kv.first];
        y.type = type;
        y.sel = s;
        auto w2 = h.walk();
        e.transition();
        checkWalk(e, w2, l2, r, ctx + " override " + x.u[s].value + " type " + std::to_string(type));
        if (type == 1) {
          bool shown = false;
          size_t pos = 0;
          for (auto& nd : w2.nodes) {
            if (pos == x.start && nd->spanningLength() == x.len && nd->value() == x.u[s].value) shown = true;
            pos += nd->spanningLength();
          }
          if (!shown) e.fail("forced choice is not shown", ctx + " override " + x.u[s].value);
        }
      }
  }
  (void)n;
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
