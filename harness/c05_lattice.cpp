// C05: after every editing history the lattice equals the one typed from scratch.
#include "grid_common.h"

static std::shared_ptr<MapLM> vocab(int which, const std::string& sep) {
  auto lm = std::make_shared<MapLM>();
  // All words over {a,b} up to length 7, kept according to the vocabulary kind.
  for (size_t len = 1; len <= 7; ++len)
    for (size_t bits = 0; bits < (1u << len); ++bits) {
      std::vector<std::string> r;
      for (size_t i = 0; i < len; ++i) r.push_back((bits >> i) & 1 ? "b" : "a");
      std::string k = join(r, 0, len, sep), flat = join(r, 0, len, "");
      bool keep = len == 1 || which == 0 || (which == 1 && (mc::hashStr(flat) % 5 < 2)) ||
                  (which == 2 && (len == 2 || len == 6));
      if (keep) lm->m[k] = {{"[" + flat + "]", -1.0 * static_cast<double>(len) - static_cast<double>(mc::hashStr(flat) % 97) / 100.0}};
    }
  return lm;
}

static void compare(mc::Explorer& e, ReadingGrid& g, const MapLM& lm, const std::vector<std::string>& r, size_t cur,
                    const std::string& sep) {
  if (g.readings() != r) e.fail("syllables differ from the editor's", show(g.readings()) + " want " + show(r));
  if (g.length() != r.size()) e.fail("length differs", show(r));
  if (g.cursor() != cur)
    e.fail("caret differs from the editor's", std::to_string(g.cursor()) + " want " + std::to_string(cur));
  RefLattice l = latticeOf(lm, r, sep);
  const auto& spans = g.spans();
  if (spans.size() != r.size()) e.fail("positions differ", show(r));
  for (size_t i = 0; i < r.size(); ++i)
    for (size_t n = 1; n <= kSpan; ++n) {
      auto node = spans[i].nodeOf(n);
      auto it = l.find({i, n});
      std::string where = " word of length " + std::to_string(n) + " at " + std::to_string(i) + " in " + show(r);
      if (node == nullptr) {
        if (it != l.end()) e.fail("a formed word is missing", where);
        continue;
      }
      if (it == l.end()) e.fail("a word that is gone is still there", where + ": " + node->reading());
      if (node->reading() != it->second.reading || node->spanningLength() != n || node->value() != it->second.value())
        e.fail("a stale word is still there", where + ": " + node->reading());
      if (node->unigrams().size() != it->second.u.size()) e.fail("word has wrong values", where);
    }
  auto w = g.walk();
  if (!r.empty()) checkWalk(e, w, l, r, "after history: " + show(r));
  else if (!w.nodes.empty()) e.fail("empty composition converts to something", "");
  e.state(show(r) + std::to_string(cur));
  e.outcome(show(w.valuesAsStrings()));
}

static void body(mc::Explorer& e) {
  size_t cfg = e.pick(4);
  std::string sep = cfg == 3 ? "" : "-";
  static std::map<size_t, std::shared_ptr<MapLM>> cache;
  auto& lm = cache[cfg];
  if (!lm) lm = vocab(cfg == 3 ? 1 : static_cast<int>(cfg), sep);
  static const char* starts[] = {"", "a", "ab", "aba", "abba", "aabab", "abaabb", "babbaab", "abbabaab", "aabbababbaa", "abababbbaaabab",
                                 "abbabaababbaabbabaabaabbabbaabaababab", "aabbababbaabababbbaaabababbabaababbaabbabaabaabbabbaabaabababbabbaabababbbaaabab"};
  size_t st = e.pick(sizeof(starts) / sizeof(*starts));
  std::vector<std::string> r;
  ReadingGrid g(lm);
  g.setReadingSeparator(sep);
  for (const char* p = starts[st]; *p; ++p) {
    r.emplace_back(1, *p);
    if (!g.insertReading(r.back())) e.fail("known reading rejected", r.back());
  }
  size_t cur = r.size();
  // The caret may start anywhere.
  if (r.size() < 20) {
    cur = e.pick(r.size() + 1);
  } else {
    const size_t places[] = {0, 1, 5, r.size() / 2, r.size() - 1, r.size()};
    cur = places[e.pick(6)];
  }
  g.setCursor(cur);
  e.note("start ", starts[st], " caret ", cur);
  if (e.fresh()) compare(e, g, *lm, r, cur, sep);
  int depth = e.thorough ? 5 : 4;
  if (r.size() > 5) depth = e.thorough ? 4 : 3;
  if (r.size() > 20) depth = 2;
  for (int d = 0; d < depth; ++d) {
    // 0,1 insert a/b; 2 delete before; 3 delete after; 4 unknown/degenerate readings; 5 clear; 6.. caret moves
    size_t op = e.pick(6 + 5);
    if (op <= 1) {
      std::string x = op ? "b" : "a";
      bool ok = g.insertReading(x);
      e.note("insert ", x);
      if (!ok) e.fail("known reading rejected", x);
      r.insert(r.begin() + static_cast<ptrdiff_t>(cur), x);
      ++cur;
    } else if (op == 2) {
      bool ok = g.deleteReadingBeforeCursor();
      e.note("delete before");
      if (ok != (cur > 0)) e.fail("delete before reports a wrong result", show(r) + std::to_string(cur));
      if (cur > 0) {
        r.erase(r.begin() + static_cast<ptrdiff_t>(cur - 1));
        --cur;
      }
    } else if (op == 3) {
      bool ok = g.deleteReadingAfterCursor();
      e.note("delete after");
      if (ok != (cur < r.size())) e.fail("delete after reports a wrong result", show(r) + std::to_string(cur));
      if (cur < r.size()) r.erase(r.begin() + static_cast<ptrdiff_t>(cur));
    } else if (op == 4) {
      e.note("insert unknown / empty / separator");
      if (g.insertReading("zz")) e.fail("unknown reading accepted", "");
      if (g.insertReading("")) e.fail("empty reading accepted", "");
      if (!sep.empty() && g.insertReading(sep)) e.fail("separator accepted as a reading", "");
    } else if (op == 5) {
      g.clear();
      e.note("clear");
      r.clear();
      cur = 0;
    } else {
      // Caret moves: home, end, left, right, middle.
      size_t to = 0;
      switch (op - 6) {
        case 0: to = 0; break;
        case 1: to = r.size(); break;
        case 2: to = cur ? cur - 1 : 0; break;
        case 3: to = std::min(cur + 1, r.size()); break;
        case 4: to = r.size() / 2; break;
      }
      if (to == cur) e.prune();
      g.setCursor(to);
      cur = to;
      e.note("caret to ", to);
    }
    e.transition();
    if (e.fresh()) compare(e, g, *lm, r, cur, sep);
  }
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
