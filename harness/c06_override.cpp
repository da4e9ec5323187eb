// C06: picks are honoured, only conflicting picks are undone, edits elsewhere keep them.
#include "grid_common.h"

static std::shared_ptr<MapLM> vocab() {
  auto lm = std::make_shared<MapLM>();
  // Generic (tie-free) scores. Words over {a,b}: all singles and pairs, some triples and a long one.
  lm->m["a"] = {{"A", -3.13}, {"A2", -4.41}, {"SAME", -5.07}};
  lm->m["b"] = {{"B", -2.71}, {"B2", -6.53}};
  lm->m["a-a"] = {{"AA", -5.9}, {"AA2", -7.17}};
  lm->m["a-b"] = {{"AB", -6.37}, {"SAME", -9.01}};
  lm->m["b-a"] = {{"BA", -5.03}};
  lm->m["a-b-a"] = {{"ABA", -8.57}, {"ABA2", -11.19}};
  lm->m["b-a-b"] = {{"BAB", -9.83}};
  lm->m["a-b-a-a"] = {{"ABAA", -13.3}};
  return lm;
}

static void body(mc::Explorer& e) {
  static auto lm = vocab();
  static const char* starts[] = {"a", "ab", "aba", "aab", "abaa", "baba", "ababa"};
  size_t st = e.pick(sizeof(starts) / sizeof(*starts));
  ReadingGrid g(lm);
  std::vector<std::string> r;
  for (const char* p = starts[st]; *p; ++p) {
    r.emplace_back(1, *p);
    g.insertReading(r.back());
  }
  RefLattice l = latticeOf(*lm, r, "-");
  e.note("start ", starts[st]);
  int depth = r.size() <= 2 ? (e.thorough ? 4 : 3) : r.size() == 3 ? 3 : (e.thorough ? 3 : 2);
  using OT = ReadingGrid::Node::OverrideType;
  for (int d = 0; d < depth; ++d) {
    std::string what;
    size_t kind = e.pick(5);  // 0 pick high 1 pick soft 2 insert 3 delete 4 bogus/by value
    if (kind == 0 || kind == 1 || kind == 4) {
      if (r.empty()) e.prune();
      size_t loc = e.pick(r.size() + 1);
      size_t p = loc == r.size() ? loc - 1 : loc;
      // Listed candidates there.
      std::vector<std::pair<std::string, std::string>> cands;
      std::set<std::pair<std::string, std::string>> seen;
      for (auto& kv : l) {
        RefNode& x = kv.second;
        if (x.start <= p && p < x.start + x.len)
          for (auto& u : x.u)
            if (seen.insert({x.reading, u.value}).second) cands.emplace_back(x.reading, u.value);
      }
      OT ot = kind == 1 ? OT::kOverrideValueWithScoreFromTopUnigram : OT::kOverrideValueWithHighScore;
      int type = kind == 1 ? 2 : 1;
      bool ok;
      std::string reading, value;
      bool byValue = false;
      if (kind == 4) {
        // By value only; and values / readings that are not listed there.
        size_t which = e.pick(cands.size() + 3);
        if (which < cands.size()) {
          value = cands[which].second;
          byValue = true;
          ok = g.overrideCandidate(loc, value, ot);
          what = "pick by value " + value + " at " + std::to_string(loc);
        } else {
          if (which == cands.size()) ok = g.overrideCandidate(loc, std::string("NOPE"), ot);
          else if (which == cands.size() + 1) ok = g.overrideCandidate(loc, ReadingGrid::Candidate("a-b-b", "AB"), ot);
          else ok = g.overrideCandidate(r.size() + 1, std::string("A"), ot);
          what = "pick something not listed";
          e.note(what);
          if (ok) e.fail("a candidate that is not listed was accepted", show(r));
          value.clear();
        }
      } else {
        size_t which = e.pick(cands.size());
        reading = cands[which].first;
        value = cands[which].second;
        ok = g.overrideCandidate(loc, ReadingGrid::Candidate(reading, value), ot);
        what = std::string(kind ? "soft-pick " : "pick ") + value + " (" + reading + ") at " + std::to_string(loc);
      }
      if (!value.empty()) {
        e.note(what);
        if (!ok) e.fail("a listed candidate was refused", what + " in " + show(r));
        // Which word was chosen? Any word covering the place with that reading and value is right.
        const RefNode* chosen = nullptr;
        size_t n = 0;
        for (auto& kv : l) {
          RefNode& x = kv.second;
          if (!(x.start <= p && p < x.start + x.len)) continue;
          if (!byValue && x.reading != reading) continue;
          auto node = g.spans()[x.start].nodeOf(x.len);
          if (node == nullptr || !node->isOverridden() || node->value() != value) continue;
          bool has = false;
          for (auto& u : x.u) has = has || u.value == value;
          if (!has) continue;
          ++n;
          chosen = &x;
        }
        if (n == 0) e.fail("the pick marked no word", what + " in " + show(r));
        if (n > 1) e.fail("conflicting picks are both kept", what + " in " + show(r));
        std::pair<size_t, size_t> ck{chosen->start, chosen->len};
        for (auto& kv : l) {
          RefNode& x = kv.second;
          if (kv.first == ck) {
            x.type = type;
            for (size_t i = 0; i < x.u.size(); ++i)
              if (x.u[i].value == value) {
                x.sel = i;
                break;
              }
          } else if (x.start < ck.first + ck.second && ck.first < x.start + x.len) {
            x.type = 0;
            x.sel = 0;
          }
        }
        auto w = g.walk();
        if (type == 1) {
          auto it = w.findNodeAt(loc);
          if (it == w.nodes.cend() || (*it)->value() != value)
            e.fail("the picked candidate is not shown", what + " in " + show(r) + " shows " + show(w.valuesAsStrings()));
        }
      }
    } else if (kind == 2) {
      if (r.size() >= 6) e.prune();
      size_t at = e.pick(r.size() + 1);
      std::string x = e.pick(2) ? "b" : "a";
      g.setCursor(at);
      g.insertReading(x);
      what = "insert " + x + " at " + std::to_string(at);
      e.note(what);
      r.insert(r.begin() + static_cast<ptrdiff_t>(at), x);
      RefLattice n = latticeOf(*lm, r, "-");
      for (auto& kv : l) {
        RefNode& o = kv.second;
        if (o.start < at && at < o.start + o.len) continue;  // split
        RefNode& y = n.at({o.start >= at ? o.start + 1 : o.start, o.len});
        y.type = o.type;
        y.sel = o.sel;
      }
      l = n;
    } else {
      if (r.empty()) e.prune();
      size_t at = e.pick(r.size());
      bool before = e.pick(2);
      if (before) {
        g.setCursor(at + 1);
        g.deleteReadingBeforeCursor();
      } else {
        g.setCursor(at);
        g.deleteReadingAfterCursor();
      }
      what = "delete at " + std::to_string(at);
      e.note(what);
      r.erase(r.begin() + static_cast<ptrdiff_t>(at));
      RefLattice n = latticeOf(*lm, r, "-");
      for (auto& kv : l) {
        RefNode& o = kv.second;
        if (o.start <= at && at < o.start + o.len) continue;  // lost a syllable
        RefNode& y = n.at({o.start > at ? o.start - 1 : o.start, o.len});
        y.type = o.type;
        y.sel = o.sel;
      }
      l = n;
    }
    e.transition();
    if (!e.fresh()) continue;
    std::string key = show(r);
    for (auto& kv : l) {
      RefNode& x = kv.second;
      auto node = g.spans()[x.start].nodeOf(x.len);
      if (node == nullptr) e.fail("a word is missing", what + " in " + show(r) + ": " + x.reading);
      if (node->isOverridden() != (x.type != 0) || node->value() != x.value())
        e.fail(x.type ? "an unaffected pick was lost" : "a conflicting pick was kept",
               what + " in " + show(r) + ": word " + x.reading + " at " + std::to_string(x.start) + " is " +
                   node->value() + ", expected " + x.value());
      key += std::to_string(x.type) + std::to_string(x.sel);
    }
    auto w = g.walk();
    checkWalk(e, w, l, r, what + " in " + show(r));
    e.state(key);
    e.outcome(show(w.valuesAsStrings()));
  }
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
