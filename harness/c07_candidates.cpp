// C07: candidatesAt is exactly the values of every word covering the position, longer words first.
#include "grid_common.h"

static void checkAll(mc::Explorer& e, ReadingGrid& g, const MapLM& lm, const std::vector<std::string>& r) {
  RefLattice l = latticeOf(lm, r, "-");
  for (size_t loc = 0; loc <= r.size() + 2; ++loc) {
    auto got = g.candidatesAt(loc);
    e.transition();
    std::string ctx = show(r) + " at " + std::to_string(loc);
    if (r.empty() || loc > r.size()) {
      if (!got.empty()) e.fail("candidates offered outside the composition", ctx);
      continue;
    }
    size_t p = loc == r.size() ? loc - 1 : loc;
    std::multiset<std::pair<std::string, std::string>> want, have;
    std::map<std::string, size_t> wordLen, multiplicity;
    for (auto& kv : l) {
      RefNode& x = kv.second;
      if (x.start <= p && p < x.start + x.len) {
        ++multiplicity[x.reading];
        for (auto& u : x.u) {
          want.insert({x.reading, u.value});
          wordLen[x.reading] = x.len;
        }
      }
    }
    size_t prev = 99;
    for (auto& c : got) {
      have.insert({c.reading, c.value});
      auto it = wordLen.find(c.reading);
      if (it == wordLen.end()) e.fail("a candidate of no word there", ctx + ": " + c.reading + " " + c.value);
      if (it->second > prev) e.fail("a longer word comes after a shorter one", ctx + ": " + c.value);
      prev = it->second;
    }
    if (want != have) e.fail("candidate list is not complete / has extra entries", ctx + " got " + std::to_string(have.size()) + " want " + std::to_string(want.size()));
    // Each word's values: ranked order, as a block per occurrence.
    for (auto& wl : wordLen) {
      std::vector<std::string> seq;
      for (auto& c : got)
        if (c.reading == wl.first) seq.push_back(c.value);
      auto u = ranked(lm, wl.first);
      size_t k = u.size();
      for (size_t i = 0; i < seq.size(); ++i)
        if (seq[i] != u[i % k].value)
          e.fail("values of a word are not in descending score", ctx + ": " + wl.first + " " + show(seq));
    }
    std::string o;
    for (auto& c : got) o += c.value + ",";
    e.outcome(o);
  }
}

static void body(mc::Explorer& e) {
  auto lm = std::make_shared<MapLM>();
  size_t fam = e.pick(3);
  std::vector<std::string> r;
  ReadingGrid g(lm);
  if (fam == 0) {
    // Every composition over {a,b}; every word absent / one value / several values with ties, unsorted.
    // The second reading is long in bytes, so that the byte length of a word's key says nothing of its
    // length in syllables.
    const std::string B = "ㄓㄨㄤˋ";
    size_t n = e.pick(e.thorough ? 6 : 5);
    for (size_t i = 0; i < n; ++i) r.push_back(e.pick(2) ? B : "a");
    lm->m["a"] = {{"a1", -3}, {"a2", -1}, {"a3", -3}, {"a4", -1}};
    lm->m[B] = {{"b1", -2}};
    std::set<std::string> done;
    for (size_t len = 2; len <= n; ++len)
      for (size_t i = 0; i + len <= n; ++i) {
        std::string k = join(r, i, len, "-");
        if (!done.insert(k).second) continue;
        switch (e.pick(e.thorough || n < 4 ? 3 : 2)) {
          case 0: break;
          case 1: lm->m[k] = {{k + "1", -9}, {k + "2", -8}, {k + "3", -9}}; break;
          case 2: lm->m[k] = {{"a1", -9}}; break;
        }
      }
    for (auto& x : r) g.insertReading(x);
    e.note(show(r), " with ", lm->m.size(), " words");
    e.state(show(r) + std::to_string(lm->m.size()));
    checkAll(e, g, *lm, r);
  } else if (fam == 2) {
    // Hundreds of values.
    static const size_t kMany[] = {99, 100, 255, 256, 257, 1025};
    size_t k = e.pick(6);
    for (const char* w : {"a", "b", "a-b", "a-a", "b-a-b"}) {
      auto& l = lm->m[w];
      for (size_t i = 0; i < kMany[k]; ++i) l.push_back({w + std::to_string(i), -1.0 - static_cast<double>(i * 7919 % kMany[k])});
    }
    size_t n = 1 + e.pick(4);
    for (size_t i = 0; i < n; ++i) r.push_back(e.pick(2) ? "b" : "a");
    for (auto& x : r) g.insertReading(x);
    e.note(show(r), " with ", kMany[k], " values each");
    e.state(show(r) + std::to_string(k));
    checkAll(e, g, *lm, r);
  } else {
    // Words of every span length up to 7 around an edit point: type n, edit once or twice, list everywhere.
    for (size_t len = 1; len <= 7; ++len)
      for (size_t bits = 0; bits < (1u << len); ++bits) {
        std::vector<std::string> w;
        for (size_t i = 0; i < len; ++i) w.push_back((bits >> i) & 1 ? "b" : "a");
        if (len == 1 || mc::hashStr(join(w, 0, len, "")) % 4)
          lm->m[join(w, 0, len, "-")] = {{join(w, 0, len, ""), -1.0 * static_cast<double>(len)}};
      }
    size_t n = 1 + e.pick(9);
    size_t pat = e.pick(4);
    static const char* pats[] = {"aaaaaaaaaa", "abababababab", "aabbaabbaabb", "babbabbbabab"};
    for (size_t i = 0; i < n; ++i) r.emplace_back(1, pats[pat][i]);
    for (auto& x : r) g.insertReading(x);
    if (e.fresh()) checkAll(e, g, *lm, r);
    for (int d = 0; d < 2; ++d) {
      size_t op = e.pick(3);
      if (op == 2 ? r.empty() : false) e.prune();
      size_t at = e.pick(op == 2 ? r.size() : r.size() + 1);
      if (op < 2) {
        std::string x = op ? "b" : "a";
        g.setCursor(at);
        g.insertReading(x);
        r.insert(r.begin() + static_cast<ptrdiff_t>(at), x);
      } else {
        g.setCursor(at);
        g.deleteReadingAfterCursor();
        r.erase(r.begin() + static_cast<ptrdiff_t>(at));
      }
      e.note("op", op, " at ", at, " -> ", show(r));
      if (e.fresh()) {
        checkAll(e, g, *lm, r);
        e.state(show(r));
      }
    }
  }
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
