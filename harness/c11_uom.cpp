// C11: learned preferences vs a plain recency/decay reference, over all histories to the bound.
#include <algorithm>
#include <cmath>
#include <map>

#include "UserOverrideModel.h"
#include "grid_common.h"

using McBopomofo::UserOverrideModel;

namespace {
constexpr double H = 5400;

struct Ref {
  struct O {
    size_t n = 0;
    double t = 0;
    bool force = false;
  };
  struct K {
    std::string key;
    size_t total = 0;
    std::map<std::string, O> o;
  };
  size_t cap;
  std::vector<K> recent;  // most recently learned first
  void observe(const std::string& k, const std::string& c, double t, bool f) {
    K x;
    x.key = k;
    for (size_t i = 0; i < recent.size(); ++i)
      if (recent[i].key == k) {
        x = recent[i];
        recent.erase(recent.begin() + static_cast<ptrdiff_t>(i));
        break;
      }
    ++x.total;
    O& o = x.o[c];
    ++o.n;
    o.t = t;
    o.force = f;
    recent.insert(recent.begin(), x);
    if (recent.size() > cap) recent.pop_back();
  }
  // All acceptable answers (exact ties allowed); empty = no suggestion.
  std::vector<std::pair<std::string, bool>> suggest(const std::string& k, double t, bool& borderline) const {
    std::vector<std::pair<std::string, bool>> out;
    borderline = false;
    for (const K& x : recent) {
      if (x.key != k) continue;
      double best = 0;
      for (auto& kv : x.o) {
        double gens = (t - kv.second.t) / H;
        if (std::abs(gens - 20.0) < 1e-6) borderline = true;
        if (gens > 20.0) continue;
        double s = static_cast<double>(kv.second.n) / static_cast<double>(x.total) * std::exp2(-gens);
        if (s > best * (1 + 1e-9)) {
          best = s;
          out.clear();
        }
        if (s >= best * (1 - 1e-9)) out.emplace_back(kv.first, kv.second.force);
      }
    }
    return out;
  }
};

void histories(mc::Explorer& e) {
  size_t cap = 1 + e.pick(3);
  UserOverrideModel uom(cap, H);
  Ref ref;
  ref.cap = cap;
  double now = 1657772432;
  static const char* keys[] = {"k1", "k2", "k3", "k4"};
  static const double steps[] = {0, H / 4, 3 * H, 19.5 * H, 21 * H};
  int depth = e.thorough ? 7 : 6;
  for (int d = 0; d < depth; ++d) {
    size_t op = e.pick(cap + 1 + 1 + (d ? 4 : 0) + 1);
    if (op < cap + 1) {
      // observe a (fresh context order: a context index at most one above the highest used keeps histories distinct)
      uom.observe(keys[op], "a", now);
      ref.observe(keys[op], "a", now, false);
      e.note("learn ", keys[op], "=a");
    } else if (op == cap + 1) {
      uom.observe(keys[0], "b", now, true);
      ref.observe(keys[0], "b", now, true);
      e.note("learn k1=b(force)");
    } else if (op == cap + 2) {
      uom.observe(keys[1], "b", now);
      ref.observe(keys[1], "b", now, false);
      e.note("learn k2=b");
    } else {
      size_t i = op - cap - 2;
      now += steps[i];
      e.note("wait ", steps[i] / H, " half-lives");
    }
    e.transition();
    if (!e.fresh()) continue;
    std::string sig;
    for (const char* k : {"k1", "k2", "k3", "k4", "k", ""})
      for (double dt : {0.0, 0.3 * H, 5 * H, 19.9 * H, 20.4 * H}) {
        bool border;
        auto want = ref.suggest(k, now + dt, border);
        auto got = uom.suggest(std::string(k), now + dt);
        sig += got.candidate + (got.forceHighScoreOverride ? "!" : "") + ",";
        if (border) continue;
        bool ok = want.empty() ? got.empty() : false;
        for (auto& w : want) ok = ok || (w.first == got.candidate && w.second == got.forceHighScoreOverride);
        if (got.empty() && got.forceHighScoreOverride) ok = false;
        if (!ok)
          e.fail("suggestion differs from the reference", std::string("context ") + k + " after " + std::to_string(dt / H) + " half-lives: got '" + got.candidate + "' want " + (want.empty() ? "none" : want[0].first) + " capacity " + std::to_string(cap));
      }
    e.state(sig);
    e.outcome(sig);
  }
}
}  // namespace

// The context of a word in a conversion: the word's reading and top value, and up to two words before it back to
// the last punctuation.
struct Ctx {
  std::string head, prev, ante;
  bool operator==(const Ctx& o) const { return head == o.head && prev == o.prev && ante == o.ante; }
};
static Ctx contextOf(const ReadingGrid::WalkResult& w, size_t idx) {
  Ctx c;
  c.head = w.nodes[idx]->reading() + "\x01" + w.nodes[idx]->unigrams()[0].value();
  auto show1 = [&](size_t i) { return w.nodes[i]->reading() + "\x01" + w.nodes[i]->currentUnigram().value(); };
  auto punct = [&](size_t i) { return w.nodes[i]->reading()[0] == '_'; };
  if (idx >= 1 && !punct(idx - 1)) {
    c.prev = show1(idx - 1);
    if (idx >= 2 && !punct(idx - 2)) c.ante = show1(idx - 2);
  }
  return c;
}

static std::shared_ptr<MapLM> vocab() {
  auto lm = std::make_shared<MapLM>();
  lm->m["a"] = {{"A", -3.13}, {"A2", -4.41}};
  lm->m["b"] = {{"B", -2.71}, {"B2", -6.53}};
  lm->m["a-b"] = {{"AB", -6.37}, {"AB2", -9.01}};
  lm->m["b-a"] = {{"BA", -5.03}};
  lm->m["a-b-a"] = {{"ABA", -8.57}};
  lm->m["a-b-a-b"] = {{"ABAB", -13.3}};
  lm->m["_p"] = {{"，", -1}, {"、", -2}};
  return lm;
}
static void fill(ReadingGrid& g, const std::vector<std::string>& r) {
  for (auto& x : r) g.insertReading(x);
}
static size_t nodeIndexAt(const ReadingGrid::WalkResult& w, size_t cursor) {
  size_t total = w.totalReadings, t = cursor >= total ? total - 1 : cursor, acc = 0;
  for (size_t i = 0; i < w.nodes.size(); ++i) {
    acc += w.nodes[i]->spanningLength();
    if (acc > t) return i;
  }
  return w.nodes.size() - 1;
}

static void contexts(mc::Explorer& e) {
  static auto lm = vocab();
  static const char* syl[] = {"a", "b", "_p"};
  auto comp = [&](size_t maxn) {
    std::vector<std::string> r;
    size_t n = 1 + e.pick(maxn);
    for (size_t i = 0; i < n; ++i) r.push_back(syl[e.pick(3)]);
    return r;
  };
  auto r = comp(4);
  ReadingGrid g(lm);
  fill(g, r);
  auto before = g.walk();
  size_t cursor = e.pick(r.size() + 1);
  auto cands = g.candidatesAt(cursor);
  size_t ci = e.pick(cands.size());
  g.overrideCandidate(cursor, cands[ci]);
  auto after = g.walk();
  UserOverrideModel uom(10, H);
  uom.observe(before, after, cursor, 1000);
  e.transition();
  e.note(show(r), " pick ", cands[ci].value, " at ", cursor);
  // What must have been learned.
  size_t ai = nodeIndexAt(after, cursor);
  size_t past = 0;
  for (size_t i = 0; i <= ai; ++i) past += after.nodes[i]->spanningLength();
  size_t bi = nodeIndexAt(before, past - 1);
  bool learned = after.nodes[ai]->spanningLength() <= 3;
  bool breakUp = after.nodes[ai]->spanningLength() == 1 && before.nodes[bi]->spanningLength() > 1;
  bool force = after.nodes[ai]->spanningLength() > before.nodes[bi]->spanningLength();
  Ctx want = breakUp ? contextOf(after, ai) : contextOf(before, bi);
  std::string value = after.nodes[ai]->value();
  // Ask in every composition, at every place, with and without another word overridden before.
  size_t hits = 0;
  for (size_t n = 1; n <= (e.thorough ? 4u : 3u); ++n) {
    size_t tot = 1;
    for (size_t i = 0; i < n; ++i) tot *= 3;
    for (size_t code = 0; code <= tot; ++code) {
      std::vector<std::string> q;
      size_t x = code;
      for (size_t i = 0; i < n; ++i, x /= 3) q.push_back(syl[x % 3]);
      if (code == tot) q = r;
      ReadingGrid h(lm);
      fill(h, q);
      auto w = h.walk();
      for (size_t c = 0; c <= q.size(); ++c) {
        size_t qi = nodeIndexAt(w, c);
        auto s = uom.suggest(w, c, 1000);
        e.evaluations(1);
        bool expect = learned && contextOf(w, qi) == want;
        if (expect) ++hits;
        if (expect != !s.empty())
          e.fail(expect ? "a learned choice is not suggested in its context" : "a choice is suggested in another context",
                 show(r) + " pick " + value + " at " + std::to_string(cursor) + "; asked " + show(q) + " at " + std::to_string(c) + " got '" + s.candidate + "'");
        if (expect && (s.candidate != value || s.forceHighScoreOverride != force))
          e.fail("another choice than the learned one is suggested", show(r) + " pick " + value + " got " + s.candidate);
      }
    }
  }
  e.outcome(std::to_string(hits) + value);
  e.state(show(r) + std::to_string(cursor) + value);
  // Degenerate calls change nothing.
  ReadingGrid empty(lm);
  auto ew = empty.walk();
  uom.observe(ew, after, 0, 1001);
  uom.observe(before, ew, 0, 1001);
  uom.observe(before, after, 99, 1001);
}

static void body(mc::Explorer& e) {
  if (e.pick(2) == 0) histories(e);
  else contexts(e);
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
