// C28: what the input method learns from the user's choices and where it
// applies it, in the whole engine under a controlled clock.
#include <sys/time.h>
#include <chrono>
#include "engine_model.h"

static double gNow = 1700000000.0;  // seconds
extern "C" int gettimeofday(struct timeval* t, void*) {
  t->tv_sec = (time_t)gNow;
  t->tv_usec = 0;
  return 0;
}
extern "C" time_t time(time_t* p) {
  if (p) *p = (time_t)gNow;
  return (time_t)gNow;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(std::chrono::seconds((long long)gNow))); }
} } }

static const char *A = "ㄅㄚ", *B = "ㄆㄚˇ";
static Vocab learnVocab() {
  Vocab v;
  std::string a = A, b = B;
  v.add(a, "八", -3.13);
  v.add(a, "巴", -4.41);
  v.add(a, "扒", -9.5);  // rare: never learned
  v.add(b, "爬", -2.71);
  v.add(b, "耙", -6.53);
  v.add(a + "-" + b, "巴爬", -6.37);
  v.add(a + "-" + b, "霸怕", -7.87);
  v.add(a + "-" + b, "罷怕", -9.9);
  v.add(b + "-" + a, "爬八", -5.03);
  v.add(a + "-" + b + "-" + a, "甲乙丙", -7.57);
  v.add(a + "-" + b + "-" + a + "-" + b, "子丑寅卯", -7.93);  // too long to be learned
  v.add("_punctuation_<", "，", -1.07);
  v.add("_punctuation_<", "、", -2.03);
  return v;
}
static std::vector<Ev> typed(size_t s) {  // 0 A, 1 B, 2 punctuation
  if (s == 0) return {charKey('1'), charKey('8'), SPACE};
  if (s == 1) return {charKey('q'), charKey('8'), charKey('3')};
  return {charKey('<')};
}

// The preferences: per context, how often and when each choice was made.
// The chance of a choice halves every hour and a half and is nothing after
// twenty halvings.
struct Learned {
  struct O {
    size_t n = 0;
    double t = 0;
    bool force = false;
  };
  struct K {
    size_t total = 0;
    std::map<std::string, O> o;
  };
  std::map<std::string, K> m;
  void observe(const std::string& k, const std::string& c, bool f) {
    K& x = m[k];
    ++x.total;
    O& o = x.o[c];
    ++o.n;
    o.t = gNow;
    o.force = f;
  }
  // The best choice; unclear: a tie, or too close to fading away.
  bool suggest(const std::string& k, std::string* c, bool* force, bool* unclear) const {
    *unclear = false;
    auto it = m.find(k);
    if (it == m.end()) return false;
    double best = 0;
    for (auto& kv : it->second.o) {
      double gens = (gNow - kv.second.t) / 5400;
      if (std::fabs(gens - 20) < 0.05) *unclear = true;
      if (gens > 20) continue;
      double s = (double)kv.second.n / (double)it->second.total * std::exp2(-gens);
      if (best > 0 && std::fabs(s - best) < 1e-9 * best) *unclear = true;
      if (s > best) {
        if (s > best * (1 + 1e-9)) *unclear = false;
        best = s;
        *c = kv.first;
        *force = kv.second.force;
      }
    }
    return best > 0;
  }
};

class LearnModel : public Model {
 public:
  Learned learned;
  bool unclear = false;
  using Model::Model;
  bool learns() const override { return true; }
  static const Piece* at(const std::vector<Piece>& w, size_t pos) {
    for (auto& p : w)
      if (p.start <= pos && pos < p.start + p.len) return &p;
    return nullptr;
  }
  static std::string valueOf(const Piece& p, const Vocab& v, const std::vector<Pick>& picks) {
    for (auto& x : picks)
      if (x.start == p.start && x.len == p.len) return x.value;
    return v.get(p.reading)[0].first;
  }
  // The word itself (not which value it has) and up to two words before it,
  // back to punctuation.
  std::string context(const std::vector<Piece>& w, const Piece& head, const std::vector<Pick>& picks) const {
    std::string s = head.reading;
    size_t i = (size_t)(&head - w.data());
    for (int k = 0; k < 2 && i > 0; ++k) {
      --i;
      if (w[i].reading[0] == '_') break;
      s += "|" + w[i].reading + "=" + valueOf(w[i], v, picks);
    }
    return s;
  }
  void pinned(const std::vector<Piece>& before, const std::vector<Pick>& picksBefore, size_t pos) override {
    auto after = walk();
    const Piece* now = at(after, pos);
    double score = -99;
    for (auto& u : v.get(now->reading))
      if (u.first == now->value) score = u.second;
    if (score <= -8 || now->len > 3) return;
    const Piece* old = at(before, now->start + now->len - 1);
    bool breaking = now->len == 1 && old->len > 1;
    std::string k = breaking ? context(after, *now, picks) : context(before, *old, picks);
    // Earlier choices undone by this one: whether they belong to the context is not specified.
    if (!breaking && k != context(before, *old, picksBefore)) unclear = true;
    learned.observe(k, now->value, now->len > old->len);
  }
  void typedSyllable() override {
    size_t pos = actual(cur);
    auto w = walk();
    const Piece* n = at(w, pos);
    for (auto& p : picks)
      if (p.start == n->start && p.len == n->len) return;  // a word already chosen stays
    std::string c;
    bool force = false, u = false;
    bool some = learned.suggest(context(w, *n, picks), &c, &force, &u);
    unclear = unclear || u;
    if (!some) return;
    for (auto& x : candidatesAtOrder(pos))
      for (auto& g : v.get(x.reading))
        if (g.first == c) {
          setPick({x.start, x.len, x.reading, c, !force});
          return;
        }
  }
};

static void body(Explorer& e) {
  static const Vocab v = learnVocab();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  gNow = 1700000000.0;
  size_t family = e.pick(5);
  Opt o;
  o.after = e.pick(2);
  o.escClears = true;
  Eng g(e, o.conf(), false);
  LearnModel m(v, o);
  std::string what = "options " + o.str() + "; ";
  auto press = [&](const Ev& k) {
    bool exp = m.key(k);
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    e.note(k.name, " -> ", g.view().str());
    if (m.unclear) e.prune();
    compare(e, g, m, got, exp, what);
  };
  auto type = [&](size_t s) {
    for (auto& k : typed(s)) press(k);
  };
  auto wait = [&](double hours) {
    gNow += hours * 3600;
    what += "wait " + str(hours) + "h ";
    e.note("wait ", hours, " hours");
  };
  auto pickEntry = [&](int n) {  // entry n of the panel at the caret
    press(DOWN);
    if ((size_t)n > m.cands.size()) e.prune();
    press(charKey((char)('0' + n)));
  };
  auto sequence = [&](size_t max) {
    std::vector<size_t> s(1 + e.pick(max));
    for (auto& x : s) x = e.pick(3);
    return s;
  };
  auto finish = [&] {
    e.state(g.view().str());
    e.outcome(g.view().str());
  };
  if (family == 0) {  // choose once (or twice), then type something
    auto s1 = sequence(3);
    for (size_t x : s1) type(x);
    size_t back = e.pick(s1.size() + 1);
    for (size_t i = 0; i < back; ++i) press(LEFT);
    size_t way = e.pick(7);
    if (way < 5) pickEntry((int)way + 2);
    else press(way == 5 ? TAB : STAB);
    if (e.thorough && e.pick(2)) {
      press(e.pick(2) ? HOME : END);
      press(TAB);
    }
    press(e.pick(2) ? RET : ESC);
    static const double waits[] = {0, 2, 31};
    wait(waits[e.pick(3)]);
    auto s2 = sequence(3);
    size_t last = e.pick(s2.size());  // where the last syllable typed goes
    for (size_t i = 0; i + 1 < s2.size(); ++i) type(s2[i]);
    for (size_t i = 0; i < last; ++i) press(LEFT);
    type(s2.back());
    press(RET);
    finish();
  } else if (family == 1) {  // anything
    int depth = e.thorough ? 6 : 5;
    for (int d = 0; d < depth; ++d) {
      size_t i = e.pick(12);
      if (i < 3) type(i);
      else if (i == 3) press(TAB);
      else if (i == 4) press(LEFT);
      else if (i == 5) press(HOME);
      else if (i == 6) press(RET);
      else if (i == 7) wait(2);
      else if (i == 8) wait(31);
      else if (i == 9) press(BS);
      else if (i == 10) { if (m.st != Model::INPUT) e.prune(); pickEntry(2); }
      else {
        std::string shown = m.view().pre;
        g.focusOut();
        if (g.takeCommits() != shown) e.fail("leaving did not deliver the composition once", what);
        m.clearAll();
        g.activate(false);
        what += "focus-out ";
      }
      e.state(g.view().str());
    }
    finish();
  } else if (family == 2) {  // how often against how long ago
    static const double waits[] = {0, 1.5, 6};
    int rounds = e.thorough ? 5 : 4;
    bool other = e.pick(2);  // a word of one syllable or of two
    for (int d = 0; d < rounds; ++d) {
      type(0);
      if (other) type(1);
      pickEntry(1 + (int)e.pick(other ? 4 : 2));
      press(RET);
      wait(waits[e.pick(3)]);
    }
    type(0);
    if (other) type(1);
    press(TAB);
    finish();
  } else if (family == 3) {  // words already chosen stay when something is typed next to them
    auto s1 = sequence(e.thorough ? 3 : 2);
    for (size_t x : s1) type(x);
    size_t back = e.pick(s1.size() + 1);
    for (size_t i = 0; i < back; ++i) press(LEFT);
    press(e.pick(2) ? TAB : STAB);
    press(RET);
    auto s2 = sequence(2);
    for (size_t x : s2) type(x);
    size_t back2 = e.pick(s2.size() + 1);
    for (size_t i = 0; i < back2; ++i) press(LEFT);
    pickEntry(1 + (int)e.pick(5));
    size_t to = e.pick(s2.size() + 1);
    press(HOME);
    for (size_t i = 0; i < to; ++i) press(RIGHT);
    type(e.pick(2));
    press(RET);
    finish();
  } else {  // the plain input method neither learns nor uses what was learned
    bool first = e.pick(2);
    auto plain = [&](int n) {
      g.activate(true);
      what += "plain: ";
      for (auto& k : typed(0)) g.key(k.sym, k.st, k.code);
      e.transition();
      View x = g.view();
      std::vector<std::string> want = {"八", "巴", "扒"};
      if (x.cands != want || x.cursor != 0) e.fail("plain mode does not list the vocabulary's order", what + x.str());
      Ev k = charKey((char)('0' + n));
      g.key(k.sym, k.st, k.code);
      std::string c = g.takeCommits();
      if (c != want[(size_t)n - 1]) e.fail("plain mode delivers another choice", what + c);
      e.note("plain ", n, " ", c);
      what += std::to_string(n) + "; ";
      e.validated(1);
      g.activate(false);
    };
    int rounds = e.thorough ? 5 : 4;
    if (first) plain(2);
    for (int d = 0; d < rounds; ++d) {
      size_t i = e.pick(6);
      if (i < 3) plain((int)i + 1);
      else {
        type(0);
        if (i < 5) pickEntry((int)i - 2);
        press(RET);
      }
      wait(0.25);
    }
    type(0);
    press(RET);
    finish();
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
