// C18 through the whole engine: what is typed and what the panel lists follow
// the user's files, over every history of edits and activations.
#include <fcntl.h>
#include <sys/stat.h>
#include "engine_vocab.h"

using Pairs = std::vector<std::pair<std::string, std::string>>;
static const std::string A = kSyl[0], B = kSyl[1], AB = A + "-" + B;
static const std::vector<Pairs> kFile[3] = {
    {{}, {{"我", A}}, {{"庚辛", AB}, {"乙", A}, {"戊己", AB}}},
    {{}, {{"甲", A}}, {{"戊己", AB}, {"我", A}}},
    {{}, {{"乙", "丑"}}, {{"我", "乙"}, {"丙", "寅"}}}};
using Scored = std::vector<std::pair<std::string, double>>;
static Scored base(const std::string& r) {
  if (r == A) return {{"甲", -9.01}, {"乙", -9.52}};
  if (r == B) return {{"丙", -9.13}, {"丁", -9.77}};
  return {{"戊己", -14.07}};
}
// The words of a reading in order, and the score of the first.
static std::vector<std::string> expected(const std::string& r, const Pairs* f, double* best) {
  Scored v;
  std::vector<std::string> out;
  bool own = false, others = false;
  for (auto& p : f[0])
    if (p.second == r) v.push_back({p.first, 0});
  for (auto& b : base(r)) v.push_back(b);
  for (auto& [s, score] : v) {
    bool ex = false;
    for (auto& p : f[1]) ex |= p.second == r && p.first == s;
    if (ex) continue;
    std::string t = s;
    for (auto& p : f[2])
      if (p.first == s) t = p.second;
    if (std::find(out.begin(), out.end(), t) != out.end()) continue;
    // A word of the user's of one syllable scores as the best of the others do.
    if (score < 0 && !others) others = true, *best = score;
    if (out.empty() && score == 0) own = true;
    out.push_back(t);
  }
  if (own && (r == AB || !others)) *best = 0;
  return out;
}
static std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x + " ";
  return s;
}

static void body(Explorer& e) {
  std::string sys = e.scratch + "/sysdata/fcitx5/data/", user = e.scratch + "/data/fcitx5/mcbopomofo/";
  static bool installed = false;
  if (!installed) {
    Vocab v;
    v.add(A, "甲", -9.01);
    v.add(A, "乙", -9.52);
    v.add(B, "丙", -9.13);
    v.add(B, "丁", -9.77);
    v.add(AB, "戊己", -14.07);
    install(e, v);
    installed = true;
  }
  static const char* names[] = {"data.txt", "exclude-phrases.txt", "phrases-replacement.txt"};
  static int64_t stamp = 0;
  std::string what;
  size_t now[3];
  auto put = [&](int i, size_t k) {
    now[i] = k;
    std::string p = user + names[i];
    std::filesystem::remove(p);
    if (k == 0 && i == 2) return;
    std::ofstream o(p, std::ios::trunc);
    for (auto& l : kFile[i][k]) o << l.first << " " << l.second << "\n";
    o.close();
    struct timespec t[2];
    t[0].tv_sec = t[1].tv_sec = 1600000000 + (time_t)((++stamp * 7919) % 1000003);
    t[0].tv_nsec = t[1].tv_nsec = 5;
    utimensat(AT_FDCWD, p.c_str(), t, 0);
    what += std::string("[") + names[i] + " " + std::to_string(k) + "] ";
  };
  std::filesystem::create_directories(user);
  for (int i = 0; i < 3; ++i) put(i, e.pick(2));
  Pairs loaded[3];
  auto load = [&] {
    for (int i = 0; i < 3; ++i) loaded[i] = kFile[i][now[i]];
  };
  std::unique_ptr<Eng> g;
  auto start = [&] {
    g.reset();
    g = std::make_unique<Eng>(e, Conf{}, false);
    load();
  };
  auto press = [&](const Ev& k) { g->key(k.sym, k.st, k.code); };
  auto offered = [&] {
    press(SPACE);
    View v = g->view();
    press(ESC);
    return v.cands;
  };
  bool backwards = false;
  auto probe = [&] {
    double sa = 0, sb = 0, sab = 0;
    std::vector<std::string> a = expected(A, loaded, &sa), b = expected(B, loaded, &sb), ab = expected(AB, loaded, &sab);
    auto same = [&](const std::string& where, const std::vector<std::string>& got, std::vector<std::string> want, const std::vector<std::string>& more) {
      want.insert(want.end(), more.begin(), more.end());
      if (got != want) e.fail("candidates do not reflect the files", what + where + ": " + join(got) + "expected " + join(want));
    };
    if (a.empty()) {  // nothing left for the first syllable
      for (auto& k : typed(0)) press(k);
      if (!g->view().pre.empty()) e.fail("candidates do not reflect the files", what + "a syllable with no words is accepted");
    } else {
      for (auto& k : typed(0)) press(k);
      if (g->view().pre != a[0]) e.fail("the conversion does not reflect the files", what + g->view().pre + " expected " + a[0]);
      // Alternately in one order and the other, so that a list is also asked
      // for twice running with an edit in between.
      bool back = backwards;
      backwards = !backwards;
      if (!back) same("first syllable", offered(), a, {});
      for (auto& k : typed(1)) press(k);
      std::string want = ab.empty() || sab < sa + sb ? a[0] + b[0] : ab[0];
      if (g->view().pre != want) e.fail("the conversion does not reflect the files", what + g->view().pre + " expected " + want);
      if (!back) same("at the end", offered(), ab, b);
      press(HOME);
      same("in front", offered(), ab, a);
      if (back) press(END), same("at the end", offered(), ab, b);
      press(RET);
      if (g->takeCommits() != want) e.fail("the conversion does not reflect the files", what + "delivered otherwise");
      if (back) {
        for (auto& k : typed(0)) press(k);
        same("first syllable", offered(), a, {});
        press(RET);
        if (g->takeCommits() != a[0]) e.fail("the conversion does not reflect the files", what + "delivered otherwise");
      }
    }
    e.transition();
    e.validated(4);
    e.outcome(join(a) + join(b) + join(ab));
    g->takeCommits();
  };
  what += "start. ";
  start();
  probe();
  size_t depth = e.thorough ? 5 : 4;
  bool moved = false;
  for (size_t i = 0; i < depth; ++i) {
    size_t op = i + 1 == depth ? 9 : e.pick(12);
    if (op < 9) {
      if (now[op / 3] == op % 3) e.prune();
      put(op / 3, op % 3);
      moved = true;
    } else {
      if (!moved && op != 11) e.prune();
      if (op == 9) g->focusOut(), g->activate(false), what += "focus. ";
      if (op == 10) g->switchAway(), g->activate(true), g->switchAway(), g->activate(false), what += "plain and back. ";
      if (op == 11) what += "restart. ", start();
      load();
      moved = false;
    }
    std::string st;
    for (int j = 0; j < 3; ++j) {
      st += std::to_string(now[j]);
      for (auto& p : loaded[j]) st += p.first + p.second;
    }
    e.state(st);
    // Until the next activation what was loaded stays in force.
    probe();
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
