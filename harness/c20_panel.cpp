// C20: the candidate panel in smart mode: every key history in panels of one,
// two and three pages, for each key set, orientation and caret option.
#include "engine_vocab.h"

static Vocab panelVocab() {
  Vocab v;
  double s = -8.5;
  auto add = [&](std::string r, std::vector<const char*> vals) {
    for (auto x : vals) v.add(r, x, s -= 0.037);
  };
  std::string A = kSyl[0], B = kSyl[1], C = kSyl[2], D = kSyl[3];
  add(A, {"八", "巴", "扒", "叭", "芭", "疤", "笆", "捌", "吧", "粑", "鈀", "𡃁"});
  add(B, {"爬", "耙", "八", "趴"});
  add(C, {"媽", "嗎"});
  add(D, {"法", "髮"});
  s -= 6;
  add(A + "-" + B, {"巴爬", "霸怕", "芭耙", "八爬", "叭爬", "捌耙", "疤爬"});
  add(B + "-" + C, {"爬媽", "趴"});
  add(C + "-" + D, {"馬髮"});
  s -= 7;
  add(B + "-" + C + "-" + D, {"一二三四五六七八九", "甲乙丙"});
  v.add("_punctuation_<", "，", -8.11);
  v.add("_punctuation_<", "、", -8.17);
  v.add("_punctuation_list", "※", -8.19);
  v.add("_punctuation_list", "☆", -8.23);
  return v;
}
static const std::vector<std::vector<size_t>> kStarts = {{0}, {0, 1}, {1, 2, 3}, {0, 0, 1, 2}};

static void body(Explorer& e) {
  static const Vocab v = panelVocab();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  // after, move, jk, vertical, keys, how many of them
  static const int variants[][6] = {{0, 0, 0, 0, 0, 9}, {1, 1, 1, 1, 1, 9}, {0, 1, 0, 1, 2, 9}, {1, 0, 1, 0, 0, 5}, {1, 1, 0, 0, 0, 4}, {0, 0, 1, 1, 0, 9},
                                    {0, 1, 1, 0, 1, 7}, {1, 0, 0, 1, 0, 9}, {1, 0, 1, 0, 2, 6}};
  size_t variant = e.pick(e.thorough ? 9 : 4);
  auto& x = variants[variant];
  Opt o;
  o.after = x[0];
  o.move = x[1];
  o.jk = x[2];
  o.vertical = x[3];
  o.keys = x[4];
  o.count = x[5];
  size_t start = e.pick(variant == 3 && !e.thorough ? 1 : kStarts.size()), back = e.pick(kStarts[start].size() + 1), mode = e.pick(back ? 3 : 4);
  Eng g(e, o.conf(), false);
  Model m(v, o);
  std::string what = "options " + o.str() + "; ";
  auto press = [&](const Ev& k) {
    Model::St was = m.st;
    std::string textBefore = m.r.empty() ? "" : m.text();
    size_t wasOrig = m.orig;
    bool exp = m.key(k);
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    e.note(k.name, " -> ", g.view().str());
    compare(e, g, m, got, exp, what);
    if (m.st == Model::CHOOSE) {
      static const char* labels[] = {"123456789", "asdfghjkl", "asdfzxcvb"};
      View a = g.view();
      if ((int)a.labels.size() != a.shown || a.shown > o.count) e.fail("wrong number of labels", what);
      for (size_t i = 0; i < a.labels.size(); ++i)
        if (a.labels[i].empty() || a.labels[i][0] != labels[o.keys][i]) e.fail("a label does not name its key", what + ": " + a.labels[i]);
    }
    if (was == Model::CHOOSE && m.st == Model::CHOOSE && !g.view().panel) e.fail("the panel closed", what);
    if (was == Model::CHOOSE && (same(k, ESC) || same(k, BS))) {
      View a = g.view();
      if (a.pre != textBefore || (size_t)a.caret != m.offsetOf(wasOrig)) e.fail("cancelling changed the composition", what);
    }
  };
  for (size_t s : kStarts[start])
    for (auto& k : typed(s)) press(k);
  for (size_t i = 0; i < back; ++i) press(LEFT);
  if (mode == 1) {  // one word was picked before
    press(DOWN);
    if (m.st == Model::CHOOSE && m.total() > 2) press(o.keys == 0 ? charKey('3') : o.keys == 1 ? charKey('d') : charKey('d'));
    else press(RET);
  }
  if (mode == 2) {  // stepping through without a panel, all the way round and back
    bool reverse = e.pick(2);
    size_t n = e.thorough ? 32 : 24, turn = 1 + e.pick(n);
    for (size_t i = 0; i < turn; ++i) press(reverse ? STAB : TAB);
    for (size_t i = 0; i < 3; ++i) press(reverse ? TAB : STAB);
    press(RET);
    return;
  }
  if (mode == 3) press(charKey('`'));
  static std::vector<Ev> keys[3];
  if (keys[0].empty())
    for (int s = 0; s < 3; ++s) {
      for (const char* p = s == 0 ? "139" : s == 1 ? "adl" : "asb"; *p; ++p) keys[s].push_back(charKey(*p));
      for (auto& k : {LEFT, RIGHT, UP, DOWN, SPACE, PGUP, PGDN, RET, ESC, BS, SLEFT, SRIGHT, HOME, TAB, STAB, MOD, CTRLA, SRET}) keys[s].push_back(k);
      for (char c : {'j', 'k', '<', 'A'}) keys[s].push_back(charKey(c));
      keys[s].push_back(keypad('2'));
      keys[s].push_back(shiftDigit(1));
    }
  auto& ks = keys[o.keys];
  if (m.st != Model::CHOOSE) press(DOWN);
  int depth = e.thorough ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    size_t i = e.pick(ks.size());
    press(ks[i]);
    e.state(g.view().str());
    if (m.st == Model::EMPTY) return;
  }
  e.outcome(g.view().str());
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
