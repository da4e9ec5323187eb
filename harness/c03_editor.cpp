// C03: every history of editing keys against the syllable-editor model.
#include "engine_vocab.h"

static std::vector<Ev> alphabet() {
  std::vector<Ev> a = {charKey('1'), charKey('8'), charKey('3'), charKey('6'), SPACE, LEFT, RIGHT, HOME, END,
                       SLEFT, SRIGHT, SHOME, SEND, BS, DEL, ESC, TAB, STAB, MOD};
  return a;
}
static const std::vector<std::vector<int>> kStarts = {{}, {0}, {0, 1}, {0, 1, 2}, {2, 0, 1, 1}, {1, 3, 0, 1, 2}, {}};  // the last: forty syllables

static void body(Explorer& e) {
  static Vocab v = editorVocab();
  static bool installed = false;
  if (!installed) {
    install(e, v);
    installed = true;
  }
  static const std::vector<Ev> keys = alphabet();
  size_t variant = e.pick(e.thorough ? 16 : 2);
  static const int quickVariants[] = {0, 15};
  int bits = e.thorough ? (int)variant : quickVariants[variant];
  Opt o;
  o.after = bits & 1;
  o.move = bits & 2;
  o.escClears = bits & 4;
  o.lower = bits & 8;
  size_t start = e.pick(kStarts.size());
  std::vector<int> begin = kStarts[start];
  bool many = start + 1 == kStarts.size();
  if (many)
    for (int i = 0; i < 40; ++i) begin.push_back(i * 7 % 5 % 4);
  static const size_t kPlaces[] = {0, 1, 19, 39, 40};
  size_t caret = many ? kPlaces[e.pick(5)] : e.pick(begin.size() + 1);
  Eng g(e, o.conf(), false);
  Model m(v, o);
  std::string what = "options " + o.str() + "; ";
  auto press = [&](const Ev& k) {
    bool exp = m.key(k);
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    e.note(k.name, " -> ", g.view().str(), m.error ? " (error)" : "");
    compare(e, g, m, got, exp, what);
  };
  for (int s : begin)
    for (auto& k : typed(s)) press(k);
  for (size_t i = caret; i < begin.size(); ++i) press(LEFT);
  size_t pendKind = e.pick(3);
  if (pendKind == 1) press(charKey('1'));
  if (pendKind == 2) { press(charKey('q')); press(charKey('8')); }
  int depth = many ? 1 : e.thorough ? 4 : 3;
  std::string last;
  for (int d = 0; d < depth; ++d) {
    size_t n = keys.size();
    size_t i = e.pick(n + 4);
    if (i < n) press(keys[i]);
    else
      for (auto& k : typed(i - n)) press(k);
    e.state(g.view().str());
    last = std::to_string(i);
  }
  e.outcome(g.view().str());
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
