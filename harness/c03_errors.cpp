// C03: the same editing histories at the key handler, where the error
// indication can be seen.
#include "engine_vocab.h"
#include "keyhandler_common.h"

static const std::vector<std::vector<size_t>> kStarts = {{}, {0}, {0, 1}, {0, 1, 2}, {2, 0, 1, 1}, {1, 3, 0, 1, 2}};
static const Ev KEYS[] = {charKey('1'), charKey('8'), charKey('3'), charKey('6'), LEFT, RIGHT, HOME, END, SLEFT, SRIGHT, SHOME, SEND, BS, DEL, ESC, MOD, F1};

static void body(Explorer& e) {
  static const Vocab v = editorVocab();
  int bits = (int)e.pick(4);
  Opt o;
  o.after = bits & 1;
  o.escClears = bits & 2;
  size_t start = e.pick(kStarts.size());
  size_t at = e.pick(kStarts[start].size() + 1);
  size_t pend = e.pick(4);
  KH g(v, o);
  Model m(v, o);
  std::string what = "options " + o.str() + "; ";
  auto press = [&](const Ev& k) {
    auto before = m.view();
    bool exp = m.key(k);
    bool got = g.key(k);
    if (e.fresh()) e.transition();
    if (m.ambiguous) e.prune();
    what += k.name + " ";
    e.note(k.name, " -> [", g.pre, "]@", g.caret, " errors ", g.errors);
    View b = m.view();
    e.validated(1);
    std::string ctx = what + ": [" + g.pre + "]@" + std::to_string(g.caret) + " errors " + std::to_string(g.errors) + ", expected " + b.str();
    if (exp != got) e.fail("a key was passed on or swallowed", ctx);
    if (g.pre != b.pre || (!b.pre.empty() && (int)g.caret != b.caret)) e.fail("wrong composition or caret", ctx);
    if (g.commits != "" || m.commit != "") e.fail("unexpected commit", ctx);
    bool editing = same(k, LEFT) || same(k, RIGHT) || same(k, HOME) || same(k, END) || same(k, SLEFT) || same(k, SRIGHT) ||
                   same(k, SHOME) || same(k, SEND) || same(k, BS) || same(k, DEL);
    if (editing && got && m.error != (g.errors > 0))
      e.fail(m.error ? "a key that cannot act is not reported" : "error reported for a key that acted", ctx);
    if (editing && m.error && got && before.pre != g.pre && !before.marked.size()) e.fail("a key that cannot act changed the text", ctx);
  };
  for (size_t s : kStarts[start])
    for (auto& k : typed(s)) press(k);
  for (size_t i = at; i < kStarts[start].size(); ++i) press(LEFT);
  if (pend == 1) press(charKey('1'));
  if (pend == 2) { press(charKey('q')); press(charKey('8')); }
  if (pend == 3) press(charKey('6'));
  int depth = e.thorough ? 4 : 3;
  const size_t n = sizeof KEYS / sizeof *KEYS;
  for (int d = 0; d < depth; ++d) {
    size_t i = e.pick(n + 2);
    if (i < n) press(KEYS[i]);
    else
      for (auto& k : typed(i - n)) press(k);
    e.state(g.pre + "@" + std::to_string(g.caret));
  }
  e.outcome(g.pre + "@" + std::to_string(g.caret));
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
