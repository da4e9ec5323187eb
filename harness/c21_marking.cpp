// C21: marking part of the composition and adding it as a phrase.
#include "engine_vocab.h"
#include "keyhandler_common.h"

static Vocab markVocab() {
  Vocab v = editorVocab();
  v.add("_punctuation_<", "、", -8.37);
  return v;
}
static const std::vector<std::vector<size_t>> kStarts = {{0, 1}, {0, 1, 2}, {3, 1, 3, 0}, {1, 2, 9, 0, 2}, {0, 0, 1, 2, 3, 0, 1, 3}};
static std::vector<Ev> keysOf(size_t s) { return s == 9 ? std::vector<Ev>{charKey('<')} : typed(s); }

// Histories at the key handler, where additions and errors are visible.
static void handlerLevel(Explorer& e) {
  static const Vocab v = markVocab();
  Opt o;
  size_t bits = e.pick(2);
  o.after = bits & 1;
  o.escClears = bits & 1;
  size_t start = e.pick(kStarts.size()), back = e.pick(kStarts[start].size() + 1);
  KH g(v, o);
  Model m(v, o);
  std::string what = "options " + o.str() + "; ";
  auto press = [&](const Ev& k) {
    size_t before = m.added.size();
    bool wasMark = m.st == Model::MARK;
    std::string textWas = m.r.empty() ? "" : m.text();
    bool exp = m.key(k);
    bool got = g.key(k);
    if (e.fresh()) e.transition();
    if (m.ambiguous) e.prune();
    View b = m.view();
    auto* mk = g.marking();
    what += k.name + " ";
    std::string ctx = what + ": [" + g.pre + "]@" + std::to_string(g.caret) + (mk ? " marked " + mk->head + "|" + mk->markedText + "|" + mk->tail + " " + mk->reading : "") +
                      " errors " + std::to_string(g.errors) + ", expected " + b.str();
    e.note(k.name, " -> ", ctx.substr(what.size()));
    e.validated(1);
    if (exp != got) e.fail("a key was passed on or swallowed", ctx);
    if (g.pre != b.pre || (!b.pre.empty() && (int)g.caret != b.caret)) e.fail("wrong composition or caret", ctx);
    if ((mk != nullptr) != (m.st == Model::MARK)) e.fail("wrongly marking or not", ctx);
    if (mk) {
      if (mk->head + mk->markedText + mk->tail != m.text()) e.fail("the parts do not make up the composition", ctx);
      if (mk->markedText != b.marked || mk->head.size() != b.markAt) e.fail("wrong text marked", ctx);
      size_t x = std::min(m.markStart, m.cur), y = std::max(m.markStart, m.cur);
      if (mk->reading != joinR(m.r, x, y)) e.fail("wrong readings marked", ctx);
      if (mk->acceptable != m.markAcceptable()) e.fail("wrongly acceptable or not", ctx);
      if (g.tooltip.find(b.marked) == std::string::npos) e.fail("the hint does not show the marked text", ctx);
    }
    if (g.adder->added.size() != m.added.size()) e.fail("wrongly added or not", ctx);
    if (m.added.size() > before) {
      if (g.adder->added.back().first != m.added.back().reading || g.adder->added.back().second != m.added.back().phrase)
        e.fail("wrong phrase added", ctx + " added " + g.adder->added.back().second + " " + g.adder->added.back().first);
      if (g.phraseNotes != (int)m.added.size()) e.fail("the addition was not announced once", ctx);
    }
    if (wasMark && same(k, RET)) {
      if (m.added.size() == before && !g.errors) e.fail("a refused phrase is not reported", ctx);
      if (g.pre != textWas) e.fail("accepting changed the composition", ctx);
    }
    if (g.commits != m.commit && g.commits != m.commitAlt) e.fail("wrong text delivered", ctx + " delivered " + g.commits);
    g.commits.clear();
  };
  for (size_t s : kStarts[start])
    for (auto& k : keysOf(s)) press(k);
  for (size_t i = 0; i < back; ++i) press(LEFT);
  static const Ev KEYS[] = {SLEFT, SRIGHT, SHOME, SEND, LEFT, RIGHT, RET, ESC, BS, DEL, MOD, HOME, END, charKey('<'), TAB, charKey('A')};
  const size_t n = sizeof KEYS / sizeof *KEYS;
  int depth = e.thorough ? 5 : bits ? 3 : 4;
  for (int d = 0; d < depth; ++d) {
    size_t i = e.pick(n + 1);
    if (i < n) press(KEYS[i]);
    else
      for (auto& k : typed(0)) press(k);
    e.state(what.substr(0, 0) + g.pre + "@" + std::to_string(g.caret) + (g.marking() ? "m" + g.marking()->markedText : ""));
    if (m.st == Model::EMPTY) break;
  }
  e.outcome(g.pre + "@" + std::to_string(g.caret));
}

static std::string slurp(const std::string& p) {
  std::ifstream i(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), {});
}

// Every marked range, accepted in the whole engine with the real files.
static void engineLevel(Explorer& e) {
  static Vocab v = markVocab();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  Opt o;
  o.after = e.pick(2);
  size_t start = e.pick(kStarts.size()), n = kStarts[start].size(), from = e.pick(n + 1), to = e.pick(n + 1);
  bool client = e.pick(2);
  Eng::wipeUserFiles(e);
  auto g = std::make_unique<Eng>(e, o.conf(), false, client);
  Model m(v, o);
  std::string file = e.scratch + "/data/fcitx5/mcbopomofo/data.txt", what = "options " + o.str() + "; ";
  std::string before = slurp(file);
  auto press = [&](const Ev& k) {
    bool exp = m.key(k), got = g->key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    e.note(k.name, " -> ", g->view().str());
    compare(e, *g, m, got, exp, what);
  };
  for (size_t s : kStarts[start])
    for (auto& k : keysOf(s)) press(k);
  while (m.cur > from) press(LEFT);
  while (m.cur > to) press(SLEFT);
  while (m.cur < to) press(SRIGHT);
  if (m.st != Model::MARK) return;
  size_t a = std::min(from, to), b = std::max(from, to);
  View mk = g->view();
  if (g->view().aux.find(mk.marked) == std::string::npos) e.fail("the hint does not show the marked text", what);
  press(RET);
  std::string after = slurp(file);
  if (m.added.empty()) {
    if (after != before) e.fail("a refused phrase was saved", what);
    return;
  }
  std::string line = mk.marked + " " + joinR(m.r, a, b) + "\n";
  if (after != before + line && after != before + "\n" + line) e.fail("the file does not end with the new phrase", what + ": " + mc::quote(after));
  // It is offered right away, and after a restart.
  std::vector<size_t> sylls(kStarts[start].begin() + (ptrdiff_t)a, kStarts[start].begin() + (ptrdiff_t)b);
  for (int round = 0; round < 2; ++round) {
    if (round) g = std::make_unique<Eng>(e, o.conf(), false, client);
    else {
      g->resetEvent();
      g->takeCommits();
    }
    for (size_t s : sylls)
      for (auto& k : keysOf(s)) g->key(k.sym, k.st, k.code);
    if (g->view().pre != mk.marked) e.fail(round ? "the phrase is gone after a restart" : "the phrase is not used", what + ": shows " + g->view().pre);
    g->key(FcitxKey_Down);
    View p = g->view();
    if (p.cands.empty() || p.cands[0].compare(0, mk.marked.size(), mk.marked)) e.fail("the phrase is not offered first", what + ": " + p.str());
    if (std::count(p.cands.begin(), p.cands.end(), mk.marked) > 1) e.fail("the phrase is offered twice", what + ": " + p.str());
  }
  e.outcome(line);
}
static void body(Explorer& e) { e.pick(2) ? engineLevel(e) : handlerLevel(e); }
int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
