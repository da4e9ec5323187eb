// C02: what reaches the application, over histories of typing, committing,
// discarding and leaving, against the model.
#include "engine_vocab.h"

static const std::vector<std::vector<size_t>> kStarts = {{}, {0}, {0, 1, 2}, {1, 3, 0, 2}};
static const Ev KEYS[] = {charKey('1'), SPACE, SSPACE, charKey('A'), ESC, BS, DEL, LEFT, SLEFT, RET, SRET, CRET, DOWN, charKey('<'),
                          TAB, ALTA, F1, CTRLA, END, UP, PGDN};
enum { FOCUS = 100, RESET, SWITCH, FEATURE };

static void body(Explorer& e) {
  static const Vocab v = [] {
    Vocab v = editorVocab();
    v.assoc.push_back({{"八", "爬"}, {kSyl[0], kSyl[1]}, -1});
    v.assoc.push_back({{"媽", "法"}, {kSyl[2], kSyl[3]}, -2});
    v.add("_letter_A", "a", -8.2);
    return v;
  }();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  static const int variants[] = {0, 1 + 2 + 4, 8 + 16, 2 + 8 + 32, 1 + 16 + 4, 32 + 1, 64};
  int bits = variants[e.pick(7)];
  Opt o;
  o.after = bits & 1;
  o.lower = bits & 2;
  o.escClears = bits & 4;
  o.ctrlEnter = bits & 8 ? 1 : bits & 16 ? 2 : 0;
  o.assoc = bits & 32;
  size_t start = e.pick(kStarts.size());
  size_t back = e.pick(2);
  static bool userFiles = false;
  if (userFiles) Eng::wipeUserFiles(e);
  userFiles = false;
  bool server = bits & 64;  // the pre-edit is drawn by the panel, not by the application
  Eng g(e, o.conf(), false, !server);
  Model m(v, o);
  std::string what = "options " + o.str() + "; ";
  auto press = [&](const Ev& k) {
    bool exp = m.key(k);
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    e.note(k.name, " -> ", g.view().str());
    if (m.pickedOffer >= 0) e.prune();  // C24
    userFiles = userFiles || !m.added.empty();
    compare(e, g, m, got, exp, what);
  };
  auto leave = [&](int kind) {
    View before = g.view();
    std::string shown = m.view().pre, text = m.r.empty() ? "" : m.text();
    if (m.ambiguous) e.prune();
    if (kind == FOCUS && server) e.prune();  // fcitx5 itself drops it
    if (kind == FEATURE) {  // the menu of features opens over the composition, and is left again
      if (m.st == Model::CHOOSE || m.st == Model::ASSOC) e.prune();  // a panel is open: means nothing there
      auto press = [&](const Ev& k) {
        if (!g.key(k.sym, k.st, k.code)) e.fail("a key reached the application", what + k.name);
        if (e.fresh()) e.transition();
        what += k.name + " ";
        e.note(k.name, " -> ", g.view().str());
      };
      press(ctrlKey('\\'));
      View v = g.view();
      if (!v.panel || !v.pre.empty()) e.fail("no menu of features", what + ": shows " + v.str());
      press(ESC);
      std::string c = g.takeCommits();
      std::string ctx = what + ": was showing " + before.str() + ", delivered '" + c + "', now " + g.view().str();
      e.validated(1);
      if (c != shown && c != text) e.fail("leaving did not deliver the composition once", ctx);
      if (!g.view().pre.empty() || g.view().panel) e.fail("something still shown after leaving", ctx);
      m.clearAll();
      return;
    }
    if (kind == FOCUS) g.focusOut();
    else if (kind == RESET) g.resetEvent();
    else g.switchAway();
    if (e.fresh()) e.transition();
    what += kind == FOCUS ? "focus-out " : kind == RESET ? "reset " : "switch-away ";
    std::string c = g.takeCommits();
    e.note(what, " delivered ", c);
    e.validated(1);
    if (kind == FOCUS) g.activate(false);  // the framework commits what the client shows; it is gone when the focus comes back
    std::string ctx = what + ": was showing " + before.str() + ", delivered '" + c + "', now " + g.view().str();
    if (!g.takeCommits().empty()) e.fail("text delivered on entering", ctx);
    if (kind == RESET ? !c.empty() : c != shown && c != text)
      e.fail(kind == RESET ? "a discarded composition was delivered" : "leaving did not deliver the composition once", ctx);
    if (!g.view().pre.empty() || g.view().panel) e.fail("something still shown after leaving", ctx);
    m.clearAll();
    if (kind != FOCUS) g.activate(false);
  };
  for (size_t s : kStarts[start])
    for (auto& k : typed(s)) press(k);
  if (back)
    for (size_t i = 0; i < (kStarts[start].size() + 1) / 2; ++i) press(LEFT);
  const size_t n = sizeof KEYS / sizeof *KEYS;
  int depth = e.thorough ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    size_t i = e.pick(n + 7);
    if (i < n) press(KEYS[i]);
    else if (i < n + 4) leave(FOCUS + (int)(i - n));
    else
      for (auto& k : typed(i - n - 4)) press(k);
    e.state(g.view().str());
    if (userFiles) return;  // the vocabulary changed: C21
  }
  // Nothing may reappear: type one more syllable and deliver everything.
  if (m.st != Model::CHOOSE) {
    for (auto& k : typed(3)) press(k);
    if (m.st == Model::INPUT) press(RET);
  }
  e.outcome(g.view().str());
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
