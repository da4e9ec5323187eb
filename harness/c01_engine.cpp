// C01: from every kind of state, under several settings, every sequence of
// events: nothing crashes, what is shown is well-formed, nothing is hidden.
// Built with ASan, UBSan and library assertions.
#include <fcitx/action.h>
#include <fcitx/userinterfacemanager.h>
#include "engine_vocab.h"

namespace fcitx {
void startProcess(const std::vector<std::string>&, const std::string&) {}  // nothing is started
}  // namespace fcitx

static Vocab vocab() {
  Vocab v = editorVocab();
  double s = -8.5;
  std::string A = kSyl[0], B = kSyl[1], C = kSyl[2], D = kSyl[3];
  const char* many[] = {"一", "二", "三", "四", "五", "六", "七", "九", "十", "百", "千", "萬", "億", "兆", "京", "𡃁", "垓", "秭", "穰", "溝"};
  for (auto x : many) v.add(C, x, s -= 0.51);
  v.add(C + "-" + D, "一二三四五六七八九", -15.93);
  v.add("_punctuation_list", "※", -8.1);
  v.add("_punctuation_list", "☆", -8.2);
  v.add("_punctuation_Standard_<", "，", -8.3);
  v.add("_punctuation_<", "、", -8.35);
  v.add("_half_punctuation_<", "<", -8.4);
  v.add("_ctrl_punctuation_,", "〈", -8.4);
  v.add("_punctuation_?", "？", -8.45);
  v.add("_letter_A", "a", -8.2);
  v.add("_number_1", "①", -8.2);
  v.add("_number_1", "㈠", -8.3);
  v.add("_number_2", "②", -8.2);
  v.add("ㄚ", "啊", -8.6);
  v.add("ㄧ", "MACRO@DATE_TODAY_SHORT", -8.7);
  v.assoc.push_back({{"八", "爬"}, {A, B}, -1});
  v.assoc.push_back({{"八", "媽", "惡"}, {A, C, "ㄜˋ"}, -2});  // a reading the vocabulary lacks
  v.assoc.push_back({{"媽", "法"}, {C, D}, -3});
  v.assoc.push_back({{"巴", "爬", "媽", "法"}, {A, B, C, D}, -3});
  v.assoc.push_back({{"法", "八"}, {D, A}, -3});
  for (int i = 0; i < 12; ++i) v.assoc.push_back({{"爬", many[i]}, {B, C}, -5.0 - i});
  return v;
}
static const char* kDict =
    "{\"services\":[{\"name\":\"one\",\"url_template\":\"https://a.example/?q=(encoded)\"},"
    "{\"name\":\"two\",\"url_template\":\"https://b.example/(encoded)/x\"}]}";

struct World {
  Explorer& e;
  Eng& g;
  bool* dirtyUser;
};
struct Op {
  std::string name;
  std::function<bool(World&)> run;  // returns whether the key was consumed (true for other events)
  bool editing = false;             // must reach the application when nothing is shown
};
static Op op(const Ev& k, bool release = false) {
  Op o;
  o.name = k.name + (release ? " released" : "");
  o.run = [k, release](World& w) { return w.g.key(k.sym, k.st, k.code, release); };
  o.editing = !release && (same(k, BS) || same(k, DEL) || same(k, LEFT) || same(k, RET) || same(k, ESC) || same(k, HOME) || same(k, SPACE) || same(k, TAB) || same(k, DOWN));
  return o;
}
static Op raw(const char* n, fcitx::KeySym s, fcitx::KeyStates st, int code = 0) { return op(Ev{n, s, st, code, 0}); }
static Op click(int which) {  // the user clicks an entry of the page shown
  return {which ? "click the last entry" : "click the first entry", [which](World& w) {
            auto l = w.g.ic->inputPanel().candidateList();
            if (!l || l->size() == 0) w.e.prune();
            l->candidate(which ? l->size() - 1 : 0).select(w.g.ic.get());
            return true;
          }};
}
static Op turn(bool next) {  // the page buttons of the panel
  return {next ? "click next page" : "click previous page", [next](World& w) {
            auto l = w.g.ic->inputPanel().candidateList();
            if (!l || !l->toPageable() || !(next ? l->toPageable()->hasNext() : l->toPageable()->hasPrev())) w.e.prune();
            next ? l->toPageable()->next() : l->toPageable()->prev();
            gRefresh.insert(w.g.ic.get());  // the window refreshes itself
            return true;
          }};
}
static Op action(const char* name) {
  return {std::string("menu ") + name, [name](World& w) {
            auto* a = fcitxInstance()->userInterfaceManager().lookupAction(name);
            if (!a) w.e.fail("a menu entry is missing", name);
            a->activate(w.g.ic.get());
            Eng::dirty() = true;
            return true;
          }};
}
static Op leave(const char* n, int kind, Conf then, int mode) {  // leave, reconfigure, come back
  return {n, [kind, then, mode](World& w) {
            if (kind == 0) w.g.focusOut();
            if (kind == 1) w.g.resetEvent();
            if (kind == 2) w.g.switchAway();
            if (!then.empty()) w.g.configure(then);
            if (kind != 1) w.g.activate(mode < 0 ? w.g.plain : mode);
            return true;
          }};
}
static Op set(const char* n, Conf c) {
  return {n, [c](World& w) {
            w.g.configure(c);
            return true;
          }};
}
static const fcitx::KeyStates kSuper{fcitx::KeyState::Super}, kCaps{fcitx::KeyState::CapsLock}, kCS = kShift | fcitx::KeyState::Ctrl;
static const Ev MENU{"Ctrl-\\", FcitxKey_backslash, kCtrl, 51, 0};

static std::vector<Op> allOps() {
  std::vector<Op> o;
  for (auto& k : {LEFT, RIGHT, HOME, END, UP, DOWN, SLEFT, SRIGHT, SHOME, BS, DEL, ESC, RET, SRET, CRET, SPACE, SSPACE, TAB, STAB, PGUP, PGDN, MENU}) o.push_back(op(k));
  for (char c : {'1', '8', 'a', 'i', 'j', '3', '?', '<', '`', 'A'}) o.push_back(op(charKey(c)));
  o.push_back(op(shiftDigit(1)));
  o.push_back(op(keypad('1')));
  o.push_back(op(keypad('.')));
  for (size_t s : {0, 1, 2}) {
    auto ks = typed(s);
    o.push_back({"syllable " + std::string(kSyl[s]), [ks](World& w) {
                   for (auto& k : ks) w.g.key(k.sym, k.st, k.code);
                   return true;
                 }});
  }
  o.push_back(click(0));
  o.push_back(click(1));
  o.push_back(turn(true));
  o.push_back(turn(false));
  o.push_back(leave("focus out and in", 0, {}, -1));
  o.push_back(leave("reset", 1, {}, -1));
  o.push_back(leave("switch to the other mode", 2, {}, 1));
  o.push_back(leave("change to Pinyin", 2, {{"BopomofoKeyboardLayout", "hanyupinyin"}}, -1));
  o.push_back(set("set other keys", {{"SelectionKeys", "asdfghjkl"}, {"CandidateLayout", "Vertical"}}));
  o.push_back(action("mcbopomofo-associated-phrases"));
  o.push_back(action("mcbopomofo-half-width-punctuation"));
  o.push_back(action("mcbopomofo-user-phrases-edit"));
  o.push_back(op(ALTA));
  o.push_back(raw("Super-a", FcitxKey_a, kSuper, 38));
  o.push_back(raw("CapsLock-a", FcitxKey_a, kCaps, 38));
  o.push_back(op(charKey('1'), true));
  o.push_back(op(MOD));
  o.push_back(op(CTRLA));
  o.push_back(op(F1));
  o.push_back(raw("Ctrl-,", FcitxKey_comma, kCtrl, 59));
  o.push_back(raw("Ctrl-Shift-Return", FcitxKey_Return, kCS, 36));
  o.push_back(raw("Ctrl-Left", FcitxKey_Left, kCtrl, 113));
  o.push_back(raw("KP_Enter", FcitxKey_KP_Enter, kNone, 104));
  o.push_back(raw("KP_Down", FcitxKey_KP_Down, kNone, 88));
  o.push_back(raw("e acute", FcitxKey_eacute, kNone, 20));
  o.push_back(raw("Cyrillic", (fcitx::KeySym)0x6c1, kNone, 20));
  o.push_back(raw("Unicode key", (fcitx::KeySym)0x1004e2d, kNone, 20));
  o.push_back(raw("no key", FcitxKey_None, kNone, 0));
  return o;
}
// A few that change the kind of state, for a third step.
static bool mover(const Op& o) {
  static const std::set<std::string> m = {"Left", "Shift-Left", "Down", "BackSpace", "Escape", "Return", "Shift-Return", "Space", "Tab", "Ctrl-\\", "1", "?",
                                          "`", "syllable ㄅㄚ", "click the last entry", "focus out and in", "PageDown", "Shift-1"};
  return m.count(o.name) > 0;
}

// The keys that reach each kind of state, in the Standard or the Pinyin layout.
static std::vector<std::pair<const char*, std::vector<Ev>>> prefixes(bool pinyin) {
  std::vector<std::pair<const char*, std::vector<Ev>>> p;
  auto cat = [](std::initializer_list<std::vector<Ev>> l) {
    std::vector<Ev> r;
    for (auto& x : l) r.insert(r.end(), x.begin(), x.end());
    return r;
  };
  auto S = [&](std::vector<size_t> l) {
    static const char* py[] = {"ba ", "pa3", "ma ", "fa4"};
    std::vector<Ev> r;
    for (size_t s : l) {
      if (!pinyin)
        for (auto& k : typed(s)) r.push_back(k);
      else
        for (const char* c = py[s]; *c; ++c) r.push_back(*c == ' ' ? SPACE : charKey(*c));
    }
    return r;
  };
  Ev first = charKey(pinyin ? 'b' : '1'), second = charKey(pinyin ? 'a' : '8');
  p.push_back({"nothing", {}});
  p.push_back({"reading", {first}});
  p.push_back({"odd reading", {charKey('i'), charKey('u')}});
  p.push_back({"tone only", {charKey('6')}});
  p.push_back({"composition, caret at the end", S({0, 1, 2})});
  p.push_back({"composition with a reading", cat({S({0, 1, 2}), {LEFT, first, second}})});
  p.push_back({"composition, caret in the middle", cat({S({0, 1, 2, 3}), {LEFT, LEFT}})});
  p.push_back({"composition, caret at the start", cat({S({0, 1}), {HOME}})});
  p.push_back({"marking", cat({S({0, 1, 2}), {SLEFT, SLEFT}})});
  p.push_back({"choosing, one page", cat({S({0}), {DOWN}})});
  p.push_back({"choosing, several pages", cat({S({2}), {DOWN}})});
  p.push_back({"choosing, last page", cat({S({1, 2}), {DOWN, PGUP, PGUP}})});
  p.push_back({"choosing at the start", cat({S({2, 3}), {HOME, DOWN}})});
  p.push_back({"dictionary from choosing", cat({S({2}), {DOWN, PGDN, charKey('?')}})});
  p.push_back({"dictionary from marking", cat({S({0, 1, 2}), {SLEFT, SLEFT, charKey('?')}})});
  p.push_back({"character information", cat({S({0}), {DOWN, charKey('?'), RET}})});
  p.push_back({"associated phrases", cat({S({0}), {SRET}})});
  p.push_back({"associated phrases, several pages", cat({S({0, 1}), {LEFT, RIGHT, SRET, RIGHT}})});
  p.push_back({"associated phrases of a candidate", cat({S({1, 2, 1}), {DOWN, SRET}})});
  p.push_back({"feature menu", {MENU}});
  p.push_back({"feature menu over a composition", cat({S({0, 1}), {MENU}})});
  p.push_back({"date menu", {MENU, RET, DOWN}});
  p.push_back({"Chinese number", {MENU, DOWN, DOWN, RET, charKey('1')}});
  p.push_back({"Suzhou number, empty", {MENU, UP, RET}});
  p.push_back({"enclosed number", {MENU, DOWN, RET, charKey('1')}});
  p.push_back({"choice of enclosed numbers", {MENU, DOWN, RET, charKey('1'), RET}});
  p.push_back({"punctuation list", cat({S({0}), {charKey('`')}})});
  p.push_back({"a phrase added", cat({S({0, 1, 2}), {SLEFT, SLEFT, RET, LEFT}})});
  p.push_back({"macro", cat({S({0}), {charKey(pinyin ? 'y' : 'u'), charKey(pinyin ? 'i' : 'u'), SPACE, DOWN}})});
  p.push_back({"picked", cat({S({0, 1, 2}), {TAB, TAB}})});
  std::vector<size_t> many;
  for (size_t i = 0; i < 40; ++i) many.push_back(i * 7 % 5 % 4);
  p.push_back({"forty syllables", cat({S(many), {LEFT, LEFT, LEFT}})});
  return p;
}

static void wellFormed(World& w, const std::string& what, bool paged) {
  View v = w.g.view();
  std::string c = w.g.takeCommits();
  w.e.validated(1);
  std::string ctx = what + ": " + v.str();
  if (!validUtf8(v.pre) || !validUtf8(c)) w.e.fail("invalid UTF-8", ctx);
  if (!v.pre.empty() && (v.caret < 0 || !utf8Boundary(v.pre, (size_t)v.caret))) w.e.fail("the caret is not on a character boundary", ctx);
  if (v.panel) {
    if (v.cands.empty() || v.shown <= 0) w.e.fail("an empty panel", ctx);
    if (!paged && (v.cursor < v.page * v.pageSize || v.cursor >= v.page * v.pageSize + v.shown)) w.e.fail("the highlight is outside the page", ctx);
    for (auto& s : v.cands)
      if (!validUtf8(s)) w.e.fail("invalid UTF-8", ctx);
  }
  if (!validUtf8(v.aux)) w.e.fail("invalid UTF-8", ctx);
}

static void body(Explorer& e) {
  static const Vocab v = vocab();
  static const std::vector<Op> ops = allOps();
  static bool installed = false, dirtyUser = true;
  if (!installed) install(e, v, kDict);
  installed = true;
  static const std::vector<std::tuple<const char*, Conf, bool, bool>> confs = [] {
    Opt on;
    on.after = on.move = on.escClears = on.lower = on.assoc = on.half = on.jk = on.vertical = true;
    on.ctrlEnter = 2;
    on.keys = 1;
    Opt mid;
    mid.after = mid.assoc = true;
    mid.ctrlEnter = 1;
    Conf py = Opt().conf(), eten = Opt().conf();
    py["BopomofoKeyboardLayout"] = "hanyupinyin";
    Opt plainOn;
    plainOn.assoc = plainOn.lower = true;
    std::vector<std::tuple<const char*, Conf, bool, bool>> c;
    c.push_back({"default", Opt().conf(), false, true});
    c.push_back({"all on", on.conf(), false, true});
    c.push_back({"assoc, after", mid.conf(), false, false});
    c.push_back({"plain", Opt().conf(), true, true});
    c.push_back({"plain assoc", plainOn.conf(), true, true});
    c.push_back({"pinyin", py, false, true});
    return c;
  }();
  auto& cf = confs[e.pick(confs.size())];
  static const auto st = prefixes(false), py = prefixes(true);
  auto& pf = (std::string(std::get<0>(cf)) == "pinyin" ? py : st)[e.pick(st.size())];
  if (dirtyUser) Eng::wipeUserFiles(e);
  dirtyUser = false;
  Eng g(e, std::get<1>(cf), std::get<2>(cf), std::get<3>(cf));
  World w{e, g, &dirtyUser};
  std::string what = std::string(std::get<0>(cf)) + "; " + pf.first + ": ";
  bool paged = false;
  auto apply = [&](const Op& o) {
    View before = g.view();
    bool nothing = before.pre.empty() && !before.panel;
    what += o.name + "; ";
    g.takeCommits();
    bool used = o.run(w);
    if (e.fresh()) e.transition();
    if (o.name.compare(0, 5, "click") == 0 && o.name.find("page") != std::string::npos) paged = true;
    else if (g.view().str() != before.str()) paged = false;
    e.note(o.name, " -> ", g.view().str());
    if (nothing && o.editing) {
      std::string c = g.takeCommits();
      View after = g.view();
      if (used || !c.empty() || !after.pre.empty() || after.panel)
        e.fail("something is hidden behind an empty display", what + " consumed " + std::to_string(used) + ", delivered '" + c + "', shows " + after.str());
    }
    wellFormed(w, what, paged);
    if (o.name == "Return" && before.marked.size()) dirtyUser = true;  // a phrase may have been added
  };
  for (auto& k : pf.second) apply(op(k));
  int depth = pf.second.size() > 100 ? 1 : e.thorough ? 3 : 2;
  for (int d = 0; d < depth; ++d) {
    size_t i = e.pick(ops.size());
    if (d == 2 && !mover(ops[i])) e.prune();
    apply(ops[i]);
    e.state(std::get<0>(cf) + g.view().str());
  }
  View end = g.view();
  if (end.pre.empty() && !end.panel) {
    static const std::vector<Op> probes = {op(BS), op(RET), op(LEFT), op(ESC)};
    for (auto& o : probes) apply(o);
  }
  e.outcome(end.str());
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
