// C25: what every printable key, Ctrl-key and number pad key yields, under
// every presence pattern of its vocabulary entries, and the Ctrl+Return forms.
#include "engine_vocab.h"

static std::string printable() {
  std::string s;
  for (char c = 0x21; c < 0x7f; ++c) s += c;
  return s;
}
enum { HALF_LAYOUT = 1, HALF = 2, LAYOUT = 4, GENERAL = 8, EXTRA = 16 };
// Values are distinct per key and contain the key's own character for reading.
static Vocab maskVocab(int mask, const std::string& layout) {
  Vocab v = editorVocab();
  v.m.erase("_punctuation_<");
  v.m.erase("_punctuation_Standard_>");
  int n = 0;
  auto put = [&](const std::string& key, const std::string& tag, char c, bool two) {
    v.add(key, tag + c, -8.11 - 0.001 * ++n);
    if (two) v.add(key, tag + c + "二", -9.5 - 0.001 * ++n);
  };
  for (char c : printable()) {
    std::string s(1, c);
    bool two = c % 2;
    if (mask & HALF_LAYOUT) put("_half_punctuation_" + layout + "_" + s, "半", c, two);
    if (mask & HALF) put("_half_punctuation_" + s, "狹", c, !two);
    if (mask & LAYOUT) put("_punctuation_" + layout + "_" + s, "全", c, two);
    if (mask & GENERAL) put("_punctuation_" + s, "寬", c, !two);
    // Another layout's entries never matter.
    put("_punctuation_" + std::string(layout == "IBM" ? "Hsu" : "IBM") + "_" + s, "他", c, two);
    if (mask & EXTRA) {
      put("_ctrl_punctuation_" + s, "控", c, two);
      if (c >= 'A' && c <= 'Z') put("_letter_" + s, "字", c, two);
    }
  }
  if (mask & EXTRA) {
    v.add("_punctuation_list", "※", -8.9);
    v.add("_punctuation_list", "☆", -9.9);
  }
  return v;
}
// 32 masks of the layout under test at a time.
static const Vocab& vocab(Explorer& e, int mask, const std::string& layout) {
  static std::map<std::pair<int, std::string>, Vocab> all;
  static std::pair<int, std::string> now{-1, ""};
  auto k = std::make_pair(mask, layout);
  if (!all.count(k)) all[k] = maskVocab(mask, layout);
  if (now != k) install(e, all[k]);
  now = k;
  return all[k];
}
static Ev named(const char* as, fcitx::KeySym sym) {
  Ev k{as, sym, kNone, 0, 0};
  return k;
}
static std::vector<Ev> allKeys() {
  std::vector<Ev> r;
  for (char c : printable()) r.push_back(charKey(c));
  for (char c : printable())
    if (c != '\\' && !(c >= 'A' && c <= 'Z') && !(charKey(c).st & fcitx::KeyState::Shift)) r.push_back(ctrlKey(c));
  for (char c : std::string("0123456789.+-*/")) r.push_back(keypad(c));
  r.push_back(named("Left", FcitxKey_KP_Left));
  r.push_back(named("Right", FcitxKey_KP_Right));
  r.push_back(named("Home", FcitxKey_KP_Home));
  r.push_back(named("End", FcitxKey_KP_End));
  r.push_back(named("Up", FcitxKey_KP_Up));
  r.push_back(named("Down", FcitxKey_KP_Down));
  r.push_back(named("Delete", FcitxKey_KP_Delete));
  r.push_back(named("Return", FcitxKey_KP_Enter));
  r.push_back(F1);
  r.push_back(MOD);
  r.push_back(SPACE);
  r.push_back(SSPACE);
  return r;
}
static const std::vector<Ev> KEYS = allKeys();

struct Run {
  Explorer& e;
  Eng& g;
  Model& m;
  std::string what;
  void press(const Ev& k) {
    bool exp = m.key(k);
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    e.note(k.name, " -> ", g.view().str());
    bool ctrl = (bool)(k.st & fcitx::KeyState::Ctrl);
    // Vocabulary that lists nothing for a Ctrl key: absorbing it and passing
    // it on are both fine while composing.
    compare(e, g, m, ctrl && m.st != Model::EMPTY ? exp : got, exp, what);
  }
};

static void smart(Explorer& e, const std::string& layout, const char* config, const std::string& keysOfLayout) {
  int mask = (int)e.pick(32);
  Opt o;
  o.half = e.pick(2);
  o.lower = e.pick(2);
  if (layout == "Standard") o.after = e.thorough ? e.pick(2) : 0;
  const Vocab& v = vocab(e, mask, layout);
  Conf c = o.conf();
  c["BopomofoKeyboardLayout"] = config;
  Eng g(e, c, false);
  Model m(v, o);
  m.layout = layout;
  Run r{e, g, m, "mask " + std::to_string(mask) + " layout " + layout + " " + o.str() + "; "};
  if (layout == "Standard") {
    size_t start = e.pick(6);
    static const std::vector<std::vector<size_t>> starts = {{}, {0}, {0, 1}, {}, {2}, {0, 1, 2}};
    for (size_t s : starts[start])
      for (auto& k : typed(s)) r.press(k);
    if (start == 2) r.press(LEFT);
    if (start == 5) r.press(HOME);
    if (start == 3 || start == 4) r.press(charKey('8'));
  } else {
    // Other layouts: something composed by keys outside the layout.
    size_t start = e.pick(3);
    if (start) r.press(charKey('"'));
    if (start == 2) {
      r.press(charKey('+'));
      r.press(LEFT);
    }
  }
  if (m.st == Model::CHOOSE) e.prune();
  const Ev& k = KEYS[e.pick(KEYS.size())];
  if (k.c && keysOfLayout.find(k.c) != std::string::npos && layout != "Standard") e.prune();
  if (k.c && !(k.st & fcitx::KeyState::Ctrl) && layout == "HanyuPinyin" && isalpha(k.c)) e.prune();
  r.press(k);
  e.state(g.view().str());
  size_t after = e.pick(3);
  if (m.st == Model::CHOOSE && after) {
    r.press(after == 1 ? RET : ESC);
  } else if (after == 2) {
    Ev again = k;
    if (m.st != Model::CHOOSE) r.press(again);
  }
  if (after && m.st == Model::INPUT) r.press(RET);
  e.outcome(g.view().str());
}

static void plain(Explorer& e) {
  int mask = (int)e.pick(32);
  Opt o;
  o.half = e.pick(2);
  o.lower = e.pick(2);
  const Vocab& v = vocab(e, mask, "Standard");
  Eng g(e, o.conf(), true);
  bool pending = e.pick(2);
  if (pending) g.key(charKey('8').sym, kNone, 0);
  std::string pend = pending ? "ㄚ" : "";
  const Ev& k = KEYS[e.pick(KEYS.size())];
  bool ctrl = (bool)(k.st & fcitx::KeyState::Ctrl), pad = k.name.compare(0, 3, "KP_") == 0;
  if (!ctrl && !pad && (!k.c || k.c == ' ' || kStandard.count(k.c))) e.prune();  // C22
  char c = pad ? k.name[3] : k.c;
  std::vector<std::string> keys;
  std::string s(1, c);
  if (ctrl) {
    std::string cs = ",.1/;'", to = ",.!/;'";
    size_t i = cs.find(k.name[5]);
    if (i != std::string::npos) keys.push_back(std::string("_ctrl_punctuation_") + to[i]);
  } else if (c == '`' && v.has("_punctuation_list")) {
    keys.push_back("_punctuation_list");
  } else {
    if (o.half) {
      keys.push_back("_half_punctuation_Standard_" + s);
      keys.push_back("_half_punctuation_" + s);
    }
    keys.push_back("_punctuation_Standard_" + s);
    keys.push_back("_punctuation_" + s);
    if (o.lower && c >= 'A' && c <= 'Z') keys.push_back("_letter_" + s);
  }
  std::vector<std::string> vals;
  for (auto& x : keys) {
    if (!v.has(x)) continue;
    for (auto& u : v.get(x)) vals.push_back(u.first);
    break;
  }
  bool letter = !ctrl && c >= 'A' && c <= 'Z';
  bool got = g.key(k.sym, k.st, k.code);
  if (e.fresh()) e.transition();
  std::string d = g.takeCommits();
  View w = g.view();
  std::string ctx = "mask " + std::to_string(mask) + " plain " + o.str() + "; " + (pending ? "8 " : "") + k.name + " shows " + w.str() +
                    " delivered '" + d + "'";
  e.validated(1);
  e.outcome(w.str() + d);
  bool anything = ctrl && pending;  // passed on or absorbed
  if (vals.empty() && letter && !o.lower) {
    if (pending) {
      if (d != pend + s && d != s) e.fail("wrong text delivered", ctx);
      if (!got) e.fail("a key reached the application", ctx);
      if (!w.pre.empty() || w.panel) e.fail("wrong text displayed", ctx);
    } else if (got || !d.empty() || !w.pre.empty() || w.panel) {
      e.fail("a letter was not passed on", ctx);
    }
    return;
  }
  if (vals.empty() || pending) {
    if (!d.empty()) e.fail("wrong text delivered", ctx);
    if (w.pre != pend || w.panel) e.fail("wrong text displayed", ctx);
    bool absorbed = pending || (letter && o.lower);
    if (!anything && got != absorbed) e.fail(got ? "a key was swallowed" : "a key reached the application", ctx);
    return;
  }
  if (!got) e.fail("a key reached the application", ctx);
  if (vals.size() == 1) {
    if (d != vals[0]) e.fail("wrong text delivered", ctx);
    if (!w.pre.empty() || w.panel) e.fail("wrong text displayed", ctx);
    return;
  }
  if (!d.empty()) e.fail("wrong text delivered", ctx);
  if (!w.panel || w.cands != vals) e.fail("wrong offers", ctx);
  size_t i = e.pick(vals.size());
  g.key(charKey((char)('1' + i)).sym, kNone, 0);
  if (g.takeCommits() != vals[i] || g.view().panel || !g.view().pre.empty()) e.fail("wrong text delivered", ctx + " then " + std::to_string(i + 1));
}

// Ctrl+Return after every short composition.
static void ctrlReturn(Explorer& e) {
  Opt o;
  o.ctrlEnter = (int)e.pick(3);
  o.lower = e.pick(2);
  o.half = e.pick(2);
  const Vocab& v = vocab(e, HALF | GENERAL | EXTRA, "Standard");
  Eng g(e, o.conf(), false);
  Model m(v, o);
  Run r{e, g, m, o.str() + "; "};
  size_t n = e.pick(e.thorough ? 6 : 5);
  for (size_t i = 0; i < n; ++i) {
    size_t w = e.pick(7);
    if (w < 4)
      for (auto& k : typed(w)) r.press(k);
    else if (w == 4) r.press(charKey('<'));
    else if (w == 5) r.press(charKey('Q'));
    else {
      if (!o.lower) e.prune();  // delivers at once: C02
      r.press(SSPACE);
    }
  }
  size_t back = e.pick(3);
  for (size_t i = 0; i < back; ++i) r.press(LEFT);
  if (e.pick(2)) {  // pick something first
    r.press(DOWN);
    if (m.st != Model::CHOOSE || m.cands.size() < 2) e.prune();
    r.press(charKey('2'));
  }
  e.state(g.view().str());
  r.press(CRET);
  e.outcome(g.view().str());
  if (m.st == Model::INPUT) r.press(RET);
  for (auto& k : typed(0)) r.press(k);
  r.press(RET);
}

static void body(Explorer& e) {
  static const struct { const char *name, *config, *keys; } layouts[] = {
      {"Standard", "standard", ""},
      {"ETen", "eten", "abcdefghijklmnopqrstuvwxyz1234567890,./;'-="},
      {"Hsu", "hsu", "abcdefghijklmnopqrstuvwxyz"},
      {"ETen26", "et26", "abcdefghijklmnopqrstuvwxyz"},
      {"HanyuPinyin", "hanyupinyin", "abcdefghijklmnopqrstuvwxyz12345"},
      {"IBM", "ibm", "abcdefghijklmnopqrstuvwxyz1234567890-;,./"}};
  size_t f = e.pick(8);
  if (f < 6) smart(e, layouts[f].name, layouts[f].config, layouts[f].keys);
  else if (f == 6) plain(e);
  else ctrlReturn(e);
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
