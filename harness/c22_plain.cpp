// C22: plain mode against a reference model: one syllable at a time.
#include "engine_vocab.h"

static const char* TYPED[] = {"18 ", "q83", "a8 ", "z84"};  // 2, 1, 11 and 3 values
static Vocab plainVocab() {
  Vocab v;
  double s = -8.5;
  auto add = [&](const char* r, std::vector<const char*> vals) {
    for (auto x : vals) v.add(r, x, s -= 0.13);
  };
  add("ㄅㄚ", {"八", "𠳝"});  // one of them takes four bytes
  add("ㄆㄚˇ", {"爬"});
  add("ㄇㄚ", {"媽", "嗎", "馬", "罵", "瑪", "碼", "螞", "麻", "蟆", "𡃁", "抹"});
  add("ㄈㄚˋ", {"法", "髮", "琺"});
  add("_punctuation_<", {"，", "、"});
  add("_punctuation_Standard_>", {"。"});
  add("_punctuation_[", {"「"});
  add("_half_punctuation_<", {","});
  add("_letter_B", {"b"});
  add("_punctuation_list", {"※", "☆", "◎"});
  add("_ctrl_punctuation_,", {"〈"});
  v.assoc.push_back({{"八", "爬"}, {"ㄅㄚ", "ㄆㄚˇ"}, -1});
  v.assoc.push_back({{"八", "媽", "法"}, {"ㄅㄚ", "ㄇㄚ", "ㄈㄚˋ"}, -2});
  v.assoc.push_back({{"八", "媽"}, {"ㄅㄚ", "ㄇㄚ"}, -4});
  v.assoc.push_back({{"媽", "法"}, {"ㄇㄚ", "ㄈㄚˋ"}, -3});
  v.assoc.push_back({{"爬", "八"}, {"ㄆㄚˇ", "ㄅㄚ"}, -2});
  v.assoc.push_back({{"八", "惡"}, {"ㄅㄚˊ", "ㄜˋ"}, -1});  // another reading of it
  v.assoc.push_back({{"𠳝", "媽"}, {"ㄅㄚ", "ㄇㄚ"}, -1});
  v.assoc.push_back({{"𠳝", "𡃁", "法"}, {"ㄅㄚ", "ㄇㄚ", "ㄈㄚˋ"}, -2});
  const char* many[] = {"一", "二", "三", "四", "五", "六", "七", "九", "十", "百"};
  for (int i = 0; i < 10; ++i) v.assoc.push_back({{"髮", many[i]}, {"ㄈㄚˋ", "ㄇㄚ"}, -5.0 - i});
  return v;
}

struct Plain {
  const Vocab& v;
  Opt o;
  enum { EMPTY, READ, CHOOSE, OFFER } st = EMPTY;
  Pend pend;
  std::string reading;
  std::vector<std::pair<std::string, std::string>> list;  // reading, value
  size_t hl = 0, page = 0;
  bool loose = false;
  std::string commit, commitAlt;
  bool skip = false;  // not specified from here on
  Plain(const Vocab& vv, const Opt& oo) : v(vv), o(oo) {}
  bool isVertical() const { return o.vertical; }
  size_t shown() const { return std::min<size_t>(9, list.size() - page * 9); }
  View view() {
    View x;
    if (st == READ) { x.pre = pend.str(); x.caret = (int)x.pre.size(); }
    if (st == CHOOSE) { x.pre = list[0].second; x.caret = (int)x.pre.size(); }
    if (st == CHOOSE || st == OFFER) {
      x.panel = true;
      for (auto& p : list) x.cands.push_back(p.second);
      x.cursor = (int)hl;
      x.page = (int)page;
    }
    return x;
  }
  void deliver(const std::string& r, const std::string& val, bool offers) {
    commit += val;
    commitAlt += val;
    pend.clear();
    st = EMPTY;
    if (!o.assoc || !offers) return;
    std::vector<std::string> pc = chars(val), pr;
    std::string rd = r;
    for (size_t i = 0, j; i <= rd.size(); i = j + 1) {
      j = rd.find('-', i);
      if (j == std::string::npos) j = rd.size();
      pr.push_back(rd.substr(i, j - i));
    }
    std::vector<Assoc> w;
    for (auto& a : v.assoc) {
      if (a.chars.size() <= pc.size() || pc.size() != pr.size()) continue;
      bool ok = true;
      for (size_t i = 0; ok && i < pc.size(); ++i) ok = a.chars[i] == pc[i] && a.reads[i] == pr[i];
      if (ok) w.push_back(a);
    }
    std::stable_sort(w.begin(), w.end(), [](auto& a, auto& b) { return a.score > b.score; });
    if (w.empty()) return;
    list.clear();
    for (auto& a : w) {
      std::string vv;
      for (size_t i = pc.size(); i < a.chars.size(); ++i) vv += a.chars[i];
      list.push_back({joinR(a.reads, pc.size(), a.reads.size()), vv});
    }
    hl = page = 0;
    loose = false;
    st = OFFER;
  }
  void offerOrCommit(const std::string& key, bool syllable) {
    auto u = v.get(key);
    pend.clear();
    if (u.size() == 1) return deliver(key, u[0].first, syllable);
    list.clear();
    for (auto& x : u) list.push_back({key, x.first});
    hl = page = 0;
    loose = false;
    st = CHOOSE;
  }
  void choose(size_t i) {
    auto p = list[i];
    deliver(p.first, p.second, true);
  }
  void toPage(size_t p) {
    page = p;
    hl = p * 9;
    loose = true;
  }
  bool navigate(const Ev& k) {
    size_t n = list.size(), pages = (n + 8) / 9;
    bool vert = isVertical();
    if (same(k, vert ? DOWN : RIGHT)) { hl = (hl + 1) % n; page = hl / 9; return true; }
    if (same(k, vert ? UP : LEFT)) { hl = (hl + n - 1) % n; page = hl / 9; return true; }
    if (same(k, SPACE) || same(k, PGDN) || same(k, vert ? RIGHT : DOWN)) {
      if (pages > 1) toPage((page + 1) % pages);
      return true;
    }
    if (same(k, PGUP) || same(k, vert ? LEFT : UP)) {
      if (pages > 1) toPage((page + pages - 1) % pages);
      else loose = true;
      return true;
    }
    return false;
  }
  int selectionIndex(const Ev& k) const {
    static const char* ks[] = {"123456789", "asdfghjkl", "asdfzxcvb"};
    if (k.c && !k.st) {
      const char* p = strchr(ks[o.keys], k.c);
      if (p && *p) return (int)(p - ks[o.keys]);
    }
    if (o.keys == 0 && k.name.compare(0, 3, "KP_") == 0 && k.name[3] >= '1') return k.name[3] - '1';
    return -1;
  }
  bool punctuationOf(const Ev& k) const {
    if (!k.c) return false;
    std::string s(1, k.c);
    return v.has("_punctuation_Standard_" + s) || v.has("_punctuation_" + s);
  }
  bool key(const Ev& k) {
    commit.clear();
    commitAlt.clear();
    if (k.st & fcitx::KeyState::Alt) return false;
    if (st == CHOOSE) {
      int i = selectionIndex(k);
      if (i >= 0 && (size_t)i < shown()) {
        choose(page * 9 + (size_t)i);
        return true;
      }
      if (same(k, RET)) { choose(hl); return true; }
      if (same(k, ESC) || same(k, BS)) { st = EMPTY; return true; }
      if (navigate(k)) return true;
      bool plainKey = k.c && !(k.st & fcitx::KeyState::Ctrl) && k.name.compare(0, 3, "KP_");
      if (plainKey && (kStandard.count(k.c) || punctuationOf(k))) {
        std::string before = list[hl].second;
        st = EMPTY;
        bool c = handle(k);
        commit = before + commit;
        commitAlt = before + commitAlt;
        return c || true;
      }
      if ((k.c >= 'A' && k.c <= 'Z') || k.name == "Ctrl-,") skip = true;
      return true;  // absorbed
    }
    if (st == OFFER) {
      if ((k.st & fcitx::KeyState::Shift) && k.code >= 10 && k.code <= 18) {
        size_t i = (size_t)(k.code - 10);
        if (i < shown()) choose(page * 9 + i);
        return true;
      }
      if (same(k, SRET)) { choose(hl); return true; }
      if (same(k, ESC) || same(k, BS)) { st = EMPTY; return true; }
      if (navigate(k)) return true;
      if (same(k, MOD)) return true;
      st = EMPTY;
      return handle(k);
    }
    return handle(k);
  }
  bool handle(const Ev& k) {
    bool shownNow = st != EMPTY;
    bool ctrl = (bool)(k.st & fcitx::KeyState::Ctrl);
    bool keypadKey = k.name.compare(0, 3, "KP_") == 0;
    char c = ctrl || keypadKey ? 0 : k.c;
    auto it = kStandard.find(c);
    bool consumed = false;
    if (c && !(k.st & fcitx::KeyState::Shift) && it != kStandard.end()) {
      pend.s[it->second.first] = it->second.second;
      consumed = true;
    }
    bool space = same(k, SPACE);
    if ((consumed && !pend.s[3].empty() && !pend.toneOnly()) || (space && !pend.empty())) {
      std::string s = pend.str();
      pend.clear();
      if (!v.has(s)) st = EMPTY;
      else offerOrCommit(s, true);
      return true;
    }
    if (consumed) { st = READ; return true; }
    if (same(k, SSPACE)) {
      pend.clear();
      st = EMPTY;
      commit = commitAlt = " ";
      return true;
    }
    if (same(k, ESC)) {
      if (!shownNow) return false;
      pend.clear();
      st = EMPTY;
      return true;
    }
    if (same(k, BS) || same(k, DEL)) {
      if (!shownNow) return false;
      if (pend.toneOnly()) pend.clear();
      else if (same(k, BS)) pend.back();
      st = pend.empty() ? EMPTY : READ;
      return true;
    }
    if (ctrl) {
      if (k.name == "Ctrl-,") return punctuate("_ctrl_punctuation_,") || shownNow;
      return shownNow;
    }
    if (same(k, MOD) || same(k, F1) || !k.c || k.c == ' ') return shownNow;
    if (k.c == '`' && pend.empty()) {
      offerOrCommit("_punctuation_list", false);
      return true;
    }
    std::string s(1, k.c);
    if (o.half && (punctuate("_half_punctuation_Standard_" + s) || punctuate("_half_punctuation_" + s))) return true;
    if (punctuate("_punctuation_Standard_" + s) || punctuate("_punctuation_" + s)) return true;
    if (k.c >= 'A' && k.c <= 'Z') {
      if (o.lower) {
        punctuate("_letter_" + s);
        return true;
      }
      if (!shownNow) return false;
      commitAlt = s;
      commit = pend.str() + s;
      pend.clear();
      st = EMPTY;
      return true;
    }
    return shownNow;
  }
  bool punctuate(const std::string& key) {
    if (!v.has(key)) return false;
    if (!pend.empty()) return true;
    offerOrCommit(key, false);
    return true;
  }
};

static const Ev KEYS[] = {charKey('1'), charKey('8'), charKey('2'), charKey('9'), charKey('3'), charKey('a'), charKey('l'), SPACE, SSPACE, RET, SRET, ESC, BS, DEL, LEFT, RIGHT,
                          UP, DOWN, PGDN, PGUP, TAB, MOD, F1, CTRLA, ALTA, HOME, charKey('<'), charKey('>'), charKey('['), charKey('A'),
                          charKey('B'), shiftDigit(1), shiftDigit(2), shiftDigit(9), keypad('2'), ctrlKey(','), charKey('`')};

static void body(Explorer& e) {
  static const Vocab v = plainVocab();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  static const int variants[] = {1, 2 + 4, 8 + 32, 16 + 1, 1 + 64 + 4, 0};
  int bits = variants[e.pick(e.thorough ? 6 : 5)];
  Opt o;
  o.assoc = bits & 1;
  o.half = bits & 2;
  o.lower = bits & 4;
  o.keys = bits & 8 ? 1 : bits & 16 ? 2 : 0;
  o.vertical = bits & 32;
  bool other = bits & 64;  // the options for smart mode do not matter here
  if (other) o.after = o.move = o.jk = o.escClears = true;
  Eng g(e, o.conf(), true);
  Plain m(v, o);
  std::string what = "options " + o.str() + "; ";
  auto press = [&](const Ev& k) {
    bool exp = m.key(k);
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    if (m.skip) e.prune();
    View a = g.view(), b = m.view();
    std::string c = g.takeCommits();
    what += k.name + " ";
    e.note(k.name, " -> ", a.str(), " delivered ", c);
    e.validated(1);
    std::string ctx = what + ": shows " + a.str() + ", expected " + b.str() + "; delivered '" + c + "', expected '" + m.commit + "'";
    if (c != m.commit && c != m.commitAlt) e.fail("wrong text delivered", ctx);
    if (exp != got) e.fail(exp ? "a key reached the application" : "a key was swallowed", ctx);
    if (a.pre != b.pre || (m.st == Plain::READ && a.caret != b.caret)) e.fail("wrong text displayed", ctx);
    if (a.panel != b.panel || a.cands != b.cands) e.fail("wrong offers", ctx);
    if (a.panel) {
      if (m.loose) {
        if (a.page != b.page || a.cursor < a.page * 9 || a.cursor >= a.page * 9 + a.shown) e.fail("highlight outside the page", ctx);
        m.hl = (size_t)a.cursor;
        m.loose = false;
      } else if (a.cursor != b.cursor || a.page != b.page) {
        e.fail("wrong highlight", ctx);
      }
    }
  };
  const size_t n = sizeof KEYS / sizeof *KEYS;
  // A first step that leads somewhere, then every sequence.
  size_t first = e.pick(e.thorough ? 9 : 7);
  static const std::vector<std::vector<int>> firsts = {{}, {0}, {1}, {2}, {3}, {1, 2}, {0, 3}, {3, 2}, {2, 2}};
  for (int t : firsts[first])
    for (const char* p = TYPED[t]; *p; ++p) press(*p == ' ' ? SPACE : charKey(*p));
  int depth = e.thorough ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    size_t i = e.pick(n + 4);
    if (i < n) press(KEYS[i]);
    else
      for (const char* p = TYPED[i - n]; *p; ++p) press(*p == ' ' ? SPACE : charKey(*p));
    e.state(g.view().str());
  }
  e.outcome(g.view().str());
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
