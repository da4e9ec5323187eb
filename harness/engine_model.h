// Reference model of the smart input method as the user sees it: a list of
// syllables with a caret, one unfinished syllable, the picks made so far, and
// the panel that is open. Conversion is "best-scoring segmentation that keeps
// the picks". Standard Bopomofo layout.
#ifndef ENGINE_MODEL_H_
#define ENGINE_MODEL_H_
#include <algorithm>
#include <cmath>
#include <set>
#include "engine_common.h"

struct Assoc {
  std::vector<std::string> chars, reads;
  double score;
};
struct Vocab {
  std::map<std::string, std::vector<std::pair<std::string, double>>> m;
  std::vector<Assoc> assoc;
  bool has(const std::string& r) const { return r == " " || m.count(r); }
  std::vector<std::pair<std::string, double>> get(const std::string& r) const {
    if (r == " ") return {{" ", 0.0}};
    auto it = m.find(r);
    return it == m.end() ? std::vector<std::pair<std::string, double>>{} : it->second;
  }
  void add(const std::string& r, const std::string& v, double s) {
    auto& x = m[r];
    x.push_back({v, s});
    std::stable_sort(x.begin(), x.end(), [](auto& a, auto& b) { return a.second > b.second; });
  }
  std::string text() const {
    std::vector<std::string> l;
    for (auto& kv : m)
      for (auto& u : kv.second) l.push_back(kv.first + " " + u.first + " " + str(u.second));
    std::sort(l.begin(), l.end());
    std::string s = "# format org.openvanilla.mcbopomofo.sorted\n";
    for (auto& x : l) s += x + "\n";
    return s;
  }
  std::string assocText() const {
    std::vector<std::string> l;
    for (auto& a : assoc) {
      std::string s;
      for (size_t i = 0; i < a.chars.size(); ++i) s += (i ? "-" : "") + a.chars[i] + "-" + a.reads[i];
      l.push_back(s + " " + str(a.score));
    }
    std::sort(l.begin(), l.end());
    std::string s = "# format org.openvanilla.mcbopomofo.sorted\n";
    for (auto& x : l) s += x + "\n";
    return s;
  }
};
// Installs a vocabulary as the system data (smart and plain alike).
static void install(Explorer& e, const Vocab& v, const std::string& dictionaries = "") {
  std::string d = e.scratch + "/sysdata/fcitx5/data/";
  std::filesystem::create_directories(d);
  std::ofstream(d + "mcbopomofo-data.txt", std::ios::trunc) << v.text();
  std::ofstream(d + "mcbopomofo-data-plain-bpmf.txt", std::ios::trunc) << v.text();
  std::ofstream(d + "mcbopomofo-associated-phrases-v2.txt", std::ios::trunc) << v.assocText();
  if (!dictionaries.empty()) std::ofstream(d + "mcbopomofo-dictionary-service.json", std::ios::trunc) << dictionaries;
}

static std::vector<std::string> chars(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : 4;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}
static std::string joinR(const std::vector<std::string>& r, size_t b, size_t e, const char* sep = "-") {
  std::string s;
  for (size_t i = b; i < e; ++i) s += (i > b ? sep : "") + r[i];
  return s;
}

// A physical key event.
struct Ev {
  std::string name;
  fcitx::KeySym sym;
  fcitx::KeyStates st;
  int code;
  char c;  // the character it stands for when unmodified (after Shift), 0 if none
};
static int keycode(char c) {
  static const std::string row = "1234567890";
  size_t i = row.find(c);
  return i == std::string::npos ? 0 : 10 + (int)i;
}
static Ev charKey(char c) {
  fcitx::KeyStates st;
  if ((c >= 'A' && c <= 'Z') || std::string("!@#$%^&*()_+{}|:\"<>?~").find(c) != std::string::npos) st = fcitx::KeyState::Shift;
  int code = keycode(c);
  static const std::string sh = "!@#$%^&*()";
  size_t i = sh.find(c);
  if (i != std::string::npos) code = 10 + (int)i;
  return {std::string(1, c), (fcitx::KeySym)c, st, code, c};
}
static const fcitx::KeyStates kShift{fcitx::KeyState::Shift}, kCtrl{fcitx::KeyState::Ctrl}, kNone{};
static const Ev LEFT{"Left", FcitxKey_Left, kNone, 0, 0}, RIGHT{"Right", FcitxKey_Right, kNone, 0, 0},
    HOME{"Home", FcitxKey_Home, kNone, 0, 0}, END{"End", FcitxKey_End, kNone, 0, 0}, UP{"Up", FcitxKey_Up, kNone, 0, 0},
    DOWN{"Down", FcitxKey_Down, kNone, 0, 0}, SLEFT{"Shift-Left", FcitxKey_Left, kShift, 0, 0},
    SRIGHT{"Shift-Right", FcitxKey_Right, kShift, 0, 0}, SHOME{"Shift-Home", FcitxKey_Home, kShift, 0, 0},
    SEND{"Shift-End", FcitxKey_End, kShift, 0, 0}, BS{"BackSpace", FcitxKey_BackSpace, kNone, 0, 0},
    DEL{"Delete", FcitxKey_Delete, kNone, 0, 0}, ESC{"Escape", FcitxKey_Escape, kNone, 0, 0},
    RET{"Return", FcitxKey_Return, kNone, 36, 0}, SRET{"Shift-Return", FcitxKey_Return, kShift, 36, 0},
    CRET{"Ctrl-Return", FcitxKey_Return, kCtrl, 36, 0}, SPACE{"Space", FcitxKey_space, kNone, 65, ' '},
    SSPACE{"Shift-Space", FcitxKey_space, kShift, 65, 0}, TAB{"Tab", FcitxKey_Tab, kNone, 23, 0},
    STAB{"Shift-Tab", FcitxKey_ISO_Left_Tab, kShift, 23, 0}, PGUP{"PageUp", FcitxKey_Page_Up, kNone, 0, 0},
    PGDN{"PageDown", FcitxKey_Page_Down, kNone, 0, 0}, MOD{"Shift_L", FcitxKey_Shift_L, kNone, 50, 0},
    F1{"F1", FcitxKey_F1, kNone, 67, 0}, CTRLA{"Ctrl-a", FcitxKey_a, kCtrl, 38, 0}, ALTA{"Alt-a", FcitxKey_a, fcitx::KeyStates{fcitx::KeyState::Alt}, 38, 0};
static Ev ctrlKey(char c) { return {std::string("Ctrl-") + c, (fcitx::KeySym)c, kCtrl, keycode(c), 0}; }
static Ev keypad(char c) {
  fcitx::KeySym s = c >= '0' && c <= '9' ? (fcitx::KeySym)(FcitxKey_KP_0 + (c - '0'))
                    : c == '.' ? FcitxKey_KP_Decimal : c == '+' ? FcitxKey_KP_Add : c == '-' ? FcitxKey_KP_Subtract
                    : c == '*' ? FcitxKey_KP_Multiply : FcitxKey_KP_Divide;
  return {std::string("KP_") + c, s, kNone, 0, 0};
}
static Ev shiftDigit(int d) {
  static const char* sh = "!@#$%^&*(";
  return {"Shift-" + std::to_string(d), (fcitx::KeySym)sh[d - 1], kShift, 9 + d, sh[d - 1]};
}
static bool same(const Ev& a, const Ev& b) { return a.name == b.name; }

static const std::map<char, std::pair<int, std::string>> kStandard = {
    {'1', {0, "ㄅ"}}, {'q', {0, "ㄆ"}}, {'a', {0, "ㄇ"}}, {'z', {0, "ㄈ"}}, {'2', {0, "ㄉ"}}, {'w', {0, "ㄊ"}}, {'s', {0, "ㄋ"}},
    {'x', {0, "ㄌ"}}, {'e', {0, "ㄍ"}}, {'d', {0, "ㄎ"}}, {'c', {0, "ㄏ"}}, {'r', {0, "ㄐ"}}, {'f', {0, "ㄑ"}}, {'v', {0, "ㄒ"}},
    {'5', {0, "ㄓ"}}, {'t', {0, "ㄔ"}}, {'g', {0, "ㄕ"}}, {'b', {0, "ㄖ"}}, {'y', {0, "ㄗ"}}, {'h', {0, "ㄘ"}}, {'n', {0, "ㄙ"}},
    {'u', {1, "ㄧ"}}, {'j', {1, "ㄨ"}}, {'m', {1, "ㄩ"}}, {'8', {2, "ㄚ"}}, {'i', {2, "ㄛ"}}, {'k', {2, "ㄜ"}}, {',', {2, "ㄝ"}},
    {'9', {2, "ㄞ"}}, {'o', {2, "ㄟ"}}, {'l', {2, "ㄠ"}}, {'.', {2, "ㄡ"}}, {'0', {2, "ㄢ"}}, {'p', {2, "ㄣ"}}, {';', {2, "ㄤ"}},
    {'/', {2, "ㄥ"}}, {'-', {2, "ㄦ"}}, {'6', {3, "ˊ"}}, {'3', {3, "ˇ"}}, {'4', {3, "ˋ"}}, {'7', {3, "˙"}}};

struct Pend {
  std::string s[4];
  bool empty() const { return s[0].empty() && s[1].empty() && s[2].empty() && s[3].empty(); }
  bool toneOnly() const { return s[0].empty() && s[1].empty() && s[2].empty() && !s[3].empty(); }
  std::string str() const { return s[0] + s[1] + s[2] + s[3]; }
  void back() {
    for (int i = 3; i >= 0; --i)
      if (!s[i].empty()) {
        s[i].clear();
        return;
      }
  }
  void clear() { *this = Pend(); }
};

struct Opt {
  bool after = false;      // candidates after the caret
  bool move = false;       // move the caret after selection
  bool escClears = false;
  bool lower = false;      // Shift-letters go into the composition in lower case
  bool assoc = false;
  bool half = false;
  bool jk = false;
  int ctrlEnter = 0;       // 0 off 1 readings 2 ruby
  int keys = 0;            // selection keys
  bool vertical = false;
  int count = 9;           // selection keys in use
  Conf conf() const {
    static const char* ks[] = {"Key_123456789", "Key_asdfghjkl", "Key_asdfzxcvb"};
    static const char* ce[] = {"disabled", "output_bpmf_reading", "output_html_ruby_text"};
    return {{"SelectPhrase", after ? "after_cursor" : "before_cursor"},
            {"MoveCursorAfterSelection", move ? "True" : "False"},
            {"EscKeyClearsEntireComposingBuffer", escClears ? "True" : "False"},
            {"ShiftLetterKeys", lower ? "put_lowercase_to_buffer" : "directly_output_uppercase"},
            {"AssociatedPhrasesEnabled", assoc ? "True" : "False"},
            {"HalfWidthPunctuationEnable", half ? "True" : "False"},
            {"AllowMovingCursorWhenChoosingCandidates", jk ? "True" : "False"},
            {"KeyHandlerCtrlEnter", ce[ctrlEnter]},
            {"SelectionKeys", ks[keys] + 4},
            {"SelectionKeysCount", std::to_string(count)},
            {"CandidateLayout", vertical ? "Vertical" : "Horizontal"}};
  }
  std::string str() const {
    std::string s;
    for (auto& p : conf())
      if (p.second != "False" && p.second != "9") s += p.first + "=" + p.second + " ";
    return s;
  }
};

struct Cand {
  std::string reading, value;
  size_t start, len;
};
struct Pick {
  size_t start, len;
  std::string reading, value;
  bool weak = false;  // a suggestion that only takes the place of the word's best value
};
struct Piece {
  size_t start, len;
  std::string reading, value;
};

class Model {
 public:
  const Vocab& v;
  Opt o;
  std::string layout = "Standard";  // other layouts: only keys outside it
  enum St { EMPTY, INPUT, MARK, CHOOSE, ASSOC } st = EMPTY;
  std::vector<std::string> r;
  size_t cur = 0;
  Pend pend;
  std::vector<Pick> picks;
  size_t markStart = 0;
  // panel
  std::vector<Cand> cands;
  size_t hl = 0;       // highlighted, global
  bool hlLoose = false;  // only "on the page shown" is specified
  size_t page = 0;
  size_t orig = 0;
  // associated phrases
  bool assocShift = false;
  std::vector<Assoc> offers;
  bool assocFromPanel = false;
  size_t assocHl = 0;
  size_t prefixAt = 0, prefixLen = 0;

  std::string commit;        // what this event delivers
  std::string commitAlt;     // also acceptable (unfinished syllable dropped)
  bool error = false;
  bool ambiguous = false;    // two best conversions: the model cannot tell

  Model(const Vocab& vocab, const Opt& opt) : v(vocab), o(opt) {}
  Model(const Model&) = default;
  virtual ~Model() = default;
  virtual void typedSyllable() {}                                       // a syllable was just completed
  virtual void pinned(const std::vector<Piece>& /*before*/, const std::vector<Pick>& /*picksBefore*/, size_t /*at*/) {}  // the user picked a word

  std::vector<Piece> walk() {
    size_t n = r.size();
    std::vector<double> best(n + 1, -1e300);
    std::vector<Piece> via(n + 1);
    std::vector<bool> tie(n + 1, false);
    best[0] = 0;
    for (size_t i = 0; i < n; ++i) {
      if (best[i] < -1e200) continue;
      for (size_t L = 1; L <= 6 && i + L <= n; ++L) {
        std::string k = joinR(r, i, i + L);
        auto u = v.get(k);
        if (u.empty()) continue;
        double s = u[0].second;
        std::string val = u[0].first;
        for (auto& p : picks)
          if (p.start == i && p.len == L) {
            val = p.value;
            if (!p.weak) s = 42;
          }
        double t = best[i] + s;
        if (std::fabs(t - best[i + L]) < 1e-9) tie[i + L] = true;
        if (t > best[i + L]) {
          best[i + L] = t;
          via[i + L] = {i, L, k, val};
          tie[i + L] = tie[i];
        }
      }
    }
    if (n && tie[n]) ambiguous = true;
    std::vector<Piece> out;
    for (size_t e = n; e > 0; e = via[e].start) out.insert(out.begin(), via[e]);
    return out;
  }
  std::string text() {
    std::string s;
    for (auto& p : walk()) s += p.value;
    return s;
  }
  size_t offsetOf(size_t pos) {  // byte offset of a syllable position
    size_t at = 0;
    for (auto& p : walk()) {
      if (p.start >= pos) break;
      auto c = chars(p.value);
      if (p.start + p.len <= pos) {
        at += p.value.size();
        continue;
      }
      size_t d = std::min(pos - p.start, c.size());
      for (size_t i = 0; i < d; ++i) at += c[i].size();
    }
    return at;
  }
  // Expected view.
  View view() {
    View x;
    if (st == EMPTY) return x;
    std::string t = text();
    size_t at = offsetOf(cur);
    x.pre = t.substr(0, at) + pend.str() + t.substr(at);
    x.caret = (int)(at + pend.str().size());
    if (st == MARK) {
      size_t a = offsetOf(std::min(markStart, cur)), b = offsetOf(std::max(markStart, cur));
      x.markAt = a;
      x.marked = t.substr(a, b - a);
    }
    if (st == CHOOSE) {
      x.panel = true;
      std::map<std::string, int> count;
      for (auto& c : cands) ++count[c.value];
      for (auto& c : cands) {
        std::string rd = c.reading;
        std::replace(rd.begin(), rd.end(), '-', ' ');
        x.cands.push_back(count[c.value] > 1 ? c.value + " (" + rd + ")" : c.value);
      }
      x.cursor = (int)hl;
      x.page = (int)page;
    }
    if (st == ASSOC) {
      x.panel = true;
      for (auto& a : offers) {
        std::string s;
        for (auto& c : a.chars) s += c;
        x.cands.push_back(s);
      }
      x.cursor = (int)hl;
      x.page = (int)page;
    }
    return x;
  }
  void insert(const std::string& reading) {
    r.insert(r.begin() + (ptrdiff_t)cur, reading);
    std::vector<Pick> k;
    for (auto p : picks) {
      if (p.start < cur && p.start + p.len > cur) continue;
      if (p.start >= cur) ++p.start;
      k.push_back(p);
    }
    picks = k;
    ++cur;
  }
  void erase(size_t at) {
    r.erase(r.begin() + (ptrdiff_t)at);
    std::vector<Pick> k;
    for (auto p : picks) {
      if (p.start <= at && p.start + p.len > at) continue;
      if (p.start > at) --p.start;
      k.push_back(p);
    }
    picks = k;
  }
  size_t actual(size_t c) const {
    if (c > r.size()) return r.empty() ? 0 : r.size() - 1;
    if (c == r.size() && c > 0) return c - 1;
    if (!o.after && c > 0) return c - 1;
    return c;
  }
  std::vector<Cand> candidatesAt(size_t p) {
    std::vector<Cand> out;
    for (size_t L = 6; L >= 1; --L) {
      std::vector<size_t> starts;
      if (p < r.size()) starts.push_back(p);
      for (size_t s = p + 1 >= L ? p + 1 - L : 0; s < p; ++s) starts.push_back(s);
      for (size_t s : starts) {
        if (s + L > r.size() || s + L <= p) continue;
        std::string k = joinR(r, s, s + L);
        for (auto& u : v.get(k)) out.push_back({k, u.first, s, L});
      }
    }
    return out;
  }
  virtual bool learns() const { return false; }
  void setPick(const Pick& n) {
    std::vector<Pick> k;
    for (auto& p : picks)
      if (p.start + p.len <= n.start || n.start + n.len <= p.start) k.push_back(p);
    k.push_back(n);
    picks = k;
  }
  // Returns the caret after it.
  void pin(size_t originalCursor, const Cand& c, bool useMove) {
    size_t at = actual(cur);
    // the first word there with this reading
    Cand pick = c;
    for (auto& x : candidatesAtOrder(at))
      if (x.reading == c.reading) {
        pick.start = x.start;
        pick.len = x.len;
        break;
      }
    auto before = learns() ? walk() : std::vector<Piece>();
    auto picksBefore = picks;
    setPick({pick.start, pick.len, pick.reading, pick.value});
    pinned(before, picksBefore, at);
    if (useMove && o.move) cur = pick.start + pick.len;
    else cur = originalCursor;
  }
  std::vector<Cand> candidatesAtOrder(size_t p) {  // words covering p, those starting at p first
    std::vector<Cand> out;
    for (size_t L = 1; L <= 6 && p + L <= r.size(); ++L) {
      std::string k = joinR(r, p, p + L);
      if (v.has(k)) out.push_back({k, "", p, L});
    }
    for (size_t s = p >= 5 ? p - 5 : 0; s < p; ++s)
      for (size_t L = p - s + 1; L <= 6 && s + L <= r.size(); ++L) {
        std::string k = joinR(r, s, s + L);
        if (v.has(k)) out.push_back({k, "", s, L});
      }
    return out;
  }
  void clearAll() {
    r.clear();
    cur = 0;
    pend.clear();
    picks.clear();
    st = EMPTY;
    cands.clear();
  }
  void settle() {  // composition shown, or nothing left
    st = (r.empty() && pend.empty()) ? EMPTY : INPUT;
    if (st == EMPTY) clearAll();
  }
  void openPanel(size_t original) {
    cands = candidatesAt(actual(cur));
    orig = original;
    hl = page = 0;
    hlLoose = false;
    st = CHOOSE;
  }
  std::vector<Assoc> lookup(const std::vector<std::string>& pc, const std::vector<std::string>& pr) {
    std::vector<Assoc> w, u;
    for (auto& a : v.assoc) {
      if (a.chars.size() <= pc.size()) continue;
      bool ok = pc.size() == pr.size();
      for (size_t i = 0; ok && i < pc.size(); ++i) ok = a.chars[i] == pc[i] && a.reads[i] == pr[i];
      if (ok) w.push_back(a);
    }
    std::stable_sort(w.begin(), w.end(), [](auto& a, auto& b) { return a.score > b.score; });
    std::set<std::vector<std::string>> seen;
    for (auto& a : w)
      if (seen.insert(a.chars).second) u.push_back(a);
    return u;
  }
  // Offers for the word before the caret, longest suffix first.
  bool offer(bool shift) {
    if (cur < 1) return false;
    for (auto& p : walk()) {
      if (!(p.start < cur && cur <= p.start + p.len)) continue;
      auto c = chars(p.value);
      if (c.size() != p.len) return false;
      size_t max = cur - p.start;
      for (size_t n = max; n > 0; --n) {
        std::vector<std::string> pc(c.begin() + (ptrdiff_t)(max - n), c.begin() + (ptrdiff_t)max), pr;
        for (size_t i = cur - n; i < cur; ++i) pr.push_back(r[i]);
        auto w = lookup(pc, pr);
        if (!w.empty()) {
          offers = w;
          assocShift = shift;
          assocFromPanel = false;
          prefixAt = cur - n;
          prefixLen = n;
          hl = page = 0;
          hlLoose = false;
          st = ASSOC;
          return true;
        }
      }
      return false;
    }
    return false;
  }
  void commitText(const std::string& extra) {
    std::string t = text();
    size_t at = offsetOf(cur);
    commit = t.substr(0, at) + pend.str() + t.substr(at) + extra;
    commitAlt = t + extra;
    clearAll();
  }

  bool punctuation(const std::string& key, bool offerAfter = true) {
    if (!v.has(key)) return false;
    if (!pend.empty()) {
      error = true;
      st = INPUT;
      return true;
    }
    insert(key);
    st = INPUT;
    if (o.assoc && offerAfter) offer(true);
    return true;
  }

  // Applies an event; returns whether the key is consumed.
  bool key(const Ev& k) {
    commit.clear();
    commitAlt.clear();
    error = false;
    if (k.st & fcitx::KeyState::Alt) return false;
    if (st == CHOOSE) {
      panelKey(k);
      return true;
    }
    if (st == ASSOC) {
      if (assocKey(k)) return true;
      handle(k);
      return true;
    }
    return handle(k);
  }

  bool handle(const Ev& k) {
    bool shown = st != EMPTY;
    bool plain = !(k.st & fcitx::KeyState::Shift) && !(k.st & fcitx::KeyState::Ctrl);
    char c = (k.st & fcitx::KeyState::Ctrl) ? 0 : k.c;
    bool isSpace = same(k, SPACE);
    auto it = layout == "Standard" ? kStandard.find(c) : kStandard.end();
    bool consumed = false;
    if (c && plain && it != kStandard.end()) {
      pend.s[it->second.first] = it->second.second;
      consumed = true;
      if (pend.s[3].empty()) {
        st = INPUT;
        return true;
      }
    }
    if ((!pend.s[3].empty() && !pend.toneOnly()) || (!pend.empty() && isSpace)) {
      if (consumed || isSpace) {
        std::string s = pend.str();
        pend.clear();
        if (!v.has(s)) {
          error = true;
          settle();
          return true;
        }
        insert(s);
        st = INPUT;
        typedSyllable();
        if (o.assoc) offer(true);
        return true;
      }
    }
    if (consumed) {
      st = INPUT;
      return true;
    }
    if (same(k, SSPACE)) {
      if (o.lower) {
        insert(" ");
        st = INPUT;
      } else {
        std::string alt;
        if (!r.empty()) commitText(" ");
        else commit = commitAlt = " ";
        clearAll();
      }
      return true;
    }
    if ((isSpace || same(k, DOWN)) && shown && pend.empty()) {
      size_t original = cur;
      if (cur == r.size() && o.after && o.move) --cur;
      openPanel(original);
      return true;
    }
    if (same(k, ESC)) {
      if (!shown) return false;
      if (o.escClears) {
        clearAll();
        return true;
      }
      pend.clear();
      settle();
      return true;
    }
    if (same(k, TAB) || same(k, STAB)) {
      if (pend.empty() && r.empty()) return false;
      if (st != INPUT || !pend.empty()) {
        error = true;
        return true;
      }
      auto cs = candidatesAt(actual(cur));
      Piece node{};
      for (auto& p : walk())
        if (p.start <= actual(cur) && actual(cur) < p.start + p.len) node = p;
      bool picked = false;
      for (auto& p : picks) picked |= p.start == node.start && p.len == node.len;
      size_t i = 0, n = cs.size();
      auto isNode = [&](const Cand& x) { return x.reading == node.reading && x.value == node.value; };
      if (!picked) {
        if (isNode(cs[0])) i = same(k, STAB) ? n - 1 : 1;
      } else {
        for (i = 0; i < n && !isNode(cs[i]); ++i) {
        }
        if (i < n) i = same(k, STAB) ? (i ? i - 1 : n - 1) : i + 1;
      }
      if (i >= n) i = 0;
      pin(cur, cs[i], false);
      st = INPUT;
      return true;
    }
    bool left = same(k, LEFT) || same(k, SLEFT), right = same(k, RIGHT) || same(k, SRIGHT),
         home = same(k, HOME) || same(k, SHOME), end = same(k, END) || same(k, SEND);
    if (left || right || home || end) {
      if (st != INPUT && st != MARK) return false;
      if (!pend.empty()) {
        error = true;
        st = INPUT;
        return true;
      }
      size_t start = st == MARK ? markStart : cur;
      if (left) { if (cur > 0) --cur; else error = true; }
      if (right) { if (cur < r.size()) ++cur; else error = true; }
      if (home) cur = 0;
      if (end) cur = r.size();
      if ((k.st & fcitx::KeyState::Shift) && cur != start) {
        st = MARK;
        markStart = start;
      } else {
        st = INPUT;
      }
      return true;
    }
    if (same(k, BS) || same(k, DEL)) {
      if (!shown) return false;
      if (pend.toneOnly()) pend.clear();
      else if (pend.empty()) {
        if (same(k, BS) && cur > 0) erase(--cur);
        else if (same(k, DEL) && cur < r.size()) erase(cur);
        else error = true;
      } else if (same(k, BS)) pend.back();
      else error = true;
      settle();
      return true;
    }
    if (same(k, RET) || same(k, SRET) || same(k, CRET)) {
      if (!shown) return false;
      if (!pend.empty()) {
        error = true;
        st = INPUT;
        return true;
      }
      if (same(k, SRET)) {
        if (st == INPUT) {
          if (!offer(false)) error = true;
        } else {
          error = true;
        }
        return true;
      }
      if (same(k, CRET)) {
        if (!o.ctrlEnter) return false;
        std::string s;
        if (o.ctrlEnter == 1) s = joinR(r, 0, r.size());
        else
          for (auto& p : walk()) {
            std::string rd = p.reading;
            std::replace(rd.begin(), rd.end(), '-', ' ');
            s += rd[0] == '_' ? p.value : "<ruby>" + p.value + "<rp>(</rp><rt>" + rd + "</rt><rp>)</rp></ruby>";
          }
        clearAll();
        commit = commitAlt = s;
        return true;
      }
      if (st == MARK) {
        acceptMark();
        return true;
      }
      commitText("");
      return true;
    }
    if (c == '`' && v.has("_punctuation_list")) {
      if (!pend.empty()) {
        error = true;
        return true;
      }
      insert("_punctuation_list");
      size_t original = cur;
      if (o.after) --cur;
      openPanel(original);
      return true;
    }
    char a = k.c;
    if (k.st & fcitx::KeyState::Ctrl) {
      std::string cs = ",.1/;'\\";
      std::string to = ",.!/;'\\";
      size_t i = k.name.size() == 6 ? cs.find(k.name[5]) : std::string::npos;
      a = i == std::string::npos ? 0 : to[i];
      if (a) return punctuation(std::string("_ctrl_punctuation_") + a);
    } else if (k.name.compare(0, 3, "KP_") == 0) {
      a = k.name[3];
    }
    if (a && !(k.st & fcitx::KeyState::Ctrl)) {
      std::string s(1, a);
      if (o.half && (punctuation("_half_punctuation_" + layout + "_" + s) || punctuation("_half_punctuation_" + s))) return true;
      if (punctuation("_punctuation_" + layout + "_" + s) || punctuation("_punctuation_" + s)) return true;
      if (a >= 'A' && a <= 'Z') {
        if (o.lower) {
          punctuation("_letter_" + s);
          return true;
        }
        if (!shown) return false;
        commitText(s);
        return true;
      }
    }
    if (shown) {
      if (st == MARK) return true;
      error = true;
      st = INPUT;
      return true;
    }
    return false;
  }
  struct Added {
    std::string phrase, reading;
  };
  std::vector<Added> added;
  bool markAcceptable() {
    size_t a = std::min(markStart, cur), b = std::max(markStart, cur);
    if (b - a < 2 || b - a > 6) return false;
    std::string rd = joinR(r, a, b), t = view().marked;
    for (auto& u : v.get(rd))
      if (u.first == t) return false;
    return true;
  }
  void acceptMark() {
    if (!markAcceptable()) {
      error = true;
      return;
    }
    size_t a = std::min(markStart, cur), b = std::max(markStart, cur);
    added.push_back({view().marked, joinR(r, a, b)});
    if (markStart == r.size() && cur < markStart) cur = r.size();
    st = INPUT;
  }

  size_t pageSize() const { return st == ASSOC && assocShift ? 9 : (size_t)o.count; }
  size_t total() const { return st == ASSOC ? offers.size() : cands.size(); }
  size_t shownHere() const { return std::min(pageSize(), total() - page * pageSize()); }
  bool isVertical() const {
    if (st == CHOOSE)
      for (auto& c : cands)
        if (chars(c.value).size() > 8) return true;
    return o.vertical;
  }
  int selectionIndex(const Ev& k) const {
    static const char* ks[] = {"123456789", "asdfghjkl", "asdfzxcvb"};
    if (k.st & fcitx::KeyState::Ctrl) return -1;
    if (k.c && !(k.st & fcitx::KeyState::Shift)) {
      const char* p = strchr(ks[o.keys], k.c);
      if (p && *p && p - ks[o.keys] < o.count) return (int)(p - ks[o.keys]);
    }
    if (o.keys == 0 && k.name.compare(0, 3, "KP_") == 0 && k.name[3] >= '1' && k.name[3] <= '0' + o.count) return k.name[3] - '1';
    return -1;
  }
  void toPage(size_t p) {
    page = p;
    hl = p * pageSize();
    hlLoose = true;
  }
  // Moves inside a list; true if the key is one of those.
  bool navigate(const Ev& k) {
    size_t pages = (total() + pageSize() - 1) / pageSize();
    bool vert = isVertical();
    bool next = same(k, vert ? DOWN : RIGHT), prev = same(k, vert ? UP : LEFT);
    bool nextPage = same(k, SPACE) || same(k, PGDN) || same(k, vert ? RIGHT : DOWN), prevPage = same(k, PGUP) || same(k, vert ? LEFT : UP);
    if (next || prev) {
      size_t n = total();
      hl = next ? (hl + 1) % n : (hl + n - 1) % n;
      page = hl / pageSize();
      return true;
    }
    if (nextPage) {
      if (pages > 1) toPage((page + 1) % pages);
      return true;
    }
    if (prevPage) {
      if (pages > 1) toPage((page + pages - 1) % pages);
      else hlLoose = true;
      return true;
    }
    return false;
  }
  void choose(size_t i) {
    Cand c = cands[i];
    pin(orig, c, true);
    st = INPUT;
    if (o.assoc) offer(true);
  }
  void panelKey(const Ev& k) {
    int i = selectionIndex(k);
    if (i >= 0 && (size_t)i < shownHere()) {
      choose(page * pageSize() + (size_t)i);
      return;
    }
    bool l = same(k, SLEFT) || (o.jk && k.c == 'j'), rt = same(k, SRIGHT) || (o.jk && k.c == 'k');
    if (l || rt) {
      if (l && cur > 0) --cur;
      if (rt && cur < r.size()) ++cur;
      openPanel(cur);
      return;
    }
    if (same(k, SRET)) {
      Cand c = cands[hl];
      std::vector<std::string> pr;
      for (size_t j = c.start; j < c.start + c.len; ++j) pr.push_back(r[j]);
      auto w = lookup(chars(c.value), pr);
      if (!w.empty()) {
        offers = w;
        assocShift = false;
        assocFromPanel = true;
        assocHl = hl;
        prefixAt = c.start;
        prefixLen = c.len;
        prefixValue = c.value;
        hl = page = 0;
        hlLoose = false;
        st = ASSOC;
      }
      return;
    }
    if (same(k, RET)) {
      choose(hl);
      return;
    }
    if (same(k, ESC) || same(k, BS)) {
      cur = orig;
      st = INPUT;
      return;
    }
    navigate(k);
  }
  std::string prefixValue;
  int pickedOffer = -1;  // set when an associated phrase was chosen (the caller checks the result)
  // true if consumed here
  bool assocKey(const Ev& k) {
    pickedOffer = -1;
    if (assocShift) {
      if ((k.st & fcitx::KeyState::Shift) && k.code >= 10 && k.code <= 18) {
        size_t i = (size_t)(k.code - 10);
        if (i < shownHere()) pickedOffer = (int)(page * pageSize() + i);
        return true;
      }
      if (same(k, SRET)) {
        pickedOffer = (int)hl;
        return true;
      }
      if (same(k, ESC) || same(k, BS) || same(k, SPACE)) return false;
    } else {
      int i = selectionIndex(k);
      if (i >= 0 && (size_t)i < shownHere()) {
        pickedOffer = (int)(page * pageSize() + (size_t)i);
        return true;
      }
      if (same(k, RET)) {
        pickedOffer = (int)hl;
        return true;
      }
      if (same(k, ESC) || same(k, BS)) {
        if (assocFromPanel) {
          st = CHOOSE;
          hl = assocHl;
          page = hl / pageSize();
        } else {
          st = INPUT;
        }
        return true;
      }
    }
    if (navigate(k)) return true;
    return same(k, MOD);
  }
};

// Compares the engine with the model after an event.
static void compare(Explorer& e, Eng& g, Model& m, bool accepted, bool expected, const std::string& what) {
  if (m.ambiguous) e.prune();
  View a = g.view(), b = m.view();
  std::string c = g.takeCommits();
  std::string ctx = what + ": shows " + a.str() + ", expected " + b.str();
  e.validated(1);
  if (accepted != expected) e.fail(expected ? "a key reached the application" : "a key was swallowed", ctx);
  if (c != m.commit && c != m.commitAlt) e.fail("wrong text delivered", ctx + "; delivered '" + c + "' expected '" + m.commit + "'");
  if (a.pre != b.pre) e.fail("wrong text displayed", ctx);
  if (!a.pre.empty() && a.caret != b.caret) e.fail("caret in the wrong place", ctx);
  if (a.marked != b.marked || (!a.marked.empty() && a.markAt != b.markAt)) e.fail("wrong marking", ctx);
  if (a.panel != b.panel) e.fail(b.panel ? "no panel" : "unexpected panel", ctx);
  if (a.panel) {
    if (a.cands != b.cands) e.fail("wrong panel contents", ctx);
    if (m.hlLoose) {
      // Paging: the page is specified, the highlight only has to be on it.
      if (a.page != b.page || a.cursor < a.page * a.pageSize || a.cursor >= a.page * a.pageSize + a.shown)
        e.fail("highlight outside the page shown", ctx);
      m.hl = (size_t)a.cursor;
      m.hlLoose = false;
    } else if (a.cursor != b.cursor || a.page != b.page) {
      e.fail("wrong highlight", ctx);
    }
  }
}
#endif
