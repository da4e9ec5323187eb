// C03 in the Hanyu Pinyin layout: the unfinished syllable is a string of
// letters, edited like one, whether or not the letters make a syllable.
#include "engine_vocab.h"

static Vocab pinyinVocab() {
  Vocab v;
  v.add("ㄅㄚ", "八", -9.01);
  v.add("ㄅㄚˇ", "把", -9.13);
  v.add("ㄅㄧˇ", "比", -9.29);
  v.add("ㄞˇ", "矮", -9.41);
  v.add("ㄚ", "啊", -9.47);
  v.add("ㄞ", "哀", -9.59);
  v.add("_punctuation_<", "，", -8.11);
  return v;
}
// What the letters and tone stand for ("" when not a syllable).
static std::string syllable(const std::string& s) {
  static const std::map<std::string, std::string> base = {{"ba", "ㄅㄚ"}, {"bi", "ㄅㄧ"}, {"ai", "ㄞ"}, {"a", "ㄚ"}, {"bai", "ㄅㄞ"}, {"biu", ""}};
  auto it = base.find(s.substr(0, s.find_last_not_of("12345") + 1));
  if (it == base.end() || it->second.empty()) return "";
  if (s.size() == it->first.size()) return it->second;
  return it->second + (s.back() == '3' ? "ˇ" : "ˋ");
}
struct M {
  std::vector<std::string> vals;  // one character per syllable
  size_t cur = 0;
  std::string pend;
  std::string text(size_t b, size_t e) const {
    std::string s;
    for (size_t i = b; i < e; ++i) s += vals[i];
    return s;
  }
  std::string pre() const { return text(0, cur) + pend + text(cur, vals.size()); }
  size_t caret() const { return text(0, cur).size() + pend.size(); }
};

static void body(Explorer& e) {
  static const Vocab v = pinyinVocab();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  Conf c = Opt().conf();
  c["BopomofoKeyboardLayout"] = "hanyupinyin";
  bool escClears = e.pick(2);
  c["EscKeyClearsEntireComposingBuffer"] = escClears ? "True" : "False";
  Eng g(e, c, false);
  M m;
  std::string what;
  static const Ev KEYS[] = {charKey('b'), charKey('a'), charKey('i'), charKey('3'), SPACE, BS, ESC, LEFT, RIGHT, DEL, RET, HOME};
  const size_t n = sizeof KEYS / sizeof *KEYS;
  auto press = [&](const Ev& k) {
    bool shown = !m.pre().empty();
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    View a = g.view();
    e.note(k.name, " -> ", a.str());
    e.validated(1);
    std::string ctx = what + ": shows " + a.str();
    if (a.panel) e.prune();
    std::string committed;
    bool expect = true, free = false;
    bool toned = !m.pend.empty() && isdigit((unsigned char)m.pend.back());
    if (k.c && k.c != ' ' && k.c != '3') {
      if (toned) free = true;  // a letter after the tone
      else m.pend += k.c;
    } else if (k.c == '3' || same(k, SPACE)) {
      if (m.pend.empty()) {
        if (same(k, SPACE) && shown) e.prune();  // opens the candidates
        expect = shown;
        if (k.c == '3') expect = shown;
      } else if (toned) {
        free = true;
      } else {
        std::string s = syllable(m.pend + (same(k, SPACE) ? "" : "3"));
        if (s.empty()) {
          // Not a syllable: what becomes of the letters is not specified, but
          // the text on both sides of them stays as it is.
          std::string l = m.text(0, m.cur), r = m.text(m.cur, m.vals.size());
          if (a.pre.size() < l.size() + r.size() || a.pre.compare(0, l.size(), l) != 0 || a.pre.compare(a.pre.size() - r.size(), r.size(), r) != 0)
            e.fail("letters that are no syllable changed the composition", ctx);
          if (!got) e.fail("a key reached the application", ctx);
          e.prune();
        } else {
          m.pend.clear();
          if (v.has(s)) {
            m.vals.insert(m.vals.begin() + (ptrdiff_t)m.cur, v.get(s)[0].first);
            ++m.cur;
          }
        }
      }
    } else if (same(k, BS)) {
      if (!m.pend.empty()) m.pend.pop_back();
      else if (m.cur > 0) m.vals.erase(m.vals.begin() + (ptrdiff_t)--m.cur);
      expect = shown;
    } else if (same(k, DEL)) {
      if (m.pend.empty() && m.cur < m.vals.size()) m.vals.erase(m.vals.begin() + (ptrdiff_t)m.cur);
      expect = shown;
    } else if (same(k, ESC)) {
      if (escClears) m = M();
      else m.pend.clear();
      expect = shown;
    } else if (same(k, RET)) {
      expect = shown;
      if (m.pend.empty()) {
        committed = m.pre();
        m = M();
      }
    } else {
      expect = shown;
      if (m.pend.empty()) {
        if (same(k, LEFT) && m.cur > 0) --m.cur;
        if (same(k, RIGHT) && m.cur < m.vals.size()) ++m.cur;
        if (same(k, HOME)) m.cur = 0;
      }
    }
    if (free) {  // only the rest of the composition is specified
      e.prune();
    }
    ctx += ", expected [" + m.pre() + "]@" + std::to_string(m.caret());
    std::string d = g.takeCommits();
    if (d != committed) e.fail("wrong text delivered", ctx + " delivered " + d);
    if (a.pre != m.pre()) e.fail("wrong text displayed", ctx);
    if (!a.pre.empty() && (size_t)a.caret != m.caret()) e.fail("caret in the wrong place", ctx);
    if (got != expect) e.fail(expect ? "a key reached the application" : "a key was swallowed", ctx);
  };
  int depth = e.thorough ? 6 : 5;
  for (int d = 0; d < depth; ++d) {
    press(KEYS[e.pick(n)]);
    e.state(m.pre() + "@" + std::to_string(m.caret()));
  }
  e.outcome(m.pre());
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
