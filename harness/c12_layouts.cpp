// C12: the reading buffer under every keyboard layout.
#include <deque>
#include "mandarin_common.h"

static std::string show(BopomofoReadingBuffer& b) {
  auto s = b.syllable();
  std::string r = b.composedString() + "|" + s.composedString() + "|";
  r += b.isEmpty() ? "E" : "-";
  r += b.hasToneMarker() ? "T" : "-";
  r += b.hasToneMarkerOnly() ? "O" : "-";
  return r;
}
static std::string want(const Syl& s) {
  std::string r = s.text() + "|" + s.text() + "|";
  r += s.text().empty() ? "E" : "-";
  r += s.c[3] ? "T" : "-";
  r += s.c[3] && !s.c[0] && !s.c[1] && !s.c[2] ? "O" : "-";
  return r;
}
// One key on a one-key-one-component layout.
static bool press(const Layout& l, Syl& s, char k) {
  auto it = l.keys.find(k);
  if (it == l.keys.end()) return false;
  int kind, ix;
  component(it->second[0], kind, ix);
  s.c[kind] = ix;
  return true;
}
static void back(Syl& s) {
  for (int k = 3; k >= 0; --k)
    if (s.c[k]) {
      s.c[k] = 0;
      return;
    }
}
static void same(Explorer& e, const Layout& l, BopomofoReadingBuffer& b, const Syl& s, const std::string& what) {
  std::string g = show(b), w = want(s);
  if (g != w) e.fail("reading differs", std::string(l.name) + ": " + what + ": '" + g + "', expected '" + w + "'");
}

// All 22x4x14x5 syllables of a plain layout: every one typed, then every key and Backspace.
static void plainAll(Explorer& e, const Layout& l, int cons) {
  for (int m = 0; m < 4; ++m)
    for (int v = 0; v < 14; ++v)
      for (int t = 0; t < 5; ++t) {
        Syl s;
        s.c[0] = cons, s.c[1] = m, s.c[2] = v, s.c[3] = t;
        BopomofoReadingBuffer b(l.real);
        std::string keys = l.keysOf(s);
        for (char k : keys)
          if (!b.combineKey(k)) e.fail("layout key refused", std::string(l.name) + ": '" + k + "'");
        same(e, l, b, s, "typing " + keys);
        e.state(std::string(l.name) + s.text());
        for (int k = 0; k < 256; ++k) {
          BopomofoReadingBuffer c = b;
          Syl n = s;
          bool valid = press(l, n, static_cast<char>(k));
          if (c.isValidKey(static_cast<char>(k)) != valid)
            e.fail("key validity differs", std::string(l.name) + ": key " + std::to_string(k));
          bool did = c.combineKey(static_cast<char>(k));
          if (did != valid) e.fail("key consumption differs", std::string(l.name) + ": key " + std::to_string(k));
          same(e, l, c, n, "typing " + keys + " then key " + std::to_string(k));
        }
        BopomofoReadingBuffer c = b;
        Syl n = s;
        while (!c.isEmpty()) {
          c.backspace();
          back(n);
          same(e, l, c, n, "backspaces after " + keys);
        }
        c.backspace();
        same(e, l, c, Syl{}, "backspace when empty");
        b.clear();
        same(e, l, b, Syl{}, "clear after " + keys);
        e.evaluations(260);
        e.validated(260);
        mc::alive();
      }
}

static void sequences(Explorer& e, const Layout& l, const std::string& first, int depth) {
  // All key sequences (and Backspace) of the depth on a plain layout, step by step.
  std::string keys;
  for (auto& kv : l.keys) keys += kv.first;
  keys += '\b';
  keys += '`';
  std::function<void(const std::string&)> rec = [&](const std::string& seq) {
    BopomofoReadingBuffer b(l.real);
    Syl s;
    for (char k : seq) {
      if (k == '\b') b.backspace(), back(s);
      else b.combineKey(k), press(l, s, k);
    }
    same(e, l, b, s, "keys " + mc::quote(seq));
    e.evaluations(1);
    e.validated(1);
    if ((int)seq.size() < depth)
      for (char k : keys) rec(seq + k);
    mc::alive();
  };
  rec(first);
}

static int comps(const std::string& s) { return (int)u8chars(s).size(); }

// 26-key layouts: every standard syllable; all key sequences keep the buffer sane.
static void ambiguousStandard(Explorer& e, const Layout& l, size_t part, size_t parts) {
  auto S = standardSyllables();
  for (size_t i = part; i < S.size(); i += parts)
    for (int t = 0; t < 5; ++t) {
      Syl s = S[i];
      s.c[3] = t;
      BopomofoReadingBuffer b(l.real);
      std::string keys = l.keysOf(s);
      for (char k : keys)
        if (!b.isValidKey(k) || !b.combineKey(k)) e.fail("layout key refused", std::string(l.name) + ": '" + k + "'");
      same(e, l, b, s, "typing " + keys);
      e.state(std::string(l.name) + s.text());
      // Removing the tone leaves the toneless syllable.
      if (t) {
        b.backspace();
        Syl n = s;
        n.c[3] = 0;
        same(e, l, b, n, "backspace after " + keys);
        for (int t2 = 1; t2 < 5; ++t2) {
          BopomofoReadingBuffer c = b;
          n.c[3] = t2;
          c.combineKey(l.keyOf(kT[t2 - 1]));
          same(e, l, c, n, "retyping the tone after " + keys);
        }
      }
      for (int left = comps(b.composedString()); left > 0; --left) {
        b.backspace();
        if (comps(b.composedString()) != left - 1)
          e.fail("backspace did not remove one component", std::string(l.name) + ": after " + keys + ": " + show(b));
      }
      e.evaluations(3);
      e.validated(3);
    }
}
static void ambiguousSequences(Explorer& e, const Layout& l, const std::string& first, int depth) {
  std::string all = "abcdefghijklmnopqrstuvwxyz\b";
  std::function<void(const std::string&)> rec = [&](const std::string& seq) {
    BopomofoReadingBuffer b(l.real);
    std::set<std::string> allowed;
    for (char k : seq) {
      std::string before = show(b);
      if (k == '\b') {
        int n = comps(b.composedString());
        b.backspace();
        if (comps(b.composedString()) > n) e.fail("backspace added a component", std::string(l.name) + ": " + mc::quote(seq));
        continue;
      }
      bool valid = l.keys.count(k);
      if (b.isValidKey(k) != valid) e.fail("key validity differs", std::string(l.name) + ": " + k);
      if (b.combineKey(k) != valid) e.fail("key consumption differs", std::string(l.name) + ": " + k);
      if (!valid && show(b) != before) e.fail("a refused key changed the reading", std::string(l.name) + ": " + mc::quote(seq));
      if (valid && b.isEmpty()) e.fail("a consumed key left nothing", std::string(l.name) + ": " + mc::quote(seq));
    }
    same(e, l, b, parse(b.composedString()), "keys " + mc::quote(seq));
    e.state(std::string(l.name) + b.composedString());
    for (int i = 0; i < 5 && !b.isEmpty(); ++i) b.backspace();
    if (!b.isEmpty()) e.fail("the reading cannot be erased", std::string(l.name) + ": " + mc::quote(seq));
    e.evaluations(1);
    if ((int)seq.size() < depth)
      for (char k : all) rec(seq + k);
    mc::alive();
  };
  rec(first);
}

// Pinyin: keys accumulate as typed; a tone ends the syllable.
static void pinyin(Explorer& e, const Layout& l, const std::string& first, int depth) {
  const std::string all = "abeghinouvyzQ1245 ;\b";
  std::function<void(const std::string&)> rec = [&](const std::string& seq) {
    BopomofoReadingBuffer b(l.real);
    std::string typed;
    for (char k : seq) {
      if (k == '\b') {
        b.backspace();
        if (!typed.empty()) typed.pop_back();
      } else {
        bool letter = isalpha((unsigned char)k), tone = k >= '2' && k <= '5';
        bool done = !typed.empty() && isdigit((unsigned char)typed.back());
        // A second tone key after a tone is accepted by the implementation or
        // refused; the statement does not say which, so skip those sequences.
        if (tone && done) return;
        bool valid = (letter && !done) || (tone && !typed.empty());
        if (b.isValidKey(k) != valid) e.fail("key validity differs", "Pinyin: '" + typed + "' key " + mc::quote(std::string(1, k)));
        if (b.combineKey(k) != valid) e.fail("key consumption differs", "Pinyin: '" + typed + "' key " + mc::quote(std::string(1, k)));
        if (valid) typed += (char)tolower(k);
      }
      if (b.composedString() != typed) e.fail("reading differs", "Pinyin: typed '" + typed + "', shown '" + b.composedString() + "'");
      if (b.isEmpty() != typed.empty()) e.fail("emptiness differs", "Pinyin: typed '" + typed + "'");
      BopomofoReadingBuffer c(l.real);
      for (char t : typed) c.combineKey(t);
      if (show(b) != show(c)) e.fail("history matters", "Pinyin: " + mc::quote(seq) + ": " + show(b) + " vs " + show(c));
    }
    e.state("pinyin" + show(b));
    e.evaluations(1);
    e.validated(1);
    if ((int)seq.size() < depth)
      for (char k : all) rec(seq + k);
    mc::alive();
  };
  rec(first);
}
static void pinyinStandard(Explorer& e, const Layout& l) {
  for (auto s : standardSyllables())
    for (int t = 0; t < 5; ++t)
      for (int upper = 0; upper < 2; ++upper) {
        s.c[3] = t;
        std::string keys = pinyinOf(s, "v");
        if (t) keys += char('1' + t);
        BopomofoReadingBuffer b(l.real);
        std::string typed;
        for (char k : keys) {
          if (!b.combineKey(upper ? (char)toupper(k) : k)) e.fail("layout key refused", "Pinyin: " + keys);
          typed += k;
          if (b.composedString() != typed) e.fail("reading differs", "Pinyin: " + keys + ": " + b.composedString());
        }
        if (b.syllable().composedString() != s.text())
          e.fail("wrong syllable", "Pinyin: " + keys + ": " + b.syllable().composedString() + ", expected " + s.text());
        if (b.hasToneMarker() != (t > 0)) e.fail("tone marker differs", "Pinyin: " + keys);
        e.evaluations(1);
        e.validated(1);
      }
}

// Switching: after any chain of layouts, a cleared buffer is like a new one.
static void switching(Explorer& e) {
  auto& L = layouts();
  size_t a = e.pick(6), b = e.pick(6), c = e.pick(6);
  size_t typed = e.pick(3);  // keys typed under the old layouts before each switch
  BopomofoReadingBuffer buf(L[a].real);
  auto some = [&](const Layout&) {
    const std::string ks = "sj3";
    for (size_t i = 0; i < typed; ++i) buf.combineKey(ks[i]);
    buf.clear();
  };
  some(L[a]);
  buf.setKeyboardLayout(L[b].real);
  some(L[b]);
  buf.setKeyboardLayout(L[c].real);
  if (buf.keyboardLayout() != L[c].real) e.fail("layout not set", L[c].name);
  BopomofoReadingBuffer fresh(L[c].real);
  const std::string ks = "abcdefghijklmnopqrstuvwxyz1234567890-=;',./\b";
  auto cmp = [&](BopomofoReadingBuffer& x, BopomofoReadingBuffer& y, const std::string& seq) {
    if (show(x) != show(y))
      e.fail("trace of an earlier layout", std::string(L[a].name) + "->" + L[b].name + "->" + L[c].name + " keys " +
                                               mc::quote(seq) + ": " + show(x) + ", fresh: " + show(y));
    for (char k : ks)
      if (x.isValidKey(k) != y.isValidKey(k))
        e.fail("trace of an earlier layout", std::string(L[a].name) + "->" + L[b].name + "->" + L[c].name + " after " +
                                                 mc::quote(seq) + " key '" + k + "' validity");
  };
  cmp(buf, fresh, "");
  for (char k1 : ks)
    for (char k2 : ks) {
      BopomofoReadingBuffer x = buf, y = fresh;
      std::string seq = {k1, k2};
      for (char k : seq) {
        k == '\b' ? x.backspace() : void(x.combineKey(k));
        k == '\b' ? y.backspace() : void(y.combineKey(k));
      }
      cmp(x, y, seq);
      e.evaluations(1);
      e.validated(1);
    }
  e.state("switch" + std::to_string(((a * 6 + b) * 6 + c) * 3 + typed));
}

static void body(Explorer& e) {
  auto& L = layouts();
  switch (e.pick(6)) {
    case 0: {
      size_t l = e.pick(3), c = e.pick(22);
      plainAll(e, L[l], (int)c);
      break;
    }
    case 1: {
      size_t l = e.pick(3);
      std::string ks;
      for (auto& kv : L[l].keys) ks += kv.first;
      ks += '\b';
      size_t k = e.pick(ks.size());
      sequences(e, L[l], std::string(1, ks[k]), e.thorough ? 4 : 3);
      break;
    }
    case 2: {
      size_t l = 3 + e.pick(2), p = e.pick(16);
      ambiguousStandard(e, L[l], p, 16);
      break;
    }
    case 3: {
      size_t l = 3 + e.pick(2), k = e.pick(27);
      ambiguousSequences(e, L[l], std::string(1, k < 26 ? (char)('a' + k) : '\b'), e.thorough ? 5 : 4);
      break;
    }
    case 4: {
      if (e.pick(2)) pinyinStandard(e, L[5]);
      else {
        const std::string all = "abeghinouvyzQ1245 ;\b";
        pinyin(e, L[5], std::string(1, all[e.pick(all.size())]), e.thorough ? 5 : 4);
      }
      break;
    }
    default: switching(e);
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
