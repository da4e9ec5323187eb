// C13: syllable representations.
#include "mandarin_common.h"

static void readBack(Explorer& e, int cons) {
  static const int kTones[] = {0, 0x0800, 0x1000, 0x1800, 0x2000};
  for (int m = 0; m < 4; ++m)
    for (int v = 0; v < 14; ++v)
      for (int t = 0; t < 5; ++t) {
        Syl s;
        s.c[0] = cons, s.c[1] = m, s.c[2] = v, s.c[3] = t;
        auto r = BopomofoSyllable::FromComposedString(s.text());
        if (r.composedString() != s.text())
          e.fail("bopomofo round trip", s.text() + " -> " + r.composedString());
        if (r.hasConsonant() != (cons > 0) || r.hasMiddleVowel() != (m > 0) || r.hasVowel() != (v > 0) ||
            r.hasToneMarker() != (t > 0) || r.isEmpty() != s.text().empty())
          e.fail("component queries differ", s.text());
        // Built from components, in any order, it is the same syllable.
        std::string parts[4];
        for (int k = 0; k < 4; ++k)
          if (s.c[k]) parts[k] = (*kKinds[k])[s.c[k] - 1];
        int perm[4] = {0, 1, 2, 3};
        do {
          std::string txt;
          BopomofoSyllable sum;
          for (int k : perm) {
            txt += parts[k];
            sum += BopomofoSyllable::FromComposedString(parts[k]);
          }
          if (!(BopomofoSyllable::FromComposedString(txt) == r) || sum != r)
            e.fail("component order matters", txt);
          e.evaluations(1);
        } while (std::next_permutation(perm, perm + 4));
        // The standard-layout key sequence is also reversible.
        auto* std_ = BopomofoKeyboardLayout::StandardLayout();
        if (!(std_->syllableFromKeySequence(std_->keySequenceFromSyllable(r)) == r))
          e.fail("key sequence round trip", s.text());
        // A later component replaces the earlier one of its kind.
        for (int k = 0; k < 4; ++k)
          for (int i = 1; i <= (int)kKinds[k]->size(); ++i) {
            Syl n = s;
            n.c[k] = i;
            auto one = BopomofoSyllable::FromComposedString((*kKinds[k])[i - 1]);
            if ((r + one).composedString() != n.text()) e.fail("replacement differs", s.text() + "+" + one.composedString());
            if (BopomofoSyllable::FromComposedString(s.text() + (*kKinds[k])[i - 1]).composedString() != n.text())
              e.fail("replacement differs", s.text() + (*kKinds[k])[i - 1]);
            if (r.isOverlappingWith(one) != (s.c[k] > 0)) e.fail("overlap differs", s.text() + "+" + one.composedString());
            e.evaluations(1);
          }
        e.validated(30);
        e.state(s.text());
        (void)kTones;
      }
  mc::alive();
}

static void distinct(Explorer& e) {
  std::set<std::string> texts;
  std::set<uint32_t> keys;
  size_t n = 0;
  for (int c = 0; c < 22; ++c)
    for (int m = 0; m < 4; ++m)
      for (int v = 0; v < 14; ++v)
        for (int t = 0; t < 5; ++t) {
          Syl s;
          s.c[0] = c, s.c[1] = m, s.c[2] = v, s.c[3] = t;
          auto r = BopomofoSyllable::FromComposedString(s.text());
          keys.insert((uint32_t)r.consonantComponent() | r.middleVowelComponent() | r.vowelComponent() | r.toneMarkerComponent());
          texts.insert(r.composedString());
          ++n;
        }
  if (texts.size() != n || keys.size() != n)
    e.fail("two syllables coincide", std::to_string(n) + " syllables, " + std::to_string(texts.size()) + " texts");
  e.evaluations(n);
  e.validated(n);
}

static void pinyin(Explorer& e, size_t part) {
  auto S = standardSyllables();
  for (size_t i = part; i < S.size(); i += 16)
    for (int t = 0; t < 5; ++t) {
      Syl s = S[i];
      s.c[3] = t;
      auto r = BopomofoSyllable::FromComposedString(s.text());
      for (int v = 0; v < 2; ++v)
        for (int tone = 0; tone < 2; ++tone) {
          std::string got = r.HanyuPinyinString(tone, v), want = pinyinOf(s, v ? "v" : "ü");
          if (tone && t) want += char('1' + t);
          if (got != want) e.fail("wrong pinyin", s.text() + " -> " + got + ", expected " + want);
          Syl w = s;
          if (!tone) w.c[3] = 0;
          for (int up = 0; up < 2; ++up) {
            std::string in = got;
            if (up)
              for (char& c : in)
                if (c >= 'a' && c <= 'z') c -= 32;
            auto b = BopomofoSyllable::FromHanyuPinyin(in);
            if (b.composedString() != w.text()) e.fail("pinyin round trip", in + " -> " + b.composedString() + ", expected " + w.text());
          }
          auto one = BopomofoSyllable::FromHanyuPinyin(got + "1");
          if ((!tone || !t) && one.composedString() != w.text() ) e.fail("first tone differs", got + "1");
        }
      e.evaluations(12);
      e.validated(12);
    }
}

// FromComposedString on arbitrary bytes: components up to the first thing that is not one.
static void bytes(Explorer& e, const std::string& first, size_t depth) {
  static const unsigned char A[] = {0xe3, 0x84, 0x85, 0xa7, 0xcb, 0x8b, 'a', 0xc3, 0xf0, 0x80, 0x00};
  std::function<void(const std::string&)> rec = [&](const std::string& s) {
    for (int pre = 0; pre < 2; ++pre) {
      // With the prefix the string is on the heap, exactly sized.
      std::string in = (pre ? "ㄅㄅㄅㄅㄅㄅ" : "") + s;
      std::string x(in.data(), in.size());
      x.shrink_to_fit();
      auto got = BopomofoSyllable::FromComposedString(x);
      Syl w;
      for (size_t i = 0; i < in.size();) {
        bool hit = false;
        for (size_t n = 2; n <= 3 && !hit; ++n) {
          int k, c;
          if (i + n <= in.size() && component(in.substr(i, n), k, c)) {
            w.c[k] = c;
            i += n;
            hit = true;
          }
        }
        if (!hit) break;
      }
      if (got.composedString() != w.text())
        e.fail("text misread", mc::quote(in) + " -> " + got.composedString() + ", expected " + w.text());
    }
    e.evaluations(2);
    e.validated(2);
    if (s.size() < depth)
      for (unsigned char c : A) rec(s + (char)c);
  };
  rec(first);
  mc::alive();
  e.state("bytes" + first);
}

static void body(Explorer& e) {
  switch (e.pick(4)) {
    case 0: readBack(e, (int)e.pick(22)); break;
    case 1: distinct(e); break;
    case 2: pinyin(e, e.pick(16)); break;
    default: {
      static const unsigned char A[] = {0xe3, 0x84, 0x85, 0xa7, 0xcb, 0x8b, 'a', 0xc3, 0xf0, 0x80, 0x00};
      std::string f;
      size_t n = 1 + e.pick(2);
      f += (char)A[e.pick(11)];
      if (n == 2) {
        f += (char)A[e.pick(11)];
        bytes(e, f, e.thorough ? 7 : 6);
      } else
        bytes(e, f, 1);
    }
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
