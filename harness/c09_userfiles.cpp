// C09: parsing of user dictionary text, against a line-based reference.
#include <map>

#include "KeyValueBlobReader.h"
#include "PhraseReplacementMap.h"
#include "UserPhrasesLM.h"
#include "mc.h"
#include "util.h"

using McBopomofo::KeyValueBlobReader;

struct Parsed {
  std::vector<std::pair<std::string, std::string>> kv;
  bool error = false;
};

// Line-based reference: content up to the first NUL; lines end at LF or CR.
static Parsed reference(const std::string& s) {
  Parsed out;
  std::string t = s.substr(0, s.find('\0'));
  std::vector<std::string> lines(1);
  for (char c : t) {
    if (c == '\n' || c == '\r') lines.emplace_back();
    else lines.back() += c;
  }
  for (const auto& l : lines) {
    std::vector<std::string> f;
    std::string cur;
    for (char c : l + " ") {
      if (c == ' ' || c == '\t') {
        if (!cur.empty()) f.push_back(cur);
        cur.clear();
      } else {
        cur += c;
      }
    }
    if (f.empty() || f[0][0] == '#') continue;
    if (f.size() < 2) {
      out.error = true;
      return out;
    }
    out.kv.emplace_back(f[0], f[1]);
  }
  return out;
}

static void checkReader(mc::Explorer& e, const std::string& s) {
  Parsed want = reference(s);
  Exact buf(s);
  using State = KeyValueBlobReader::State;
  for (int withOut = 0; withOut < 2; ++withOut) {
    KeyValueBlobReader reader(buf.data(), buf.n);
    size_t i = 0;
    while (true) {
      KeyValueBlobReader::KeyValue kv;
      State st = reader.Next(withOut ? &kv : nullptr);
      if (st == State::HAS_PAIR) {
        if (i >= want.kv.size()) e.fail("a pair that is not in the file", mc::quote(s));
        if (withOut) {
          if (std::string(kv.key) != want.kv[i].first || std::string(kv.value) != want.kv[i].second)
            e.fail("a pair differs from its line", mc::quote(s) + " got " + mc::quote(std::string(kv.key)) + " " + mc::quote(std::string(kv.value)));
          if (kv.key.data() < buf.data() || kv.value.data() + kv.value.size() > buf.data() + buf.n)
            e.fail("a pair lies outside the file", mc::quote(s));
        }
        ++i;
        continue;
      }
      if (st != State::END && st != State::ERROR) e.fail("unexpected parser state", mc::quote(s));
      if (i != want.kv.size()) e.fail("a line's pair is missing", mc::quote(s));
      if ((st == State::ERROR) != want.error) e.fail("error indication is wrong", mc::quote(s));
      // It stays there.
      if (reader.Next(&kv) != st) e.fail("parser continues after the end", mc::quote(s));
      break;
    }
  }
  e.outcome(std::to_string(want.kv.size()) + (want.error ? "E" : ""));
}

static void body(mc::Explorer& e) {
  size_t fam = e.pick(2);
  if (fam == 0) {
    static const char al[] = {'a', '#', ' ', '\n', '\r', '\t', 'b', '\0'};
    // Two picks fix the first characters (they also spread the work); the rest is enumerated inside.
    size_t maxlen = e.thorough ? 8 : 7;
    std::string head;
    head += al[e.pick(8)];
    head += al[e.pick(8)];
    head += al[e.pick(8)];
    if (head == "aaa") {
      checkReader(e, "");
      for (char a : al) {
        checkReader(e, std::string(1, a));
        for (char b : al) checkReader(e, std::string(1, a) + b);
      }
    }
    size_t rest = maxlen - 3;
    std::string s = head;
    uint64_t n = 0;
    for (size_t len = 0; len <= rest; ++len) {
      std::vector<size_t> d(len, 0);
      s.resize(3 + len);
      while (true) {
        for (size_t i = 0; i < len; ++i) s[3 + i] = al[d[i]];
        checkReader(e, s);
        ++n;
        size_t i = 0;
        while (i < len && ++d[i] == 8) d[i++] = 0;
        if (i == len) break;
      }
      mc::alive();
    }
    e.evaluations(n);
    e.count("texts", n);
    e.validated(n);
    e.state(head);
    e.note("texts starting ", mc::quote(head), ": ", n);
  } else {
    // Multi-line files through the two dictionary loaders, with reload.
    static const std::vector<std::string> menu = {"值一 k1", "值二 k1", "值一 k2", "值一 k1 extra words", "# 值九 k1", "", " \t值三\t k1 ", "bad", "#", "k1 值四", "a b", "值一  k1#"};
    static const std::vector<std::string> eols = {"\n", "\r\n", "\r"};
    auto makeFile = [&](size_t maxLines) {
      std::string s, eol = eols[e.pick(3)];
      size_t n = e.pick(maxLines + 1);
      for (size_t i = 0; i < n; ++i) {
        s += menu[e.pick(menu.size())];
        if (i + 1 < n) s += eol;
        else if (e.pick(2)) s += eol;
      }
      return s;
    };
    McBopomofo::UserPhrasesLM lm;
    McBopomofo::PhraseReplacementMap map;
    std::string a = makeFile(e.thorough ? 4 : 3);
    bool reload = a.size() < 12 && e.pick(2);
    std::string b = reload ? makeFile(1) : "";
    Exact ba(a), bb(b);
    std::string cur = a;
    lm.load(ba.data(), ba.n);
    map.load(ba.data(), ba.n);
    if (reload) {
      lm.close();
      map.close();
      lm.load(bb.data(), bb.n);
      map.load(bb.data(), bb.n);
      cur = b;
    }
    e.transition();
    e.note(mc::quote(a), reload ? " then " + mc::quote(b) : "");
    Parsed p = reference(cur);
    e.state(cur);
    std::string o;
    for (const char* q : {"k1", "k2", "b", "k1#", "值一", "值四", "extra", "bad", "k", "a", "#", ""}) {
      std::vector<std::string> want;
      std::string repl;
      for (auto& kv : p.kv) {
        if (kv.second == q) want.push_back(kv.first);
        if (kv.first == q) repl = kv.second;
      }
      auto u = lm.getUnigrams(q);
      bool ok = u.size() == want.size();
      for (size_t i = 0; ok && i < u.size(); ++i)
        ok = u[i].value() == want[i] && u[i].score() == McBopomofo::UserPhrasesLM::kUserUnigramScore;
      if (!ok) e.fail("phrases of a reading differ from the file", mc::quote(cur) + " reading " + q);
      if (lm.hasUnigrams(q) != !want.empty()) e.fail("existence of a reading differs from the file", mc::quote(cur) + " reading " + q);
      if (map.valueForKey(q) != repl) e.fail("replacement differs from the file", mc::quote(cur) + " key " + q);
      o += std::to_string(want.size());
    }
    e.outcome(o);
  }
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
