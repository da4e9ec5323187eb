// C08: binary-searched phrase table lookup == linear scan, for every small sorted table and query.
#include <algorithm>
#include <functional>

#include "ParselessLM.h"
#include "ParselessPhraseDB.h"
#include "mc.h"
#include "util.h"

using McBopomofo::ParselessLM;
using McBopomofo::ParselessPhraseDB;

struct Row {
  std::string key, value, score;
  std::string line() const { return key + " " + value + " " + score; }
};

static void checkTable(mc::Explorer& e, const std::vector<Row>& rows, bool finalNewline, bool pragma,
                       const std::vector<std::string>& queries, const std::vector<std::string>& values) {
  std::string text;
  std::vector<std::string> lines;
  for (size_t i = 0; i < rows.size(); ++i) {
    lines.push_back(rows[i].line());
    text += lines.back();
    if (i + 1 < rows.size() || finalNewline) text += "\n";
  }
  std::string blob = pragma ? std::string(McBopomofo::SORTED_PRAGMA_HEADER) + text : text;
  if (blob.empty()) return;
  Exact buf(blob);
  size_t off = blob.size() - text.size();
  ParselessPhraseDB db(buf.data(), buf.n, pragma);
  // Beginnings of rows, up to a whole row, are queries too (rows of a key may be in any order otherwise).
  if (std::is_sorted(lines.begin(), lines.end()))
  for (size_t i = 0; i < lines.size(); ++i)
    for (size_t len = rows[i].key.size() + 1; len <= lines[i].size(); len += (len + 4 < lines[i].size() ? 3 : 1)) {
      std::string key = lines[i].substr(0, len);
      std::vector<std::string> want;
      for (const auto& l : lines)
        if (l.compare(0, len, key) == 0) want.push_back(l);
      auto got = db.findRows(key);
      e.evaluations(1);
      if (std::vector<std::string>(got.begin(), got.end()) != want)
        e.fail("lookup differs from scanning the table", "query " + mc::quote(key) + " in " + mc::quote(text) + " got " +
                                                             std::to_string(got.size()) + " rows, want " + std::to_string(want.size()));
    }
  ParselessLM lm;
  if (!lm.open(std::make_unique<ParselessPhraseDB>(buf.data(), buf.n, pragma))) e.fail("table cannot be opened", text);
  for (const auto& q : queries)
    for (int exact = 0; exact < 2; ++exact) {
      std::string key = exact ? q + " " : q;
      std::vector<std::string> want;
      size_t first = std::string::npos, p = 0;
      for (const auto& l : lines) {
        if (l.compare(0, key.size(), key) == 0) {
          if (first == std::string::npos) first = p;
          want.push_back(l);
        }
        p += l.size() + 1;
      }
      auto got = db.findRows(key);
      const char* f = db.findFirstMatchingLine(key);
      e.evaluations(2);
      std::vector<std::string> have(got.begin(), got.end());
      std::string ctx = "query " + mc::quote(key) + " in " + mc::quote(text);
      if (have != want)
        e.fail("lookup differs from scanning the table", ctx + " got " + std::to_string(have.size()) + " rows, want " + std::to_string(want.size()));
      const char* wf = first == std::string::npos ? nullptr : buf.data() + off + first;
      if (f != wf) e.fail("first match differs from scanning the table", ctx);
      if (exact) {
        bool has = lm.hasUnigrams(q);
        auto u = lm.getUnigrams(q);
        e.evaluations(2);
        std::vector<const Row*> w;
        for (const auto& r : rows)
          if (r.key == q) w.push_back(&r);
        if (has != !w.empty()) e.fail("existence query differs from scanning the table", ctx);
        bool ok = u.size() == w.size();
        for (size_t i = 0; ok && i < u.size(); ++i)
          ok = u[i].value() == w[i]->value && u[i].score() == std::stod(w[i]->score);
        if (!ok) e.fail("entries of a key differ from scanning the table", ctx);
      }
      e.outcome(std::to_string(have.size()) + ":" + (have.empty() ? "" : have[0]));
    }
  for (const auto& v : values) {
    auto r = lm.getReadings(v);
    e.evaluations(1);
    size_t i = 0;
    bool ok = true;
    for (const auto& row : rows)
      if (row.value == v) {
        if (i >= r.size() || r[i].reading != row.key || r[i].score != std::stod(row.score)) ok = false;
        ++i;
      }
    if (i != r.size()) ok = false;
    if (!ok) e.fail("reverse lookup differs from scanning the table", "value " + v + " in " + mc::quote(text));
  }
  e.state(blob);
}

static void body(mc::Explorer& e) {
  size_t fam = e.pick(3);
  if (fam == 0) {
    // Every table over seven keys that are prefixes / neighbours of each other, 0..2 rows per key.
    static const std::vector<std::string> keys = {"a", "a-a", "a-b", "aa", "b", "ba-ba-ba-ba-ba", "c"};
    size_t lens = e.pick(4);
    std::vector<Row> rows;
    size_t k = 0;
    for (size_t i = 0; i < keys.size(); ++i) {
      size_t n = e.pick(3);
      for (size_t j = 0; j < n; ++j) {
        size_t len = lens == 0 ? 1 : lens == 1 ? 9 : lens == 2 ? 1 + (k * 7) % 12 : 1 + (40 - 6 * (k % 6));
        std::string v(1, static_cast<char>('p' + (i + j) % 3));
        v += std::string(len - 1, 'q');
        rows.push_back({keys[i], v, j ? "-3.25" : "-1"});
        ++k;
      }
    }
    if (rows.empty()) e.prune();
    bool nl = e.pick(2), pragma = e.pick(2);
    e.note(rows.size(), " rows, newline ", nl, " pragma ", pragma);
    static std::vector<std::string> queries = [] {
      std::vector<std::string> q;
      const std::string al = "ab-c";
      std::function<void(std::string)> rec = [&](std::string s) {
        if (!s.empty()) q.push_back(s);
        if (s.size() < 3)
          for (char c : al) rec(s + c);
      };
      rec("");
      for (const char* s : {"A", "z", "ba-ba", "ba-ba-ba", "ba-ba-ba-ba-ba", "ba-ba-ba-ba-bb", "ba-ba-ba-ba-ba-ba-ba-ba-ba", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "bbbbbbbbbbbbbbbbbbbbbb", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"}) q.push_back(s);
      return q;
    }();
    std::vector<std::string> values{"p", "q", "r", "pq"};
    for (auto& r : rows) values.push_back(r.value);
    checkTable(e, rows, nl, pragma, queries, values);
    e.count("tables");
  } else if (fam == 1) {
    // Longer tables: n rows with generated multi-byte keys, several length patterns; query every key and gap.
    size_t n = 1 + e.pick(e.thorough ? 120 : 48);
    size_t pat = e.pick(6);
    bool nl = e.pick(2);
    static const char* syl[] = {"ㄅㄚ", "ㄆㄧˊ", "ㄇㄢˇ", "ㄩㄥˋ"};
    std::vector<Row> rows;
    std::vector<std::string> q;
    for (size_t i = 0; i < n; ++i) {
      size_t m = pat == 0 ? 1 + i % 4 : pat == 1 ? 1 + (i * 5) % 7 : pat == 2 ? 1 : pat == 3 ? (i == n - 1 ? 1 : 5) : pat == 4 ? 6 : 1 + i / 8;
      std::string k;
      size_t x = i * (pat == 2 ? 1 : 2654435761u) % 4096;
      for (size_t j = 0; j < m; ++j) {
        if (j) k += "-";
        k += syl[x & 3];
        x >>= 2;
      }
      rows.push_back({k, std::string("值") + std::to_string(i % 11), "-" + std::to_string(i % 9) + ".5"});
      q.push_back(k);
      q.push_back(k + "-ㄅㄚ");
      q.push_back(k + "-ㄩㄥˋ-ㄩㄥˋ-ㄩㄥˋ-ㄩㄥˋ-ㄩㄥˋ-ㄩㄥˋ-ㄩㄥˋ");
      q.push_back(k.substr(0, 3));
    }
    std::stable_sort(rows.begin(), rows.end(), [](const Row& a, const Row& b) { return a.key + " " < b.key + " "; });
    q.push_back("ㄅ");
    q.push_back("ㄩㄥˋ");
    q.push_back("zzz");
    q.push_back("\xff");
    e.note(n, " rows, pattern ", pat, " newline ", nl);
    checkTable(e, rows, nl, pat & 1, q, {"值0", "值1", "值10", "值", "x"});
    e.count("tables");
  } else {
    // The header: any damaged or truncated header makes the table empty; nothing is read outside it.
    std::string head(McBopomofo::SORTED_PRAGMA_HEADER);
    size_t cut = e.pick(head.size() + 3);
    std::string t = head + "a b -1\n";
    std::string blob;
    bool good = false;
    if (cut < head.size()) {
      if (e.pick(2)) {
        blob = t;
        blob[cut] ^= 1;
      } else {
        if (cut == 0) e.prune();
        blob = t.substr(0, cut);
      }
    } else {
      blob = t.substr(0, cut == head.size() ? cut : t.size());
      good = cut != head.size();
    }
    Exact buf(blob);
    ParselessPhraseDB db(buf.data(), buf.n, true);
    e.transition();
    e.note("header cut ", cut, " -> ", mc::quote(blob));
    if (ParselessPhraseDB::ValidatePragma(buf.data(), buf.n) != (blob.compare(0, head.size(), head) == 0))
      e.fail("header validation is wrong", mc::quote(blob));
    for (const char* q : {"a", "a ", "# ", "format", "b"}) {
      auto r = db.findRows(q);
      bool want = good && q[0] == 'a';
      if (r.size() != (want ? 1u : 0u)) e.fail("damaged table is not rejected / good table is", mc::quote(blob) + " query " + q);
      if ((db.findFirstMatchingLine(q) != nullptr) != want) e.fail("damaged table is not rejected / good table is", mc::quote(blob));
    }
    if (db.reverseFindRows("b ").size() != (good ? 1u : 0u)) e.fail("damaged table is not rejected / good table is", mc::quote(blob));
  }
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
