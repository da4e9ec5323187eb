// C16: numerals read back by an independent reader of Chinese and Suzhou numerals.
#include <map>
#include "ChineseNumbers/ChineseNumbers.h"
#include "ChineseNumbers/SuzhouNumbers.h"
#include "mc.h"
#include "util.h"
using mc::Explorer;
using ChineseNumbers::ChineseNumberCase;

static std::vector<std::string> chars(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    size_t n = (s[i] & 0x80) == 0 ? 1 : (s[i] & 0xe0) == 0xc0 ? 2 : (s[i] & 0xf0) == 0xe0 ? 3 : 4;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}
static std::map<std::string, int> table(const char* s, int from = 0) {
  std::map<std::string, int> m;
  for (auto& c : chars(s)) m[c] = from++;
  return m;
}
static const auto kLow = table("〇一二三四五六七八九"), kUp = table("零壹貳參肆伍陸柒捌玖");
static const auto kLowP = table("十百千", 1), kUpP = table("拾佰仟", 1);
static const auto kSec = table("萬億兆京垓秭穰溝澗正載", 1);
static const auto kSuzhouV = table("〇〡〢〣〤〥〦〧〨〩");
static const auto kSuzhouH = table("一二三", 1);
static const auto kSuzhouSec = table("万億兆京垓秭穰", 1);

static std::string stripInt(const std::string& s) {
  size_t i = 0;
  while (i < s.size() && s[i] == '0') ++i;
  return i == s.size() ? "0" : s.substr(i);
}
static std::string stripDec(std::string s) {
  while (!s.empty() && s.back() == '0') s.pop_back();
  return s;
}

// Reads a Chinese numeral; returns "" and sets err when it is not one.
static std::string readChinese(const std::string& text, bool upper, std::string& dec, std::string& err) {
  const auto& D = upper ? kUp : kLow;
  const auto& P = upper ? kUpP : kLowP;
  auto c = chars(text);
  size_t n = c.size(), point = n;
  for (size_t i = 0; i < n; ++i)
    if (c[i] == "點") {
      point = i;
      break;
    }
  dec.clear();
  if (point < n) {
    if (point + 1 == n) err = "nothing after the point";
    for (size_t i = point + 1; i < n; ++i) {
      auto it = D.find(c[i]);
      if (it == D.end()) {
        err = "bad decimal digit";
        return "";
      }
      dec += char('0' + it->second);
    }
  }
  if (point == 0) {
    err = "no integer part";
    return "";
  }
  if (point == 1 && D.count(c[0]) && D.at(c[0]) == 0) return "0";
  // digits and their exponents, high to low
  std::map<int, int> digits;
  std::vector<std::pair<int, bool>> order;  // exponent, zero written before
  std::vector<std::pair<int, std::pair<int, bool>>> pending;
  bool zero = false;
  size_t i = 0;
  int lastSec = 1000;
  while (i < point) {
    auto it = D.find(c[i]);
    if (it != D.end() && it->second == 0) {
      if (zero) err = "two zeros in a row";
      zero = true;
      ++i;
      continue;
    }
    if (it != D.end()) {
      int place = 0, d = it->second;
      ++i;
      if (i < point && P.count(c[i])) place = P.at(c[i++]);
      if (!pending.empty() && pending.back().first <= place) err = "places not descending";
      pending.push_back({place, {d, zero}});
      zero = false;
      bool last = i == point;
      if (last || kSec.count(c[i])) {
        int sec = 0;
        if (!last) sec = kSec.at(c[i++]);
        if (sec >= lastSec) err = "sections not descending";
        lastSec = sec;
        for (auto& p : pending) {
          digits[sec * 4 + p.first] = p.second.first;
          order.push_back({sec * 4 + p.first, p.second.second});
        }
        pending.clear();
      }
      continue;
    }
    err = "unexpected character " + c[i];
    return "";
  }
  if (zero) err = "zero at the end";
  if (!pending.empty()) err = "unfinished section";
  if (digits.empty()) {
    err = "no digits";
    return "";
  }
  for (size_t k = 0; k < order.size(); ++k) {
    bool need = false;
    if (k) {
      int a = order[k - 1].first, b = order[k].first;
      if (a / 4 == b / 4) need = a - b > 1;
      else need = b % 4 != 3 || a / 4 - b / 4 > 1;
    }
    if (need != order[k].second) err = need ? "a spoken zero is missing" : "a zero is spoken where none is";
  }
  int top = digits.rbegin()->first;
  std::string r(top + 1, '0');
  for (auto& kv : digits) r[top - kv.first] = char('0' + kv.second);
  return r;
}

// Reads "digits [newline] place unit": value = digit string, first digit at 10^place.
static bool readSuzhou(const std::string& text, const std::string& unit, bool vertical, std::string& digits, int& place,
                       std::string& err) {
  if (text.size() < unit.size() || text.compare(text.size() - unit.size(), unit.size(), unit) != 0) {
    err = "unit missing";
    return false;
  }
  std::string body = text.substr(0, text.size() - unit.size());
  if (body == "〸" || body == "〹" || body == "〺") {
    digits = body == "〸" ? "1" : body == "〹" ? "2" : "3";
    place = 1;
    return true;
  }
  size_t nl = body.find('\n');
  std::string d = body, p;
  bool twoLines = nl != std::string::npos;
  auto cs = chars(twoLines ? body.substr(0, nl) : body);
  size_t take = cs.size();
  if (!twoLines) take = 1;
  digits.clear();
  int run = 0;
  for (size_t i = 0; i < take && i < cs.size(); ++i) {
    bool v = kSuzhouV.count(cs[i]), h = kSuzhouH.count(cs[i]);
    if (!v && !h) {
      err = "not a Suzhou digit: " + cs[i];
      return false;
    }
    int x = v ? kSuzhouV.at(cs[i]) : kSuzhouH.at(cs[i]);
    if (x >= 1 && x <= 3) {
      bool wantV = vertical == (run % 2 == 0);
      if (wantV != v) err = "strokes do not alternate";
      ++run;
    } else run = 0;
    digits += char('0' + x);
  }
  std::vector<std::string> ps;
  if (twoLines) {
    ps = chars(body.substr(nl + 1));
    if (digits.size() < 2) err = "a single digit stands on two lines";
  } else ps.assign(cs.begin() + std::min(take, cs.size()), cs.end());
  place = 0;
  size_t k = 0;
  if (k < ps.size() && kLowP.count(ps[k])) place = kLowP.at(ps[k++]);
  if (k < ps.size() && kSuzhouSec.count(ps[k])) place += 4 * kSuzhouSec.at(ps[k++]);
  if (k != ps.size()) {
    err = "bad place unit";
    return false;
  }
  return !digits.empty();
}

static void one(Explorer& e, const std::string& ip, const std::string& dp) {
  std::string wi = stripInt(ip), wd = stripDec(dp);
  auto where = [&] { return "int '" + ip + "' dec '" + dp + "'"; };
  for (int up = 0; up < 2; ++up) {
    std::string out =
        ChineseNumbers::Generate(ip, dp, up ? ChineseNumberCase::UPPERCASE : ChineseNumberCase::LOWERCASE);
    std::string dec, err, got = readChinese(out, up, dec, err);
    if (!err.empty()) e.fail("not a numeral", where() + ": '" + out + "': " + err);
    if (got != wi || dec != wd)
      e.fail("wrong value", where() + ": '" + out + "' reads " + got + "." + dec);
  }
  if (wi.size() <= 32) {
    for (int v = 0; v < 2; ++v) {
      std::string unit = v ? "單位" : "", out = SuzhouNumbers::Generate(ip, dp, unit, v);
      std::string digits, err;
      int place = 0;
      bool ok = readSuzhou(out, unit, v, digits, place, err);
      if (!ok || !err.empty()) e.fail("not a Suzhou numeral", where() + ": " + mc::quote(out) + ": " + err);
      // value = digits * 10^(place - len + 1)
      std::string gi, gd;
      for (int k = 0; k < (int)digits.size(); ++k) (place - k >= 0 ? gi : gd) += digits[k];
      for (int k = (int)digits.size(); k <= place; ++k) gi += '0';
      if (stripInt(gi) != wi || stripDec(gd) != wd)
        e.fail("wrong Suzhou value", where() + ": " + mc::quote(out) + " reads " + gi + "." + gd);
    }
  }
  e.evaluations(4);
  e.validated(4);
}

static void all(Explorer& e, const std::string& prefix, const std::string& alpha, size_t len) {
  std::string s = prefix + std::string(len, alpha[0]);
  std::vector<size_t> ix(len, 0);
  uint64_t n = 0;
  for (;;) {
    one(e, s, "");
    if ((++n & 1023) == 0) mc::alive();
    size_t k = len;
    while (k > 0 && ++ix[k - 1] == alpha.size()) {
      ix[k - 1] = 0;
      s[prefix.size() + k - 1] = alpha[0];
      --k;
    }
    if (k == 0) break;
    s[prefix.size() + k - 1] = alpha[ix[k - 1]];
  }
}

static void body(Explorer& e) {
  size_t fam = e.pick(5);
  const std::string D = "0123456789";
  std::string tag = std::to_string(fam);
  if (fam == 0) {  // all strings up to 6 (7) digits, leading zeros included
    size_t a = e.pick(10), b = e.pick(10);
    std::string p = {D[a], D[b]};
    if (a == 0 && b == 0) {
      one(e, "", "");
      for (char c : D) one(e, std::string(1, c), "");
    }
    tag += p;
    for (size_t l = 0; l <= (e.thorough ? 5 : 4); ++l) all(e, p, D, l);
  } else if (fam == 1) {  // {0,1,2,9}
    size_t a = e.pick(4), b = e.pick(4);
    const std::string A = "0129";
    std::string p = {A[a], A[b]};
    tag += p;
    for (size_t l = 5; l <= (e.thorough ? 7 : 6); ++l) all(e, p, A, l);
  } else if (fam == 2) {  // {0,x} up to 21 digits
    size_t x = e.pick(2), hi = e.pick(64);
    const std::string A = x ? "05" : "01";
    std::string p;
    for (int k = 5; k >= 0; --k) p += A[(hi >> k) & 1];
    tag += p;
    if (e.thorough)
      for (size_t l = 0; l <= 15; ++l) all(e, p, A, l);
    else {
      for (size_t l = 0; l <= 10; ++l) all(e, p, A, l);
    }
  } else if (fam == 3) {  // sections up to 48 digits
    static const char* S[] = {"0000", "0001", "0010", "0300", "4000", "1001", "0110", "5678"};
    size_t n = 1 + e.pick(e.thorough ? 5 : 4), a = e.pick(8);
    tag += std::to_string(n) + std::to_string(a);
    std::vector<size_t> ix(n, 0);
    for (uint64_t cnt = 1;; ++cnt) {
      for (int cut = 0; cut < 4; ++cut) {
        std::string s = S[a];
        s = s.substr(cut);
        for (size_t k : ix) s += S[k];
        one(e, s, "");
        if (n == 3) one(e, s, "0" + s);
        if (n == 4) one(e, s + std::string(28, '0'), "5");
      }
      if ((cnt & 255) == 0) mc::alive();
      size_t k = 0;
      while (k < n && ++ix[k] == 8) ix[k++] = 0;
      if (k == n) break;
    }
  } else {  // decimals
    size_t a = e.pick(11), b = e.pick(11);
    std::string ip;
    if (a < 10) ip += D[a];
    if (b < 10) ip += D[b];
    tag += std::to_string(a) + "," + std::to_string(b);
    std::vector<std::string> decs = {""};
    for (size_t i = 0; decs[i].size() < (e.thorough ? 4u : 3u); ++i)
      for (char c : D) decs.push_back(decs[i] + c);
    for (auto& d : decs) {
      one(e, ip, d);
      one(e, ip + "0", d);
    }
  }
  e.state(tag);
  e.outcome(tag);
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
