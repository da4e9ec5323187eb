// C17: date and time macros under a controlled clock.
#include <sys/time.h>
#include <chrono>
#include <unicode/calendar.h>
#include <unicode/timezone.h>
#include "InputMacro.h"
#include "mc.h"
#include "util.h"
using mc::Explorer;

// The clock: ICU reads gettimeofday; the C++ clock and time() follow it.
static long long gNow = 0;  // milliseconds
extern "C" int gettimeofday(struct timeval* t, void*) {
  t->tv_sec = gNow / 1000;
  t->tv_usec = (gNow % 1000) * 1000;
  if (t->tv_usec < 0) {
    t->tv_usec += 1000000;
    --t->tv_sec;
  }
  return 0;
}
extern "C" time_t time(time_t* p) {
  time_t t = gNow >= 0 ? gNow / 1000 : (gNow - 999) / 1000;
  if (p) *p = t;
  return t;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration_cast<duration>(std::chrono::milliseconds(gNow)));
}
} } }

// Civil date arithmetic.
static long long daysFromCivil(long long y, int m, int d) {
  y -= m <= 2;
  long long era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = (unsigned)(y - era * 400), doy = (153u * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (long long)doe - 719468;
}
struct Date {
  long long y;
  int m, d;
};
static Date civil(long long z) {
  z += 719468;
  long long era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long long y = yoe + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  int d = (int)(doy - (153 * mp + 2) / 5 + 1), m = (int)(mp < 10 ? mp + 3 : mp - 9);
  return {y + (m <= 2), m, d};
}
static bool leap(long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static std::string N(long long n) { return std::to_string(n); }

static std::string roc(long long y) { return y >= 1912 ? "民國" + N(y - 1911) : "民國前" + N(1912 - y); }
static std::string japanese(const Date& d) {
  static const struct { int y, m, d; const char* n; } E[] = {{2019, 5, 1, "令和"}, {1989, 1, 8, "平成"}, {1926, 12, 25, "昭和"}, {1912, 7, 30, "大正"}, {1868, 9, 8, "明治"}};
  for (auto& e : E)
    if (d.y > e.y || (d.y == e.y && (d.m > e.m || (d.m == e.m && d.d >= e.d)))) return e.n + N(d.y - e.y + 1);
  return "?";
}
static std::string normalise(std::string s) {
  size_t p;
  while ((p = s.find("元年")) != std::string::npos) s.replace(p, strlen("元"), "1");
  return s;
}
static std::string lunar(const Date& d) {
  // The Chinese calendar itself is ICU's; the day asked for is ours.
  UErrorCode st = U_ZERO_ERROR;
  static std::unique_ptr<icu::Calendar> cal(icu::Calendar::createInstance(icu::TimeZone::createTimeZone("Asia/Shanghai"), icu::Locale("zh_Hant_TW@calendar=chinese"), st));
  cal->setTime(((double)daysFromCivil(d.y, d.m, d.d) * 86400 + 4 * 3600) * 1000.0, st);
  int m = cal->get(UCAL_MONTH, st), day = cal->get(UCAL_DATE, st), lp = cal->get(UCAL_IS_LEAP_MONTH, st);
  int ext = cal->get(UCAL_EXTENDED_YEAR, st);  // 1 = 2637 BCE
  static const char* M[] = {"正", "二", "三", "四", "五", "六", "七", "八", "九", "十", "冬", "臘"};
  static const char* D[] = {"一", "二", "三", "四", "五", "六", "七", "八", "九", "十"};
  std::string r = N(ext - 2637) + "年" + (lp ? "閏" : "") + M[m] + "月";
  r += day <= 10 ? std::string("初") + D[day - 1] : day < 20 ? std::string("十") + D[day - 11] : day == 20 ? "二十" : day < 30 ? std::string("廿") + D[day - 21] : "三十";
  return r;
}
static const char* kWeek[] = {"日", "一", "二", "三", "四", "五", "六"};
static const char* kWeekJ[] = {"日", "月", "火", "水", "木", "金", "土"};
static std::string ganzhi(long long y, bool zodiac) {
  static const char* G[] = {"甲", "乙", "丙", "丁", "戊", "己", "庚", "辛", "壬", "癸"};
  static const char* E[] = {"木", "木", "火", "火", "土", "土", "金", "金", "水", "水"};
  static const char* Z[] = {"子", "丑", "寅", "卯", "辰", "巳", "午", "未", "申", "酉", "戌", "亥"};
  static const char* A[] = {"鼠", "牛", "虎", "兔", "龍", "蛇", "馬", "羊", "猴", "雞", "狗", "豬"};
  int k = (int)(((y - 1984) % 60 + 60) % 60);  // 1984 = 甲子
  return std::string(zodiac ? E[k % 10] : G[k % 10]) + (zodiac ? A[k % 12] : Z[k % 12]) + "年";
}

static McBopomofo::InputMacroController* ctl;
static void expect(Explorer& e, const char* name, const std::string& want, const std::string& when) {
  std::string got = normalise(ctl->handle(std::string("MACRO@") + name));
  if (got != want) e.fail("wrong expansion", std::string(name) + " at " + when + ": '" + got + "', expected '" + want + "'");
  e.evaluations(1);
  e.validated(1);
}

// Sets the clock to the local civil date/time in the default zone.
static void setLocal(const icu::TimeZone& tz, const Date& d, int h, int mi, int s) {
  UErrorCode st = U_ZERO_ERROR;
  double local = ((double)daysFromCivil(d.y, d.m, d.d) * 86400 + h * 3600 + mi * 60 + s) * 1000.0;
  int32_t raw, dst;
  tz.getOffset(local, true, raw, dst, st);
  gNow = (long long)local - raw - dst;
}

static void dayMacros(Explorer& e, const icu::TimeZone& tz, Date d, int h, int mi, int s, bool all) {
  setLocal(tz, d, h, mi, s);
  // What the zone really shows then (times inside a DST gap do not exist).
  UErrorCode st = U_ZERO_ERROR;
  int32_t raw, dst;
  tz.getOffset((double)gNow, false, raw, dst, st);
  long long lt = gNow / 1000 + (raw + dst) / 1000;
  long long day = lt >= 0 ? lt / 86400 : (lt - 86399) / 86400;
  Date today = civil(day);
  std::string when = N(today.y) + "-" + N(today.m) + "-" + N(today.d) + " " + N(h) + ":" + N(mi);
  static const char* const Y[] = {"LAST", "THIS", "NEXT"};
  static const char* const W[] = {"YESTERDAY", "TODAY", "TOMORROW"};
  for (int o = -1; o <= 1; ++o) {
    Date x = civil(day + o);
    std::string w = W[o + 1];
    std::string md = N(x.m) + "月" + N(x.d) + "日";
    expect(e, ("DATE_" + w + "_SHORT").c_str(), N(x.y) + "/" + N(x.m) + "/" + N(x.d), when);
    expect(e, ("DATE_" + w + "_MEDIUM").c_str(), N(x.y) + "年" + md, when);
    expect(e, ("DATE_" + w + "_MEDIUM_ROC").c_str(), roc(x.y) + "年" + md, when);
    expect(e, ("DATE_" + w + "_MEDIUM_JAPANESE").c_str(), japanese(x) + "年" + md, when);
    if (all) expect(e, ("DATE_" + w + "_MEDIUM_CHINESE").c_str(), lunar(x), when);
    int wd = (int)(((day + o + 4) % 7 + 7) % 7);
    expect(e, ("DATE_" + w + "_WEEKDAY_SHORT").c_str(), std::string("週") + kWeek[wd], when);
    expect(e, ("DATE_" + w + "_WEEKDAY").c_str(), std::string("星期") + kWeek[wd], when);
    expect(e, ("DATE_" + w + "2_WEEKDAY").c_str(), std::string("禮拜") + kWeek[wd], when);
    expect(e, ("DATE_" + w + "_WEEKDAY_JAPANESE").c_str(), std::string(kWeekJ[wd]) + "曜日", when);
    if (all || o == 0 || today.m == 1 || today.m == 12) {
      Date yx{today.y + o, today.m, today.d};
      if (yx.m == 2 && yx.d == 29 && !leap(yx.y)) yx.d = 28;
      std::string y = Y[o + 1];
      expect(e, (y + "_YEAR_PLAIN").c_str(), N(yx.y) + "年", when);
      expect(e, (y + "_YEAR_PLAIN_WITH_ERA").c_str(), "西元" + N(yx.y) + "年", when);
      expect(e, (y + "_YEAR_ROC").c_str(), roc(yx.y) + "年", when);
      expect(e, (y + "_YEAR_JAPANESE").c_str(), japanese(yx) + "年", when);
      expect(e, (y + "_YEAR_GANZHI").c_str(), ganzhi(yx.y, false), when);
      expect(e, (y + "_YEAR_CHINESE_ZODIAC").c_str(), ganzhi(yx.y, true), when);
    }
  }
  mc::alive();
}
static void timeMacros(Explorer& e, const icu::TimeZone& tz, const Date& d, int h, int mi, int s) {
  setLocal(tz, d, h, mi, s);
  const char* p = h < 5 ? "凌晨" : h < 8 ? "清晨" : h < 12 ? "上午" : h == 12 ? "中午" : h < 19 ? "下午" : "晚上";
  char b[80];
  snprintf(b, sizeof b, "%s%d:%02d", p, h % 12 ? h % 12 : 12, mi);
  std::string when = N(h) + ":" + N(mi) + ":" + N(s);
  expect(e, "TIME_NOW_SHORT", b, when);
  size_t n = strlen(b);
  snprintf(b + n, sizeof b - n, ":%02d", s);
  expect(e, "TIME_NOW_MEDIUM", b, when);
}

static void body(Explorer& e) {
  static const char* kZones[] = {"Asia/Taipei", "UTC", "America/Los_Angeles", "Pacific/Auckland", "Asia/Kolkata", "Pacific/Pago_Pago"};
  static int cur = -1;
  auto zone = [&](int z) -> const icu::TimeZone& {
    static std::unique_ptr<icu::TimeZone> tz;
    if (cur != z) {
      tz.reset(icu::TimeZone::createTimeZone(kZones[z]));
      icu::TimeZone::adoptDefault(tz->clone());
      cur = z;
    }
    return *tz;
  };
  if (!ctl) {
    gNow = 1700000000000;
    ctl = new McBopomofo::InputMacroController();
  }
  std::string tag;
  switch (e.pick(4)) {
    case 0: {  // every day of a range of years
      auto& tz = zone(0);
      int lo = e.thorough ? 1905 : 1988, hi = e.thorough ? 2100 : 2040;
      int y = lo + (int)e.pick(hi - lo + 1), m = 1 + (int)e.pick(12);
      static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      int n = L[m - 1] + (m == 2 && leap(y));
      for (int d = 1; d <= n; ++d) {
        // Odd days late at night, even ones just after midnight, in turn.
        bool late = (d + m) % 2;
        dayMacros(e, tz, {y, m, d}, late ? 23 : 0, late ? 59 : 0, late ? 59 : 0, e.thorough || y >= 2018);
        e.state("day" + N(y) + "-" + N(m) + "-" + N(d));
      }
      tag = "month" + N(y) + "-" + N(m);
      break;
    }
    case 1: {  // the edges of every year, in every zone
      int z = (int)e.pick(6);
      int y = 1901 + (int)e.pick(199);
      auto& tz = zone(z);
      static const int D[][2] = {{1, 1}, {1, 2}, {2, 28}, {3, 1}, {12, 30}, {12, 31}};
      for (auto& d : D)
        for (int late = 0; late < 2; ++late) dayMacros(e, tz, {y, d[0], d[1]}, late ? 23 : 0, late ? 59 : 0, 0, false);
      if (leap(y)) dayMacros(e, tz, {y, 2, 29}, 12, 0, 0, false);
      tag = "edges" + N(z) + "-" + N(y);
      break;
    }
    case 2: {  // every second of a day
      int z = (int)e.pick(3), h = (int)e.pick(24);
      auto& tz = zone(z);
      for (int mi = 0; mi < 60; ++mi) {
        for (int s = 0; s < 60; s += (e.thorough || mi == 0 || mi == 59) ? 1 : 17) timeMacros(e, tz, {2024, 7, 1 + z}, h, mi, s);
        mc::alive();
      }
      tag = "hour" + N(z) + "-" + N(h);
      break;
    }
    default: {  // unknown names and the zone
      zone(0);
      setLocal(*icu::TimeZone::createTimeZone("Asia/Taipei"), {2024, 7, 1}, 12, 0, 0);
      expect(e, "TIMEZONE_STANDARD", "台北標準時間", "Taipei");
      expect(e, "TIMEZONE_GENERIC_SHORT", "台灣時間", "Taipei");
      for (std::string n : {"", "MACRO@", "MACRO@X", "MACRO@DATE_TODAY_SHORT ", "macro@date_today_short", "DATE_TODAY_SHORT", "一", "MACRO@DATE_TODAY", "MACRO@THIS_YEAR"}) {
        if (ctl->handle(n) != n) e.fail("unknown name changed", n + " -> " + ctl->handle(n));
        e.evaluations(1);
      }
      tag = "names";
    }
  }
  e.state(tag);
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 2); }
