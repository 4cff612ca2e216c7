// C14: calendar fields, truncation, addition, difference, parsing and printing of dates and times.
#include "IR/DateTimeEnums.h"
#include "IR/Type.h"
#include "QueryEngine/DateTimeUtils.h"
#include "QueryEngine/DateTruncate.h"
#include "Shared/DateConverters.h"
#include "Shared/DateTimeParser.h"
#include "Utils/ExtractFromTime.h"
#include "hutil.h"
#include "mc.h"

#include <algorithm>
#include <array>
#include <map>

using mc::Ctx;
using mc::strf;
using hdk::ir::DateAddField;
using hdk::ir::DateExtractField;
using hdk::ir::DateTruncField;
using hdk::ir::TimeUnit;

extern "C" int64_t DateAdd(DateAddField field, const int64_t number, const int64_t timeval);
extern "C" int64_t DateAddHighPrecision(DateAddField field, const int64_t number, const int64_t timeval, const int32_t dim);
extern "C" int64_t DateAddNullable(const DateAddField field, const int64_t number, const int64_t timeval, const int64_t null_val);
extern "C" int64_t DateAddHighPrecisionNullable(const DateAddField field, const int64_t number, const int64_t timeval, const int32_t dim, const int64_t null_val);
extern "C" int64_t DateDiff(const DateTruncField datepart, const int64_t startdate, const int64_t enddate);
extern "C" int64_t DateDiffHighPrecision(const DateTruncField datepart, const int64_t startdate, const int64_t enddate, const int32_t start_dim, const int32_t end_dim);
extern "C" int64_t DateDiffNullable(const DateTruncField datepart, const int64_t startdate, const int64_t enddate, const int64_t null_val);
extern "C" int64_t DateDiffHighPrecisionNullable(const DateTruncField datepart, const int64_t startdate, const int64_t enddate, const int32_t start_dim, const int32_t end_dim, const int64_t null_val);
extern "C" int64_t DateTruncateHighPrecisionToDate(const int64_t timeval, const int64_t scale);
extern "C" int64_t DateTruncateHighPrecisionToDateNullable(const int64_t timeval, const int64_t scale, const int64_t null_val);
extern "C" int64_t TimestampToTimeUpscale(const int64_t timeval, const int64_t conversion_scale, const int64_t target_sec_scale);
extern "C" int64_t TimestampToTimeDownscale(const int64_t timeval, const int64_t conversion_scale, const int64_t target_sec_scale);
extern "C" int64_t TimestampToTimeUpscaleNullable(const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
extern "C" int64_t TimestampToTimeDownscaleNullable(const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
#define JIT1(n) extern "C" int64_t n(int64_t);
JIT1(datetrunc_minute) JIT1(datetrunc_hour) JIT1(datetrunc_quarterday) JIT1(datetrunc_day) JIT1(datetrunc_week_monday) JIT1(datetrunc_week_sunday)
JIT1(datetrunc_week_saturday) JIT1(datetrunc_month) JIT1(datetrunc_quarter) JIT1(datetrunc_year) JIT1(datetrunc_decade) JIT1(datetrunc_century)
JIT1(datetrunc_millennium)
extern "C" int64_t extract_year(const int64_t timeval);
extern "C" int64_t extract_quarter(const int64_t timeval);

namespace {
constexpr int64_t kDay = 86400;

// The calendar, counted day by day: no arithmetic in common with the code under test.
bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int monthDays(int64_t y, int m) {
  static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap(y) ? 29 : n[m - 1];
}
struct Civil {
  int64_t y;
  int m, d, doy;
  int64_t jan1, month1;  // epoch days of the first day of the year and month
};
constexpr int64_t kMinYear = -2100, kMaxYear = 4200;
struct Calendar {
  std::vector<int64_t> jan1;  // epoch day of January 1 of each year
  Calendar() {
    jan1.resize(kMaxYear - kMinYear + 2);
    int64_t d = 0;
    for (int64_t y = 1970; y <= kMaxYear + 1; ++y) {
      jan1[y - kMinYear] = d;
      d += leap(y) ? 366 : 365;
    }
    d = 0;
    for (int64_t y = 1969; y >= kMinYear; --y) {
      d -= leap(y) ? 366 : 365;
      jan1[y - kMinYear] = d;
    }
  }
  int64_t yearStart(int64_t y) const { return jan1.at(y - kMinYear); }
  int64_t day(int64_t y, int m, int d) const {
    int64_t r = yearStart(y);
    for (int i = 1; i < m; ++i) r += monthDays(y, i);
    return r + d - 1;
  }
  Civil civil(int64_t day) const {
    auto it = std::upper_bound(jan1.begin(), jan1.end(), day) - 1;
    Civil c;
    c.y = kMinYear + (it - jan1.begin());
    c.jan1 = *it;
    c.doy = day - *it + 1;
    c.m = 1;
    int64_t r = *it;
    while (day - r >= monthDays(c.y, c.m)) r += monthDays(c.y, c.m++);
    c.month1 = r;
    c.d = day - r + 1;
    return c;
  }
};
const Calendar& cal() {
  static Calendar c;
  return c;
}
int weekday(int64_t day) { return (int)(((day + 4) % 7 + 7) % 7); }  // Sunday 0
int64_t fdiv(int64_t a, int64_t b) { return a / b - (a % b < 0); }
int64_t fmod_(int64_t a, int64_t b) { return a - fdiv(a, b) * b; }

// Week number: weeks start on the given weekday and week 1 contains January 4.
int64_t weekStart1(int64_t y, int first) {
  int64_t j4 = cal().day(y, 1, 4);
  return j4 - fmod_(weekday(j4) - first, 7);
}
int weekOf(int64_t day, int64_t y, int first) {
  int64_t yy = y + 1;
  while (weekStart1(yy, first) > day) --yy;
  return (day - weekStart1(yy, first)) / 7 + 1;
}

const std::vector<std::pair<DateExtractField, const char*>> kExtract = {
    {DateExtractField::kYear, "year"}, {DateExtractField::kQuarter, "quarter"}, {DateExtractField::kMonth, "month"}, {DateExtractField::kDay, "day"},
    {DateExtractField::kHour, "hour"}, {DateExtractField::kMinute, "minute"}, {DateExtractField::kSecond, "second"},
    {DateExtractField::kDayOfWeek, "dow"}, {DateExtractField::kIsoDayOfWeek, "isodow"}, {DateExtractField::kDayOfYear, "doy"},
    {DateExtractField::kEpoch, "epoch"}, {DateExtractField::kQuarterDay, "quarterday"}, {DateExtractField::kWeek, "week"},
    {DateExtractField::kWeekSunday, "week_sunday"}, {DateExtractField::kWeekSaturday, "week_saturday"}, {DateExtractField::kDateEpoch, "dateepoch"}};

int64_t refExtract(DateExtractField f, int64_t t, const Civil& v, int64_t day) {
  int64_t sod = t - day * kDay;
  switch (f) {
    case DateExtractField::kYear: return v.y;
    case DateExtractField::kQuarter: return (v.m - 1) / 3 + 1;
    case DateExtractField::kMonth: return v.m;
    case DateExtractField::kDay: return v.d;
    case DateExtractField::kHour: return sod / 3600;
    case DateExtractField::kMinute: return sod / 60 % 60;
    case DateExtractField::kSecond: return sod % 60;
    case DateExtractField::kDayOfWeek: return weekday(day);
    case DateExtractField::kIsoDayOfWeek: return weekday(day) == 0 ? 7 : weekday(day);
    case DateExtractField::kDayOfYear: return v.doy;
    case DateExtractField::kEpoch: return t;
    case DateExtractField::kQuarterDay: return sod / 21600 + 1;
    case DateExtractField::kWeek: return weekOf(day, v.y, 1);
    case DateExtractField::kWeekSunday: return weekOf(day, v.y, 0);
    case DateExtractField::kWeekSaturday: return weekOf(day, v.y, 6);
    case DateExtractField::kDateEpoch: return day * kDay;
    default: return 0;
  }
}
struct TruncField {
  DateTruncField f;
  const char* name;
  int64_t (*jit)(int64_t);
};
const std::vector<TruncField> kTrunc = {
    {DateTruncField::kSecond, "second", nullptr}, {DateTruncField::kMinute, "minute", datetrunc_minute}, {DateTruncField::kHour, "hour", datetrunc_hour},
    {DateTruncField::kQuarterDay, "quarterday", datetrunc_quarterday}, {DateTruncField::kDay, "day", datetrunc_day},
    {DateTruncField::kWeek, "week", datetrunc_week_monday}, {DateTruncField::kWeekSunday, "week_sunday", datetrunc_week_sunday},
    {DateTruncField::kWeekSaturday, "week_saturday", datetrunc_week_saturday}, {DateTruncField::kMonth, "month", datetrunc_month},
    {DateTruncField::kQuarter, "quarter", datetrunc_quarter}, {DateTruncField::kYear, "year", datetrunc_year},
    {DateTruncField::kDecade, "decade", datetrunc_decade}, {DateTruncField::kCentury, "century", datetrunc_century},
    {DateTruncField::kMillennium, "millennium", datetrunc_millennium}};
int64_t refTrunc(DateTruncField f, int64_t t, const Civil& v, int64_t day) {
  auto year = [&](int64_t y) { return cal().yearStart(y) * kDay; };
  switch (f) {
    case DateTruncField::kSecond: return t;
    case DateTruncField::kMinute: return t - fmod_(t, 60);
    case DateTruncField::kHour: return t - fmod_(t, 3600);
    case DateTruncField::kQuarterDay: return t - fmod_(t, 21600);
    case DateTruncField::kDay: return day * kDay;
    case DateTruncField::kWeek: return (day - fmod_(weekday(day) - 1, 7)) * kDay;
    case DateTruncField::kWeekSunday: return (day - weekday(day)) * kDay;
    case DateTruncField::kWeekSaturday: return (day - fmod_(weekday(day) - 6, 7)) * kDay;
    case DateTruncField::kMonth: return v.month1 * kDay;
    case DateTruncField::kQuarter: return cal().day(v.y, (v.m - 1) / 3 * 3 + 1, 1) * kDay;
    case DateTruncField::kYear: return v.jan1 * kDay;
    case DateTruncField::kDecade: return year(fdiv(v.y, 10) * 10);
    case DateTruncField::kCentury: return year(fdiv(v.y - 1, 100) * 100 + 1);
    case DateTruncField::kMillennium: return year(fdiv(v.y - 1, 1000) * 1000 + 1);
    default: return 0;
  }
}
std::string show(int64_t t) {
  int64_t day = fdiv(t, kDay);
  auto v = cal().civil(day);
  int64_t s = t - day * kDay;
  return strf("%ld (%ld-%02d-%02d %02ld:%02ld:%02ld)", (long)t, (long)v.y, v.m, v.d, (long)(s / 3600), (long)(s / 60 % 60), (long)(s % 60));
}
void instant(Ctx& c, int64_t t, const Civil& v, int64_t day) {
  for (auto& [f, n] : kExtract) {
    int64_t got = ExtractFromTime(f, t), want = refExtract(f, t, v, day);
    if (got != want) c.fail(strf("extract-%s", n), strf("%s of %s is %ld, expected %ld", n, show(t).c_str(), (long)got, (long)want));
  }
  for (auto& f : kTrunc) {
    int64_t want = refTrunc(f.f, t, v, day), got = DateTruncate(f.f, t);
    if (got != want) c.fail(strf("trunc-%s", f.name), strf("%s truncated to %s is %ld, expected %ld", show(t).c_str(), f.name, (long)got, (long)want));
    if (f.jit && f.jit(t) != want) c.fail(strf("trunc-%s-jit", f.name), strf("%s truncated to %s by the runtime function is %ld, expected %ld", show(t).c_str(), f.name, (long)f.jit(t), (long)want));
  }
  int64_t days = DateConverters::get_epoch_days_from_seconds(t);
  if (days != day) c.fail("epoch-days", strf("%s is day %ld, expected %ld", show(t).c_str(), (long)days, (long)day));
  if (DateConverters::get_epoch_seconds_from_days(day) != day * kDay) c.fail("epoch-seconds", strf("day %ld", (long)day));
}
// Every day of a range of years.
void days(Ctx& c) {
  int64_t y0 = c.thorough() ? -1000 : 1200, n = c.thorough() ? 500 : 140;
  int64_t step = 10;
  int64_t y = y0 + step * c.choose(n, "decade");
  static const int64_t sods[] = {0, 1, 3599, 21600, 45296, 86399};
  for (int64_t yy = y; yy < y + step; ++yy) {
    for (int64_t d = cal().yearStart(yy); d < cal().yearStart(yy + 1); ++d) {
      auto v = cal().civil(d);
      for (auto s : sods) instant(c, d * kDay + s, v, d);
    }
    c.op("all fields and truncations of every day of %ld at six times of day", (long)yy);
    c.state((uint64_t)yy);
  }
}
const std::vector<std::array<int, 3>> kSpecial = {{1969, 12, 31}, {1970, 1, 1},   {1972, 2, 29},  {1972, 3, 1},  {1999, 12, 31}, {2000, 1, 1},  {2000, 2, 29},
                                                  {2000, 3, 1},   {2000, 12, 31}, {2004, 12, 31}, {2036, 2, 6},  {2036, 2, 7},   {2036, 2, 8},  {1900, 2, 28},
                                                  {1900, 3, 1},   {2100, 2, 28},  {2100, 3, 1},   {1600, 2, 29}, {0, 2, 29},     {-1, 12, 31},  {1, 1, 1},
                                                  {2001, 1, 1},   {1968, 2, 29},  {2024, 12, 30}, {2021, 1, 3},  {2016, 1, 2},   {3000, 12, 31}, {2400, 2, 29}};
// Every second of special days.
void seconds(Ctx& c) {
  auto& s = kSpecial[c.choose(kSpecial.size(), "day")];
  size_t part = c.choose(8, "part");
  int64_t d = cal().day(s[0], s[1], s[2]);
  auto v = cal().civil(d);
  for (int64_t t = part * 10800; t < (int64_t)(part + 1) * 10800; ++t) {
    instant(c, d * kDay + t, v, d);
    // subsecond fields are counted within the minute
    for (int64_t sub : {0, 1, 999}) {
      int64_t ms = (d * kDay + t) * 1000 + sub;
      if (ExtractFromTime(DateExtractField::kMilli, ms) != (t % 60) * 1000 + sub) c.fail("extract-milli", strf("%ld", (long)ms));
      int64_t us = (d * kDay + t) * 1000000 + sub;
      if (ExtractFromTime(DateExtractField::kMicro, us) != (t % 60) * 1000000 + sub) c.fail("extract-micro", strf("%ld", (long)us));
      if (std::llabs(d) < 100000) {
        int64_t ns = (d * kDay + t) * 1000000000 + sub;
        if (ExtractFromTime(DateExtractField::kNano, ns) != (t % 60) * 1000000000 + sub) c.fail("extract-nano", strf("%ld", (long)ns));
      }
    }
  }
  c.op("every second of an eighth of %d-%d-%d", s[0], s[1], s[2]);
}
// Casts between precisions, to date and to time of day.
void precision(Ctx& c) {
  auto& s = kSpecial[c.choose(kSpecial.size(), "day")];
  int64_t d = cal().day(s[0], s[1], s[2]);
  int64_t sod = std::array<int64_t, 5>{0, 1, 43199, 59999, 86399}[c.choose(5, "time")];
  int dim = 3 * c.choose(4, "precision");
  static const int64_t p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
  int64_t scale = p10[dim];
  if (dim == 9 && std::llabs(d) > 106000) c.skip();
  int64_t sub = dim ? std::array<int64_t, 3>{0, 1, scale - 1}[c.choose(3, "fraction")] : 0;
  int64_t t = (d * kDay + sod) * scale + sub;
  constexpr int64_t null = INT64_MIN;
  c.op("convert %ld of precision %d", (long)t, dim);
  if (dim) {
    c.check(DateTruncateHighPrecisionToDate(t, scale) == d * kDay, "to-date", strf("%ld precision %d to date", (long)t, dim));
    c.check(DateTruncateHighPrecisionToDateNullable(t, scale, null) == d * kDay && DateTruncateHighPrecisionToDateNullable(null, scale, null) == null, "to-date-nullable",
            strf("%ld precision %d to date", (long)t, dim));
    c.check(truncate_high_precision_timestamp_to_date(t, scale) == d * kDay, "to-date", strf("%ld precision %d to date", (long)t, dim));
  }
  for (int to = 0; to <= 9; to += 3) {
    int64_t want = to >= dim ? sod * p10[to] + sub * p10[to - dim] : sod * p10[to] + sub / p10[dim - to];
    int64_t got;
    if (to >= dim) {
      if (std::llabs(t) > INT64_MAX / p10[to - dim] / 2) continue;
      got = TimestampToTimeUpscale(t, p10[to - dim], p10[to]);
      c.check(TimestampToTimeUpscaleNullable(t, p10[to - dim], p10[to], null, -7) == want && TimestampToTimeUpscaleNullable(null, p10[to - dim], p10[to], null, -7) == -7,
              "to-time-nullable", strf("%ld precision %d to time(%d)", (long)t, dim, to));
    } else {
      got = TimestampToTimeDownscale(t, p10[dim - to], p10[dim]);
      c.check(TimestampToTimeDownscaleNullable(t, p10[dim - to], p10[dim], null, -7) == want && TimestampToTimeDownscaleNullable(null, p10[dim - to], p10[dim], null, -7) == -7,
              "to-time-nullable", strf("%ld precision %d to time(%d)", (long)t, dim, to));
    }
    c.check(got == want, "to-time", strf("%ld precision %d to time(%d): %ld, expected %ld", (long)t, dim, to, (long)got, (long)want));
  }
  // scaling between units
  auto unit = [](int d) { return d == 0 ? TimeUnit::kSecond : d == 3 ? TimeUnit::kMilli : d == 6 ? TimeUnit::kMicro : TimeUnit::kNano; };
  for (int to = 0; to <= 9; to += 3) {
    bool threw = false;
    int64_t got = 0;
    try {
      got = DateTimeUtils::get_datetime_scaled_epoch(t, unit(dim), unit(to));
    } catch (std::runtime_error&) {
      threw = true;
    }
    if (to >= dim) {
      __int128 want = (__int128)t * p10[to - dim];
      bool fits = want >= INT64_MIN && want <= INT64_MAX;
      c.check(threw != fits, "scale-overflow", strf("%ld from precision %d to %d: %s", (long)t, dim, to, threw ? "refused" : "accepted"));
      if (fits) c.check(got == (int64_t)want, "scale", strf("%ld from precision %d to %d", (long)t, dim, to));
    } else if (t >= 0 || t % p10[dim - to] == 0) {
      c.check(!threw && got == t / p10[dim - to], "scale", strf("%ld from precision %d to %d", (long)t, dim, to));
    }
  }
  if (sod == 0 && sub == 0) {
    bool threw = false;
    int64_t got = 0;
    __int128 want = (__int128)d * kDay * scale;
    try {
      got = DateTimeUtils::get_datetime_scaled_epoch(d, TimeUnit::kDay, unit(dim));
    } catch (std::runtime_error&) {
      threw = true;
    }
    c.check(!threw && got == (int64_t)want, "scale-days", strf("day %ld to precision %d", (long)d, dim));
  }
}

int64_t refAddMonths(int64_t t, int64_t months) {
  int64_t day = fdiv(t, kDay);
  auto v = cal().civil(day);
  int64_t k = v.y * 12 + (v.m - 1) + months;
  int64_t y = fdiv(k, 12);
  int m = fmod_(k, 12) + 1;
  int d = std::min(v.d, monthDays(y, m));
  return cal().day(y, m, d) * kDay + (t - day * kDay);
}
void addition(Ctx& c) {
  // every day of blocks of years, every field, several amounts
  int64_t n = c.thorough() ? 160 : 84;
  int64_t y0 = (c.thorough() ? 1400 : 1790) + 5 * c.choose(n, "years");
  struct F { DateAddField f; const char* n; int64_t months, secs; };
  static const F fs[] = {{DateAddField::kYear, "year", 12, 0}, {DateAddField::kQuarter, "quarter", 3, 0}, {DateAddField::kMonth, "month", 1, 0},
                         {DateAddField::kDecade, "decade", 120, 0}, {DateAddField::kCentury, "century", 1200, 0}, {DateAddField::kMillennium, "millennium", 12000, 0},
                         {DateAddField::kSecond, "second", 0, 1}, {DateAddField::kMinute, "minute", 0, 60}, {DateAddField::kHour, "hour", 0, 3600},
                         {DateAddField::kDay, "day", 0, kDay}, {DateAddField::kWeek, "week", 0, 7 * kDay}, {DateAddField::kWeekDay, "weekday", 0, kDay},
                         {DateAddField::kDayOfYear, "dayofyear", 0, kDay}};
  static const int64_t amounts[] = {0, 1, -1, 2, -2, 3, 5, -7, 11, 12, -12, 13, 25, -37};
  for (int64_t d = cal().yearStart(y0); d < cal().yearStart(y0 + 5); ++d) {
    int64_t sod = (d * 37 % kDay + kDay) % kDay;
    int64_t t = d * kDay + sod;
    for (auto& f : fs) {
      for (auto k : amounts) {
        if (f.months >= 1200 && std::llabs(k) > (f.months == 12000 ? 1 : 5)) continue;
        int64_t want = f.months ? refAddMonths(t, k * f.months) : t + k * f.secs;
        int64_t got = DateAdd(f.f, k, t);
        if (got != want) c.fail(strf("add-%s", f.n), strf("%s plus %ld %s is %s, expected %s", show(t).c_str(), (long)k, f.n, show(got).c_str(), show(want).c_str()));
        if (d % 11 == 0) {
          int64_t ms = DateAddHighPrecision(f.f, k, t * 1000 + 7, 3);
          if (ms != want * 1000 + 7) c.fail(strf("add-%s-ms", f.n), strf("%s.007 plus %ld %s is %ld ms, expected %ld", show(t).c_str(), (long)k, f.n, (long)ms, (long)(want * 1000 + 7)));
          int64_t us = DateAddHighPrecisionNullable(f.f, k, t * 1000000 + 999999, 6, INT64_MIN);
          if (us != want * 1000000 + 999999) c.fail(strf("add-%s-us", f.n), strf("%s.999999 plus %ld %s is %ld us", show(t).c_str(), (long)k, f.n, (long)us));
          if (DateAddNullable(f.f, k, t, INT64_MIN) != want || DateAddNullable(f.f, k, INT64_MIN, INT64_MIN) != INT64_MIN ||
              DateAddHighPrecisionNullable(f.f, k, INT64_MIN, 3, INT64_MIN) != INT64_MIN)
            c.fail("add-null", strf("null handling of %s", f.n));
          if (std::llabs(want) < 9200000000LL && std::llabs(t) < 9200000000LL) {
            int64_t ns = DateAddHighPrecision(f.f, k, t * 1000000000 + 5, 9);
            if (ns != want * 1000000000 + 5) c.fail(strf("add-%s-ns", f.n), strf("%s plus %ld %s is %ld ns", show(t).c_str(), (long)k, f.n, (long)ns));
          }
        }
      }
    }
    // subsecond amounts on subsecond precisions
    for (auto k : {1L, -1L, 999L, -1000L, 1001L, -2500L, 1000000L}) {
      static const int64_t p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
      for (int fd = 3; fd <= 9; fd += 3)
        for (int dim = 3; dim <= 9; dim += 3) {
          if (dim == 9 && std::llabs(t) > 9200000000LL) continue;
          auto f = fd == 3 ? DateAddField::kMilli : fd == 6 ? DateAddField::kMicro : DateAddField::kNano;
          int64_t tv = t * p10[dim] + 3;
          int64_t want = dim >= fd ? tv + k * p10[dim - fd] : tv + fdiv(k, p10[fd - dim]);
          int64_t got = DateAddHighPrecision(f, k, tv, dim);
          if (got != want) c.fail("add-subsecond", strf("%ld (precision %d) plus %ld units of precision %d is %ld, expected %ld", (long)tv, dim, (long)k, fd, (long)got, (long)want));
        }
    }
  }
  c.op("additions to every day of %ld..%ld", (long)y0, (long)y0 + 4);
}

// Difference: whole units elapsed, truncated toward zero.
int64_t refMonths(int64_t a, int64_t b) {  // a <= b, in any subsecond unit encoded by pairs
  auto key = [](int64_t t) {
    int64_t day = fdiv(t, kDay);
    auto v = cal().civil(day);
    return std::pair<int64_t, int64_t>(v.y * 12 + v.m, (v.d - 1) * kDay + (t - day * kDay));
  };
  auto x = key(a), y = key(b);
  return y.first - x.first - (y.second < x.second);
}
const std::vector<int64_t>& diffDays() {
  static std::vector<int64_t> v = [] {
    std::vector<int64_t> r;
    for (auto y : {1999, 2000, 2001, 2004})
      for (int m = 1; m <= 12; ++m)
        for (int d : {1, 15, 28, monthDays(y, m)}) r.push_back(cal().day(y, m, d));
    for (auto y : {1, 400, 1599, 1600, 1899, 1900, 1969, 1970, 2036, 2099, 2100, 2399, 2400, 3001})
      for (int m : {1, 2, 3, 12})
        for (int d : {1, monthDays(y, m)}) r.push_back(cal().day(y, m, d));
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
  }();
  return v;
}
void difference(Ctx& c) {
  auto& dd = diffDays();
  int64_t d1 = dd[c.choose(dd.size(), "start")];
  size_t mode = c.choose(4, "times");
  if (!c.thorough() && (d1 + mode) % 2) c.skip();  // quick tier: two of the four time-of-day relations per start
  struct F { DateTruncField f; const char* n; int64_t months, secs; };
  static const F fs[] = {{DateTruncField::kYear, "year", 12, 0}, {DateTruncField::kQuarter, "quarter", 3, 0}, {DateTruncField::kMonth, "month", 1, 0},
                         {DateTruncField::kDecade, "decade", 120, 0}, {DateTruncField::kCentury, "century", 1200, 0}, {DateTruncField::kMillennium, "millennium", 12000, 0},
                         {DateTruncField::kSecond, "second", 0, 1}, {DateTruncField::kMinute, "minute", 0, 60}, {DateTruncField::kHour, "hour", 0, 3600},
                         {DateTruncField::kQuarterDay, "quarterday", 0, 21600}, {DateTruncField::kDay, "day", 0, kDay}, {DateTruncField::kWeek, "week", 0, 7 * kDay},
                         {DateTruncField::kWeekSunday, "week_sunday", 0, 7 * kDay}, {DateTruncField::kWeekSaturday, "week_saturday", 0, 7 * kDay}};
  int64_t s1 = mode == 0 ? 0 : mode == 1 ? 100 : mode == 2 ? 43200 : 86399, s2 = mode == 0 ? 0 : mode == 1 ? 99 : mode == 2 ? 43201 : 0;
  static const int64_t p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
  for (auto d2 : dd) {
    int64_t a = d1 * kDay + s1, b = d2 * kDay + s2;
    for (auto& f : fs) {
      int64_t want = f.secs ? (b - a) / f.secs : (b >= a ? refMonths(a, b) : -refMonths(b, a)) / f.months;
      int64_t got = DateDiff(f.f, a, b);
      if (got != want) c.fail(strf("diff-%s", f.n), strf("%s from %s to %s is %ld, expected %ld", f.n, show(a).c_str(), show(b).c_str(), (long)got, (long)want));
      if (DateDiffNullable(f.f, a, b, INT64_MIN) != want || DateDiffNullable(f.f, INT64_MIN, b, INT64_MIN) != INT64_MIN || DateDiffNullable(f.f, a, INT64_MIN, INT64_MIN) != INT64_MIN)
        c.fail("diff-null", strf("null handling of %s", f.n));
      // with fractions of a second: equal to the difference in the finest unit, truncated
      for (int da = 0; da <= 9; da += 3)
        for (int db = 0; db <= 9; db += 3) {
          if ((da == 9 || db == 9) && (std::llabs(a) > 9000000000LL || std::llabs(b) > 9000000000LL)) continue;
          if (std::llabs(da - db) == 9 && f.secs == 0 && (d1 + d2) % 3) continue;
          int64_t fa = da ? 6 : 0, fb = db ? 5 : 0;
          int64_t na = fa * p10[9 - da], nb = fb * p10[9 - db];  // nanoseconds
          int64_t ta = a * p10[da] + fa, tb = b * p10[db] + fb;
          // seconds of the end as seen from the start, when the start's fraction is carried over
          int64_t want2;
          bool ge = b > a || (b == a && nb >= na);
          int64_t b2 = b, a2 = a;
          if (ge && nb < na) b2 = b - 1;  // a fraction short of b seconds
          if (!ge && nb > na) b2 = b + 1;
          if (f.secs) want2 = (b2 - a2) / f.secs;
          else want2 = (b2 >= a2 ? refMonths(a2, b2) : -refMonths(b2, a2)) / f.months;
          int64_t g2 = DateDiffHighPrecision(f.f, ta, tb, da, db);
          if (g2 != want2)
            c.fail(strf("diff-precise-%s", f.n), strf("%s from %ld (precision %d) to %ld (precision %d) is %ld, expected %ld", f.n, (long)ta, da, (long)tb, db, (long)g2, (long)want2));
          if (DateDiffHighPrecisionNullable(f.f, ta, tb, da, db, INT64_MIN) != want2 || DateDiffHighPrecisionNullable(f.f, INT64_MIN, tb, da, db, INT64_MIN) != INT64_MIN ||
              DateDiffHighPrecisionNullable(f.f, ta, INT64_MIN, da, db, INT64_MIN) != INT64_MIN)
            c.fail("diff-null", strf("null handling of %s", f.n));
        }
    }
    if (std::llabs(b - a) < 1000000000LL) {
      for (int td = 3; td <= 9; td += 3)
        for (int da = 0; da <= 9; da += 3)
          for (int db = 0; db <= 9; db += 3) {
            if ((da == 9 || db == 9) && (std::llabs(a) > 9000000000LL || std::llabs(b) > 9000000000LL)) continue;
            auto f = td == 3 ? DateTruncField::kMilli : td == 6 ? DateTruncField::kMicro : DateTruncField::kNano;
            int64_t fa = da ? 6 : 0, fb = db ? 5 : 0;
            __int128 na = (__int128)a * p10[9] + fa * p10[9 - da], nb = (__int128)b * p10[9] + fb * p10[9 - db];
            int64_t want = (int64_t)((nb - na) / p10[9 - td]);
            int64_t got = DateDiffHighPrecision(f, a * p10[da] + fa, b * p10[db] + fb, da, db);
            if (got != want) c.fail("diff-subsecond", strf("difference in 10^-%d s is %ld, expected %ld (precisions %d, %d)", td, (long)got, (long)want, da, db));
            if (da == 0 && db == 0 && DateDiff(f, a, b) != want) c.fail("diff-subsecond", strf("difference in 10^-%d s of %ld..%ld", td, (long)a, (long)b));
          }
    }
  }
  c.op("differences from day %ld", (long)d1);
}

// ---- text ----
struct DateFmt { const char* name; };
const char* kMon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
const char* kMonth[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
std::string dateText(int k, const Civil& v) {
  switch (k) {
    case 0: return strf("%04ld-%02d-%02d", (long)v.y, v.m, v.d);
    case 1: return strf("%ld-%d-%d", (long)v.y, v.m, v.d);
    case 2: return strf("%02d/%02d/%02ld", v.m, v.d, (long)(v.y % 100));
    case 3: return strf("%02d/%02d/%04ld", v.m, v.d, (long)v.y);
    case 4: return strf("%04ld/%02d/%02d", (long)v.y, v.m, v.d);
    case 5: return strf("%02d-%s-%02ld", v.d, kMon[v.m - 1], (long)(v.y % 100));
    case 6: return strf("%d/%s/%04ld", v.d, kMon[v.m - 1], (long)v.y);
    case 7: return strf("%d-%s-%02ld", v.d, kMonth[v.m - 1], (long)(v.y % 100));
    case 8: return strf("%02d/%s/%04ld", v.d, kMonth[v.m - 1], (long)v.y);
    default: {
      auto s = strf("%02d/%s/%04ld", v.d, kMon[v.m - 1], (long)v.y);
      for (auto& ch : s) ch = k == 9 ? toupper(ch) : tolower(ch);
      return s;
    }
  }
}
constexpr int kDateFmts = 11;
bool twoDigit(int k) { return k == 2 || k == 5 || k == 7; }
const TimeUnit kUnits[] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
const int64_t kScale[] = {1, 1000, 1000000, 1000000000};

template <hdk::ir::Type::Id T>
void expectParse(Ctx& c, const char* key, const std::string& s, int u, std::optional<int64_t> want) {
  auto got = dateTimeParseOptional<T>(s, kUnits[u]);
  if (got != want)
    c.fail(key, strf("'%s' in unit %d gives %s, expected %s", s.c_str(), u, got ? std::to_string(*got).c_str() : "nothing", want ? std::to_string(*want).c_str() : "nothing"));
}
void parseDates(Ctx& c) {
  int64_t n = c.thorough() ? 400 : 240;
  int64_t y = (c.thorough() ? 1700 : 1880) + (int64_t)c.choose(n, "year");
  for (int64_t d = cal().yearStart(y); d < cal().yearStart(y + 1); ++d) {
    auto v = cal().civil(d);
    for (int k = 0; k < kDateFmts; ++k) {
      if (twoDigit(k) && (y < 1969 || y > 2068)) continue;
      auto s = dateText(k, v);
      int u = (d + k) % 4;
      if (u < 0) u += 4;
      if (y < 1680 || y > 2260) u = 0;
      expectParse<hdk::ir::Type::kDate>(c, "parse-date", s, u, d * kDay * kScale[u]);
      int64_t sod = (d * 7919 % kDay + kDay) % kDay;
      auto ts = s + strf(" %02ld:%02ld:%02ld", (long)(sod / 3600), (long)(sod / 60 % 60), (long)(sod % 60));
      expectParse<hdk::ir::Type::kTimestamp>(c, "parse-timestamp", ts, u, (d * kDay + sod) * kScale[u]);
      if (k == 0) {
        auto iso = s + strf("T%02ld:%02ld:%02ld.5", (long)(sod / 3600), (long)(sod / 60 % 60), (long)(sod % 60));
        expectParse<hdk::ir::Type::kTimestamp>(c, "parse-timestamp", iso, u, (d * kDay + sod) * kScale[u] + kScale[u] / 2);
      }
    }
  }
  c.op("every day of %ld in eleven date formats", (long)y);
}
void parseTimes(Ctx& c) {
  int h = c.choose(24, "hour");
  int u = c.choose(4, "unit");
  size_t tz = c.choose(6, "time zone");
  static const char* tzs[] = {"", "+0000", " +05:30", "-0800", " -00:30", "+1400"};
  static const int64_t off[] = {0, 0, 19800, -28800, -1800, 50400};
  for (int m = 0; m < 60; ++m) {
    for (int s : {0, 1, 30, 59}) {
      int h12 = h % 12 == 0 ? 12 : h % 12;
      const char* ap = h < 12 ? "AM" : "PM";
      struct T { std::string s; int64_t t; int64_t ns; };
      int64_t hm = h * 3600 + m * 60;
      std::vector<T> v = {{strf("%02d:%02d:%02d", h, m, s), hm + s, 0}, {strf("%02d:%02d", h, m), hm, 0}, {strf("%02d%02d%02d", h, m, s), hm + s, 0},
                          {strf("%d:%02d:%02d %s", h12, m, s, ap), hm + s, 0}, {strf("%02d:%02d %s", h12, m, h < 12 ? "a.m." : "p.m."), hm, 0},
                          {strf("%d:%02d%s", h12, m, h < 12 ? "am" : "pm"), hm, 0}, {strf("%02d . %02d . %02d %s", h12, m, s, ap), hm + s, 0},
                          {strf("%02d:%02d:%02d.1", h, m, s), hm + s, 100000000}, {strf("%02d:%02d:%02d.000001", h, m, s), hm + s, 1000},
                          {strf("%02d:%02d:%02d.123456789", h, m, s), hm + s, 123456789}, {strf("%d:%02d:%02d.25 %s", h12, m, s, ap), hm + s, 250000000}};
      if (m == 0) v.push_back({strf("%d %s", h12, ap), hm, 0});
      for (auto& t : v) {
        auto txt = t.s + tzs[tz];
        int64_t want = (t.t - off[tz]) * kScale[u] + t.ns / (1000000000 / kScale[u]);
        expectParse<hdk::ir::Type::kTime>(c, "parse-time", txt, u, want);
        expectParse<hdk::ir::Type::kTime>(c, "parse-time", "T" + txt, u, want);
        expectParse<hdk::ir::Type::kTimestamp>(c, "parse-timestamp", "1969-12-31 " + txt, u, want - kDay * kScale[u]);
        expectParse<hdk::ir::Type::kTimestamp>(c, "parse-timestamp", "02/29/2024T" + txt, u, want + cal().day(2024, 2, 29) * kDay * kScale[u]);
      }
    }
  }
  c.op("every minute of hour %d in eleven time formats", h);
}
void parseInvalid(Ctx& c) {
  static const std::vector<std::string> dates = {"2020-13-01", "2020-00-10", "2020-01-00", "2020-01-32", "12/32/2020", "1-Foo-20", "32-Jan-20", "hello", "", "x", "-", "2020-", "2020-01", "//", "Jan"};
  static const std::vector<std::string> times = {"24:00:00", "12:60:00", "12:00:62", "13:00 PM x", "1:2:3:4", "240000", "126000", "", "12:", "ab", "12:00:00.", "12:00:00 +5", "25", "12:30:10 +05:3"};
  static const std::vector<std::pair<std::string, int64_t>> epochs = {{"0", 0}, {"12", 12}, {"-5", -5}, {"1600000000", 1600000000}, {"-1600000000.", -1600000000}, {"17.5", 17}};
  size_t k = c.choose(3, "kind");
  if (k == 0) {
    auto& s = dates[c.choose(dates.size(), "text")];
    c.op("parse date '%s'", s.c_str());
    for (int u = 0; u < 4; ++u) {
      expectParse<hdk::ir::Type::kDate>(c, "parse-invalid", s, u, std::nullopt);
      expectParse<hdk::ir::Type::kTimestamp>(c, "parse-invalid", s, u, std::nullopt);
      expectParse<hdk::ir::Type::kTimestamp>(c, "parse-invalid", s + " 12:00:00", u, std::nullopt);
      bool threw = false;
      try {
        dateTimeParse<hdk::ir::Type::kDate>(s, kUnits[u]);
      } catch (std::runtime_error&) {
        threw = true;
      }
      c.check(threw, "parse-invalid", "no error for '" + s + "'");
    }
  } else if (k == 1) {
    auto& s = times[c.choose(times.size(), "text")];
    c.op("parse time '%s'", s.c_str());
    for (int u = 0; u < 4; ++u) expectParse<hdk::ir::Type::kTime>(c, "parse-invalid", s, u, std::nullopt);
  } else {
    auto& s = epochs[c.choose(epochs.size(), "text")];
    c.op("parse unix time '%s'", s.first.c_str());
    for (int u = 0; u < 4; ++u) {
      expectParse<hdk::ir::Type::kDate>(c, "parse-unix", s.first, u, s.second);
      expectParse<hdk::ir::Type::kTimestamp>(c, "parse-unix", s.first, u, s.second);
    }
  }
}
void printing(Ctx& c) {
  int64_t n = c.thorough() ? 900 : 250;
  int64_t y = (c.thorough() ? 1400 : 1860) + (int64_t)c.choose(n, "year");
  for (int64_t d = cal().yearStart(y); d < cal().yearStart(y + 1); ++d) {
    auto v = cal().civil(d);
    int64_t sod = (d * 7919 % kDay + kDay) % kDay;
    int64_t t = d * kDay + sod;
    auto date = strf("%04ld-%02d-%02d", (long)v.y, v.m, v.d);
    auto time = strf("%02ld:%02ld:%02ld", (long)(sod / 3600), (long)(sod / 60 % 60), (long)(sod % 60));
    auto eq = [&](const char* key, const std::string& got, const std::string& want) {
      if (got != want) c.fail(key, strf("%s prints as '%s', expected '%s'", show(t).c_str(), got.c_str(), want.c_str()));
    };
    eq("print-date", getStrDateFromSeconds(t), date);
    eq("print-time", getStrTimeFromSeconds(t), time);
    eq("print-timestamp", getStrTStamp(t, TimeUnit::kSecond), date + " " + time);
    for (int u = 1; u < 4; ++u) {
      if (u == 3 && (y < 1680 || y > 2260)) continue;
      for (int64_t f : {(int64_t)0, (int64_t)7, kScale[u] - 1}) {
        auto ts = t * kScale[u] + f;
        auto s = getStrTStamp(ts, kUnits[u]);
        eq("print-fraction", s, date + " " + time + strf(".%0*ld", 3 * u, (long)f));
        auto back = dateTimeParseOptional<hdk::ir::Type::kTimestamp>(s, kUnits[u]);
        if (!back || *back != ts) c.fail("print-parse", "'" + s + "' does not read back");
      }
    }
  }
  c.op("print every day of %ld", (long)y);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> sc = {{"days", days, 1, 120},          {"seconds", seconds, 2, 120},     {"precision", precision, 2},         {"addition", addition, 1, 120},
                                  {"difference", difference, 2, 120}, {"parse-dates", parseDates, 1, 120}, {"parse-times", parseTimes, 2, 120}, {"parse-invalid", parseInvalid, 2},
                                  {"printing", printing, 1, 120}};
  mc::Options o;
  o.worker_init = [] { hu::quietLogger(); };
  o.rule =
      "every day of the stated range of years at six times of day and every second of 28 special days, for all extract and truncate fields; every day of 420 years with all add fields "
      "and 14 amounts; all ordered pairs of 280 month-boundary dates for differences in all fields and precisions; every day of 240 years in 11 text formats and every minute in "
      "11 time formats with 6 time zones; printing of every day of 250 years. A state is a calendar year";
  o.assumptions = {"proleptic Gregorian calendar, weeks numbered so that week 1 contains January 4", "instants that overflow 64 bits in their unit are outside the space"};
  return mc::run(argc, argv, sc, o);
}
