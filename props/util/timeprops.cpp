#include "common.hpp"
#include "utils_time.h"
#include <ctime>
#include <sys/time.h>

using namespace pbt;
using namespace ccgl;
namespace ut = ccgl::utils_time;

namespace {
const char* ZONES[] = {"UTC0", "CST-8", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "NST3:30NDT,M3.2.0,M11.1.0",
                       "<+0545>-5:45", "<-12>12", "<+14>-14", "XST3XDT,J32/0,J300/0", "YST-1YDT,J60/2,J335/1",
                       "ZST0ZDT,M9.5.0/1,M4.1.0/0", "CET-1CEST,M3.5.0,M10.5.0/3", "WST4WDT,J300/0,J100/0"};
const char* FIXED[] = {"UTC0", "CST-8", "<+0545>-5:45", "<-12>12", "<+14>-14", "EST5", "<-0930>9:30"};
void zone(const char* z) {
    setenv("TZ", z, 1);
    tzset();
}
std::string p4(int64_t y) { return format("%04ld", (long)y); }

int64_t gen_epoch(Ctx& c, int64_t lo, int64_t hi) {
    int64_t t;
    switch (c.weighted({3, 2, 4, 1})) {
    case 0: t = c.range(0, 4102444800LL); break;
    case 1: t = c.range(lo, hi); break;
    case 2: {  // close to midnight at the start of a month
        int64_t y = c.chance(70) ? c.range(1970, 2060) : c.range(1001, 9998);
        int m = (int)c.range(1, 12);
        t = days_from_civil(y, m, 1) * 86400 + c.range(-30, 30) * 1800 + c.range(-2, 2);
        break;
    }
    default: t = c.integer(-5000000, 5000000); break;
    }
    return std::max(lo, std::min(hi, t));
}
const int64_t Y1000 = -30610224000LL, Y9999END = 253402300799LL;

void prop_text(Ctx& c) {
    bool utc = c.chance(30);
    const char* z = utc && c.coin() ? "UTC0" : ZONES[c.below(sizeof ZONES / sizeof *ZONES)];
    zone(z);
    int64_t t = gen_epoch(c, Y1000 + 86400 * 400, Y9999END - 86400 * 400);
    int64_t off = 0;
    bool dst = false;
    if (!utc) {
        time_t tt = t;
        struct tm tm;
        localtime_r(&tt, &tm);
        dst = tm.tm_isdst > 0;
        off = tm.tm_gmtoff - (dst ? 3600 : 0);
    }
    Civil k = civil_from_epoch(t + off);  // standard time of the zone
    std::string date = p4(k.y) + format("-%02d-%02d", k.m, k.d);
    std::string full = date + format(" %02d:%02d:%02d", k.h, k.mi, k.s);
    std::string under = p4(k.y) + format("_%02d_%02d_%02d%02d%02d", k.m, k.d, k.h, k.mi, k.s);
    c.note() << t << " in " << z << (utc ? " as UTC" : " as local") << (dst ? " (DST)" : "") << " = " << full;
    c.eq(ut::ConvertToString(t, utc), date, "date text");
    c.eq(ut::ConvertToString2(t, utc), full, "date-time text");
    c.eq(ut::ConvertToString3(t, utc), under, "underscored date-time text");
    if (utc) {  // is the default
        int y = 0, m = 0, d = 0;
        c.eq(ut::ConvertToString(t), date, "date text by default");
        c.eq(ut::ConvertToString2(t), full, "date-time text by default");
        c.eq(ut::ConvertToString3(t), under, "underscored date-time text by default");
        c.eq(ut::ConvertToTime(full, "%d-%d-%d %d:%d:%d", true), (time_t)t, "instant by default");
        ut::GetDateInfoFromTimet(t, &y, &m, &d);
        c.check(y == k.y && m == k.m && d == k.d, "date parts by default");
        c.eq(ut::ConvertYMDToTime(y, m, d), (time_t)(days_from_civil(k.y, k.m, k.d) * 86400), "midnight by default");
    }
    int y = 0, m = 0, d = 0;
    c.eq(ut::GetDateInfoFromTimet(t, &y, &m, &d, utc), 0, "status of the date parts");
    c.check(y == k.y && m == k.m && d == k.d, format("date parts: got %d-%d-%d, expected %s", y, m, d, date.c_str()));
    // the other way
    bool w = c.coin();
    c.eq(ut::ConvertToTime(full, w ? "%4d-%2d-%2d %2d:%2d:%2d" : "%d-%d-%d %d:%d:%d", true, utc), (time_t)t, "instant of " + full);
    int64_t midnight = days_from_civil(k.y, k.m, k.d) * 86400 - off;
    c.eq(ut::ConvertToTime(date, w ? "%4d-%2d-%2d" : "%d-%d-%d", false, utc), (time_t)midnight, "instant of " + date);
    c.eq(ut::ConvertToTime(under, "%4d_%2d_%2d_%2d%2d%2d", true, utc), (time_t)t, "instant of " + under);
    int yy = (int)k.y, mm = k.m, dd = k.d;
    c.eq(ut::ConvertYMDToTime(yy, mm, dd, utc), (time_t)midnight, "midnight of " + date);
    c.check(yy == k.y && mm == k.m && dd == k.d, "converting a date changed its parts");
    c.eq(ut::ConvertToTime("", "%d-%d-%d", c.coin(), utc), (time_t)0, "instant of empty text");
    c.label(utc ? "utc" : dst ? "local-dst" : "local");
    if (!utc && k.d == 1 && dst) c.label("dst first of month");
    if (t != 0) c.nontrivial();
    zone("UTC0");
}

void prop_calendar(Ctx& c) {
    if (c.coin()) {
        int64_t y = c.chance(60) ? c.range(1890, 2110) : c.range(1, 9999);
        if (c.chance(20)) y = c.range(1, 99) * 100 + c.range(-1, 1);
        if (y < 1) y = 1;
        int m = (int)c.range(1, 12);
        int d = c.chance(30) ? (c.coin() ? 1 : mdays(y, m)) : (int)c.range(1, mdays(y, m));
        c.note() << y << "-" << m << "-" << d;
        c.eq(ut::IsLeapYear((int)y), leap(y), "leap year " + std::to_string(y));
        int64_t days = days_from_civil(y, m, d);
        c.eq((int64_t)ut::JulianDay((int)y, m, d), days + 2440588, "Julian day");
        c.eq((int64_t)ut::DayOfYear((int)y, m, d), days - days_from_civil(y, 1, 1) + 1, "day of the year");
        c.label("date");
        c.nontrivial();
    } else {
        bool utc = c.coin();
        const char* z = ZONES[c.below(sizeof ZONES / sizeof *ZONES)];
        zone(z);
        int64_t t = gen_epoch(c, Y1000 + 86400 * 400, Y9999END - 86400 * 400);
        int64_t off = 0;
        time_t tt = t;
        struct tm tm;
        if (!utc) { localtime_r(&tt, &tm); off = tm.tm_gmtoff; }
        Civil k = civil_from_epoch(t + off);  // what the clock on the wall shows
        c.note() << t << " in " << z << (utc ? " as UTC" : " as local");
        c.eq((int64_t)ut::GetYear(t, utc), k.y, "year");
        c.eq(ut::GetMonth(t, utc), k.m, "month");
        c.eq(ut::GetDay(t, utc), k.d, "day");
        c.eq(ut::DayOfYear(t, utc), k.yday + 1, "day of the year");
        c.eq((int64_t)ut::JulianDay(t, utc), days_from_civil(k.y, k.m, k.d) + 2440588, "Julian day");
        struct tm g;
        memset(&g, 0, sizeof g);
        ut::GetDateTime(t, &g, utc);
        c.check(g.tm_year + 1900 == k.y && g.tm_mon + 1 == k.m && g.tm_mday == k.d && g.tm_hour == k.h && g.tm_min == k.mi && g.tm_sec == k.s && g.tm_yday == k.yday && g.tm_wday == k.wday,
                "broken-down time differs from the calendar");
        if (utc) {
            c.check(ut::GetYear(t) == k.y && ut::GetMonth(t) == k.m && ut::GetDay(t) == k.d && ut::DayOfYear(t) == k.yday + 1 &&
                    ut::JulianDay(t) == days_from_civil(k.y, k.m, k.d) + 2440588, "calendar parts by default");
            ut::GetDateTime(t, &g);
            c.check(g.tm_mday == k.d && g.tm_hour == k.h, "broken-down time by default");
        }
        c.label(utc ? "utc" : "local");
        if (t) c.nontrivial();
        zone("UTC0");
    }
}

std::string show(const ut::DateTime& d) {
    return format("%d-%02d-%02d %02d:%02d:%02d.%03d wd%d yd%d ft%lu tot%lu", d.year, d.month, d.day, d.hour, d.minute, d.second, d.milliseconds,
                  d.day_of_week, d.day_of_year, (unsigned long)d.filetime, (unsigned long)d.total_milliseconds);
}
void expect(Ctx& c, const ut::DateTime& d, int64_t wall, int ms, int64_t stamp, const std::string& what) {
    Civil k = civil_from_epoch(wall);
    bool ok = d.year == k.y && d.month == k.m && d.day == k.d && d.hour == k.h && d.minute == k.mi && d.second == k.s && d.milliseconds == ms &&
              d.day_of_week == k.wday && d.day_of_year == k.yday && d.filetime == (uint64_t)stamp && d.total_milliseconds == (uint64_t)stamp;
    if (!ok) {
        c.fail(what + ": got " + show(d) + format(", expected %ld-%02d-%02d %02d:%02d:%02d.%03d wd%d yd%d at %ld ms", (long)k.y, k.m, k.d, k.h, k.mi, k.s, ms, k.wday, k.yday, (long)stamp));
    }
}

void expect_empty(Ctx& c, const ut::DateTime& a) {
    c.check(!a.year && !a.month && !a.day && !a.day_of_week && !a.day_of_year && !a.hour && !a.minute && !a.second && !a.milliseconds && !a.filetime && !a.total_milliseconds,
            "an empty date-time is not empty: " + show(a));
}

void prop_datetime(Ctx& c) {
    const char* z = c.coin() ? FIXED[c.below(sizeof FIXED / sizeof *FIXED)] : ZONES[c.below(sizeof ZONES / sizeof *ZONES)];
    zone(z);
    auto wall = [](int64_t t, bool* dst = nullptr) {
        time_t tt = t;
        struct tm tm;
        localtime_r(&tt, &tm);
        if (dst) *dst = tm.tm_isdst > 0;
        return t + tm.tm_gmtoff;
    };
    int64_t std_off = -timezone;
    int64_t t = gen_epoch(c, 86400LL * 60, 86400LL * 365 * 200);
    int ms = c.coin() ? (int)c.range(0, 999) : c.pick({0, 1, 499, 500, 998, 999});
    bool dst = false;
    int64_t w = wall(t, &dst);
    // does the clock show this time twice?
    int64_t other = w - std_off == t ? w - std_off - 3600 : w - std_off;
    bool twice = wall(other) == w;
    if (dst) c.label("dst");
    if (twice) c.label("ambiguous");
    Civil k = civil_from_epoch(w);
    ut::DateTime a;
    expect_empty(c, a);
    if (c.coin()) {
        int parts = 7;
        if (c.chance(30)) {  // the last ones are optional
            parts = (int)c.range(3, 6);
            if (parts <= 6) ms = 0;
            if (parts <= 5) k.s = 0;
            if (parts <= 4) k.mi = 0;
            if (parts <= 3) k.h = 0;
        }
        c.note() << format("%ld-%02d-%02d %02d:%02d:%02d.%03d (%d parts) in %s", (long)k.y, k.m, k.d, k.h, k.mi, k.s, ms, parts, z);
        switch (parts) {
        case 3: a = ut::DateTime::FromDateTime((int)k.y, k.m, k.d); break;
        case 4: a = ut::DateTime::FromDateTime((int)k.y, k.m, k.d, k.h); break;
        case 5: a = ut::DateTime::FromDateTime((int)k.y, k.m, k.d, k.h, k.mi); break;
        case 6: a = ut::DateTime::FromDateTime((int)k.y, k.m, k.d, k.h, k.mi, k.s); break;
        default: a = ut::DateTime::FromDateTime((int)k.y, k.m, k.d, k.h, k.mi, k.s, ms);
        }
        c.label("from parts");
        // the instants at which the clock shows these parts: none, one or two
        int64_t x = days_from_civil(k.y, k.m, k.d) * 86400 + k.h * 3600 + k.mi * 60 + k.s;
        int64_t i1 = x - std_off, i2 = i1 - 3600;
        bool ok1 = wall(i1) == x, ok2 = wall(i2) == x;
        if (!ok1 && !ok2) { zone("UTC0"); c.label("skipped by the clock"); return; }
        t = ok1 && (!ok2 || (int64_t)a.filetime == i1 * 1000 + ms) ? i1 : i2;
    } else {
        c.note() << t << "." << ms << " in " << z;
        a = ut::DateTime::FromFileTime((uint64_t)(t * 1000 + ms));
        c.label("from stamp");
    }
    expect(c, a, wall(t), ms, t * 1000 + ms, "constructed");
    // conversions
    ut::DateTime u = a.ToUTCTime();
    expect(c, u, t, ms, (t - std_off) * 1000 + ms, "as UTC");
    ut::DateTime l = u.ToLocalTime();
    expect(c, l, wall(t), ms, t * 1000 + ms, "UTC and back to local");
    // a walk by steps; the model is the stamp
    int64_t stamp = t * 1000 + ms;
    ut::DateTime cur = a;
    size_t steps = c.len(0, 12);
    for (size_t i = 0; i < steps; i++) {
        int delta = (int)c.integer(-2000000000LL, 2000000000LL);
        bool fwd = c.coin();
        int64_t next = fwd ? stamp + delta : stamp - delta;
        if (next < 86400LL * 2000) continue;
        c.note() << (fwd ? "+" : "-") << delta;
        ut::DateTime n = fwd ? cur.Forward(delta) : cur.Backward(delta);
        int64_t sec = next / 1000;
        expect(c, n, wall(sec), (int)(next % 1000), next, fwd ? "moved forward" : "moved backward");
        bool lt = stamp < next, eq = stamp == next;
        c.check((cur < n) == lt && (cur <= n) == (lt || eq) && (cur > n) == (!lt && !eq) && (cur >= n) == !lt && (cur == n) == eq && (cur != n) == !eq,
                "comparison of " + show(cur) + " with " + show(n));
        cur = n;
        stamp = next;
    }
    if (c.chance(10)) {  // the present
        bool utc = c.coin();
        struct timeval v0, v1;
        gettimeofday(&v0, nullptr);
        double count = ut::TimeCounting();
        gettimeofday(&v1, nullptr);
        c.check(count >= v0.tv_sec + v0.tv_usec / 1e6 - 1e-6 && count <= v1.tv_sec + v1.tv_usec / 1e6 + 1e-6, format("seconds counted: %.9g", count));
        gettimeofday(&v0, nullptr);
        int64_t lo = time(nullptr);
        ut::DateTime n = utc ? ut::DateTime::UTCTime() : ut::DateTime::LocalTime();
        int64_t hi = time(nullptr);
        gettimeofday(&v1, nullptr);
        if (v0.tv_sec == v1.tv_sec) c.check(n.milliseconds >= v0.tv_usec / 1000 && n.milliseconds <= v1.tv_usec / 1000, format("milliseconds of the present: %d", n.milliseconds));
        int64_t s = (int64_t)(n.filetime / 1000) + (utc ? std_off : 0);
        c.check(s >= lo && s <= hi, format("the present is %ld s, but got %ld s", (long)lo, (long)s));
        expect(c, n, utc ? s : wall(s), (int)(n.filetime % 1000), (s - (utc ? std_off : 0)) * 1000 + n.milliseconds, utc ? "the present in UTC" : "the local present");
        c.label("present");
    }
    if (steps) c.nontrivial();
    zone("UTC0");
}

PBT_STATIC([] {
    add("T01", 250000, 8000000, "an instant in years 1001-9998 (biased to month starts around midnight) in one of 13 zones with and without daylight saving; non-trivial unless it is the epoch", prop_text);
    add("T02", 500000, 15000000, "a calendar date in years 1-9999 or an instant in one of 13 zones; non-trivial unless it is the epoch", prop_calendar);
    add("T03", 200000, 6000000, "an instant 1970-2170 in one of 20 zones, half with a fixed offset, from stamp or from all or the leading parts, and a walk of up to 12 forward/backward moves; non-trivial when there is a move", prop_datetime);
});
}  // namespace
