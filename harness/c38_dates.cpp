// C38: dates, times of day and time stamps: every day of the range, boundary times, texts in all accepted forms, against a reference calendar
#include "lightspeed/base/types.h"
#include "lightspeed/base/timestamp.h"
#include "lightspeed/base/datetime.h"
#include "seq.h"
#include <string>
#include <vector>
#include <time.h>
#include <string.h>
#include <stdarg.h>
using namespace LightSpeed;
typedef std::string S;
typedef long long L;
static const L DAY = 86400000LL;
static L fdiv(L a, L b) { L q = a / b; return a % b && (a < 0) != (b < 0) ? q - 1 : q; }
static bool leap(L y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mlen(L y, int m) { static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : t[m - 1]; }
// days since 1970-01-01 of the proleptic Gregorian calendar
static L civil(L y, int m, L d) { y -= m <= 2; L era = fdiv(y, 400); L yoe = y - era * 400; L doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy + d - 1 - 719468; }
static S f(const char *p, ...) { char b[200]; va_list a; va_start(a, p); vsnprintf(b, sizeof b, p, a); va_end(a); return b; }
static S str(ConstStrA a) { return S(a.data(), a.length()); }
static L total(const TimeStamp &t) { SQ_ASSERT(t.getTime() < (natural)DAY, "time of day is %ld", (long)t.getTime()); return (L)t.getDay() * DAY + (L)t.getTime(); }
static const char *wdn[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
enum Src { ISO, DB };
static bool parse(Src s, const S &t, L &v) { ConstStrA a(t.data(), t.size()); try { v = total(s == ISO ? TimeStamp::fromISO8601Time(a) : TimeStamp::fromDBTime(a)); return true; } catch (const TimeStamp::InvalidDateTimeFormat &) { return false; } }
static void reads(Src s, const S &t, L want) { L v = 0; bool k = parse(s, t, v); SQ_ASSERT(k, "%s is refused", t.c_str()); SQ_ASSERT(v == want, "%s is read as %lld ms instead of %lld", t.c_str(), v, want); }
static int fromYear() { return 1600; } static int years() { return 801; }
// every day: number of the day and back
SQ_SCENARIO(day_numbers, 801, 801) { L y = sq::choose(3) * 800 - 800; y += sq::choose(801); int prev = -1; int doy = 1; for (int m = 1; m <= 12; m++) for (int d = 1; d <= mlen(y, m); d++, doy++) { L n = civil(y, m, d); L num = n + 719528; S nm = f("%lld-%d-%d", y, m, d);
	SQ_ASSERT(Date::dayNumber(y, m, d) == num, "%s has the number %ld instead of %lld", nm.c_str(), (long)Date::dayNumber(y, m, d), num); Date x((integer)num); Date::PartsEx p = x.getPartsEx(); Date::Parts q = x.getParts();
	SQ_ASSERT(p.year == y && p.month == m && p.day == d && q.year == y && q.month == m && q.day == d && x.getYear() == y && x.getMonth() == (natural)m && x.getDay() == (natural)d, "%s comes back as %ld-%ld-%ld", nm.c_str(), (long)p.year, (long)p.month, (long)p.day); SQ_ASSERT(p.dayOfYear == doy, "day of the year of %s is %ld", nm.c_str(), (long)p.dayOfYear);
	SQ_ASSERT(p.dayOfWeek >= 0 && p.dayOfWeek < 7 && (prev < 0 || p.dayOfWeek == (prev + 1) % 7), "%s has the week day %ld after %d", nm.c_str(), (long)p.dayOfWeek, prev); prev = p.dayOfWeek;
	SQ_ASSERT((L)x.getUnixTime() == n * 86400, "unix time of %s is %lld", nm.c_str(), (L)x.getUnixTime()); static const L sec[] = {0, 1, 43200, 86399}; for (L s : sec) { SQ_ASSERT(Date::fromUnixTime(n * 86400 + s).getDays() == num, "%s + %lld s taken from unix time is the day %ld", nm.c_str(), s, (long)Date::fromUnixTime(n * 86400 + s).getDays()); } 
	Date o((integer)y, (integer)m, (integer)d); SQ_ASSERT(o.getDays() == num && Date(q).getDays() == num && (o++).getDays() == num && o.getDays() == num + 1 && (--o).getDays() == num && (++o).getDays() == num + 1 && (o--).getDays() == num + 1 && o.getDays() == num, "stepping from %s", nm.c_str()); }
	sq::outcome(y); }
// every day of the time stamp's range: construction, texts
SQ_SCENARIO(day_texts, 801, 801) { L y = fromYear() + sq::choose(years()); int doy = 1; for (int m = 1; m <= 12; m++) for (int d = 1; d <= mlen(y, m); d++, doy++) { L n = civil(y, m, d); S nm = f("%04lld-%02d-%02d", y, m, d); TimeStamp t = TimeStamp::fromYMDhms(y, m, d, 0, 0, 0); SQ_ASSERT(total(t) == n * DAY, "%s is the day %lld instead of %lld", nm.c_str(), (L)t.getDay(), n);
	SQ_ASSERT((L)t.asUnix() == n * 86400 && TimeStamp::fromUnix(n * 86400) == t, "unix time of %s", nm.c_str()); TimeStamp e = TimeStamp::fromYMDhms(y, m, d, 23, 59, 59); SQ_ASSERT(total(e) == n * DAY + DAY - 1000 && TimeStamp::fromUnix(n * 86400 + 86399) == e && TimeStamp::fromUnix(n * 86400 + 86399, 999) == TimeStamp((integer)n, (natural)DAY - 1), "end of %s is %lld", nm.c_str(), total(e));
	S a = str(t.asDBTime()), b = str(e.asISO8601Time()), c = str(t.asRFC1123Time()), j = str(t.asJSONTime()); SQ_ASSERT(a == nm + " 00:00:00", "%s is written as %s", nm.c_str(), a.c_str()); SQ_ASSERT(b == nm + "T23:59:59Z", "%s is written as %s", nm.c_str(), b.c_str()); SQ_ASSERT(j == nm + "T00:00:00Z", "%s is written as %s", nm.c_str(), j.c_str()); S w = f("%s, %02d %s %04lld 00:00:00 GMT", wdn[((n + 4) % 7 + 7) % 7], d, mn[m - 1], y); SQ_ASSERT(c == w, "%s is written as %s", w.c_str(), c.c_str());
	if (d < 3 || d > 27 || sq::thorough()) { reads(DB, a, n * DAY); reads(DB, nm, n * DAY); reads(ISO, b, n * DAY + DAY - 1000); reads(ISO, nm, n * DAY); reads(ISO, nm + "T", n * DAY); reads(ISO, f("%04lld%02d%02d", y, m, d), n * DAY); reads(ISO, f("%04lld-%03d", y, doy), n * DAY); reads(ISO, f("%04lld%03d", y, doy), n * DAY);
		if (d == 1) { reads(ISO, f("%04lld-%02d", y, m), n * DAY); if (m == 1) reads(ISO, f("%04lld", y), n * DAY); } if (y >= 1951 && y <= 2050) { reads(ISO, f("%02lld-%02d-%02d", y % 100, m, d), n * DAY); reads(ISO, f("%02lld%02d%02d", y % 100, m, d), n * DAY); } } }
	L th = civil(y, 1, 4); L mon = th - ((th + 3) % 7 + 7) % 7; for (int w = 1; w <= 52; w++) { reads(ISO, f("%04lldW%02d", y, w), (mon + 7 * (w - 1)) * DAY); reads(ISO, f("%04lld-W%02d", y, w), (mon + 7 * (w - 1)) * DAY); } sq::outcome(y); }
// dates with months and days out of range, and adding parts
SQ_SCENARIO(normalised_dates, 6, 40) { static const int ys[] = {-5, -4, -1, 0, 1, 4, 1599, 1600, 1696, 1700, 1899, 1970, 1999, 2000, 2003, 2004, 2100, 2399}; L y = ys[sq::choose(18)]; int m = sq::choose(6 * sq::depth() + 1) - 3 * sq::depth(); L yy = y + fdiv(m - 1, 12); int mm = (int)((m - 1) - 12 * fdiv(m - 1, 12)) + 1; for (int d = -1500; d <= 1500; d++) { L w = civil(yy, mm, 1) + 719528 + d - 1; L g = Date::dayNumber(y, m, d); SQ_ASSERT(g == w, "day %lld-%d-%d has the number %lld instead of %lld", y, m, d, g, w); } 
	static const int dd[] = {1, 2, 28, 29, 30, 31}; for (int d : dd) for (int sm = 1; sm <= 12; sm++) { if (d > mlen(y, sm)) continue; Date s((integer)y, (integer)sm, (integer)d); static const int ad[] = {0, 1, 27, 365, 366, 1000}; for (int a : ad) for (int py = 0; py < 5; py += 2) { int pm = m; L am = sm + pm; L w = civil(y + py + fdiv(am - 1, 12), (int)((am - 1) - 12 * fdiv(am - 1, 12)) + 1, 1) + 719528 + d + a - 1; Date r = s + Date::Parts(py, pm, a); SQ_ASSERT(r.getDays() == w, "%lld-%d-%d and %d years %d months %d days gives %ld instead of %lld", y, sm, d, py, pm, a, (long)r.getDays(), w); Date i = s; i += Date::Parts(py, pm, a); SQ_ASSERT(i.getDays() == w, "+= differs");
		L bm = sm - pm; w = civil(y - py + fdiv(bm - 1, 12), (int)((bm - 1) - 12 * fdiv(bm - 1, 12)) + 1, 1) + 719528 + d - a - 1; Date r2 = s - Date::Parts(py, pm, a); SQ_ASSERT(r2.getDays() == w, "%lld-%d-%d less %d years %d months %d days gives %ld instead of %lld", y, sm, d, py, pm, a, (long)r2.getDays(), w); i = s; i -= Date::Parts(py, pm, a); SQ_ASSERT(i.getDays() == w, "-= differs"); } } sq::outcome(y * 100 + m); }
static const L bt[] = {0, 1, 499, 500, 999, 1000, 1001, 59999, 60000, 3599999, 3600000, 3600001, 43199999, 43200000, 43200001, 86398999, 86399000, 86399499, 86399500, 86399999};
enum { NBT = sizeof(bt) / sizeof(*bt) };
// times of day: parts, carry
SQ_SCENARIO(times_of_day, 1, 8) { L a = bt[sq::choose(NBT)]; L h = a / 3600000, mi = a / 60000 % 60, s = a / 1000 % 60, ms = a % 1000; Time t((natural)h, (natural)mi, (natural)s, (natural)ms); SQ_ASSERT(t.getMiliseconds() == (natural)a && t.getSeconds() == (natural)(a / 1000) && t.getMinutes() == (natural)(a / 60000) && t.getHours() == (natural)h, "%lld ms is %ld", a, (long)t.getMiliseconds()); SQ_ASSERT(t.getHour() == (natural)h && t.getMinute() == (natural)mi && t.getSecond() == (natural)s && t.getMilisecond() == (natural)ms, "parts of %lld are %ld:%ld:%ld.%ld", a, (long)t.getHour(), (long)t.getMinute(), (long)t.getSecond(), (long)t.getMilisecond());
	Time::Parts p = t.getParts(); SQ_ASSERT(Time(p).getMiliseconds() == (natural)a && !t.carry(), "time from parts"); L st = sq::thorough() ? 7 * 1000 * sq::depth() + 1 : 0; std::vector<L> o(bt, bt + NBT); if (st) for (L x = st; x < DAY; x += 40 * st) o.push_back(x); for (L b : o) { Time u((Bin::natural32)b); Time sum = t + u; SQ_ASSERT(sum.getMiliseconds() == (natural)((a + b) % DAY) && sum.carry() == (a + b >= DAY), "%lld + %lld is %ld with carry %d", a, b, (long)sum.getMiliseconds(), sum.carry()); Time df = t - u; SQ_ASSERT(df.getMiliseconds() == (natural)((a - b + DAY) % DAY) && df.carry() == (a < b), "%lld - %lld is %ld with carry %d", a, b, (long)df.getMiliseconds(), df.carry());
		Time c = t; c += u; bool k = c.carryClear(); SQ_ASSERT(k == (a + b >= DAY) && !c.carry() && c.getMiliseconds() == (natural)((a + b) % DAY), "clearing the carry of %lld + %lld", a, b); c -= u; SQ_ASSERT(c.getMiliseconds() == (natural)a, "%lld + - %lld", a, b); }
	static const L dn[] = {-2, -1, 0, 1, 719528, 730000}; for (L d : dn) { L un = (d * DAY + a) / 1000; if (d * DAY + a < 0) un = fdiv(d * DAY + a, 1000); SQ_ASSERT(Time::fromUnixTime(un).getMiliseconds() == (natural)(a / 1000 * 1000), "time of the day of unix time %lld is %ld", un, (long)Time::fromUnixTime(un).getMiliseconds()); DateTime dt = DateTime::fromUnixTime(un); SQ_ASSERT((L)dt.getUnixTime() == un, "unix time %lld comes back as %lld", un, (L)dt.getUnixTime()); } sq::outcome(a); }
static L tot(const DateTime &d) { SQ_ASSERT(!d.getTime().carry(), "carry stays"); return (L)d.getDate().getDays() * DAY + (L)d.getTime().getMiliseconds(); }
SQ_SCENARIO(date_times, 1, 1) { static const L ds[] = {0, 1, 365, 719527, 719528, 730000}; L a = ds[sq::choose(6)] * DAY + bt[sq::choose(NBT)]; DateTime t(Date((integer)(a / DAY)), Time((Bin::natural32)(a % DAY))); Date::PartsEx p = t.getDate().getPartsEx();
	SQ_ASSERT((L)t.getMiliseconds() == a && (L)t.getSeconds() == a / 1000 && (L)t.getMinutes() == a / 60000 && (L)t.getHours() == a / 3600000 && (L)t.getDays() == a / DAY, "%lld ms has %lld ms %lld s", a, (L)t.getMiliseconds(), (L)t.getSeconds()); DateTime q((natural)p.year, (natural)p.month, (natural)p.day, t.getHour(), t.getMinute(), t.getSecond(), t.getMilisecond()); SQ_ASSERT(tot(q) == a && t.getYear() == (natural)p.year && t.getMonth() == (natural)p.month && t.getDay() == (natural)p.day, "%lld from its parts is %lld", a, tot(q)); DateTime::Parts ps = t.getParts(); SQ_ASSERT(tot(DateTime(ps)) == a, "parts"); DateTime::Parts e; e = ps; SQ_ASSERT(tot(DateTime(e)) == a, "parts assigned"); DateTime::PartsEx x = t.getDateEx(); SQ_ASSERT(x.dayOfYear == p.dayOfYear && x.hour == t.getHour() && x.mili == t.getMilisecond(), "extended parts");
	for (L d : ds) for (L m : bt) { L b = d * DAY + m; DateTime u(Date((integer)d), Time((Bin::natural32)m)); SQ_ASSERT(tot(t + u) == a + b, "%lld + %lld is %lld", a, b, tot(t + u)); SQ_ASSERT(tot(t - u) == a - b, "%lld - %lld is %lld", a, b, tot(t - u)); DateTime c = t; c += u; SQ_ASSERT(tot(c) == a + b, "+="); c -= u; SQ_ASSERT(tot(c) == a, "-="); } sq::outcome(a); }
// arithmetic of time stamps
SQ_SCENARIO(stamp_arithmetic, 1, 3) { static const L ds[] = {-100000, -719528, -366, -2, -1, 0, 1, 2, 365, 16000, 100000}; L a = ds[sq::choose(11)] * DAY + bt[sq::choose(NBT)]; L ad = fdiv(a, DAY), at = a - ad * DAY; TimeStamp t((integer)ad, (natural)at); SQ_ASSERT(total(t) == a && t.getMS() == (natural)(at % 1000) && t.isNull() == (a == 0), "%lld is kept as %lld", a, total(t)); SQ_ASSERT(total(TimeStamp((integer)ad - 2, (natural)(at + 2 * DAY))) == a, "excess of the time of the day is lost in %lld", a); if (!at) SQ_ASSERT(total(TimeStamp((integer)ad)) == a, "day only");
	TimeStamp fl(t.getFloat()); SQ_ASSERT(total(fl) == a, "%lld ms as a number of days and back is %lld", a, total(fl)); SQ_ASSERT((L)t.asUnix() == fdiv(a, 1000) && total(TimeStamp::fromUnix((time_t)fdiv(a, 1000), (natural)(at % 1000))) == a && total(TimeStamp::fromUnix((time_t)fdiv(a, 1000))) == fdiv(a, 1000) * 1000, "unix time of %lld is %lld", a, (L)t.asUnix());
	if (a + 134774LL * DAY >= 0) { unsigned long long w = (unsigned long long)(a + 134774LL * DAY) * 10000 + 9999; SQ_ASSERT(total(TimeStamp::fromWindows((unsigned long)(w & 0xFFFFFFFF), (unsigned long)(w >> 32))) == a, "time of another system"); } if (a >= 0) { SQ_ASSERT((L)t.getMilis() == a && (L)t.getSecs() == a / 1000 && (L)t.getMins() == a / 60000 && (L)t.getHours() == a / 3600000, "%lld in other units", a); SQ_ASSERT(total(TimeStamp::intervalMSec((natural)a)) == a && total(TimeStamp::intervalSec((natural)(a / 1000))) == a / 1000 * 1000 && total(TimeStamp::fromSeconds((natural)(a / 1000))) == a / 1000 * 1000 && total(TimeStamp::intervalMin((natural)(a / 60000))) == a / 60000 * 60000 && total(TimeStamp::intervalHour((natural)(a / 3600000))) == a / 3600000 * 3600000 && total(TimeStamp::intervalDay((natural)(a / DAY))) == a / DAY * DAY, "intervals of %lld", a); }
	for (L d : ds) for (L m : bt) { L b = d * DAY + m; TimeStamp u((integer)d, (natural)m); SQ_ASSERT(total(t + u) == a + b, "%lld + %lld is %lld", a, b, total(t + u)); SQ_ASSERT(total(t - u) == a - b, "%lld - %lld is %lld", a, b, total(t - u)); SQ_ASSERT((t < u) == (a < b) && (t > u) == (a > b) && (t == u) == (a == b) && (t != u) == (a != b) && (t <= u) == (a <= b) && (t >= u) == (a >= b), "comparison of %lld and %lld", a, b); } sq::outcome(a); }
SQ_SCENARIO(minutes, 1, 1) { int h = sq::choose(100); for (int m = h * 60; m < h * 60 + 60; m++) { SQ_ASSERT(total(TimeStamp::intervalMin(m)) == m * 60000LL, "%d minutes are %lld ms", m, total(TimeStamp::intervalMin(m))); for (int s = 0; s < 60; s += 7) SQ_ASSERT(total(TimeStamp::intervalSec(m * 60 + s)) == (m * 60 + s) * 1000LL && total(TimeStamp::intervalMSec((m * 60 + s) * 1000LL + 7)) == (m * 60 + s) * 1000LL + 7, "seconds"); for (int k = 0; k < 1000; k += sq::thorough() ? 1 : 37) { L a = (L)m * 60000 + k; SQ_ASSERT(total(TimeStamp(TimeStamp(0, (natural)a).getFloat())) == a, "%lld as a number of days", a); SQ_ASSERT(total(TimeStamp(TimeStamp(-9000, (natural)a).getFloat())) == a - 9000 * DAY, "%lld as a number of days before", a); } } sq::outcome(h); }
// every second of a day
SQ_SCENARIO(second_texts, 1, 1) { static const L ds[] = {-1, 0, 11016, -100000}; int di = sq::choose(4); int h = sq::choose(24), step = sq::thorough() || di == 2 ? 1 : 13; for (int s = 0; s < 3600; s += step) { L v = (ds[di] * 86400 + h * 3600 + s) * 1000; TimeStamp t((integer)ds[di], (natural)(h * 3600 + s) * 1000); S a = str(t.asDBTime()), b = str(t.asISO8601Time()), c = str(t.asRFC1123Time()), hms = f("%02d:%02d:%02d", h, s / 60, s % 60); SQ_ASSERT(a.substr(11) == hms && b.substr(11) == hms + "Z" && c.substr(17) == hms + " GMT", "%s is written as %s %s %s", hms.c_str(), a.c_str(), b.c_str(), c.c_str()); reads(DB, a, v); reads(ISO, b, v);
	for (int k = 0; k < 1000; k += 499) { TimeStamp r = t + TimeStamp(0, k); S g = str(r.asDBTime()); L rv = v / 1000 * 1000 + (k >= 500 ? 1000 : 0); TimeStamp ref(rv >= 0 ? rv / DAY : fdiv(rv, DAY), (natural)(rv - fdiv(rv, DAY) * DAY)); SQ_ASSERT(g == str(ref.asDBTime()), "%s and %d ms is written as %s", a.c_str(), k, g.c_str()); } L tod = (h * 3600 + s) * 1000LL; if (di == 1) { reads(DB, hms, tod); SQ_ASSERT(total(TimeStamp::fromYMDhms(0, 0, 0, h, s / 60, s % 60)) == tod, "time only"); }
	S day = a.substr(0, 10); S pk = f("%02d%02d%02d", h, s / 60, s % 60); reads(ISO, day + "T" + pk + "Z", v); reads(ISO, day + " " + hms, v); reads(ISO, day + "T" + hms, v); if (s % 60 == 0) { reads(ISO, day + "T" + hms.substr(0, 5), v); reads(ISO, day + "T" + pk.substr(0, 4), v); if (s == 0) { reads(ISO, day + "T" + hms.substr(0, 2), v); for (int z = 0; z <= 14 * 60; z += 15) for (int sg = -1; sg <= 1; sg += 2) { const char *q = sg < 0 ? "-" : "+"; L w = v - sg * z * 60000LL; reads(ISO, day + "T" + hms + f("%s%02d:%02d", q, z / 60, z % 60), w); reads(ISO, day + "T" + pk + f("%s%02d%02d", q, z / 60, z % 60), w); if (z % 60 == 0) reads(ISO, day + "T" + hms + f("%s%02d", q, z / 60), w); } } } } sq::outcome(di * 24 + h); }
SQ_SCENARIO(fractions, 1, 1) { int h = sq::choose(20); for (int k = h * 50; k < h * 50 + 50; k++) { L v = 11016 * DAY + 43261000LL + k; S base = "2000-02-29T12:01:01."; reads(ISO, base + f("%03d", k), v); reads(ISO, base + f("%03dZ", k), v); reads(ISO, base + f("%03d+01:00", k), v - 3600000); reads(ISO, base + f("%03d000Z", k), v); if (k % 10 == 0) reads(ISO, base + f("%02dZ", k / 10), v); if (k % 100 == 0) reads(ISO, base + f("%dZ", k / 100), v); L x = v - v % 60000 + 0; (void)x; } sq::outcome(h); }
// texts of the right shape and texts with one thing wrong
static const char *goods[] = {"2000-02-29", "20000229", "2000-060", "2000060", "2000-02", "2000", "00-02-29", "000229", "2000W09", "2000-W09"}, *times[] = {"", "12", "1201", "12:01", "120101", "12:01:01", "12:01:01.5", "120101.5"}, *zones[] = {"", "Z", "+01", "-0130", "+01:30"};
static bool dig(const S &s, size_t i, size_t n) { for (size_t k = 0; k < n; k++) if (i + k >= s.size() || s[i + k] < '0' || s[i + k] > '9') return false; return true; }
static bool like(const S &s, const char *p) { size_t n = strlen(p); if (s.size() != n) return false; for (size_t i = 0; i < n; i++) if (p[i] >= '0' && p[i] <= '9' ? !dig(s, i, 1) : s[i] != p[i]) return false; return true; }
// 0 - not of any form, 1 - exactly of a form, 2 - not decided here
static int shape(const S &s) { size_t t = s.find_first_of("T "); S d = s.substr(0, t), r = t == S::npos ? S() : s.substr(t + 1); bool ok = false; if (d.find(43) != S::npos) return 2; for (const char *g : goods) if (like(d, g)) ok = true; if (!ok) { size_t dg = 0; for (char c : d) if (c >= '0' && c <= '9') dg++; else if (c != '-' && c != 'W') return 0; bool len = false; for (const char *g : goods) if (strlen(g) == d.size()) len = true; return len && dg > 1 ? 2 : 0; }
	size_t z = r.find_first_of("Z+-"); S zn = z == S::npos ? S() : r.substr(z); r = r.substr(0, z); S fr; size_t p = r.find('.'); bool hf = p != S::npos; if (hf) { fr = r.substr(p + 1); r = r.substr(0, p); if (fr.empty() || !dig(fr, 0, fr.size())) return fr.empty() ? 2 : 0; if (r.empty()) return 0; } if (r.empty() && !zn.empty()) return 0; ok = false; for (const char *g : times) if (like(r, g)) ok = true; if (!ok) { for (char c : r) if ((c < '0' || c > '9') && c != ':') return 0; return r.size() == 5 || r.size() == 8 ? 2 : 0; } if (!zn.empty() && !like(zn, "Z")) { bool o = false; for (const char *g : zones) { S q = g; if (q.size() > 1 && zn.size() == q.size()) { S y = zn; if (y[0] == '-' || y[0] == '+') y[0] = q[0]; if (like(y, q.c_str())) o = true; } } if (!o && zn.find(43, 1) != S::npos) return 2; if (!o) { for (size_t i = 1; i < zn.size(); i++) if ((zn[i] < '0' || zn[i] > '9') && zn[i] != ':') return 0; return zn.size() < 2 ? 0 : 2; } } return 1; }
SQ_SCENARIO(broken_texts, 1, 1) { S s = goods[sq::choose(10)]; int ti = sq::choose(8); S t = times[ti]; S z = ti ? zones[sq::choose(5)] : ""; if (!t.empty()) s += "T" + t + z; L v; SQ_ASSERT(parse(ISO, s, v), "%s is refused", s.c_str()); static const char ch[] = "0x:-T Z+.W"; std::vector<S> m; for (size_t i = 0; i <= s.size(); i++) { m.push_back(s.substr(0, i)); m.push_back(s.substr(i)); if (i < s.size()) m.push_back(s.substr(0, i) + s.substr(i + 1)); for (const char *c = ch; *c; c++) { m.push_back(s.substr(0, i) + *c + s.substr(i)); if (i < s.size()) m.push_back(s.substr(0, i) + *c + s.substr(i + 1)); } } if (sq::thorough()) { std::vector<S> k = m; for (size_t j = 0; j < k.size(); j += 3) for (size_t i = 0; i < k[j].size(); i++) for (const char *c = ch; c < ch + 10; c += 3) m.push_back(k[j].substr(0, i) + *c + k[j].substr(i + 1)); }
	int n = 0; for (const S &x : m) { int e = shape(x); bool g; try { g = parse(ISO, x, v); } catch (const Exception &) { sq::fail("%s: an unexpected exception", x.c_str()); } if (e != 2) SQ_ASSERT(g == (e == 1), "%s is %s", x.c_str(), g ? "accepted" : "refused"); n += g; } sq::outcome(n); }
SQ_SCENARIO(broken_db_texts, 1, 1) { static const char *gs[] = {"2000-02-29 12:01:01", "2000-02-29", "12:01:01", " 2000-02-29 12:01:01 "}; S s = gs[sq::choose(4)]; L v; SQ_ASSERT(parse(DB, s, v), "%s refused", s.c_str()); static const char ch[] = "x:-T."; for (size_t i = 0; i <= s.size(); i++) for (const char *c = ch; *c; c++) { S x = s.substr(0, i) + *c + s.substr(i); SQ_ASSERT(!parse(DB, x, v), "%s is accepted", x.c_str()); if (i < s.size() && s[i] != *c && s[i] != ' ') { x = s.substr(0, i) + *c + s.substr(i + 1); SQ_ASSERT(!parse(DB, x, v), "%s is accepted", x.c_str()); } } sq::outcome(s); }
// format texts
SQ_SCENARIO(formats, 3, 4) { static const char *tk[] = {"%Y", "%m", "%d", "%H", "%M", "%S", "%c", "%A", "%B", "%j", "%F", "%T", "%%", "x", "-", "%a", "%y", "%D"}; static const L vs[] = {0, 951782399500LL, -1, -86400000LL * 100000, 951826861499LL}; S p; int n = 1 + sq::choose(sq::depth()); for (int i = 0; i < n; i++) p += tk[sq::choose(18)]; for (L v : vs) { TimeStamp t((integer)fdiv(v, DAY), (natural)(v - fdiv(v, DAY) * DAY)); time_t u = fdiv(v + 500, 1000); struct tm m; gmtime_r(&u, &m); char b[500]; strftime(b, sizeof b, p.c_str(), &m); S g; try { g = str(t.formatTime(ConstStrA(p.data(), p.size()))); } catch (const Exception &) { sq::fail("format %s of %lld fails", p.c_str(), v); } SQ_ASSERT(g == b, "format %s of %lld gives '%s' instead of '%s'", p.c_str(), v, g.c_str(), b); char q[40]; ConstStrA r = t.formatTime(ArrayRef<char>(q, 40), ConstStrA(p.data(), p.size())); if (strlen(b) < 40) SQ_ASSERT(str(r) == b, "format into a buffer"); } sq::outcome(p); }
