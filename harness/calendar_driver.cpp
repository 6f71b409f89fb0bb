// TimeConversion for specs/calendar.
#include "common/base/Base.h"
#include "common/time/TimeConversion.h"
#include "drv.h"
using namespace nebula; using TC = time::TimeConversion;
using std::to_string;
static int64_t fdiv(int64_t a, int64_t b) { return a / b - (a % b < 0); }
static std::string pt(int64_t s) { int64_t d = fdiv(s, 86400); return "{\"d\":" + to_string(std::max<int64_t>(std::min<int64_t>(d, 2000000000), -2000000000)) + ",\"s\":" + to_string(s - d * 86400) + "}"; }
static std::string js(const DateTime& t) { return drv::Obj().num("y", t.year).num("mo", t.month).num("d", t.day).num("h", t.hour).num("mi", t.minute).num("s", t.sec).done(); }
static std::string js(const Time& t) { return drv::Obj().num("h", t.hour).num("mi", t.minute).num("s", t.sec).done(); }
static std::string js(const Date& t) { return drv::Obj().num("y", t.year).num("mo", t.month).num("d", t.day).done(); }
int main() {
    return drv::loop([&](const std::vector<std::string>& w) -> std::string {
        size_t i = 1;
        auto num = [&] { return std::stoll(w[i++]); };
        auto dt = [&] { int v[6]; for (int& x : v) x = num(); int us = num(); return DateTime(v[0], v[1], v[2], v[3], v[4], v[5], us); };
        auto off = [&] { int64_t d = num(), s = num(); return d * 86400 + s; };
        drv::Obj o;
        if (w[0] == "reset") return "{}";
        if (w[0] == "year") {
            int y = num();
            int64_t first = TC::dateToUnixSeconds(Date(y, 1, 1));
            bool rt = first % 86400 == 0;
            std::vector<int> lens(12, 0);
            int64_t day = fdiv(first, 86400);
            for (int m = 1, d = 1, n = 0; n < 367; ++n) {
                // the day after (m, d - 1), as the code has it
                int64_t s = (day + n) * 86400;
                Date x = TC::unixSecondsToDate(s);
                Date late = TC::unixSecondsToDate(s + 86399);
                DateTime z = TC::unixSecondsToDateTime(s + 86399);
                if (x.year != y) { if (!(x.year == static_cast<int16_t>(y + 1) && x.month == 1 && x.day == 1)) rt = false; break; }
                if (x.month < 1 || x.month > 12) { rt = false; break; }
                if (x.day == 1) { m = x.month; d = 1; }
                if (x.month != m || x.day != d) rt = false;
                ++d;
                ++lens[m - 1];
                if (TC::dateToUnixSeconds(x) != s || !(late == x)) rt = false;
                if (!(z == DateTime(y, m, d - 1, 23, 59, 59, 0)) || TC::dateTimeToUnixSeconds(z) != s + 86399) rt = false;
            }
            std::string l = "[";
            for (int x : lens) l += (l.size() > 1 ? "," : "") + to_string(x);
            return o.num("d0", day).raw("lens", l + "]").boolean("rt", rt).boolean("leap", TC::isLeapYear(y)).done();
        }
        if (w[0] == "toUnix") return o.raw("res", pt(TC::dateTimeToUnixSeconds(dt()))).done();
        if (w[0] == "fromUnix") { auto r = TC::unixSecondsToDateTime(off()); return o.raw("res", js(r)).num("us", r.microsec).done(); }
        if (w[0] == "diff") { auto a = dt(); auto b = dt(); return o.raw("res", pt(TC::dateTimeDiffSeconds(a, b))).done(); }
        if (w[0] == "shift") { auto a = dt(); auto r = TC::dateTimeShift(a, off()); return o.raw("res", js(r)).num("us2", r.microsec).done(); }
        if (w[0] == "dateShift") { auto a = dt(); return o.raw("res", js(TC::dateShift(Date(a.year, a.month, a.day), off()))).done(); }
        auto tm = [&](const DateTime& a) { return Time(a.hour, a.minute, a.sec, a.microsec); };
        if (w[0] == "timeShift") { auto a = dt(); auto r = TC::timeShift(tm(a), off()); return o.raw("res", js(r)).num("us2", r.microsec).done(); }
        if (w[0] == "timeSec") return o.num("res", TC::timeToSeconds(tm(dt()))).done();
        if (w[0] == "secTime") { auto r = TC::unixSecondsToTime(off()); return o.raw("res", js(r)).num("us", r.microsec).done(); }
        if (w[0] == "cmp") {
            auto a = dt(), b = dt();
            Date da(a.year, a.month, a.day), db(b.year, b.month, b.day);
            return o.boolean("lt", a < b).boolean("eq", a == b).raw("back", js(a)).num("backus", a.microsec).boolean("dlt", da < db).boolean("deq", da == db)
                .boolean("tlt", tm(a) < tm(b)).boolean("teq", tm(a) == tm(b)).done();
        }
#ifdef VF_DATES
        auto day = [](const DateTime& a) { return Date(a.year, a.month, a.day); };
        if (w[0] == "dyear") {
            int y = num();
            int64_t n0 = Date(y, 1, 1).toInt();
            bool rt = true;
            std::vector<int> lens(12, 0);
            for (int m = 1, d = 1, n = 0; n < 367; ++n) {
                Date x(static_cast<uint64_t>(n0 + n));
                if (x.year != y) { if (!(x.year == static_cast<int16_t>(y + 1) && x.month == 1 && x.day == 1)) rt = false; break; }
                if (x.month < 1 || x.month > 12) { rt = false; break; }
                if (x.day == 1) { m = x.month; d = 1; }
                if (x.month != m || x.day != d || x.toInt() != n0 + n) rt = false;
                ++d;
                ++lens[m - 1];
            }
            std::string l = "[";
            for (int x : lens) l += (l.size() > 1 ? "," : "") + to_string(x);
            return o.num("d0", n0).raw("lens", l + "]").boolean("rt", rt).done();
        }
        if (w[0] == "toInt") return o.num("res", day(dt()).toInt()).done();
        if (w[0] == "fromInt") { int64_t n = num(); Date d(1, 2, 3); d.fromInt(n); return o.raw("res", js(d)).boolean("same", Date(static_cast<uint64_t>(n)) == d).done(); }
        if (w[0] == "plus") { auto a = day(dt()); return o.raw("res", js(a + num())).done(); }
        if (w[0] == "minus") { auto a = day(dt()); return o.raw("res", js(a - num())).done(); }
        if (w[0] == "text") {
            auto a = dt(); std::ostringstream s; s << day(a) << tm(a) << a;
            return o.bytes("date", day(a).toString()).bytes("time", tm(a).toString()).bytes("datetime", a.toString())
                .boolean("stream", s.str() == day(a).toString() + tm(a).toString() + a.toString()).done();
        }
        if (w[0] == "hash") {
            auto a = dt(), b = dt();
            auto h = [](const auto& x) { return std::hash<std::decay_t<decltype(x)>>()(x); };
            return o.boolean("deq", day(a) == day(b)).boolean("teq", tm(a) == tm(b)).boolean("eq", a == b)
                .boolean("dh", h(day(a)) == h(day(b))).boolean("th", h(tm(a)) == h(tm(b))).boolean("h", h(a) == h(b)).done();
        }
#endif
        abort();
    });
}
