// TimeUtils and Timezone for specs/times.
#include "common/base/Base.h"
#include "common/time/TimeUtils.h"
#include "common/time/TimezoneInfo.h"
#include "value_io.h"
DECLARE_string(timezone_name);
using namespace nebula;  // NOLINT
using TU = time::TimeUtils;
using time::Timezone;
using drv::Obj;
static std::string val(const Value& v) { return vio::text(v); }
template <class T> static std::string res(Obj& o, const StatusOr<T>& s) {
    o.boolean("ok", s.ok());
    return o.str("r", s.ok() ? val(Value(s.value())) : "E").done();
}
static void zone(Obj& o, const Timezone& z) { o.num("off", z.utcOffsetSecs()).bytes("name", z.stdZoneName()); }
int main() {
    FLAGS_minloglevel = 3;
    static Timezone own;
    return drv::loop([](const std::vector<std::string>& w) -> std::string {
        const auto& o = w[0];
        Obj r;
        size_t p = 2;
        auto tz = [] { return static_cast<int64_t>(Timezone::getGlobalTimezone().utcOffsetSecs()); };
        auto set = [&](std::string name) { FLAGS_timezone_name = name; return Timezone::initializeGlobalTimezone(); };
        if (o == "reset") {
            unsetenv("TZ");
            if (!set("ABC+00:00:00").ok() || !own.parsePosixTimezone("ABC+00:00:00").ok()) throw std::runtime_error("zone");
            return "{}";
        }
        if (o == "parse") {
            auto s = vio::str(w, p);
            if (w[1] == "date") return res(r, TU::parseDate(s));
            if (w[1] == "time") return res(r, TU::parseTime(s));
            return res(r, TU::parseDateTime(s));
        }
        if (o == "map") {
            auto v = vio::get(w, p);
            const Map& m = v.getMap();
            if (w[1] == "date") return res(r, TU::dateFromMap(m));
            if (w[1] == "time") return res(r, TU::timeFromMap(m));
            return res(r, TU::dateTimeFromMap(m));
        }
        if (o == "stamp") { p = 1; return res(r, TU::toTimestamp(vio::get(w, p))); }
        if (o == "shift") {
            auto v = vio::get(w, p);
            bool up = w[1] == "utc";
            Value x;
            if (v.isTime()) x = Value(up ? TU::timeToUTC(v.getTime()) : TU::utcToTime(v.getTime()));
            else x = Value(up ? TU::dateTimeToUTC(v.getDateTime()) : TU::utcToDateTime(v.getDateTime()));
            return r.str("r", val(x)).done();
        }
        if (o == "attr") {
            p = 1;
            auto v = vio::get(w, p);
            auto n = vio::str(w, p);
            return r.str("r", val(v.isDate() ? TU::getDateAttr(v.getDate(), n) : v.isTime() ? TU::getTimeAttr(v.getTime(), n) : TU::getDateTimeAttr(v.getDateTime(), n))).done();
        }
        if (o == "valid") {
            p = 1;
            auto v = vio::get(w, p);
            return r.boolean("ok", v.isDate() ? TU::validateDate(v.getDate()).ok() : TU::validateDate(v.getDateTime()).ok()).done();
        }
        if (o == "now") {
            auto t0 = ::time(nullptr) - 3;
            Value x;
            bool utc = w[1] == "utc";
            if (w[2] == "date") { auto d = utc ? TU::utcDate() : TU::localDate(); if (d.ok()) x = Value(d.value()); }
            else if (w[2] == "time") x = Value(utc ? TU::utcTime() : TU::localTime());
            else x = Value(utc ? TU::utcDateTime() : TU::localDateTime());
            auto t1 = ::time(nullptr) + 3;
            return r.str("r", val(x)).num("d0", t0 / 86400).num("s0", t0 % 86400).num("d1", t1 / 86400).num("s1", t1 % 86400).done();
        }
        if (o == "zone") {      // one zone, read again and again
            p = 1;
            r.boolean("ok", own.parsePosixTimezone(vio::str(w, p)).ok());
            zone(r, own);
            return r.done();
        }
        if (o == "region") {    // of the table
            p = 1;
            Timezone z;
            bool ok = z.loadFromDb(vio::str(w, p)).ok();
            r.boolean("ok", ok);
            if (ok) zone(r, z); else r.num("off", 0).bytes("name", "");
            return r.done();
        }
        if (o == "table") { FLAGS_timezone_file = w[1]; return r.boolean("ok", Timezone::init().ok()).done(); }
        if (o == "global") {    // global <file> <name> [<environment>]
            p = 2;
            FLAGS_timezone_file = w[1];
            auto name = vio::str(w, p);
            if (w.size() > p) setenv("TZ", vio::str(w, p).c_str(), 1); else unsetenv("TZ");
            bool ok = set(name).ok();
            r.boolean("ok", ok);
            // where it failed the service does not start: it gets one that works
            if (!ok && !set("ABC+00:00:00").ok()) throw std::runtime_error("zone");
            zone(r, Timezone::getGlobalTimezone());
            return r.done();
        }
        throw std::runtime_error("op " + o);
    });
}
