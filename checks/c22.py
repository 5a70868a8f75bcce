"""C22  GPS and UTC time."""
import bisect
import calendar
import importlib.util
import os
import time

from hypothesis import strategies as st

from harness import env
from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, q, uint

P = "C22"
results_stay(P)
assume_note(P, "instants from the GPS epoch (1980-01-06) to 2060, with the leap seconds announced so far; inside an inserted leap second UTC timestamps repeat")
LEAPS = [calendar.timegm((y, m, 1, 0, 0, 0)) for y, m in [(1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1),
                                                          (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]]
EPOCH = calendar.timegm((1980, 1, 6, 0, 0, 0))
END = calendar.timegm((2060, 1, 1, 0, 0, 0))
WEEK = 7 * 86400


def gps(utc):
    """seconds that passed since the GPS epoch, leap seconds included"""
    return utc - EPOCH + bisect.bisect_right(LEAPS, utc)


MODULES = {}


def module(tz):
    """a copy of the module as a computer in that time zone imports it"""
    if tz not in MODULES:
        old = os.environ.get("TZ")
        os.environ["TZ"] = tz
        time.tzset()
        try:
            spec = importlib.util.spec_from_file_location("time_utils_" + tz.replace("/", "_"), os.path.join(env.REPO, "resippy", "utils", "time_utils.py"))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            MODULES[tz] = m
        finally:
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()
    return MODULES[tz]


class zone:
    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.m = module(self.tz)
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.tz
        time.tzset()
        return self.m

    def __exit__(self, *a):
        if self.old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.old
        time.tzset()


instant = st.one_of(
    st.tuples(st.just("any"), uint(0, END - EPOCH - 1), st.integers(0, 999)),
    st.tuples(st.just("leap"), uint(0, len(LEAPS) - 1), uint(-40000, 40000)),
    st.tuples(st.just("week"), uint(1, 4100), uint(-40000, 40000)),
    st.tuples(st.just("day"), uint(1, 29000), uint(-2000, 2000)))
# POSIX rules, so that no time zone database is needed; the last has the hour London kept all year in 1970 as its winter time
ZONES = ["UTC0", "EST5EDT", "PST8PDT,M3.2.0,M11.1.0", "JST-9", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "Europe/London", "America/New_York"]
case = fixed(at=instant, tz=st.sampled_from(ZONES), integer=st.booleans())


def when(c):
    kind, a, b = c["at"]
    if kind == "any":
        t = EPOCH + a + b / 1000.0
    elif kind == "leap":
        t = LEAPS[a] + b / 1000.0
    elif kind == "week":
        t = EPOCH + a * WEEK + b / 1000.0
        t -= bisect.bisect_right(LEAPS, t)
    else:
        t = EPOCH + a * 86400 + b / 1000.0
    if b % 3 == 0:
        # finer than milliseconds
        t += (b % 89) * 1.1e-5
    t = max(float(EPOCH), t)
    return int(t) if c["integer"] else t


def close_to_leap(t):
    return min(abs(t - x) for x in LEAPS) < 45


@sub(P, "utc_to_gps", case, quick=900, rule="after the first leap second, or in a time zone other than UTC")
def utc_to_gps(c, ctx):
    """GPS time counts all seconds since the GPS epoch, wherever the computer is"""
    with zone(c["tz"]) as m:
        t = when(c)
        got = m.utc_timestamp_to_gps_timestamp(t)
        ctx.close_to(got, gps(t), "GPS time of UTC timestamp %r" % t, rtol=0, atol=2e-6)
        w, s = m.utc_timestamp_to_gps_week_and_seconds(t)
        ctx.check(w == int(w) and 0 <= s < WEEK, "week %r and second %r" % (w, s))
        ctx.close_to(w * WEEK + s, gps(t), "GPS week and second of UTC timestamp %r" % t, rtol=0, atol=1e-5)
    ctx.label(c["at"][0], c["tz"])
    ctx.nontrivial(t > LEAPS[0] or c["tz"] != "UTC0")


@sub(P, "round_trip", case, quick=900, rule="within 45 s of a leap second")
def round_trip(c, ctx):
    """to GPS time and back gives the same UTC time, and the other way around"""
    with zone(c["tz"]) as m:
        t = when(c)
        back = m.gps_timestamp_to_utc_timestamp(m.utc_timestamp_to_gps_timestamp(t))
        ctx.close_to(back, t, "UTC to GPS to UTC", rtol=0, atol=2e-6)
        # from the GPS side, the oracle counts leap seconds on the GPS scale
        g = gps(t)
        ctx.close_to(m.gps_timestamp_to_utc_timestamp(g), t, "UTC time of GPS time %r" % g, rtol=0, atol=2e-6)
        ctx.close_to(m.utc_timestamp_to_gps_timestamp(m.gps_timestamp_to_utc_timestamp(g)), g, "GPS to UTC to GPS", rtol=0, atol=2e-6)
    ctx.label(c["at"][0])
    ctx.nontrivial(close_to_leap(t))


@sub(P, "order", fixed(at=instant, dt=q(1e-3, 10), tz=st.sampled_from(ZONES), integer=st.just(False)), quick=500, rule="the two instants are on both sides of a leap second or within 45 s of one")
def order(c, ctx):
    """later UTC is later GPS, and GPS time runs exactly as many seconds ahead as leap seconds were inserted"""
    with zone(c["tz"]) as m:
        t = when(c)
        u = t + c["dt"]
        a, b = m.utc_timestamp_to_gps_timestamp(t), m.utc_timestamp_to_gps_timestamp(u)
        ctx.check(b > a, "GPS times %r then %r for UTC %r then %r" % (a, b, t, u))
        n = bisect.bisect_right(LEAPS, u) - bisect.bisect_right(LEAPS, t)
        ctx.close_to(b - a, u - t + n, "GPS seconds between two instants", rtol=0, atol=4e-6)
    ctx.nontrivial(close_to_leap(t))


again(P, "utc_to_gps", (), 120, most=12)
again(P, "round_trip", ("tz",), 120, most=12)
again(P, "order", ("dt",), 60, most=12)
