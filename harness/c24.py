"""C24: leap seconds.  Histories of processes: each one finds the table the
previous ones left, a network that works or fails at some point, a disk that
may fill up, and converts dates.  The oracle is a list of tables."""
import datetime
import http.client
import os
import resource
import signal
import socket
import ssl
import sys
import urllib.error
import urllib.request
import warnings

import numpy

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import pyenv
from pypbt import prop, main

MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
EPOCH_1900 = 25567 * 86400
# TAI-UTC, from IERS Bulletin C
REAL = [(1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17), (1979, 1, 18), (1980, 1, 19),
        (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25), (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29),
        (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33), (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)]


def seconds(y, m, d=1):
    return (datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days * 86400


class Table:

    def __init__(self, entries, expires):
        self.entries = entries  # [(posix seconds, offset)]
        self.expires = expires  # date

    def at(self, t):
        """t: posix seconds (floored)"""
        v = None
        for e, s in self.entries:
            if e <= t:
                v = s
        return v

    @property
    def expired(self):
        return self.expires < datetime.date.today()

    def text(self, g):
        tab = g.pick(["\t", "      "])
        out = ["#\tATOMIC TIME.", "#\tUpdated through IERS Bulletin C", "#$\t 3676924800"]
        out += ["# " + g.pick(["12 3 # 1 Jan 1990", "text", "", "File updated on 3 Jul 2024"]) for _ in range(g.integer(0, 3))]
        month = MONTHS[self.expires.month - 1]
        if g.boolean():
            month = month[:3]
        out.append("#%sFile expires on%s%d %s %d" % (g.pick(["\t", "  "]), g.pick([":  ", " ", ": "]), self.expires.day, month, self.expires.year))
        out.append("#@\t%d" % (EPOCH_1900 + seconds(self.expires.year, self.expires.month, self.expires.day)))
        for e, s in self.entries:
            d = datetime.date(1970, 1, 1) + datetime.timedelta(days=e // 86400)
            out.append("%d%s%d%s# 1 %s %d" % (EPOCH_1900 + e, tab, s, tab, MONTHS[d.month - 1][:3], d.year))
            if g.boolean(.1):
                out.append("#")
        if g.boolean(.5):
            out.append("#h\t848434d5 570f7ea8 d79ba227 a00fc821 f608e2d4")
        return ("\n".join(out) + ("\n" if g.boolean(.8) else "")).encode()


REAL_TABLE = Table([(seconds(y, m), s) for y, m, s in REAL], datetime.date(2024, 12, 28))


def gen_table(g, expired):
    y, m, s = 1972, 1, 10
    entries = [(seconds(y, m), s)]
    for _ in range(g.integer(0, 12)):
        k = g.integer(1, 16) * g.pick([6, 6, 3, 1])
        m += k
        y, m = y + (m - 1) // 12, (m - 1) % 12 + 1
        if y > 2080:
            break
        s += g.pick([1, 1, 1, -1])
        entries.append((seconds(y, m), s))
    days = g.integer(2, 3000)
    today = datetime.date.today()
    return Table(entries, today + datetime.timedelta(days=-days if expired else days))


class Response:

    def __init__(self, status, body, error):
        self.status = self.code = status
        self.reason = self.msg = "reason"
        self.headers = {"Content-Length": str(len(body))}
        self.body, self.pos, self.error = body, 0, error

    def read(self, n=-1):
        if self.error is not None:
            cut = len(self.body) // 2
            if n is None or n < 0 or self.pos + n > cut:
                raise self.error
        data = self.body[self.pos:] if n is None or n < 0 else self.body[self.pos:self.pos + n]
        self.pos += len(data)
        return data

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def readline(self):
        return self.read(max(1, self.body.find(b"\n", self.pos) + 1 - self.pos))

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def getcode(self):
        return self.status

    def info(self):
        return self.headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


class Hang(BaseException):
    pass


class Network:
    """What the next requests meet"""

    def __init__(self, kind, body=b"", status=200, error=None):
        self.kind, self.body, self.status, self.error, self.calls = kind, body, status, error, 0

    def open(self, opener, fullurl, data=None, timeout=socket._GLOBAL_DEFAULT_TIMEOUT):
        self.calls += 1
        if self.kind == "raise":
            raise self.error
        if self.kind == "silent":
            if timeout is None or timeout is socket._GLOBAL_DEFAULT_TIMEOUT and socket.getdefaulttimeout() is None:
                raise Hang()
            raise urllib.error.URLError(TimeoutError("timed out"))
        return Response(self.status, self.body, self.error if self.kind == "broken" else None)


def errors(g):
    return g.pick([
        lambda: urllib.error.URLError(socket.gaierror(-3, "Temporary failure in name resolution")),
        lambda: urllib.error.HTTPError("https://x", 503, "Service Unavailable", {}, None),
        lambda: TimeoutError("timed out"),
        lambda: ConnectionResetError(104, "Connection reset by peer"),
        lambda: http.client.RemoteDisconnected("Remote end closed connection without response"),
        lambda: urllib.error.URLError(ssl.SSLCertVerificationError("certificate verify failed")),
        lambda: http.client.BadStatusLine("junk"),
        lambda: OSError(101, "Network is unreachable"),
    ])()


def gen_network(g):
    """-> (Network, table it provides or None)"""
    k = g.pick(["ok", "raise", "status", "broken", "junk", "silent"])
    if k == "ok":
        t = gen_table(g, g.boolean(.2))
        return Network("ok", t.text(g)), t
    if k == "raise":
        return Network("raise", error=errors(g)), None
    if k == "silent":
        return Network("silent"), None
    if k == "status":
        return Network("ok", g.pick([b"", b"<html>not found</html>", gen_table(g, False).text(g)]), status=g.pick([404, 500, 503, 204, 301])), None
    body = gen_table(g, False).text(g)
    if k == "broken":
        e = g.pick([
            lambda: http.client.IncompleteRead(body[:len(body) // 2], len(body) // 2), lambda: ConnectionResetError(104, "Connection reset by peer"),
            lambda: TimeoutError("The read operation timed out"), lambda: ssl.SSLError("record layer failure")
        ])()
        return Network("broken", body, error=e), None
    kind = g.integer(0, 5)
    lines = body.split(b"\n")
    if kind == 0:
        body = b""
    elif kind == 1:
        body = b"<!DOCTYPE html><html><body>Please log in to this network</body></html>\n"
    elif kind == 2:
        body = b"\n".join(x for x in lines if b"expires" not in x)
    elif kind == 3:
        body = b"\n".join((b"#\tFile expires on:  28 Brumaire 2093" if b"expires" in x else x) for x in lines)
    elif kind == 4:
        body = b"\n".join(x for x in lines if x.startswith(b"#"))
    else:
        body = b"\xff\xfe\x00\x81" + body[:40] + bytes(range(128, 256)) + b"\x8d\x9f"
    return Network("ok", body), None


UNITS = ["s", "D", "h", "m", "ms", "us", "ns"]
PER_SECOND = {"D": 1 / 86400, "h": 1 / 3600, "m": 1 / 60, "s": 1, "ms": 1000, "us": 10**6, "ns": 10**9}


def gen_ticks(g, tables, unit, early):
    """Ticks of the unit since 1970, near the entries of the tables"""
    w = g.integer(0, 4)
    if w <= 2:
        e = g.pick(g.pick(tables).entries)[0]
    elif w == 3:
        e = seconds(1972, 1) + g.raw(290 * 31556952)
    else:
        e = seconds(1972, 1) + g.raw((287 if unit == "ns" else 1500) * 31556952)
    scale = PER_SECOND[unit]
    n = e * scale if scale >= 1 else e // round(1 / scale)
    n = int(n) + (g.integer(-2, 2) if g.boolean() else g.integer(-10**6, 10**6) * int(max(scale, 1)) // (1 if scale >= 1 else round(1 / scale)))
    floor = seconds(1972, 1) * scale if scale >= 1 else seconds(1972, 1) // round(1 / scale)
    if not early:
        n = max(n, int(floor))
    return n


def to_seconds(n, unit):
    s = PER_SECOND[unit]
    return n // s if s >= 1 else n * round(1 / s)


class Query:

    def __init__(self, g, tables):
        early = g.boolean(.08)
        self.scalar = g.boolean(.25)
        self.unit = g.pick(UNITS)
        self.use_datetime = self.scalar and g.boolean()
        if self.use_datetime:
            self.unit = "us"
        n = 1 if self.scalar else g.integer(0, 12)
        ticks = [gen_ticks(g, tables, self.unit, early) for _ in range(n)]
        self.times = [to_seconds(t, self.unit) for t in ticks]
        self.sorter = None
        if self.scalar:
            self.value = numpy.datetime64(ticks[0], self.unit)
            if self.use_datetime:
                self.value = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=ticks[0])
        else:
            a = numpy.array(ticks, dtype="int64").view("datetime64[%s]" % self.unit) if n else numpy.empty(0, "datetime64[%s]" % self.unit)
            if g.boolean(.2):
                b = numpy.empty(2 * n, dtype=a.dtype)
                b[::2] = a
                b[1::2] = numpy.datetime64("1950-01-01")
                a = b[::2]
            self.value = a
            if g.boolean(.2):
                self.sorter = numpy.argsort(a)
        self.refused = any(t < seconds(1972, 1) for t in self.times)

    def expected(self, table):
        return [table.at(t) for t in self.times]


def ask(module, q):
    before = None if q.scalar else q.value.copy()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = module.get_leap_seconds(q.value, q.sorter) if q.sorter is not None else module.get_leap_seconds(q.value)
    except Hang:
        return "hang", None
    except Exception as e:
        return type(e).__name__ + ": " + str(e), None
    if before is not None and not numpy.array_equal(before, q.value):
        return "the dates given were modified", None
    if numpy.shape(r) != (len(q.times), ):
        return "shape %s" % (numpy.shape(r), ), None
    return "", [int(x) for x in r]


@prop(6)
def processes(g, c):
    """Histories of processes sharing an installation"""
    d = pyenv.copy_package("leap")
    path = os.path.join(d, "pyfes", "data", "leap-seconds.txt")
    for f in os.listdir(os.path.dirname(path)):
        os.remove(os.path.join(os.path.dirname(path), f))
    state = {None}
    if g.boolean(.93):
        t = gen_table(g, g.boolean(.7))
        with open(path, "wb") as s:
            s.write(t.text(g))
        state = {t}
        c.note("installed: %d entries, expires %s" % (len(t.entries), t.expires))
    known = [REAL_TABLE] + [t for t in state if t]
    faults = refreshed = False
    original = urllib.request.OpenerDirector.open
    for p in range(g.integer(1, 4)):
        net, new = gen_network(g)
        if new:
            known.append(new)
        limit = g.raw(len(net.body)) if g.boolean(.2) else None
        c.note("process %d: network %s status %d error %r, %s%s" % (p, net.kind, net.status, net.error, "table of %d, expires %s" % (len(new.entries), new.expires) if new else "no table (%r...)" % net.body[:20],
                                                           "" if limit is None else ", files limited to %d bytes" % limit))
        module = pyenv.fresh(d, "leap_seconds", CORE)
        urllib.request.OpenerDirector.open = lambda o, u, data=None, timeout=socket._GLOBAL_DEFAULT_TIMEOUT: net.open(o, u, data, timeout)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        candidates = set()
        for t in state:
            if t is not None and not t.expired:
                candidates.add((t, t))
                continue
            usable = new is not None
            # table used, table left
            if usable and limit is None:
                candidates.add((new, new))
            elif usable:
                candidates.update({(new, new), (new, t), (t, t), (t, new)})
            else:
                candidates.add((t, t))
        needed = any(t is None or t.expired for t in state)
        try:
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            for _ in range(g.integer(1, 3)):
                q = Query(g, known)
                error, got = ask(module, q)
                what = "process %d, %s unit %s sorter %s" % (p, str(q.value)[:200], q.unit, q.sorter is not None)
                c.check(error != "hang", "a server that never answers blocks the conversion forever;", what)
                if q.refused:
                    c.check(got is None and error.startswith("ValueError"), "dates before 1972 accepted:", what, error, got)
                    continue
                if got is None:
                    left = {k for k in candidates if k[0] is None}
                    c.check(left, "conversion failed:", error, what)
                    candidates = left
                    break
                left = {k for k in candidates if k[0] is not None and q.expected(k[0]) == got}
                c.check(left, "wrong leap seconds:", what, "got", got, "expected one of", [q.expected(k[0]) for k in candidates if k[0]])
                candidates = left
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            urllib.request.OpenerDirector.open = original
        if not needed:
            c.check(net.calls == 0, "the network was used though the table is up to date")
        faults = faults or needed and net.calls > 0 and (new is None or limit is not None)
        refreshed = refreshed or needed and net.calls > 0 and new is not None and limit is None
        # processes that asked nothing leave what they found
        state = {k[1] for k in candidates} if net.calls or not needed else state
    c.nontrivial(faults or refreshed)
    if faults:
        c.label("faulty refresh")
    if refreshed:
        c.label("refreshed")


@prop(3)
def conversions(g, c):
    """The bundled table, or another one, without network"""
    d = pyenv.copy_package("leap2")
    path = os.path.join(d, "pyfes", "data", "leap-seconds.txt")
    if g.boolean(.5):
        table = REAL_TABLE
        with open(os.path.join(pyenv.SOURCE, "data", "leap-seconds.txt"), "rb") as s:
            text = s.read()
        c.label("bundled table")
    else:
        table = gen_table(g, False)
        text = table.text(g)
    with open(path, "wb") as s:
        s.write(text)
    module = pyenv.fresh(d, "leap_seconds", CORE)
    original = urllib.request.OpenerDirector.open
    net = Network("raise", error=urllib.error.URLError("offline"))
    urllib.request.OpenerDirector.open = lambda o, u, data=None, timeout=None: net.open(o, u, data, timeout)
    try:
        for _ in range(g.integer(1, 4)):
            q = Query(g, [table])
            error, got = ask(module, q)
            c.note(str(q.value)[:150], q.unit, "sorter" if q.sorter is not None else "")
            c.nontrivial(len(q.times) > 1)
            if q.sorter is not None:
                c.label("sorter")
            if q.refused:
                c.label("before 1972")
                c.check(got is None and error.startswith("ValueError"), "dates before 1972 accepted:", error, got)
            else:
                c.check(got is not None, "conversion failed:", error)
                c.check(got == q.expected(table), "wrong leap seconds: got", got, "expected", q.expected(table))
    finally:
        urllib.request.OpenerDirector.open = original


@prop(2)
def users(g, c):
    """The wrappers give the extension module the leap seconds of their dates"""
    d = pyenv.copy_package("leap3")
    table = gen_table(g, False)
    with open(os.path.join(d, "pyfes", "data", "leap-seconds.txt"), "wb") as s:
        s.write(table.text(g))
    core = pyenv.make_core()
    module = pyenv.fresh(d, "", core)
    for _ in range(g.integer(1, 3)):
        q = Query(g, [table])
        if q.refused:
            continue
        core.calls.clear()
        c.nontrivial(len(table.entries) > 2)
        if q.use_datetime:
            a = module.AstronomicAngle()
            a.update(q.value)
            r = core.calls[-1]
            c.note("update", q.value)
            c.check(len(core.calls) == 1 and r.kind == "update" and r.date == q.value and int(r.leap_seconds) == q.expected(table)[0] and numpy.ndim(r.leap_seconds) == 0,
                    "AstronomicAngle.update gives", r.date, r.leap_seconds, "expected", q.value, q.expected(table))
            c.check(a.date == q.value, "AstronomicAngle.date")
        elif not q.scalar:
            lon, lat = numpy.arange(len(q.times)) * 1.5, numpy.arange(len(q.times)) * .5
            threads = g.integer(0, 4)
            settings = module.Settings(time_tolerance=g.integer(0, 3600)) if g.boolean() else None
            c.note("evaluate_tide", q.value)
            r = module.evaluate_tide("model", q.value, lon, lat, settings=settings, num_threads=threads)
            k = core.calls[-1]
            c.check(r == ("tide", "lp", "flags"), "evaluate_tide returns", r)
            c.check(k.kind == "evaluate_tide" and k.tidal_model == "model" and numpy.array_equal(k.date, q.value) and numpy.array_equal(k.longitude, lon)
                    and numpy.array_equal(k.latitude, lat) and k.num_threads == threads and k.settings is settings, "evaluate_tide forwards other arguments")
            c.check([int(x) for x in k.leap_seconds] == q.expected(table), "evaluate_tide: leap seconds", k.leap_seconds, "expected", q.expected(table))
    if g.boolean(.2):
        before = datetime.datetime.utcnow()
        core.calls.clear()
        module.AstronomicAngle().update()
        k = core.calls[-1]
        c.check(before <= k.date <= datetime.datetime.utcnow(), "update() is not at the present time:", k.date)
        now = int((before - datetime.datetime(1970, 1, 1)).total_seconds())
        c.check(int(k.leap_seconds) in (table.at(now), table.at(now + 60)), "update(): leap seconds of the present time", k.leap_seconds)


warnings.simplefilter("ignore", DeprecationWarning)
CORE = pyenv.make_core()

if __name__ == "__main__":
    main()
