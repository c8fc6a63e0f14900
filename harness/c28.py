"""C28: the bindings.  The sources of src/python/core are compiled with a stand-in
for pybind11 (harness/shim) into a real extension module; what its calls give is
compared with the same calls of the library made from C++ (c28_direct.cpp)."""
import copy
import ctypes
import datetime
import fractions
import importlib.machinery
import importlib.util
import math
import os
import pickle
import sys
import threading
import urllib.error
import urllib.request
import warnings

import numpy

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import pyenv
import pypbt
from pypbt import prop, main
import c25

del pypbt.PROPERTIES[:]  # those of C25

CORE = os.environ["VERIF_CORE"]
_spec = importlib.util.spec_from_file_location("pyfes.core", CORE, loader=importlib.machinery.ExtensionFileLoader("pyfes.core", CORE))
core = importlib.util.module_from_spec(_spec)
sys.modules["pyfes.core"] = core
_spec.loader.exec_module(core)
D = ctypes.CDLL(CORE)
D.d_axis.restype = D.d_cartesian.restype = D.d_lgp.restype = ctypes.c_void_p
D.d_lpe.restype = ctypes.c_double
os.environ["HOME"] = pyenv.ROOT
warnings.simplefilter("ignore")


def _no_network(*_, **__):
    raise urllib.error.URLError("no network")


urllib.request.urlopen = _no_network
urllib.request.OpenerDirector.open = _no_network
pyfes = pyenv.fresh(pyenv.copy_package("bindings"), "", core)

FORMULAE = ["kSchuremanOrder1", "kSchuremanOrder3", "kMeeus"]
NAMES = pyenv.constituent_names()
MEMBERS = {k[1:]: v for k, v in core.Constituent.__members__.items()}
EPOCH = datetime.datetime(1970, 1, 1)
UNITS = {"as": -18, "fs": -15, "ps": -12, "ns": -9, "us": -6, "ms": -3, "s": 0, "m": 60, "h": 3600, "D": 86400}
c_double = ctypes.c_double
c_int64 = ctypes.c_int64
vp = ctypes.c_void_p


def ptr(a):
    assert a.flags.c_contiguous
    return a.ctypes.data_as(vp)


def error_of(f):
    """-> (error number of the library, value)"""
    try:
        return 0, f()
    except ValueError:
        return 1, None
    except IndexError:
        return 2, None
    except RuntimeError:
        return 3, None


def same(a, b, scale=1.0, tolerance=1e-9):
    a, b = numpy.atleast_1d(numpy.asarray(a)), numpy.atleast_1d(numpy.asarray(b))
    if a.shape != b.shape:
        return False
    with numpy.errstate(all="ignore"):
        for x, y in ((a.real, b.real), (a.imag, b.imag)):
            good = (x == y) | (numpy.isnan(x) & numpy.isnan(y)) | (numpy.abs(x - y) <= tolerance * (scale + numpy.abs(y)))
            if not good.all():
                return False
    return True


# --- generators ------------------------------------------------------------------
def layout(g, values, dtype):
    """The values in an array: as they are, a view of a larger array, reversed, of
    another order, of another type"""
    a = numpy.array(values, dtype=dtype)
    how = g.raw(6)
    if how == 1:
        b = numpy.full(tuple(2 * n + 1 for n in a.shape), 77).astype(dtype)
        v = b[tuple(slice(1, 1 + 2 * n, 2) for n in a.shape)]
        v[...] = a
        return v
    if how == 2:
        return a[::-1].copy()[::-1]
    if how == 3 and a.ndim == 2:
        return numpy.asfortranarray(a)
    if how == 4 and a.ndim == 2:
        return a.T.copy().T
    if how == 5:
        a.setflags(write=False)
    if how == 6 and a.dtype.kind in "fiu":
        for wide in ("f4", "i4", "i8", ">f8"):
            with numpy.errstate(all="ignore"):
                if a.size and not numpy.isnan(a.astype(float)).any() and (numpy.abs(a.astype(float)) < 2e9).all() and numpy.array_equal(a.astype(wide).astype(a.dtype), a):
                    if a.dtype.kind == "f" or wide[0] == "i":
                        return a.astype(wide)
    return a


def moment(g):
    """seconds since 1970, of 1902 to 2037"""
    return g.integer(-2140000000, 2140000000)


def gen_dates(g, n):
    """-> datetime64 array, seconds in double precision"""
    unit = g.pick(["us", "s", "ms", "ns", "m", "h", "D", "ps", "fs", "as"])
    power = UNITS[unit]
    limit = 2 ** 63 - 1
    scale = fractions.Fraction(10) ** power if power <= 0 else fractions.Fraction(power)
    out = []
    start = moment(g)
    for _ in range(n):
        s = start + g.pick([1, 60, 3600, 86400, 31557600]) * g.integer(0, 40) + fractions.Fraction(g.integer(0, 1000), 1000)
        v = int(s / scale)
        if abs(v) > limit:
            v = int(math.copysign(abs(v) % limit, v))
        out.append(v)
    a = numpy.array(out, dtype="i8").view("M8[%s]" % unit)
    seconds = numpy.array([float(v * scale) for v in out])
    how = g.raw(2)
    if how == 1:
        b = numpy.zeros(2 * n + 1, dtype=a.dtype)
        b[1::2] = a
        a = b[1::2]
    elif how == 2:
        a = a[::-1].copy()[::-1]
    return a, seconds, unit


def date(g):
    s = moment(g)
    return EPOCH + datetime.timedelta(seconds=s, microseconds=g.integer(0, 999999))


def seconds_of(d):
    return float(fractions.Fraction((d - EPOCH) // datetime.timedelta(microseconds=1), 1000000))


def gen_formulae(g):
    i = g.raw(2)
    return i, getattr(core.Formulae, FORMULAE[i])


def gen_names(g, most=12):
    n = g.integer(1, most)
    names = []
    for _ in range(n):
        x = g.pick(NAMES)
        if x not in names:
            names.append(x)
    return names


def cased(g, name):
    return g.pick([name, name.lower(), name.upper()])


def height(g):
    return g.pick([0.0, 1.0, g.uniform(-300, 300), g.uniform(-3, 3)])


def complexes(g, n, holes=0.0):
    return numpy.array([complex(math.nan, math.nan) if holes and g.boolean(holes) else complex(height(g), height(g)) for _ in range(n)], dtype="c16").reshape(n)


def leaps(g, n):
    return numpy.array([g.pick([0, 10, 18, 37, 37]) for _ in range(n)], dtype="u2")


# --- dates ---------------------------------------------------------------------------
@prop(2)
def dates(g, c):
    if g.boolean(.3):
        d = datetime.datetime(g.integer(1, 9999), g.integer(1, 12), g.integer(1, 28), g.integer(0, 23), g.integer(0, 59), g.integer(0, 59), g.integer(0, 999999))
    else:
        d = date(g)
    c.note(repr(d))
    us = (d - EPOCH) // datetime.timedelta(microseconds=1)
    kind = g.pick(["naive", "naive", "naive", "aware", "other"])
    c.nontrivial(d.microsecond != 0 or us < 0)
    if kind == "aware":
        zone = datetime.timezone(datetime.timedelta(minutes=g.integer(-720, 720)))
        d = d.replace(tzinfo=zone)
    elif kind == "other":
        d = g.pick([None, d.date(), d.isoformat(), us, float(us), numpy.datetime64(d)])
        c.label("not a datetime")
    for f, expected in ((core.datemanip.as_int64, us), (core.datemanip.as_float64, us / 1e6)):
        try:
            r = f(d)
        except (ValueError, TypeError):
            inside = -2 ** 31 < us // 1000000 < 2 ** 31 - 1
            c.check(kind != "naive" or not inside, f.__name__, "refuses", repr(d))
            continue
        c.check(kind == "naive", f.__name__, "accepts", repr(d))
        c.check(r == expected or (isinstance(expected, float) and abs(r - expected) <= 4e-16 * abs(expected) + 1e-12), f.__name__, repr(d), "is", r, "not", expected)
        c.check(isinstance(r, type(expected)), f.__name__, "gives a", type(r))


@prop(1)
def angles(g, c):
    i, formulae = gen_formulae(g)
    d, leap = date(g), g.pick([0, 10, 37])
    default = i == 0 and g.boolean()
    a = core.AstronomicAngle() if default else core.AstronomicAngle(formulae=formulae) if g.boolean() else core.AstronomicAngle(formulae)
    if g.boolean():
        a.update(date(g), 37)
    a.update(date=d, leap_seconds=leap) if g.boolean() else a.update(d, leap)
    c.note(FORMULAE[i], d, leap)
    c.nontrivial()
    out = numpy.zeros(13)
    D.d_angles(i, c_double(seconds_of(d)), leap, ptr(out))
    for name, v in zip("t n h s p1 p i xi nu x1ra r nuprim nusec".split(), out):
        c.check(same(getattr(a, name), v), "AstronomicAngle(%s).%s at %s is" % (FORMULAE[i], name, d), getattr(a, name), "the library gives", v)


# --- waves -------------------------------------------------------------------------
@prop(1)
def names(g, c):
    n = g.pick(NAMES)
    ident = core.constituents.parse(cased(g, n))
    c.nontrivial()
    c.note(n)
    c.check(ident == MEMBERS[n] and core.constituents.name(ident) == n, "parse(%s) is" % n, ident)
    c.check(getattr(core, "k" + n) == ident and getattr(core.Constituent, "k" + n) == ident, "k%s is" % n, getattr(core, "k" + n))
    c.check(sorted(core.constituents.known()) == sorted(NAMES) == sorted(MEMBERS), "known constituents")
    bad = n + g.pick(["x", " ", "'"])
    try:
        c.fail("parse(%r) is" % bad, core.constituents.parse(bad))
    except ValueError:
        pass


def new_table(g):
    return g.pick([lambda: core.WaveTable(), lambda: core.WaveTable([]), lambda: core.WaveTable(waves=[])])()


def gen_flags(g, p=.15):
    flags = numpy.zeros(256, dtype="i4")
    for n in NAMES:
        if g.boolean(p):
            flags[int(MEMBERS[n])] = g.integer(1, 3)
    return flags


def set_flags(t, flags):
    for w in t:
        f = int(flags[int(w.ident)])
        w.admittance, w.dynamic = bool(f & 1), bool(f & 2)


@prop(2)
def table(g, c):
    t = new_table(g)
    i, formulae = gen_formulae(g)
    d, leap = date(g), g.pick([0, 37])
    flags = gen_flags(g)
    tides = numpy.zeros(256, dtype="c16")
    for n in gen_names(g, 30):
        tides[int(MEMBERS[n])] = complex(height(g), height(g))
    set_flags(t, flags)
    for w in t:
        w.tide = complex(tides[int(w.ident)])
    what = "".join(g.pick("na") for _ in range(g.integer(0, 3)))
    a = core.AstronomicAngle(formulae)
    a.update(d, leap)
    for x in what:
        t.compute_nodal_corrections(a) if x == "n" else t.admittance()
    c.note(FORMULAE[i], d, what)
    c.nontrivial(what)
    n = len(NAMES)
    tide, out, ints, text = numpy.zeros(n, dtype="c16"), numpy.zeros((n, 6)), numpy.zeros((n, 4), dtype="i4"), ctypes.create_string_buffer(8192)
    D.d_table(what.encode(), i, c_double(seconds_of(d)), leap, ptr(tides), ptr(flags), ptr(tide), ptr(out), ptr(ints), text)
    c.check(len(t) == n, "len(WaveTable()) is", len(t))
    text = text.value.decode().split(",")
    order = t.keys()
    c.check(order == [x.split(":")[0] for x in text], "keys() are", order)
    waves = t.values()
    c.check([w.ident for w in waves] == [w.ident for w in t] and len(waves) == n, "values() is not the iteration")
    for k, w in enumerate(waves):
        who = "wave %s: " % order[k]
        other = t[w.ident]
        c.check(int(w.ident) == ints[k][0] and w.name() == order[k] and other.name() == order[k], who, "identifier", w.ident)
        c.check(t.find(cased(g, order[k])).ident == w.ident, who, "find() gives another wave")
        c.check(w.doodson_number() == text[k].split(":")[1], who, "Doodson number", w.doodson_number())
        c.check((w.type == core.Wave.TidalType.kLongPeriod) == bool(ints[k][1]), who, "type", w.type)
        c.check((w.admittance, w.dynamic) == (bool(ints[k][2]), bool(ints[k][3])), who, "flags", w.admittance, w.dynamic)
        c.check(same(other.tide, tide[k]), who, "tide", w.tide, "the library gives", tide[k])
        v = (w.freq, w.f, w.u, w.vu(), w.v(), w.period())
        c.check(same(v, out[k]), who, "freq, f, u, vu, v, period", v, "the library gives", out[k])
    # one wave at a time
    w = t[MEMBERS[g.pick(NAMES)]]
    w.nodal_a(a)
    w.nodal_g(a)
    D.d_table(b"n", i, c_double(seconds_of(d)), leap, ptr(tides), ptr(flags), ptr(tide), ptr(out), ptr(ints), ctypes.create_string_buffer(8192))
    k = order.index(w.name())
    c.check(same((w.f, w.u, w.v()), out[k][[1, 2, 4]]), w.name(), "f, u, v", w.f, w.u, w.v())
    # the wave survives its table
    v = w.tide
    del t, waves, other
    c.check(same(w.tide, v), "the wave has lost its tide with its table")


@prop(1)
def partial_table(g, c):
    ns = gen_names(g)
    t = core.WaveTable([cased(g, n) for n in ns])
    c.note(ns)
    c.nontrivial(len(ns) > 1)
    c.check(len(t) == len(ns) and sorted(t.keys()) == sorted(ns) and [w.name() for w in t] == t.keys(), "table of", ns, "has", t.keys())
    for n in NAMES[::7] + ns:
        w = t.find(n)
        c.check((w is not None and w.name() == n) if n in ns else w is None, "find(%s) in" % n, ns, "is", w)
        try:
            r = t[MEMBERS[n]].name()
        except IndexError:
            r = None
        c.check(r == (n if n in ns else None), "table[%s] is" % n, r)
    try:
        c.fail("a table is made of", ns + ["unknown"], core.WaveTable(ns + ["unknown"]))
    except ValueError:
        pass


@prop(3)
def series(g, c):
    ns = gen_names(g)
    t = core.WaveTable(ns)
    ns = t.keys()
    n = g.integer(0, 8)
    i, formulae = gen_formulae(g)
    a, seconds, unit = gen_dates(g, n)
    leap = leaps(g, n)
    missing = numpy.zeros(n, dtype=bool)
    if n and g.boolean(.15):
        missing[g.raw(n - 1)] = True
        a = a.copy()
        a[missing] = "NaT"
        seconds[missing] = math.nan
        c.label("NaT")
    wave = complexes(g, len(ns))
    wrong = g.boolean(.15)
    if wrong:
        k = g.raw(2)
        if k == 0:
            leap = leaps(g, n + 1)
        elif k == 1:
            wave = complexes(g, len(ns) + 1)
        else:
            a, leap = a.reshape(1, -1), leap
        c.label("sizes that differ")
    c.note(FORMULAE[i], ns, unit, seconds.tolist(), leap.tolist())
    c.nontrivial(n > 1)
    given = layout(g, wave, "c16"), layout(g, leap, "u2")
    kept = a.copy(), wave.copy(), leap.copy()
    explicit = i != 1 or g.boolean()
    code, r = error_of(lambda: t.tide_from_tide_series(a, given[1], given[0], **({"formulae": formulae} if explicit else {})))
    code2, m = error_of(lambda: t.compute_nodal_modulations(a, given[1], *([formulae] if explicit else [])))
    size = numpy.abs(wave).sum()
    if wrong:
        c.check(code != 0, "accepted: a series of", a.shape, "dates,", leap.shape, "leap seconds,", wave.shape, "waves of", len(ns))
        c.check(code2 != 0 or k == 1, "accepted: modulations of", a.shape, "dates,", leap.shape, "leap seconds")
        return
    out = numpy.zeros(n)
    want = D.d_series(",".join(ns).encode(), c_int64(n), ptr(seconds), ptr(leap), c_int64(len(ns)), ptr(wave), i, ptr(out))
    c.check((code, code2) == (want, 0), "errors", code, code2, "the library", want)
    if code == 0:
        c.check(same(r[~missing], out[~missing], size, 2e-7), "tide_from_tide_series with", FORMULAE[i], "is", r, "the library gives", out)
        c.check(numpy.isnan(r[missing]).all() or size == 0, "the tide at an undefined date is", r[missing])
    f, vu = numpy.zeros((len(ns), n)), numpy.zeros((len(ns), n))
    D.d_modulations(",".join(ns).encode(), c_int64(n), ptr(seconds), ptr(leap), i, ptr(f), ptr(vu))
    c.check(m[0].shape == f.shape == m[1].shape, "modulations of shape", m[0].shape)
    turn = numpy.abs(numpy.remainder(m[1] - vu + math.pi, 2 * math.pi) - math.pi)
    c.check(same(m[0][:, ~missing], f[:, ~missing], 1, 2e-7) and (turn[:, ~missing] < 2e-7).all(), "compute_nodal_modulations with", FORMULAE[i], "is", m, "the library gives", f, vu)
    c.check(not n or numpy.array_equal(kept[0], a, equal_nan=True) and numpy.array_equal(kept[1], wave) and numpy.array_equal(kept[2], leap), "the arguments have changed")


@prop(1)
def mapping(g, c):
    ns = gen_names(g, 6)
    t = core.WaveTable(ns)
    ns = t.keys()
    i, formulae = gen_formulae(g)
    d, leap = date(g), g.pick([0, 37])
    points = g.integer(0, 6)
    w = numpy.array([complexes(g, points, .1) for _ in ns], dtype="c16").reshape(len(ns), points)
    if g.boolean(.1):
        w = w[:-1]
    explicit = i != 1 or g.boolean()
    c.note(FORMULAE[i], d, ns, w.shape)
    c.nontrivial(points > 1 and len(ns) > 1)
    threads = g.integer(0, 3)
    code, r = error_of(lambda: t.tide_from_mapping(d, leap, layout(g, w, "c16"), **dict({"formulae": formulae} if explicit else {}, **({"num_threads": threads} if threads else {}))))
    out = numpy.zeros(w.shape)
    first = numpy.zeros(max(1, w.size))
    want = D.d_mapping(",".join(ns).encode(), c_double(seconds_of(d)), leap, c_int64(w.shape[0]), c_int64(w.shape[1]), ptr(numpy.ascontiguousarray(w)), i, ptr(first))
    c.check(code == want, "error", code, "the library", want)
    if code == 0:
        out = first[:r.size]
        c.check(same(r.ravel(), out, numpy.nansum(numpy.abs(w)), 1e-7), "tide_from_mapping with", FORMULAE[i], "is", r, "the library gives", out)


@prop(1)
def analysis(g, c):
    ns = gen_names(g, 3)
    nh = g.integer(1, 60)
    t = core.WaveTable(ns)
    i, formulae = gen_formulae(g)
    a = (numpy.datetime64("2000-01-01", "h") + numpy.arange(nh) * 37).astype("M8[s]")
    f, vu = t.compute_nodal_modulations(a, numpy.full(nh, 32, dtype="u2"), formulae)
    h = numpy.array([math.nan if g.boolean(.02) else height(g) for _ in range(nh)])
    if g.boolean(.2):
        k = g.raw(2)
        h, f, vu = (h[:-1], f, vu) if k == 0 else (h, f[:, 1:], vu) if k == 1 else (h, f, vu[:-1])
        c.label("sizes that differ")
    c.note(ns, nh, h.tolist()[:4])
    c.nontrivial(len(ns) > 1)
    lh, lf, lv = layout(g, h, "f8"), layout(g, f, "f8"), layout(g, vu, "f8")
    code, r = error_of(lambda: core.WaveTable.harmonic_analysis(lh, lf, lv) if g.boolean() else core.WaveTable.harmonic_analysis(h=lh, vu=lv, f=lf))
    out = numpy.zeros(len(ns), dtype="c16")
    cf, cv = numpy.ascontiguousarray(f), numpy.ascontiguousarray(vu)
    want = D.d_analysis(c_int64(len(h)), ptr(numpy.ascontiguousarray(h)), *(x for m in (cf, cv) for x in (c_int64(m.shape[0]), c_int64(m.shape[1]), ptr(m))), ptr(out))
    c.check(code == want, "error", code, "the library", want)
    if code == 0:
        c.check(r.dtype == numpy.complex128 and same(r, out, 300, 1e-6), "harmonic_analysis is", r, "the library gives", out)


@prop(1)
def select(g, c):
    duration = g.pick([0.0, 3600.0, g.uniform(0, 1e6), g.uniform(0, 1e9)])
    f = g.pick([2.0, 1.0, g.uniform(0, 5)])
    out = ctypes.create_string_buffer(8192)
    D.d_select(c_double(duration), c_double(f), out)
    want = [x for x in out.value.decode().split(",") if x]
    r = core.WaveTable.select_waves_for_analysis(duration) if f == 2 and g.boolean() else core.WaveTable.select_waves_for_analysis(duration, f)
    c.note(duration, f)
    c.nontrivial(0 < len(want) < len(NAMES))
    c.check(r == want, "select_waves_for_analysis(%r, %r) is" % (duration, f), r, "the library gives", want)


@prop(1)
def equilibrium(g, c):
    t = core.WaveTable()
    flags = gen_flags(g, .1)
    set_flags(t, flags)
    i, formulae = gen_formulae(g)
    a, d, leap = core.AstronomicAngle(formulae), date(g), g.pick([0, 37])
    a.update(d, leap)
    lat = g.uniform(-90, 90)
    lpe = core.LongPeriodEquilibrium()
    lpe.disable_dynamic_wave(t)
    r = lpe.lpe_minus_n_waves(a, lat)
    want = D.d_lpe(ptr(flags), i, c_double(seconds_of(d)), leap, c_double(lat))
    c.note(FORMULAE[i], d, lat)
    c.nontrivial(flags.any())
    c.check(same(r, want), "lpe_minus_n_waves is", r, "the library gives", want)


# --- axes ----------------------------------------------------------------------------
def gen_points(g, circular=False, least=2):
    n = g.integer(least, 9)
    if circular and g.boolean():
        n = g.integer(4, 12)
        step, start = 360.0 / n, g.pick([0.0, -180.0, float(g.integer(-360, 360))])
        if g.boolean(.3):  # nearly the whole circle
            step += g.pick([-1, 1]) * 10 ** g.uniform(-9, -1) / n
    else:
        step, start = g.pick([1.0, .5, float(g.integer(1, 20))]), float(g.integer(-90, 60))
    x = start + step * numpy.arange(n)
    if g.boolean(.2):
        x = x[::-1].copy()
    return x


class Direct:
    """An axis or a model of the library"""

    def __init__(self, p, free):
        self.p, self.free = vp(p), free

    def __del__(self):
        self.free(self.p)


def direct_axis(x, epsilon, circular):
    e = ctypes.c_int()
    p = D.d_axis(c_int64(len(x)), ptr(x), c_double(epsilon), int(circular), ctypes.byref(e))
    return e.value, Direct(p, D.d_axis_free) if e.value == 0 else None


def make_axis(g, x, epsilon, circular):
    pts = layout(g, x, "f8")
    k = {}
    if epsilon != 1e-6 or g.boolean():
        k["epsilon"] = epsilon
    if circular or g.boolean():
        k["is_circular"] = circular
    return core.Axis(points=pts, **k) if g.boolean() else core.Axis(pts, **k)


@prop(2)
def axis(g, c):
    circular = g.boolean()
    x = gen_points(g, circular, 0)
    if len(x) and g.boolean(.3):
        x[g.raw(len(x) - 1)] += g.pick([1e-7, 1e-3, .5])
    epsilon = g.pick([1e-6, 1e-6, 1e-2, 1e-9])
    c.note(x.tolist(), epsilon, circular)
    want, direct = direct_axis(x, epsilon, circular)
    code, a = error_of(lambda: make_axis(g, x, epsilon, circular))
    c.check(code == want, "Axis(...): error", code, "the library", want)
    if code:
        return
    c.nontrivial()
    out, ints = numpy.zeros(5), numpy.zeros(3, dtype="i8")
    D.d_axis_properties(direct.p, ptr(out), ptr(ints))
    c.check(same((a.start, a.step, a.end(), a.min_value(), a.max_value()), out), "start, step, end, min, max", (a.start, a.step, a.end(), a.min_value(), a.max_value()), "the library gives", out)
    c.check((len(a), a.is_ascending, a.is_circular) == (ints[0], bool(ints[1]), bool(ints[2])), "size, ascending, circular", len(a), a.is_ascending, a.is_circular, "the library gives", ints)
    for _ in range(4):
        i = g.integer(-2, len(x) + 2)
        v = c_double()
        want = D.d_axis_at(direct.p, c_int64(i), ctypes.byref(v))
        code, r = error_of(lambda: a[i])
        c.check(code == want and (code or r == v.value), "axis[%d] is" % i, code, r, "the library gives", want, v.value)
        y = g.pick([g.uniform(-720, 720), float(g.pick(x.tolist())), float(g.pick(x.tolist())) + g.uniform(-1, 1), math.nan])
        found = numpy.zeros(5, dtype="i8")
        D.d_axis_find(direct.p, c_double(y), ptr(found))
        r = (a.find_index(y), a.find_index(y, bounded=True), a.find_index(y, False), a.find_indices(y))
        e = (found[0], found[0], found[1], (found[3], found[4]) if found[2] else None)
        c.check(r == e, "find_index, find_indices of", y, "are", r, "the library gives", e)
    z = x.copy()
    if g.boolean():
        z[-1] += g.pick([0, .25])
    want, other = direct_axis(z, epsilon, circular)
    if other:
        c.check((a == make_axis(g, z, epsilon, circular)) == bool(D.d_axis_equal(direct.p, other.p)), "== with", z.tolist())


# --- models ----------------------------------------------------------------------------
class Model:
    """The same model, from Python and from C++"""

    def __init__(self, g, c, failing=True):
        self.precise = g.boolean(.6)
        suffix = "Complex128" if self.precise else "Complex64"
        self.dtype = "c16" if self.precise else "c8"
        radial = g.boolean(.3)
        kind = self.kind = g.pick(["cartesian", "lgp1", "lgp2"])
        k = {"tide_type": core.TideType.kRadial if radial else core.TideType.kTide} if radial or g.boolean() else {}
        self.radial = radial
        if kind == "cartesian":
            circular = g.boolean()
            x, y = gen_points(g, circular), gen_points(g)
            lon, lat = make_axis(g, x, 1e-6, circular), make_axis(g, y, 1e-6, False)
            (_, dlon), (_, dlat) = direct_axis(x, 1e-6, circular), direct_axis(y, 1e-6, False)
            major = g.boolean()
            if not major or g.boolean():
                k["longitude_major"] = major
            self.py = getattr(core.tidal_model, "Cartesian" + suffix)(lon, lat, **k)
            self.direct = Direct(D.d_cartesian(int(self.precise), dlon.p, dlat.p, int(radial), int(major)), D.d_model_free)
            self.size = len(x) * len(y)
            self.box = min(x), max(x), min(y), max(y)
            c.check(self.py.lon() == lon and self.py.lat() == lat, "lon(), lat() are not the axes of the model")
            what = (x.tolist(), y.tolist(), circular, major)
        else:
            n, m = g.integer(2, 4), g.integer(2, 4)
            x0, y0, step = float(g.integer(-170, 170)), float(g.integer(-60, 50)), g.pick([1.0, .5, 2.0])
            vx, vy = [], []
            for i in range(n):
                for j in range(m):
                    vx.append(x0 + step * i + (g.uniform(-.2, .2) * step if g.boolean(.3) else 0))
                    vy.append(y0 + step * j)
            tri = []
            for i in range(n - 1):
                for j in range(m - 1):
                    p, q, r, s = i * m + j, (i + 1) * m + j, (i + 1) * m + j + 1, i * m + j + 1
                    tri += [[p, q, r], [p, r, s]]
            tri = numpy.array(g.shuffle(tri), dtype="i4")
            vx, vy = numpy.array(vx), numpy.array(vy)
            if kind == "lgp1":
                codes, self.size = tri.copy(), len(vx)
            else:
                edges = {}
                codes = []
                for t in tri.tolist():
                    row = []
                    for e in range(3):
                        key = tuple(sorted((t[e], t[(e + 1) % 3])))
                        row += [t[e], edges.setdefault(key, len(vx) + len(edges))]
                    codes.append(row)
                codes, self.size = numpy.array(codes, dtype="i4"), len(vx) + len(edges)
            distance = g.pick([0.0, 0.0, 50e3, 300e3])
            lx, ly, lt, lc = layout(g, vx, "f8"), layout(g, vy, "f8"), layout(g, tri, "i4"), layout(g, codes, "i4")
            index = core.mesh.Index(lx, ly, lt) if g.boolean() else core.mesh.Index(lat=ly, triangles=lt, lon=lx)
            c.check(same(index.lon(), vx) and same(index.lat(), vy) and numpy.array_equal(index.triangles(), tri), "the mesh is not the one given")
            if distance or g.boolean():
                k["max_distance"] = distance
            cls = getattr(core.tidal_model, kind.upper() + suffix)
            e = ctypes.c_int()
            cut = failing and g.boolean(.05)
            if cut:
                codes, lc = codes[:-1].copy(), lc[:-1]
            if cut:
                try:
                    c.fail("accepted: codes of", len(codes), "triangles for a mesh of", len(tri), cls(index, lc, **k))
                except ValueError:
                    codes = lc = None
            if cut:
                self.py = None
                return
            self.py = cls(index, lc, **k)
            D.d_lgp.argtypes = None
            self.direct = Direct(
                D.d_lgp(int(self.precise), 1 if kind == "lgp1" else 2, c_int64(len(vx)), ptr(vx), ptr(vy), c_int64(len(tri)), ptr(tri), ptr(codes), int(radial), c_double(distance),
                        ctypes.byref(e)), D.d_model_free)
            assert e.value == 0
            c.check(self.py.index() is not None and same(self.py.index().lon(), vx), "index() is not the mesh of the model")
            self.box = min(vx), max(vx), min(vy), max(vy)
            what = (vx.tolist(), vy.tolist(), tri.tolist(), distance)
        c.label(kind)
        c.note(kind, suffix, "radial" if radial else "tide", *what)
        self.waves = {}
        for n in gen_names(g, 6):
            self.add(g, c, n)
        c.note("waves", sorted(self.waves))
        if g.boolean(.4):
            self.set_dynamic(g, c)

    def add(self, g, c, n):
        size = self.size + (g.pick([-1, 1]) if g.boolean(.05) else 0)
        w = complexes(g, size, .1).astype(self.dtype)
        given = layout(g, w, self.dtype)
        name = cased(g, n)
        if g.boolean(.03):
            name += "?"
        code, _ = error_of(lambda: self.py.add_constituent(name, given) if g.boolean() else self.py.add_constituent(wave=given, name=name))
        want = D.d_add(self.direct.p, name.encode(), c_int64(size), ptr(w.astype("c16")))
        c.check(code == want, "add_constituent(%s, %d values): error" % (name, size), code, "the library", want)
        if code == 0:
            self.waves.setdefault(n, w)
        if g.boolean() and given.flags.writeable:
            given[...] = 0  # the model has its own copy

    def set_dynamic(self, g, c):
        ns = gen_names(g, 3)
        self.py.dynamic = [MEMBERS[n] for n in ns]
        ints = numpy.array([int(MEMBERS[n]) for n in ns], dtype="i4")
        D.d_dynamic(self.direct.p, len(ns), ptr(ints))
        c.check([int(x) for x in self.py.dynamic] == ints.tolist(), "dynamic is", self.py.dynamic, "set to", ns)

    def position(self, g):
        x0, x1, y0, y1 = self.box
        k = g.raw(5)
        if k == 5:
            return g.uniform(-360, 360), g.uniform(-90, 90)
        x, y = g.uniform(x0 - .5, x1 + .5), g.uniform(y0 - .5, y1 + .5)
        return x + (g.pick([-360, 0, 360]) if k == 4 else 0), max(-90.0, min(90.0, y))

    def check(self, g, c):
        m = self.py
        c.check(len(m) == len(self.waves) and bool(m) == bool(self.waves), "len", len(m), "bool", bool(m), "with", sorted(self.waves))
        c.check(sorted(int(x) for x in m.identifiers()) == sorted(int(MEMBERS[n]) for n in self.waves), "identifiers()", m.identifiers())
        c.check(m.tide_type == (core.TideType.kRadial if self.radial else core.TideType.kTide), "tide_type is", m.tide_type)


def pickled(g, m):
    k = g.raw(2)
    if k == 0:
        return copy.deepcopy(m)
    return pickle.loads(pickle.dumps(m, protocol=g.pick([2, 4, pickle.HIGHEST_PROTOCOL])))


@prop(3)
def interpolation(g, c):
    m = Model(g, c)
    if m.py is None:
        return
    m.check(g, c)
    if g.boolean(.3):
        m.py = pickled(g, m.py)
        c.label("pickled")
        m.check(g, c)
    n = g.integer(0, 6)
    points = [m.position(g) for _ in range(n)]
    lon, lat = numpy.array([p[0] for p in points]).reshape(n), numpy.array([p[1] for p in points]).reshape(n)
    c.note(points)
    threads = g.integer(0, 3)
    ll, lt = layout(g, lon, "f8"), layout(g, lat, "f8")
    values, qualities = m.py.interpolate(ll, lt, num_threads=threads) if threads else m.py.interpolate(ll, lt)
    c.check({int(k) for k in values} == {int(MEMBERS[w]) for w in m.waves} and qualities.shape == (n,), "values of", list(values), "qualities", qualities.shape)
    defined = 0
    for i in range(n):
        present, out, q = numpy.zeros(256, dtype="i4"), numpy.zeros(256, dtype="c16"), ctypes.c_int()
        D.d_interpolate(m.direct.p, c_double(lon[i]), c_double(lat[i]), ptr(present), ptr(out), ctypes.byref(q))
        c.check(qualities[i] == q.value, "quality at", points[i], "is", qualities[i], "the library gives", q.value)
        defined += q.value != 0
        for k, v in values.items():
            if q.value == 0:
                c.check(math.isnan(v[i].real), k, "at", points[i], "is", v[i], "and undefined")
            else:
                c.check(same(v[i], out[int(k)], 1, 1e-9), k, "at", points[i], "is", v[i], "the library gives", out[int(k)])
        if g.boolean(.4):
            t = core.WaveTable()
            r = m.py.interpolate(float(lon[i]), float(lat[i]), t)
            c.check(int(r) == q.value and isinstance(r, core.Quality), "interpolate into a table at", points[i], "gives", r)
            for w in t:
                k = int(w.ident)
                c.check(same(w.tide, out[k] if present[k] else 0, 1, 1e-9), "interpolate into a table:", w.name(), "is", w.tide, "the library gives", out[k])
    c.nontrivial(defined)
    try:
        c.fail("accepted: positions of sizes", n, n + 1, m.py.interpolate(lon, numpy.append(lat, 0)))
    except ValueError:
        pass
    if g.boolean(.2):
        m.py.clear()
        c.check(len(m.py) == 0 and not m.py and m.py.dynamic == [] and m.py.identifiers() == [], "clear() leaves", m.py.identifiers(), m.py.dynamic)


@prop(3)
def tides(g, c):
    m = Model(g, c, False)
    if m.py is None:
        return
    if g.boolean(.2):
        m.py = pickled(g, m.py)
        c.label("pickled")
    n = g.integer(1, 6)
    points = [m.position(g) for _ in range(n)]
    lon, lat = numpy.array([p[0] for p in points]), numpy.array([p[1] for p in points])
    a, seconds, unit = gen_dates(g, n)
    i, formulae = gen_formulae(g)
    tolerance = g.pick([0.0, 0.0, 60.0, 3600.0])
    excluded = gen_names(g, 3) if g.boolean(.4) else []
    threads = 1 if tolerance else g.integer(0, 3)
    leap = leaps(g, n)
    c.note(points, unit, seconds.tolist(), FORMULAE[i], tolerance, excluded, threads)
    idents = [MEMBERS[x] for x in excluded]
    whole = g.boolean(.3) and seconds.min() >= 63072000
    if whole:  # the function of the package, that looks for the leap seconds
        s = pyfes.Settings(astronomic_formulae=formulae, time_tolerance=tolerance, excluded=[cased(g, x) for x in excluded])
    else:
        s = core.Settings(formulae, tolerance, idents if idents or g.boolean() else None) if g.boolean() else core.Settings(
            excluded=idents, time_tolerance=tolerance, astronomic_formulae=formulae)
    c.check(s.astronomic_formulae == formulae and s.time_tolerance == tolerance and [int(x) for x in s.excluded] == [int(x) for x in idents], "settings", s.astronomic_formulae,
            s.time_tolerance, s.excluded)
    default = i == 0 and not tolerance and not excluded
    if default and g.boolean():
        s = None
    ll, lt, leap2 = layout(g, lon, "f8"), layout(g, lat, "f8"), layout(g, leap, "u2")
    if whole:
        leap = numpy.ascontiguousarray(pyfes.get_leap_seconds(a).astype("u2"))

        def call():
            return pyfes.evaluate_tide(m.py, a, ll, lt, settings=s, num_threads=threads)
    else:

        def call():
            if s is None and g.boolean():
                return core.evaluate_tide(m.py, a, leap2, ll, lt, num_threads=threads)
            return core.evaluate_tide(m.py, a, leap2, ll, lt, s, threads)

    if g.boolean(.15):  # several threads at the same time
        results = [None] * 3
        chosen = call()

        def body(k):
            results[k] = core.evaluate_tide(m.py, a, leap, lon, lat, s, threads)

        ts = [threading.Thread(target=body, args=(k,)) for k in range(3)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        c.label("threads")
        for r in results:
            c.check(all(numpy.array_equal(x, y, equal_nan=True) for x, y in zip(r, chosen)), "threads get", r, "and one call", chosen)
        r = chosen
    else:
        r = call()
    h, lp, q = numpy.zeros(n), numpy.zeros(n), numpy.zeros(n, dtype="i4")
    ex = numpy.array([int(x) for x in idents], dtype="i4")
    want = D.d_evaluate(m.direct.p, c_int64(n), ptr(seconds), ptr(leap), ptr(lon), ptr(lat), i, c_double(tolerance), len(ex), ptr(ex), ptr(h), ptr(lp), ptr(q))
    c.check(want == 0 and numpy.array_equal(r[2].astype("i4"), q), "qualities are", r[2], "the library gives", q, want)
    size = 1 + sum(float(numpy.nanmax(numpy.abs(w), initial=0)) for w in m.waves.values())
    # the tide of a long tolerance is that of a date nearby
    c.check(same(r[0], h, 3 * size, 2e-7), "tide", r[0], "the library gives", h)
    c.check(same(r[1], lp, 3 * size, 2e-7), "long period", r[1], "the library gives", lp)
    c.check(not numpy.isnan(r[1]).any(), "the long period tide is undefined", r[1])
    c.nontrivial((q != 0).any())


@prop(1)
def refused(g, c):
    """sizes that differ, dates that are not datetime64, units that are not times"""
    m = Model(g, c, False)
    if m.py is None:
        return
    n = g.integer(1, 4)
    a = numpy.arange(n).astype("M8[s]")
    args = [a, leaps(g, n), numpy.zeros(n), numpy.zeros(n)]
    k = g.raw(8)
    c.nontrivial()
    model = m.py
    if k == 7:
        model = g.pick([None, m, core.WaveTable(), 1])
    elif k == 8:
        cls = getattr(core.tidal_model, g.pick(["LGP1Complex128", "LGP2Complex64"]))
        wrong = g.pick([lambda: cls(None, numpy.zeros((2, 3 * int(cls.__name__[3])), dtype="i4")), lambda: cls(index=None, codes=numpy.zeros((0, 3))), lambda: cls(),
                        lambda: core.AbstractTidalModelComplex64(), lambda: core.Accelerator(), lambda: core.Wave(), lambda: core.LongPeriodEquilibrium().disable_dynamic_wave(None),
                        lambda: core.WaveTable().compute_nodal_corrections(None), lambda: model.interpolate(0.0, 0.0, None), lambda: model.interpolate(0.0, 0.0, core.WaveTable(["M2"])),
                        lambda: core.tidal_model.CartesianComplex64(None, None), lambda: core.Axis(None), lambda: core.mesh.Index(None, None, None),
                        lambda: core.mesh.Index(numpy.zeros(3), numpy.zeros(3), numpy.array([[0, 1, 3]])), lambda: core.mesh.Index(numpy.zeros(3), numpy.zeros(3), numpy.array([[0, 1, -1]])),
                        lambda: model.add_constituent("M2", None), lambda: model.add_constituent(None, numpy.zeros(m.size)), lambda: setattr(model, "dynamic", ["M2"]),
                        lambda: model.__setstate__(b"\0" * g.integer(0, 200)), lambda: core.Settings(None), lambda: core.Settings(excluded=["M2"])])
        lines = wrong.__code__.co_names, wrong.__code__.co_consts
        c.note(cls.__name__, lines)
        try:
            r = wrong()
        except (ValueError, TypeError, IndexError, RuntimeError):
            return
        c.check("interpolate" in lines[0] and set(m.waves) <= {"M2"}, "accepted:", lines, r)
        return
    if k < 4:
        args[k] = numpy.append(args[k], args[k][:1])
    elif k == 4:
        args[0] = g.pick([numpy.zeros(n), numpy.zeros(n, dtype="i8"), numpy.zeros(n, dtype="m8[s]"), numpy.zeros(n, dtype="O"), numpy.array(["2000-01-01"] * n)])
    elif k == 5:
        args[0] = a.astype(g.pick(["M8[M]", "M8[Y]", "M8[W]", "M8[5s]", ">M8[s]"]))
    elif k == 6:
        args[0] = a.reshape(g.pick([(n, 1), (1, n)]))
    c.note(k, type(model), [x.dtype for x in args], [x.shape for x in args])
    try:
        r = core.evaluate_tide(model, *args)
    except (ValueError, TypeError):
        return
    c.fail("accepted:", [(x.dtype, x.shape) for x in args], r)


@prop(1)
def undefined_dates(g, c):
    m = Model(g, c, False)
    if m.py is None:
        return
    n = g.integer(1, 5)
    a, seconds, unit = gen_dates(g, n)
    a = a.copy()
    missing = numpy.array([g.boolean(.5) for _ in range(n)])
    a[missing] = "NaT"
    points = [m.position(g) for _ in range(n)]
    lon, lat = numpy.array([p[0] for p in points]), numpy.array([p[1] for p in points])
    leap = leaps(g, n)
    c.note(a, points)
    c.nontrivial(missing.any() and not missing.all())
    r = core.evaluate_tide(m.py, a, leap, lon, lat, None, 1)
    alone = core.evaluate_tide(m.py, a[~missing], leap[~missing], lon[~missing], lat[~missing], None, 1)
    # a tide without a wave is zero, whatever the date
    c.check(not (numpy.isfinite(r[1]) & ((r[1] != 0) | (not m.radial)))[missing].any(), "long period tide at an undefined date", r[1][missing])
    if m.waves:
        c.check(not numpy.isfinite(r[0][missing & (numpy.abs(r[0]) > 0)]).any(), "tide at an undefined date", r[0][missing])
    for x, y in zip(r, alone):
        c.check(numpy.array_equal(x[~missing], y, equal_nan=True), "the other dates give", x[~missing], "and without the undefined ones", y)


@prop(2)
def configured(g, c):
    """The models of a configuration file, evaluated, against the same made from what the files hold"""
    data = os.path.join(pyenv.ROOT, "data-%d" % os.getpid())
    os.makedirs(data, exist_ok=True)
    c25.STATE.update(pid=os.getpid(), core=core, module=pyfes.config, data=data)
    c25.clean()
    env = c25.Environment(g, c)
    document, described = c25.gen_document(g, c, env)
    direct = {}
    for key, d in described.items():
        if d.kind == "Cartesian":
            x, y = direct_axis(numpy.array(d.lon, dtype="f8"), d.epsilon, True), direct_axis(numpy.array(d.lat, dtype="f8"), 1e-6, False)
            if x[0] or y[0]:
                return
            p = D.d_cartesian(int(not d.single), x[1].p, y[1].p, int(key == "radial"), 1)
            values = {w: v for w, v in d.waves.items()}
        else:
            lon, lat, tri, codes = (numpy.ascontiguousarray(v, dtype=t) for v, t in zip(d.mesh, ("f8", "f8", "i4", "i4")))
            e = ctypes.c_int()
            p = D.d_lgp(int(not d.single), int(d.kind[-1]), c_int64(len(lon)), ptr(lon), ptr(lat), c_int64(len(tri)), ptr(tri), ptr(codes), int(key == "radial"), c_double(d.max_distance),
                        ctypes.byref(e))
            values = d.waves
        m = direct[key] = Direct(p, D.d_model_free)
        for w, v in values.items():
            v = numpy.ascontiguousarray(v.ravel(), dtype="c16")
            assert D.d_add(m.p, w.encode(), c_int64(v.size), ptr(v)) == 0
        ints = numpy.array([int(MEMBERS[n]) for n in d.dynamic], dtype="i4")
        D.d_dynamic(m.p, len(ints), ptr(ints))
    text, go = c25.load(g, document)
    c.note(text)
    models = go()
    n = g.integer(1, 5)
    for key, d in described.items():
        xs, ys = (d.lon, d.lat) if d.kind == "Cartesian" else d.mesh[:2]
        lon = numpy.array([g.uniform(min(xs), max(xs)) for _ in range(n)])
        lat = numpy.array([g.uniform(min(ys), max(ys)) for _ in range(n)])
        a, seconds, _ = gen_dates(g, n)
        seconds = seconds - min(0, seconds.min()) + 63072001
        a = (seconds // 1).astype("i8").astype("M8[s]")
        seconds = a.astype("i8").astype("f8")
        r = pyfes.evaluate_tide(models[key], a, lon, lat, num_threads=1)
        leap = numpy.ascontiguousarray(pyfes.get_leap_seconds(a).astype("u2"))
        h, lp, q = numpy.zeros(n), numpy.zeros(n), numpy.zeros(n, dtype="i4")
        D.d_evaluate(direct[key].p, c_int64(n), ptr(seconds), ptr(leap), ptr(lon), ptr(lat), 0, c_double(0), 0, ptr(numpy.zeros(1, dtype="i4")), ptr(h), ptr(lp), ptr(q))
        c.note(key, lon, lat, a, h, q)
        c.check(numpy.array_equal(r[2], q), key, "qualities", r[2], "of the data", q)
        size = 1 + sum(float(numpy.nanmax(numpy.abs(v), initial=0)) for v in d.waves.values())
        c.check(same(r[0], h, 3 * size, 1e-4 if d.loose else 2e-7), key, "tide", r[0], "of the data", h)
        c.check(same(r[1], lp, 3 * size, 1e-4 if d.loose else 2e-7), key, "long period", r[1], "of the data", lp)
        c.label(d.kind)
        c.nontrivial((q != 0).any())


if __name__ == "__main__":
    main()
