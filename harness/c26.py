"""C26: the Python classes around the extension module add names and types, and
change nothing else.  The extension module is a stand-in that keeps what it is
given; its answers are made up so that each wave, date and sample is told apart."""
import datetime
import os
import sys

import numpy

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import pyenv
from pypbt import prop, main

STATE = {}
FORMULAE = ["kMeeus", "kSchuremanOrder1", "kSchuremanOrder3"]


def setup():
    if STATE.get("pid") != os.getpid():
        core = pyenv.make_core()
        d = pyenv.copy_package("wrappers")
        STATE.update(pid=os.getpid(), core=core, module=pyenv.fresh(d, "", core))
    STATE["core"].calls.clear()
    return STATE["core"], STATE["module"]


def gen_names(g):
    names = list(pyenv.NAMES)
    g.shuffle(names)
    names = names[:g.integer(1, 12)]
    return [g.pick([n, n, n.lower(), n.upper()]) for n in names] if g.boolean(.3) else names


def gen_dates(g):
    n = g.integer(0, 8)
    return [datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=g.integer(-3 * 10**15, 4 * 10**15)) for _ in range(n)]


def as_array(dates):
    return numpy.array([(d - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1) for d in dates], dtype="int64").view("datetime64[us]")


@prop(3)
def nodal(g, c):
    """Lists of dates and arrays of dates give the same modulations"""
    core, module = setup()
    cls = g.pick([module.WaveTable, module.WaveDict])
    table = cls(gen_names(g))
    dates = gen_dates(g)
    leaps = numpy.array([g.integer(10, 40) for _ in dates], dtype="uint16")
    args = () if g.boolean(.2) else (g.pick(FORMULAE), )
    c.note(cls.__name__, table.keys(), [str(d) for d in dates], leaps, args)
    c.nontrivial(len(dates) > 1)
    want = as_array(dates)
    if g.boolean(.3):
        want = want.astype("datetime64[%s]" % g.pick(["s", "ms", "ns"]))
    if args and g.boolean(.3):
        r1 = table.compute_nodal_modulations(dates, leaps, formulae=args[0])
    else:
        r1 = table.compute_nodal_modulations(dates, leaps, *args)
    r2 = table.compute_nodal_modulations(want, leaps, *args)
    c.check(r1 == ("f", "vu") and r2 == ("f", "vu"), "returns", r1, r2)
    c.check(len(core.calls) == 2, len(core.calls), "calls")
    a, b = core.calls
    c.check(a.table is table and b.table is table, "other table")
    c.check(a.dates.dtype.kind == "M" and numpy.array_equal(a.dates, as_array(dates)), "dates given:", a.dates, "expected", as_array(dates))
    c.check(b.dates.dtype == want.dtype and numpy.array_equal(b.dates, want), "dates given:", b.dates, "expected", want)
    c.check(numpy.array_equal(a.leap_seconds, leaps) and numpy.array_equal(b.leap_seconds, leaps), "leap seconds")
    c.check(a.formulae == b.formulae and (not args or a.formulae == args[0]), "formulae: list", a.formulae, "array", b.formulae, "asked", args)
    if args and args[0] != "kSchuremanOrder1":
        c.label("other formulae")


@prop(2)
def refuse_dates(g, c):
    """Lists that are not dates are refused"""
    core, module = setup()
    table = module.WaveTable(["M2"])
    dates = gen_dates(g) + [g.pick([1.5, "2000-01-01", None, 3])]
    g.shuffle(dates)
    c.note(dates)
    c.nontrivial()
    try:
        table.compute_nodal_modulations(dates, numpy.zeros(len(dates), "uint16"))
    except Exception:
        return
    c.fail("accepted", dates)


@prop(3)
def analysis(g, c):
    """A WaveDict gives each wave its own coefficient"""
    core, module = setup()
    names = gen_names(g)
    table, plain = module.WaveDict(names), module.WaveTable(names)
    n = g.integer(1, 5)
    h = numpy.array([g.integer(-9, 9) for _ in range(n)], dtype=float)
    f = numpy.arange(len(table) * n, dtype=float).reshape(len(table), n)
    vu = f * 2 + 1
    c.note(names)
    c.nontrivial(len(names) > 1)
    d = table.harmonic_analysis(h, f, vu)
    a = plain.harmonic_analysis(h, f, vu)
    x, y = core.calls
    for k in (x, y):
        c.check(k.h is h and k.f is f and k.vu is vu, "other arguments")
    order = [w.name() for w in plain]
    c.check(isinstance(d, dict) and set(d) == set(order), "waves:", sorted(d), "expected", sorted(order))
    for i, name in enumerate(order):
        c.check(d[name] == a[i] == i * (1 + 2j) + 3, "coefficient of", name, d[name], a[i])
    fd, fa = table.freq(), plain.freq()
    c.check(set(fd) == set(order) and len(fa) == len(order), "frequencies")
    for i, w in enumerate(plain):
        c.check(fd[w.name()] == w.freq and fa[i] == w.freq, "frequency of", w.name())


@prop(4)
def series(g, c):
    """The tide of a WaveDict is that of its coefficients, in any order"""
    core, module = setup()
    names = gen_names(g)
    table = module.WaveDict(names)
    order = [w.name() for w in table]
    values = {n: complex(g.integer(-50, 50), g.integer(-50, 50)) for n in order}
    keys = g.shuffle(list(order))
    mapping = {k: values[k] for k in keys}
    dates = as_array(gen_dates(g))
    leaps = numpy.array([g.integer(10, 40) for _ in dates], dtype="uint16")
    formulae = g.pick(FORMULAE)
    c.note(keys, "table", order, formulae)
    c.nontrivial(len(names) > 1)
    if keys != order:
        c.label("another order")
    damage = g.integer(0, 9)
    if damage == 8:
        mapping.pop(keys[0])
    elif damage == 9:
        other = [n for n in pyenv.NAMES if n not in order][0]
        if g.boolean():
            mapping.pop(keys[0])
        mapping[other] = 1j
    if damage >= 8:
        c.label("other waves")
        try:
            table.tide_from_tide_series(dates, leaps, mapping, formulae)
        except Exception:
            return
        c.fail("accepted the waves", sorted(mapping), "for a table of", order)
    k = g.integer(0, 2)
    if k == 0:
        r = table.tide_from_tide_series(dates, leaps, mapping)
    elif k == 1:
        r = table.tide_from_tide_series(dates, leaps, mapping, formulae)
    else:
        r = table.tide_from_tide_series(dates=dates, leap_seconds=leaps, wave=mapping, formulae=formulae)
    c.check(r == "series" and len(core.calls) == 1, "returns", r)
    x = core.calls[0]
    c.check(x.dates is dates and x.leap_seconds is leaps and x.table is table, "other arguments")
    c.check(x.formulae == (formulae if k else "kSchuremanOrder3"), "formulae", x.formulae, "asked", formulae if k else "default")
    c.check(x.wave.shape == (len(order), ) and numpy.array_equal(x.wave, [values[n] for n in order]), "coefficients", x.wave, "expected", [values[n] for n in order])


@prop(3)
def settings(g, c):
    """Settings hold what they are given"""
    core, module = setup()
    kw = {}
    if g.boolean(.7):
        kw["astronomic_formulae"] = g.pick(FORMULAE)
    if g.boolean(.7):
        kw["time_tolerance"] = g.integer(0, 36000) / 8
    unknown = False
    excluded = []
    if g.boolean(.7):
        excluded = gen_names(g)
        if g.boolean(.2):
            excluded.insert(g.integer(0, len(excluded)), g.pick(["M2_", "XX", ""]))
            unknown = True
        kw["excluded"] = list(excluded)
    elif g.boolean():
        kw["excluded"] = g.pick([None, []])
    c.note(kw)
    c.nontrivial(len(excluded) > 1)
    try:
        s = module.Settings(**kw)
    except ValueError:
        c.check(unknown, "refused")
        c.label("unknown wave")
        return
    c.check(not unknown, "accepted unknown waves", excluded)
    fold = {n.lower(): n for n in pyenv.NAMES}
    c.check(s.astronomic_formulae == kw.get("astronomic_formulae", "kSchuremanOrder1"), "formulae", s.astronomic_formulae)
    c.check(s.time_tolerance == kw.get("time_tolerance", 0), "tolerance", s.time_tolerance)
    c.check([str(x) for x in s.excluded] == [fold[n.lower()] for n in excluded] and all(isinstance(x, core.Constituent) for x in s.excluded), "excluded", s.excluded)


@prop(1)
def representation(g, c):
    """The text of a table names its first and last waves"""
    core, module = setup()
    names = gen_names(g)
    table = module.WaveTable(names)
    c.note(names)
    c.nontrivial(len(names) > 9)
    text = repr(table)
    keys = table.keys()
    shown = keys if len(keys) <= 9 else keys[:4] + keys[-4:]
    c.check(all(k in text for k in shown), text, "lacks some of", shown)


if __name__ == "__main__":
    main()
