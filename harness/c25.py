"""C25: the model loaded from a configuration file is the one it describes.
The oracle is the description from which files and configuration are written."""
import json
import os
import sys

import numpy
import yaml

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import pyenv
from pypbt import prop, main

WAVES = ["M2", "S2", "K1", "O1", "Mm", "Mf", "Msqm", "2N2", "Lambda2", "Eps2", "MSf", "M4", "A5", "Sa"]
STATE = {}


def setup():
    """Once per process"""
    if STATE.get("pid") == os.getpid():
        return
    core = pyenv.make_core()
    d = pyenv.copy_package("config")
    STATE.update(pid=os.getpid(), core=core, module=pyenv.fresh(d, "config", core), data=os.path.join(pyenv.ROOT, "data-%d" % os.getpid()))
    os.makedirs(STATE["data"], exist_ok=True)


def clean():
    pyenv.FILES.clear()
    for f in os.listdir(STATE["data"]):
        os.remove(os.path.join(STATE["data"], f))
    for k in [k for k in os.environ if k.startswith("PBT_ENV")]:
        del os.environ[k]


class Environment:
    """Writes strings in terms of environment variables"""

    def __init__(self, g, c):
        self.g, self.c, self.n, self.used = g, c, 0, 0

    def define(self, value):
        self.n += 1
        name = self.g.pick(["PBT_ENV%d", "PBT_ENV_%d", "PBT_ENVx%d_"]) % self.n
        os.environ[name] = value
        return name

    def write(self, text, depth=0):
        """A string that expands to text"""
        g = self.g
        if depth > 3 or not text or not g.boolean(.5 if depth == 0 else .35):
            return text
        self.used += 1
        if depth == 0 and g.boolean(.1):
            self.c.label("long chain of variables")
            for _ in range(g.integer(4, 9)):
                text = "${%s}" % self.define(text)
            return text
        if depth == 1:
            self.c.label("variable in a variable")
        parts, i = [], 0
        many = g.boolean(.1)
        while i < len(text):
            j = i + 1 if many else g.integer(i + 1, len(text))
            # a part that starts after a '$' must not be taken for a reference
            piece = text[i:j]
            if g.boolean(.9 if many else .5):
                parts.append("${%s}" % self.define(self.write(piece, depth + 1)))
            else:
                parts.append(piece)
            i = j
        if len([p for p in parts if p.startswith("${")]) > 10:
            self.c.label("more than ten variables")
        out = "".join(parts)
        if "$" in text and out != text:
            self.c.label("literal dollar")
        return out


def value(amp, pha, degrees):
    p = numpy.radians(numpy.asarray(pha, dtype="float64")) if degrees else numpy.asarray(pha, dtype="float64")
    return numpy.asarray(amp, dtype="float64") * numpy.exp(1j * p)


def gen_field(g, shape, dtype):
    n = int(numpy.prod(shape))
    base = numpy.array([g.integer(0, 3000) / 8 for _ in range(min(n, 12))] or [0.0])
    v = base[numpy.arange(n) % len(base)] + numpy.arange(n) // len(base) * 1.25
    a = numpy.ma.array(v.reshape(shape).astype(dtype))
    if g.boolean(.4):
        m = numpy.zeros(n, bool)
        for _ in range(g.integer(1, 3)):
            m[g.integer(0, n - 1)] = True
        a = numpy.ma.array(a.data, mask=m.reshape(shape))
        a.data[m.reshape(shape)] = 1e20 if dtype != "int" else 0
    return a


def gen_units(g):
    return g.pick([("degrees", True), ("degree", True), ("radians", False), ("deg", True), ("Degrees", True), ("DEGREE", True), ("radian", False), ("rad", False)])


def gen_type(g):
    return g.pick(["f4", "f8"])


def expected_values(amp, pha, degrees):
    v = value(amp.data, pha.data, degrees)
    v[numpy.ma.getmaskarray(amp) | numpy.ma.getmaskarray(pha)] = numpy.nan
    return v


def same(a, b, single):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    na, nb = numpy.isnan(a), numpy.isnan(b)
    if not numpy.array_equal(na, nb):
        return False
    scale = numpy.abs(b[~nb])
    return bool(numpy.all(numpy.abs(a[~na] - b[~nb]) <= (2e-5 if single else 1e-11) * numpy.maximum(scale, 1)))


def optional(g, section, key, default, candidates, env):
    name = g.pick([default] + candidates)
    if name != default or g.boolean(.3):
        section[key] = env.write(name)
    return name


def number(g, env, c):
    """(text or value in the document, value)"""
    v = g.pick([1e-6, 1e-3, .5, 2.0, 100000.0, 1e5, 3.0, 2.5e-7])
    k = g.integer(0, 4)
    if k == 0:
        return v, v
    if k == 1:  # as people write it
        c.label("exponent without dot")
        return Plain(("%.0e" % v).replace("e-0", "e-").replace("e+0", "e")), float("%.0e" % v)
    if k == 2:
        return Plain("%g" % v), float("%g" % v)
    if k == 3 and v == int(v):
        return int(v), v
    if k == 4:
        c.label("number in a variable")
        return "${%s}" % env.define("%g" % v), float("%g" % v)
    return v, v


class Plain(str):
    """Written without quotes"""


def dump(g, document):
    class D(yaml.SafeDumper):
        pass

    D.add_representer(Plain, lambda d, x: d.represent_scalar("tag:yaml.org,2002:float", str(x)) if False else yaml.ScalarNode("tag:yaml.org,2002:str", str(x), style="plain"))
    tokens = {}

    def walk(x):
        if isinstance(x, Plain):
            t = "PLAIN%dTOKEN" % len(tokens)
            tokens[t] = str(x)
            return t
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x

    text = yaml.safe_dump(walk(document), sort_keys=False, default_flow_style=g.pick([False, False, None]), width=g.pick([80, 10000]))
    for t, v in tokens.items():
        text = text.replace(t, v)
    return text


FOLDERS = ["", "a b", "x$y", "$", "$HOME", "é", "{constituent}", "c$"]


def file_name(g, stem):
    f = g.pick(FOLDERS)
    return os.path.join(STATE["data"], (f + "_" if f else "") + stem + ".nc")


class Described:

    def __init__(self, kind, single, tide_type):
        self.kind, self.single, self.tide_type = kind, single, tide_type
        self.loose = single  # accuracy of the values
        self.waves = {}


def gen_axes(g):
    nlon, nlat = g.integer(2, 7), g.integer(2, 7)
    if g.boolean(.35):
        nlat = nlon
    step = g.pick([1.0, .5, .25, 360 / nlon])
    lon = g.integer(-180, 180) + numpy.arange(nlon) * step
    lat = g.integer(-60, 40) + numpy.arange(nlat) * g.pick([1.0, .5, 2.0])
    if g.boolean(.3):
        lat = lat[::-1].copy()
    return lon, lat


def gen_names(g, n):
    s = list(WAVES)
    g.shuffle(s)
    return s[:n]


def spelled(g, name):
    return g.pick([name, name, name.lower(), name.upper()])


def gen_cartesian(g, c, tide_type, env):
    lon, lat = gen_axes(g)
    square = len(lon) == len(lat)
    section = {}
    lon_name = optional(g, section, "longitude", "lon", ["x", "longitude"], env)
    lat_name = optional(g, section, "latitude", "lat", ["y", "latitude"], env)
    amp_name = optional(g, section, "amplitude", "amplitude", ["amp", "Ha"], env)
    pha_name = optional(g, section, "phase", "phase", ["pha", "Hg"], env)
    types = gen_type(g), gen_type(g)
    m = Described("Cartesian", types == ("f4", "f4"), tide_type)
    m.loose = "f4" in types
    m.lon, m.lat = lon, lat
    m.epsilon = 1e-6
    if g.boolean(.4):
        section["epsilon"], m.epsilon = number(g, env, c)
    paths = {}
    latitude_first = g.boolean(.6)
    dims = g.pick([("lat", "lon"), ("ny", "nx"), (lat_name, lon_name)])
    for w in gen_names(g, g.integer(1, 4)):
        path = file_name(g, "%s_%s" % (tide_type, w))
        shape = (len(lat), len(lon)) if latitude_first else (len(lon), len(lat))
        amp, pha = gen_field(g, shape, types[0]), gen_field(g, shape, types[1])
        units, degrees = gen_units(g)
        field = dims if latitude_first else dims[::-1]
        order = [(lon_name, pyenv.Variable(lon, (dims[1], ), units="degrees_east")), (lat_name, pyenv.Variable(lat, (dims[0], ), units="degrees_north")),
                 (amp_name, pyenv.Variable(amp, field, units="cm")), (pha_name, pyenv.Variable(pha, field, units=units))]
        pyenv.write_file(path, **dict(g.shuffle(order)))
        v = expected_values(amp, pha, degrees)
        m.waves[w] = v.T if latitude_first else v
        paths[spelled(g, w)] = env.write(path)
        if numpy.isnan(v).any():
            c.label("masked values")
    section["paths"] = paths
    if square and latitude_first:
        c.label("square grid, latitudes first")
    m.dynamic = []
    if g.boolean(.5):
        m.dynamic = gen_names(g, g.integer(0, 3))
        section["dynamic"] = [env.write(x) for x in m.dynamic]
    return section, m


def gen_lgp(g, c, tide_type, env):
    order = g.pick([1, 2])
    section = {}
    if order == 2 or g.boolean(.5):
        section["type"] = env.write("lgp%d" % order)
    nx, ny = g.integer(1, 3), g.integer(1, 3)
    lon = numpy.array([i * 1.5 for j in range(ny + 1) for i in range(nx + 1)]) + g.integer(-90, 90)
    lat = numpy.array([j * 1.25 for j in range(ny + 1) for i in range(nx + 1)]) + g.integer(-45, 45)
    at = lambda i, j: j * (nx + 1) + i
    triangles = numpy.array([t for j in range(ny) for i in range(nx) for t in ((at(i, j), at(i + 1, j), at(i + 1, j + 1)), (at(i, j), at(i + 1, j + 1), at(i, j + 1)))])
    codes = numpy.arange(len(triangles) * 3 * order).reshape(len(triangles), 3 * order)
    nodes = int(codes.max()) + 1
    names = {}
    for key, default, cand in (("longitude", "lon", ["x"]), ("latitude", "lat", ["y"]), ("triangle", "triangle", ["triangles", "element"]), ("codes", "codes", ["lgp%d" % order, "C-LGP"])):
        names[key] = optional(g, section, key, default, cand, env)
    amplitude = optional(g, section, "amplitude", "{constituent}_amplitude", ["amp_{constituent}", "{constituent}_a", "{constituent}"], env)
    phase = optional(g, section, "phase", "{constituent}_phase", ["pha_{constituent}", "{constituent}_g", "G {constituent}"], env)
    types = gen_type(g), gen_type(g)
    m = Described("LGP%d" % order, types == ("f4", "f4"), tide_type)
    m.loose = "f4" in types
    m.max_distance = 0.0
    if g.boolean(.4):
        section["max_distance"], m.max_distance = number(g, env, c)
    m.mesh = lon, lat, triangles, codes
    everything = g.boolean(.03)
    waves = list(pyenv.NAMES) if everything else [spelled(g, w) for w in gen_names(g, g.integer(1, 4))]
    pos = g.shuffle(list(range(4)))
    four = [(names["longitude"], pyenv.Variable(lon, ("nodes", ))), (names["latitude"], pyenv.Variable(lat, ("nodes", ))), (names["triangle"], pyenv.Variable(triangles, ("tri", "three"))),
            (names["codes"], pyenv.Variable(codes, ("tri", "k")))]
    variables = dict(four[p] for p in pos)
    fold = {n.lower(): n for n in pyenv.NAMES}
    for w in waves:
        amp, pha = gen_field(g, (nodes, ), types[0]), gen_field(g, (nodes, ), types[1])
        units, degrees = gen_units(g)
        variables[amplitude.replace("{constituent}", w)] = pyenv.Variable(amp, ("lgp", ), units="cm")
        variables[phase.replace("{constituent}", w)] = pyenv.Variable(pha, ("lgp", ), units=units)
        m.waves[fold[w.lower()]] = expected_values(amp, pha, degrees)
    path = file_name(g, "%s_lgp" % tide_type)
    pyenv.write_file(path, **variables)
    section["path"] = env.write(path)
    if everything:
        c.label("every constituent")
        if g.boolean():
            section["constituents"] = []
    else:
        section["constituents"] = [env.write(w) for w in waves]
        if g.boolean(.3):  # waves of the file that are not asked for
            extra = gen_names(g, 1)[0]
            if extra.lower() not in {w.lower() for w in waves}:
                variables[amplitude.replace("{constituent}", extra)] = pyenv.Variable(gen_field(g, (nodes, ), "f8"), ("lgp", ), units="cm")
                variables[phase.replace("{constituent}", extra)] = pyenv.Variable(gen_field(g, (nodes, ), "f8"), ("lgp", ), units="degrees")
                pyenv.write_file(path, **variables)
    m.dynamic = []
    if g.boolean(.5):
        m.dynamic = gen_names(g, g.integer(0, 3))
        section["dynamic"] = [env.write(x) for x in m.dynamic]
    c.label("lgp%d" % order)
    return section, m


def compare(c, model, m, where):
    core = STATE["core"]
    cls = type(model)
    want = getattr(core.tidal_model, "%sComplex%d" % (m.kind, 64 if m.single else 128))
    c.check(isinstance(model, want), where, "is a", cls, "dtype", getattr(cls, "dtype", None), "expected", m.kind, "single" if m.single else "double")
    c.check(model.tide_type == {"tide": core.kTide, "radial": core.kRadial}[m.tide_type], where, "has type", model.tide_type)
    c.check(list(model.dynamic) == m.dynamic, where, "dynamic", model.dynamic, "expected", m.dynamic)
    c.check(set(model.data) == set(m.waves), where, "has waves", sorted(model.data), "expected", sorted(m.waves))
    if m.kind == "Cartesian":
        c.check(numpy.array_equal(model.lon.points, m.lon) and numpy.array_equal(model.lat.points, m.lat), where, "axes", model.lon.points, model.lat.points)
        c.check(model.lon.is_circular and not model.lat.is_circular, where, "circular axes")
        c.check(model.lon.epsilon == m.epsilon, where, "epsilon", model.lon.epsilon, "expected", m.epsilon)
        for w, v in m.waves.items():
            d = model.data[w]
            d = d.reshape(len(m.lon), len(m.lat)) if model.longitude_major else d.reshape(len(m.lat), len(m.lon)).T
            c.check(same(d, v, m.loose), where, "values of", w, "(longitudes x latitudes)\n", d, "\nexpected\n", v)
    else:
        lon, lat, triangles, codes = m.mesh
        c.check(numpy.array_equal(model.index.lon, lon) and numpy.array_equal(model.index.lat, lat), where, "mesh nodes")
        c.check(numpy.array_equal(model.index.triangles, triangles) and numpy.array_equal(model.codes, codes), where, "mesh elements")
        c.check(model.max_distance == m.max_distance, where, "max_distance", model.max_distance, "expected", m.max_distance)
        for w, v in m.waves.items():
            c.check(same(model.data[w], v, m.loose), where, "values of", w, model.data[w], "expected", v)


def gen_document(g, c, env):
    document, described = {}, {}
    keys = g.pick([["tide"], ["radial"], ["tide", "radial"], ["radial", "tide"]])
    for k in keys:
        if g.boolean():
            s, m = gen_cartesian(g, c, k, env)
            document[k] = {"cartesian": s}
        else:
            s, m = gen_lgp(g, c, k, env)
            document[k] = {"lgp": s}
        described[k] = m
    return document, described


def load(g, document):
    path = os.path.join(STATE["data"], "config.yaml")
    text = dump(g, document)
    with open(path, "w", encoding="utf-8") as s:
        s.write(text)
    return text, lambda: STATE["module"].load(path)


@prop(5)
def valid(g, c):
    """Configurations that describe something"""
    setup()
    clean()
    env = Environment(g, c)
    document, described = gen_document(g, c, env)
    text, go = load(g, document)
    c.note(text, {k: v for k, v in os.environ.items() if k.startswith("PBT_ENV")})
    if env.used:
        c.label("environment variables")
    models = go()
    c.check(set(models) == set(described), "models", sorted(models))
    for k, m in described.items():
        compare(c, models[k], m, k)
    c.nontrivial(env.used or len(described) > 1 or any(len(m.waves) > 1 for m in described.values()))


def gen_tree(g, c, env, depth):
    """(what is written, what is read)"""
    k = g.integer(0, 9)
    if depth and k < 6:
        n = g.pick([0, 1, 1, 2, 3])
        items = [gen_tree(g, c, env, depth - 1) for _ in range(n)]
        if g.boolean():
            if any(isinstance(x[0], (dict, list)) for x in items):
                c.label("nested in a list")
            return [x[0] for x in items], [x[1] for x in items]
        keys = ["key %d" % i if g.boolean() else "k%d" % i for i in range(n)]
        return dict(zip(keys, [x[0] for x in items])), dict(zip(keys, [x[1] for x in items]))
    if k == 6:
        v = g.pick([None, True, 0, 12, -1.5, 1e20])
        return v, v
    v = g.pick(["M2", "a/b.nc", "$", "x$y", "a b", "{x}", "12", "true", "", "# no", "é"])
    return env.write(v), v


@prop(2)
def document(g, c):
    """Every value of a document is expanded, whatever holds it, and nothing else changes"""
    setup()
    clean()
    env = Environment(g, c)
    written, read = gen_tree(g, c, env, 4)
    path = os.path.join(STATE["data"], "document.yml")
    with open(path, "w", encoding="utf-8") as s:
        yaml.safe_dump(written, s, allow_unicode=True)
    c.note(written, {k: v for k, v in os.environ.items() if k.startswith("PBT_ENV")})
    got = STATE["module"].parse(path)
    c.check(json.dumps(got, sort_keys=True) == json.dumps(read, sort_keys=True), "document:", got, "instead of", read)
    c.nontrivial(bool(env.used) and isinstance(written, (dict, list)))


def rejected(c, go, what, *classes):
    try:
        go()
    except Exception as e:
        return e
    c.fail("accepted:", what)


def damage(g, c, document, described):
    """-> what was done, or None"""
    k = g.pick(sorted(document))
    kind = sorted(document[k])[0]
    s = document[k][kind]
    m = described[k]
    d = g.integer(0, 13)
    if d == 0:
        s[g.pick(["foo", "longitudes", "Amplitude", "lats", "path" if kind == "cartesian" else "paths", "codes" if kind == "cartesian" else "epsilon"])] = "x"
        return "unknown key"
    if d == 1:
        s["tidal_type"] = g.pick(["tide", "radial"])
        return "type of tide given by the section"
    if d == 2:
        document[g.pick(["tides", "Tide", "load", "ocean"])] = {kind: dict(s)}
        return "unknown section"
    if d == 3:
        document[k] = {g.pick(["Cartesian", "grid", "lgp1"]): s}
        return "unknown kind of model"
    if d == 4:
        s["dynamic"] = ["M2", g.pick(["M2_", "X9", "", "tide"])]
        return "unknown dynamic wave"
    if d == 5:
        bad = g.pick(["M2_", "X9", "M 2"])
        if kind == "cartesian":
            s["paths"][bad] = list(s["paths"].values())[0]
        else:
            s["constituents"] = [bad]
        return "unknown constituent"
    if d == 6:
        if kind == "cartesian":
            s.pop("paths") if g.boolean() else s["paths"].clear()
        else:
            s.pop("path")
        return "no file"
    if d == 7:
        missing = os.path.join(STATE["data"], "missing.nc")
        if kind == "cartesian":
            s["paths"][g.pick(sorted(s["paths"]))] = missing
        else:
            s["path"] = missing
        return "missing file"
    if d == 8:
        s[g.pick(["longitude", "latitude", "amplitude", "phase"] + (["triangle", "codes"] if kind == "lgp" else []))] = ""
        return "empty name"
    if d == 9:
        s[g.pick(["longitude", "latitude"] + (["triangle", "codes"] if kind == "lgp" else ["amplitude", "phase"]))] = "nowhere"
        return "missing variable"
    if kind == "lgp":
        if d == 10:
            s["type"] = g.pick(["lgp3", "LGP", "lpg1", "cartesian"])
            return "unknown discretization"
        if d == 11:
            s[g.pick(["amplitude", "phase"])] = g.pick(["{wave}_a", "{constituent}_{x}"])
            return "unknown field of a pattern"
        if d == 12 and s.get("constituents"):
            absent = [w for w in WAVES if w not in m.waves]
            file = next(v for p, v in pyenv.FILES.items() if p.endswith("%s_lgp.nc" % k))
            absent = [w for w in absent if not any(w.lower() in x.lower() for x in file["variables"])]
            if absent:
                s["constituents"].append(g.pick(absent))
                return "wave that the file lacks"
    return None


@prop(2)
def invalid(g, c):
    """Configurations that must be refused"""
    setup()
    clean()
    env = Environment(g, c)
    document, described = gen_document(g, c, env)
    what = damage(g, c, document, described)
    if what is None:
        what = g.pick(["empty", "undefined variable", "recursive variable", "mutually recursive variables"])
        k = g.pick(sorted(document))
        kind = sorted(document[k])[0]
        s = document[k][kind]
        if what == "empty":
            document = g.pick([None, {}])
        else:
            os.environ["PBT_ENV_R1"] = "x${PBT_ENV_R%d}" % (1 if what == "recursive variable" else 2) if g.boolean() else "${PBT_ENV_R%d}" % (1 if what == "recursive variable" else 2)
            os.environ["PBT_ENV_R2"] = "${PBT_ENV_R1}"
            bad = "${PBT_ENV_%s}/file.nc" % ("UNDEFINED" if what == "undefined variable" else "R1")
            if kind == "cartesian":
                s["paths"][g.pick(sorted(s["paths"]))] = bad
            else:
                s["path"] = bad
    text, go = load(g, document)
    c.note(what, text)
    c.label(what)
    c.nontrivial()
    e = rejected(c, go, what)
    module = STATE["module"]
    if what == "undefined variable":
        c.check(isinstance(e, module.InterpolationError), what, repr(e))
    if "recursive" in what:
        c.check(isinstance(e, module.InterpolationDepthError), what, repr(e))
    if what in ("unknown key", "unknown section", "unknown kind of model", "unknown constituent", "unknown dynamic wave", "empty name", "no file", "unknown discretization"):
        c.check(isinstance(e, ValueError), what, repr(e))


@prop(3)
def inconsistent(g, c):
    """Cartesian files whose grids differ are refused, or read right when they
    only differ by their layout"""
    setup()
    clean()
    env = Environment(g, c)
    lon, lat = gen_axes(g)
    section = {"paths": {}}
    names = gen_names(g, g.integer(2, 4))
    odd = g.integer(1, len(names) - 1)
    what = g.pick(["longitudes", "latitudes", "both axes", "number of longitudes", "number of latitudes", "swapped sizes", "precision", "layout"])
    m = Described("Cartesian", False, "tide")
    m.lon, m.lat, m.epsilon, m.dynamic = lon, lat, 1e-6, []
    step = abs(lon[1] - lon[0])
    first = g.boolean(.5)
    for i, w in enumerate(names):
        x, y, t, lf = lon, lat, "f8", first
        if i == odd:
            if what in ("longitudes", "both axes"):
                x = lon + g.pick([step / 2, step, -step])
            if what in ("latitudes", "both axes"):
                y = g.pick([lat[::-1], lat + .25, lat - 1])
            if what == "number of longitudes":
                x = lon[0] + numpy.arange(len(lon) + g.pick([1, 2])) * step
            if what == "number of latitudes":
                y = lat[0] + numpy.arange(len(lat) + 1) * (lat[1] - lat[0])
            if what == "swapped sizes":
                x, y = lon[0] + numpy.arange(len(lat)) * step, lat[0] + numpy.arange(len(lon)) * (lat[1] - lat[0])
            if what == "precision":
                t = "f4"
            if what == "layout":
                lf = not first
        shape = (len(y), len(x)) if lf else (len(x), len(y))
        amp, pha = gen_field(g, shape, t), gen_field(g, shape, t)
        path = os.path.join(STATE["data"], w + ".nc")
        dims = ("lat", "lon") if lf else ("lon", "lat")
        pyenv.write_file(path, lon=pyenv.Variable(x, ("lon", )), lat=pyenv.Variable(y, ("lat", )), amplitude=pyenv.Variable(amp, dims, units="cm"), phase=pyenv.Variable(pha, dims, units="degrees"))
        v = expected_values(amp, pha, True)
        m.waves[w] = v.T if lf else v
        section["paths"][w] = path
    same_grid = what in ("precision", "layout") or what == "swapped sizes" and len(lon) == len(lat)
    text, go = load(g, {"tide": {"cartesian": section}})
    c.note(what, "file", odd, "of", len(names), "grid", len(lon), "x", len(lat), "latitudes first" if first else "")
    c.label(what)
    c.nontrivial()
    try:
        models = go()
    except Exception as e:
        if same_grid and what == "swapped sizes":
            raise
        return
    if not same_grid:
        c.fail("accepted files on different grids:", what)
    if what == "precision":
        for v in m.waves.values():
            v[:] = v
        model = models["tide"]
        m.single = type(model).dtype == numpy.complex64 if hasattr(type(model), "dtype") else False
        c.check(not m.single or odd == 0, "lost precision")
        m.single = False
        for w, v in m.waves.items():
            d = model.data[w]
            d = d.reshape(len(lon), len(lat)) if model.longitude_major else d.reshape(len(lat), len(lon)).T
            c.check(same(d, v, True), "values of", w)
        return
    compare(c, models["tide"], m, "tide")


if __name__ == "__main__":
    main()
