"""C27: converting FES finite element files, then loading the result, gives back
the waves of the original files."""
import os
import sys

import numpy

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import pyenv
from pypbt import prop, main

# wave of the name of a FES file: wave of the library
NAMES = {n: n for n in "S4 MKS2 R2 O1 Mm S2 M4 M3 Q1 Ssa P1 M8 N4 S1 K2 Mtm MN4 MSf MS4 N2 J1 T2 K1 M6 Sa Mu2 Mf M2 L2 2N2 Nu2".split()}
NAMES.update(MSqm="Msqm", E2="Eps2", La2="Lambda2")
STATE = {}


def setup():
    if STATE.get("pid") != os.getpid():
        core = pyenv.make_core()
        d = pyenv.copy_package("convert")
        convert = pyenv.fresh(d, "console_script.fes_convert_mesh", core)
        import pyfes.config
        STATE.update(pid=os.getpid(), core=core, convert=convert, config=pyfes.config, data=os.path.join(pyenv.ROOT, "mesh-%d" % os.getpid()))
        os.makedirs(STATE["data"], exist_ok=True)
    pyenv.FILES.clear()
    for f in os.listdir(STATE["data"]):
        os.remove(os.path.join(STATE["data"], f))


def gen_mesh(g):
    nx, ny = g.integer(1, 3), g.integer(1, 3)
    lon = numpy.array([i * 1.5 for j in range(ny + 1) for i in range(nx + 1)]) + g.integer(-90, 90) + g.unit()
    lat = numpy.array([j * 1.25 for j in range(ny + 1) for i in range(nx + 1)]) + g.integer(-45, 45) + g.unit()
    at = lambda i, j: j * (nx + 1) + i
    tri = numpy.array([t for j in range(ny) for i in range(nx) for t in ((at(i, j), at(i + 1, j), at(i + 1, j + 1)), (at(i, j), at(i + 1, j + 1), at(i, j + 1)))], dtype="int32")
    codes = numpy.arange(len(tri) * 6, dtype="int32").reshape(-1, 6)
    if g.boolean():
        codes = codes.max() - codes
    return lon, lat, tri, codes


def write(path, mesh, amp, pha):
    lon, lat, tri, codes = mesh
    pyenv.write_file(path, **{
        "lon": pyenv.Variable(lon, ("node", )),
        "lat": pyenv.Variable(lat, ("node", )),
        "element": pyenv.Variable(tri, ("elt", "three")),
        "C-LGP2": pyenv.Variable(codes, ("elt", "six")),
        "a_eta_LGP2": pyenv.Variable(amp[None, :], ("time", "lgp2"), units="m"),
        "G_eta_LGP2": pyenv.Variable(pha[None, :], ("time", "lgp2"), units="degrees")
    })


def convert(paths, output):
    argv = sys.argv
    sys.argv = ["fes_convert_mesh"] + paths + [output]
    try:
        STATE["convert"].main()
    finally:
        sys.argv = argv


def gen_waves(g):
    names = g.shuffle(sorted(NAMES))
    return names[:g.integer(1, 5)] if g.boolean(.95) else names


def field(g, n, scale):
    base = numpy.array([g.integer(0, 3600) / 8 * scale for _ in range(min(n, 8))])
    a = base[numpy.arange(n) % len(base)] + numpy.arange(n) // len(base) * scale
    a = numpy.ma.array(a.astype("f8"))
    if g.boolean(.3):
        a[g.integer(0, n - 1)] = numpy.ma.masked
    return a


@prop(4)
def round_trip(g, c):
    setup()
    mesh = gen_mesh(g)
    n = int(mesh[3].max()) + 1
    expected, paths = {}, []
    for w in gen_waves(g):
        amp, pha = field(g, n, .01), field(g, n, 1.0)
        path = os.path.join(STATE["data"], w + g.pick([".nc", ".FES2022b.nc", ".a.b.c"]))
        write(path, mesh, amp, pha)
        paths.append(path)
        v = 100 * amp.data * numpy.exp(1j * numpy.radians(pha.data))
        v[numpy.ma.getmaskarray(amp) | numpy.ma.getmaskarray(pha)] = numpy.nan
        expected[NAMES[w]] = v
    output = os.path.join(STATE["data"], "out.nc")
    c.note([os.path.basename(p) for p in paths], "%d nodes, %d elements" % (len(mesh[0]), len(mesh[2])))
    c.nontrivial(len(paths) > 1)
    if "O1" not in expected:
        c.label("without O1")
    before = {p: {k: v.data.copy() for k, v in pyenv.FILES[p]["variables"].items()} for p in paths}
    convert(paths, output)
    for p in paths:
        for k, v in before[p].items():
            c.check(numpy.ma.allequal(v, pyenv.FILES[p]["variables"][k].data), "the input file was modified:", p, k)
    variables = pyenv.FILES[output]["variables"]
    waves = sorted(k[:-len("_amplitude")] for k in variables if k.endswith("_amplitude"))
    c.check(waves == sorted(expected), "waves written:", waves, "expected", sorted(expected))
    for w in waves:
        units = [getattr(variables[w + k], "units", None) for k in ("_amplitude", "_phase")]
        c.check(units == ["cm", "degrees"], "units of", w, units)
    config = os.path.join(STATE["data"], "config.yaml")
    with open(config, "w") as s:
        s.write("tide:\n  lgp:\n    path: %s\n    codes: lgp2\n    type: lgp2\n    constituents: [%s]\n" % (output, ", ".join("'%s'" % w for w in waves)))
    model = STATE["config"].load(config)["tide"]
    c.check(type(model).__mro__[1].__name__ == "AbstractTidalModelComplex64" and model.order == 2, "kind of model", type(model))
    c.check(numpy.allclose(model.index.lon, mesh[0], rtol=0, atol=1e-12) and numpy.allclose(model.index.lat, mesh[1], rtol=0, atol=1e-12), "nodes", model.index.lon, "expected", mesh[0])
    c.check(numpy.array_equal(model.index.triangles, mesh[2]) and numpy.array_equal(model.codes, mesh[3]), "elements")
    for w, v in expected.items():
        got = model.data[w]
        nan = numpy.isnan(v)
        c.check(got.shape == v.shape and numpy.array_equal(numpy.isnan(got), nan), w, "undefined values", got, "expected", v)
        c.check(numpy.all(numpy.abs(got[~nan] - v[~nan]) <= 2e-5 * numpy.maximum(1, numpy.abs(v[~nan]))), w, got, "expected", v)


@prop(1)
def refused(g, c):
    """Files on other meshes, or of unknown waves"""
    setup()
    mesh = gen_mesh(g)
    n = int(mesh[3].max()) + 1
    waves = gen_waves(g)
    if len(waves) < 2:
        waves = ["M2", "K1"]
    odd = g.integer(1, len(waves) - 1)
    what = g.pick(["longitude", "latitude", "elements", "codes", "wave"])
    c.label(what)
    c.note(what, waves, odd)
    c.nontrivial()
    paths = []
    for i, w in enumerate(waves):
        lon, lat, tri, codes = (x.copy() for x in mesh)
        if i == odd:
            if what == "longitude":
                lon[g.integer(0, len(lon) - 1)] += .125
            elif what == "latitude":
                lat[g.integer(0, len(lat) - 1)] += .125
            elif what == "elements":
                tri[g.integer(0, len(tri) - 1)] = [0, 1, len(lon) - 1] if len(tri) > 2 else [1, 0, 2]
                if numpy.array_equal(tri, mesh[2]):
                    tri[0] = tri[0][::-1]
            elif what == "codes":
                codes[0] = codes[0][::-1]
            else:
                w = g.pick(["X1", "M2tide", "m9"])
        path = os.path.join(STATE["data"], w + ".nc")
        write(path, (lon, lat, tri, codes), field(g, n, .01), field(g, n, 1.0))
        paths.append(path)
    try:
        convert(paths, os.path.join(STATE["data"], "out.nc"))
    except (Exception, SystemExit):
        return
    c.fail("accepted:", what)


if __name__ == "__main__":
    main()
