"""The Python sources of the working tree, in a scratch package, with stand-ins
for the extension module (pyfes.core) and for netCDF4, which cannot be built or
installed here.  The stand-ins keep what they are given."""
import atexit
import importlib
import os
import shutil
import sys
import tempfile
import types
import warnings

import numpy

REPO = os.environ.get("VERIF_REPO", "/repo")
SOURCE = os.path.join(REPO, "src", "python", "pyfes")
_OWNER = os.getpid()
ROOT = tempfile.mkdtemp(prefix="pyfes-check-")


@atexit.register
def _clean():
    if os.getpid() == _OWNER:
        shutil.rmtree(ROOT, ignore_errors=True)


def copy_package(name):
    """A directory of sys.path that holds the package"""
    d = os.path.join(ROOT, "%s-%d" % (name, os.getpid()))
    if not os.path.isdir(d):
        shutil.copytree(SOURCE, os.path.join(d, "pyfes"))
        v = os.path.join(d, "pyfes", "version.py")
        if not os.path.exists(v):
            with open(v, "w") as s:
                s.write("__version__ = '0'\n")
    return d


def forget():
    for m in [m for m in sys.modules if m == "pyfes" or m.startswith("pyfes.")]:
        del sys.modules[m]


def fresh(directory, module, core):
    """Imports pyfes.<module> as a new process would"""
    forget()
    sys.path[:] = [p for p in sys.path if not p.startswith(ROOT)]
    sys.path.insert(0, directory)
    sys.modules["pyfes.core"] = core
    for k, v in vars(core).items():
        if isinstance(v, types.ModuleType):
            sys.modules["pyfes.core." + k] = v
    importlib.invalidate_caches()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return importlib.import_module("pyfes" + ("." + module if module else ""))


def constituent_names():
    """Names of the enumeration, from the header"""
    import re
    text = open(os.path.join(REPO, "include", "fes", "detail", "wave", "name.hpp")).read()
    return re.findall(r'"([^"]+)"', text)


class Recorded:
    """What a call of the extension module was given"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def make_core():
    core = types.ModuleType("pyfes.core")
    names = NAMES
    fold = {n.lower(): n for n in names}

    class Constituent(str):
        pass

    class Formulae:
        kMeeus = "kMeeus"
        kSchuremanOrder1 = "kSchuremanOrder1"
        kSchuremanOrder3 = "kSchuremanOrder3"

    core.Constituent, core.Formulae = Constituent, Formulae
    core.kTide, core.kRadial = "kTide", "kRadial"
    core.TideType = types.SimpleNamespace(kTide="kTide", kRadial="kRadial")
    core.calls = []
    constituents = types.ModuleType("pyfes.core.constituents")

    def parse(name):
        if not isinstance(name, str):
            raise TypeError("parse(): incompatible function arguments")
        if name.lower() not in fold:
            raise ValueError("invalid tidal constituent: " + name)
        return Constituent(fold[name.lower()])

    constituents.parse = parse
    constituents.known = lambda: list(names)
    constituents.name = lambda c: str(c)
    core.constituents = constituents

    class Axis:

        def __init__(self, points, epsilon=1e-6, is_circular=False):
            if not isinstance(epsilon, (int, float)) or not isinstance(is_circular, bool):
                raise TypeError("__init__(): incompatible constructor arguments")
            p = numpy.ma.filled(numpy.ma.asarray(points), numpy.nan).astype("float64")
            if p.ndim != 1:
                raise TypeError("__init__(): incompatible constructor arguments")
            if p.size < 2 or not numpy.all(numpy.isfinite(p)):
                raise ValueError("the axis values must be evenly spaced from each other.")
            d = numpy.diff(p)
            if numpy.any(numpy.abs(d - d[0]) > 1e-6 + 1e-9 * numpy.abs(p[0])) or d[0] == 0:
                raise ValueError("the axis values must be evenly spaced from each other.")
            self.points, self.epsilon, self.is_circular = p, float(epsilon), is_circular

    core.Axis = Axis

    class Model:

        def __init__(self):
            self.data = {}
            self.dynamic = []
            self.expected = None

        def add_constituent(self, ident, wave):
            if not isinstance(ident, str):
                raise TypeError("add_constituent(): incompatible function arguments")
            ident = parse(ident)
            w = numpy.asarray(wave)
            if w.ndim != 1:
                raise TypeError("add_constituent(): incompatible function arguments")
            # pybind11 converts the values to those of the model
            w = numpy.array(w, dtype=self.dtype)
            if self.expected is not None and w.size != self.expected:
                raise ValueError("wave size does not match expected size")
            self.data.setdefault(str(ident), w)

    class AbstractTidalModelComplex64(Model):
        dtype = numpy.complex64

    class AbstractTidalModelComplex128(Model):
        dtype = numpy.complex128

    core.AbstractTidalModelComplex64 = AbstractTidalModelComplex64
    core.AbstractTidalModelComplex128 = AbstractTidalModelComplex128
    tidal_model = types.ModuleType("pyfes.core.tidal_model")
    mesh = types.ModuleType("pyfes.core.mesh")

    class Index:

        def __init__(self, lon, lat, triangles):
            self.lon, self.lat = numpy.asarray(lon, dtype="float64"), numpy.asarray(lat, dtype="float64")
            self.triangles = numpy.asarray(triangles, dtype="int32")
            if self.lon.ndim != 1 or self.lat.ndim != 1 or self.triangles.ndim != 2 or self.triangles.shape[1] != 3:
                raise TypeError("__init__(): incompatible constructor arguments")
            if self.lon.size != self.lat.size:
                raise ValueError("lon and lat must have the same size")
            if self.triangles.size == 0 or self.triangles.min() < 0 or self.triangles.max() >= self.lon.size:
                raise ValueError("triangle indices")

    mesh.Index = Index
    core.mesh = mesh

    def cartesian(base):

        class C(base):

            def __init__(self, lon, lat, tide_type=core.kTide, longitude_major=True):
                super().__init__()
                if not isinstance(lon, Axis) or not isinstance(lat, Axis) or tide_type not in (core.kTide, core.kRadial):
                    raise TypeError("__init__(): incompatible constructor arguments")
                self.lon, self.lat, self.tide_type, self.longitude_major = lon, lat, tide_type, bool(longitude_major)
                self.expected = lon.points.size * lat.points.size

        return C

    def lgp(base, order):

        class L(base):

            def __init__(self, index, codes, tide_type=core.kTide, max_distance=0.0):
                super().__init__()
                c = numpy.asarray(codes, dtype="int32")
                if not isinstance(index, Index) or not isinstance(max_distance, (int, float)) or tide_type not in (core.kTide, core.kRadial):
                    raise TypeError("__init__(): incompatible constructor arguments")
                if c.ndim != 2 or c.shape[1] != 3 * order:
                    raise TypeError("__init__(): incompatible constructor arguments")
                if c.shape[0] != index.triangles.shape[0] or c.min() < 0:
                    raise ValueError("index and codes must have the same number of triangles")
                self.index, self.codes, self.tide_type, self.max_distance = index, c, tide_type, float(max_distance)
                self.order = order
                self.expected = int(c.max()) + 1

        return L

    tidal_model.CartesianComplex64 = cartesian(AbstractTidalModelComplex64)
    tidal_model.CartesianComplex128 = cartesian(AbstractTidalModelComplex128)
    for k in (1, 2):
        setattr(tidal_model, "LGP%dComplex64" % k, lgp(AbstractTidalModelComplex64, k))
        setattr(tidal_model, "LGP%dComplex128" % k, lgp(AbstractTidalModelComplex128, k))
    core.tidal_model = tidal_model

    class Settings:

        def __init__(self, astronomic_formulae=Formulae.kSchuremanOrder1, time_tolerance=0.0, excluded=None):
            self.astronomic_formulae, self.time_tolerance, self.excluded = astronomic_formulae, time_tolerance, excluded or []

    core.Settings = Settings

    class AstronomicAngle:

        def __init__(self, formulae=Formulae.kSchuremanOrder1, date=None, leap_seconds=None):
            self.formulae = formulae

        def update(self, date, leap_seconds):
            core.calls.append(Recorded("update", date=date, leap_seconds=leap_seconds, formulae=self.formulae))

    core.AstronomicAngle = AstronomicAngle

    def evaluate_tide(tidal_model, date, leap_seconds, longitude, latitude, settings=None, num_threads=0):
        core.calls.append(
            Recorded("evaluate_tide", tidal_model=tidal_model, date=date, leap_seconds=leap_seconds, longitude=longitude, latitude=latitude, settings=settings,
                     num_threads=num_threads))
        return ("tide", "lp", "flags")

    core.evaluate_tide = evaluate_tide
    datemanip = types.ModuleType("pyfes.core.datemanip")

    def as_int64(date):
        import datetime
        d = date - datetime.datetime(1970, 1, 1)
        return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds

    datemanip.as_int64 = as_int64
    core.datemanip = datemanip

    class Wave:

        def __init__(self, name, freq):
            self._name, self.freq, self.ident = name, freq, Constituent(name)

        def name(self):
            return self._name

    class WaveTable:
        """The nodal modulations of wave k at date t are made up, but their own"""

        def __init__(self, waves=None):
            asked = [parse(w) for w in waves or []]
            self._waves = [Wave(n, 1e-5 * (i + 1)) for i, n in enumerate(names) if not asked or n in asked]

        def __iter__(self):
            return iter(self._waves)

        def __len__(self):
            return len(self._waves)

        def keys(self):
            return [w.name() for w in self._waves]

        def __getitem__(self, k):
            return self._waves[k]

        def find(self, name):
            n = parse(name)
            return next((w for w in self._waves if w.name() == n), None)

        def compute_nodal_modulations(self, dates, leap_seconds, formulae=Formulae.kSchuremanOrder1):
            d = numpy.asarray(dates)
            if d.dtype.kind != "M":
                raise ValueError("array must be a numpy array of datetime64 items")
            core.calls.append(Recorded("nodal", dates=d, leap_seconds=leap_seconds, formulae=formulae, table=self))
            return ("f", "vu")

        @staticmethod
        def harmonic_analysis(h, f, vu):
            core.calls.append(Recorded("analysis", h=h, f=f, vu=vu))
            return numpy.arange(numpy.shape(f)[0]) * (1 + 2j) + 3

        def tide_from_tide_series(self, epoch, leap_seconds, wave, formulae=Formulae.kSchuremanOrder1):
            core.calls.append(Recorded("series", dates=epoch, leap_seconds=leap_seconds, wave=numpy.asarray(wave), formulae=formulae, table=self))
            return "series"

        def tide_from_mapping(self, epoch, leap_seconds, wave, formulae=Formulae.kSchuremanOrder1, num_threads=0):
            core.calls.append(Recorded("mapping", epoch=epoch, leap_seconds=leap_seconds, wave=wave, formulae=formulae, table=self, num_threads=num_threads))
            return "mapping"

        @staticmethod
        def select_waves_for_analysis(duration, f=2.0):
            return []

    core.WaveTable, core.Wave = WaveTable, Wave
    return core


# --- netCDF4 ----------------------------------------------------------------
FILES = {}


class Variable:

    def __init__(self, data, dimensions, **attributes):
        self.data, self.dimensions = numpy.ma.asarray(data), tuple(dimensions)
        self.__dict__.update(attributes)

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def size(self):
        return self.data.size

    def __len__(self):
        return len(self.data)

    def ncattrs(self):
        return [k for k in self.__dict__ if k not in ("data", "dimensions")]

    def getncattr(self, name):
        return getattr(self, name)

    def __array__(self, dtype=None, copy=None):
        return numpy.asarray(self.data, dtype=dtype)

    def __getitem__(self, k):
        return self.data[k].copy()

    def __setitem__(self, k, v):
        v = numpy.ma.asarray(v)
        if numpy.shape(self.data[k]) != v.shape:
            raise ValueError("cannot write an array of another shape")
        self.data[k] = v.astype(self.data.dtype)


class Dataset:

    def __init__(self, path, mode="r", **_):
        path = os.fspath(path)
        self.path, self.mode = path, mode
        if mode == "w":
            FILES[path] = dict(variables={}, dimensions={})
        elif path not in FILES:
            raise FileNotFoundError(2, "No such file or directory", path)
        self.variables = FILES[path]["variables"]
        self.dimensions = FILES[path]["dimensions"]

    def createDimension(self, name, size=None):
        self.dimensions[name] = size

    def createVariable(self, name, datatype, dimensions=(), **_):
        v = Variable(numpy.ma.masked_all([self.dimensions[d] for d in dimensions], dtype=datatype), dimensions)
        self.variables[name] = v
        return v

    def __getitem__(self, name):
        return self.variables[name]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


netCDF4 = types.ModuleType("netCDF4")
netCDF4.Dataset = Dataset
netCDF4.Variable = Variable
sys.modules["netCDF4"] = netCDF4


def write_file(path, **variables):
    """path (which exists, empty) holds these variables"""
    with open(path, "w"):
        pass
    dims = {}
    for v in variables.values():
        for n, s in zip(v.dimensions, v.data.shape):
            dims[n] = s
    FILES[path] = dict(variables=dict(variables), dimensions=dims)


NAMES = constituent_names()
