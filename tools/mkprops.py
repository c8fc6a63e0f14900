#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Constituent names, identifiers and tables all designate the same wave",
  """Every known constituent has one name; parsing a name in any letter case, printing the
  result and looking it up in any tide table (full, or built from any subset of names) always
  leads to that same constituent, never to another one. Names that are not constituents are
  rejected, constituents that a sparse table does not hold are reported as absent, and iterating
  over a table yields each of its constituents exactly once.""",
  ["inputs", "configurations"], "all constituents x all letter cases x all subsets and orders of names used to build a table",
  "Tests parse a few names and build two or three tables; the quantifier is every subset/order/case and every identifier.",
  ["src/library/constituent.cpp", "include/fes/constituent.hpp", "src/library/wave/table.cpp", "include/fes/wave/table.hpp"],
  [("known()/parse/name", "src/library/constituent.cpp"), ("Table::Table, operator[], find, direct_access_/sparse_access_", "include/fes/wave/table.hpp, src/library/wave/table.cpp")])

p("C02", "Astronomic angles follow the cited astronomical formulae at every date",
  """For every date and each supported formulae set, the mean longitudes, lunar time angle, node
  and all the orbital quantities derived from them (obliquity, xi, nu, nu', nu'', R, 1/Ra, P) equal
  the values given by the cited formulae evaluated in extended precision, up to rounding.
  Normalised angles stay in their documented range and the result depends only on the date, the
  leap second count and the formulae, whatever was computed before with the same object.""",
  ["inputs", "histories"], "all epochs over several centuries x 3 formulae sets x leap-second counts x sequences of updates",
  "Tests evaluate the formulae at two or three dates; sign errors of higher-order terms and range/branch errors need arbitrary dates.",
  ["include/fes/angle/astronomic.hpp", "include/fes/detail/angle/astronomic/frequency.hpp", "include/fes/detail/math.hpp"],
  [("Astronomic::update", "include/fes/angle/astronomic.hpp")])

p("C03", "Wave frequency, period and phase advance agree; separability selection",
  """For every constituent, the phase of the Greenwich argument advances in time at the rate
  announced as its frequency, its period is a full turn divided by that frequency, and the
  argument at a date is the documented combination of the astronomic angles. Selecting waves for
  the analysis of a time span keeps exactly the known waves whose period is shorter than the given
  number of times the span (twice by default), so a longer span or a larger number never loses a
  wave.""",
  ["inputs"], "all constituents x dates x formulae x durations x factors",
  "Tests pin the numeric frequencies at one date only; the link with the phase advance and the selection threshold are universally quantified.",
  ["include/fes/wave.hpp", "include/fes/wave/table.hpp", "include/fes/detail/angle/astronomic/frequency.hpp"],
  [("Wave::freq/period/v", "include/fes/wave.hpp"), ("Table::select_waves_for_analysis", "include/fes/wave/table.hpp, src/library/wave/table.cpp")])

p("C04", "Nodal corrections follow the documented table for every constituent and date",
  """For every constituent and date, the nodal amplitude factor, the nodal phase correction and the
  Greenwich argument equal those given by the published (Schureman) table of arguments and node
  factor formulae applied to the astronomic angles of that date. The combined phase is the sum of
  the Greenwich argument and the nodal correction modulo a full turn, and a pure solar wave has no
  nodal correction.""",
  ["inputs"], "all constituents x all epochs x formulae sets",
  "The existing node tests use one angle value or a single date and cannot see swapped terms or wrong signs for most waves.",
  ["include/fes/wave.hpp", "include/fes/angle/astronomic.hpp", "include/fes/wave/table.hpp"],
  [("wave::* constituents", "include/fes/wave.hpp"), ("Wave::nodal_a/nodal_g", "include/fes/wave.hpp"), ("Table::compute_nodal_corrections", "include/fes/wave/table.hpp")])

p("C05", "Predicted tide equals the harmonic sum of the model's constituents",
  """For every tidal model, position and date, the predicted short-period tide is the sum over the
  short-period waves (given by the model or inferred by admittance) of amplitude times nodal factor
  times cosine of argument minus phase lag, and the long-period tide is the equilibrium tide plus
  the long-period waves of the model. Where the model is undefined the short-period tide is
  not-a-number and flagged undefined; a radial model receives no equilibrium contribution.""",
  ["inputs", "configurations"], "all models (grid or mesh, any constituent set), positions, dates, leap-second counts and settings",
  "Tests compare a few positions of a shipped FES atlas; they never vary the set of constituents, settings or kind of model.",
  ["include/fes/tide.hpp", "include/fes/abstract_tidal_model.hpp", "include/fes/wave/table.hpp", "include/fes/wave.hpp"],
  [("evaluate_tide", "include/fes/tide.hpp"), ("build_wave_table", "include/fes/tide.hpp"), ("Accelerator", "include/fes/abstract_tidal_model.hpp")])

p("C06", "Batch prediction is pointwise, order- and thread-count-independent, race-free",
  """The tide predicted for a point of a batch is the same as that predicted for this point alone (bit
  for bit, or up to rounding on an edge shared by two mesh triangles), whatever the other points,
  their order, and the number of threads used (with the default zero time tolerance). Concurrent predictions sharing one model do not interfere, and
  prediction leaves the model unchanged.""",
  ["inputs", "schedules", "histories"], "all batches, permutations, splits, thread counts and interleavings over one shared model",
  "Tests run one ordering with the default number of threads; caching and sharing errors need particular neighbours or schedules.",
  ["include/fes/tide.hpp", "include/fes/detail/thread.hpp", "include/fes/abstract_tidal_model.hpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp"],
  [("evaluate_tide worker, per-thread accelerator", "include/fes/tide.hpp"), ("parallel_for", "include/fes/detail/thread.hpp")])

p("C07", "Prediction is linear in the model's complex amplitudes",
  """Multiplying all the complex amplitudes of a model by a factor multiplies the model-driven part
  of the predicted tide by it, and the model-driven part predicted from the sum of two models with
  the same constituents is the sum of their predictions. The equilibrium part does not depend on
  the amplitudes.""",
  ["inputs"], "all pairs of models on the same grid or mesh, scalars, positions, dates",
  "A metamorphic relation over pairs of models that no test builds.",
  ["include/fes/tide.hpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp", "src/library/wave/table.cpp"],
  [("evaluate_tide", "include/fes/tide.hpp"), ("Table::admittance", "src/library/wave/table.cpp")])

p("C08", "Gridded models interpolate bilinearly and flag their quality truthfully",
  """On a regular grid, interpolation reproduces node values exactly, equals the weighted bilinear
  combination of the valid corners elsewhere (weights renormalised when some corners are masked),
  and is independent of storage order, of axis direction and of the 360-degree convention used for
  the longitude. The reported quality counts the valid corners used, and a value is finite exactly
  when the quality is not undefined; outside the grid, or where all corners are masked for a
  constituent, the result is undefined.""",
  ["inputs", "configurations"], "all grids (global/regional, ascending/descending, row/column major, masked), positions and constituent sets",
  "Tests probe a handful of positions on one unmasked ascending grid.",
  ["include/fes/tidal_model/cartesian.hpp", "include/fes/detail/math.hpp", "include/fes/axis.hpp", "include/fes/detail/grid.hpp"],
  [("Cartesian::interpolate", "include/fes/tidal_model/cartesian.hpp"), ("bilinear_interpolation", "include/fes/detail/math.hpp")])

p("C09", "Axis lookup brackets every coordinate and is periodic when circular",
  """For every regular axis, the two indexes returned for a coordinate are consecutive grid points
  that bracket it, found if and only if the coordinate lies within the axis (always, for a circular
  axis), and a circular axis treats coordinates 360 degrees apart alike. Coordinate and index
  accessors are mutually consistent, irregular or too short inputs are rejected, and a saved and
  restored axis compares equal and answers the same, while axes of different points do not compare
  equal.""",
  ["inputs"], "all regular axes (any start, step sign, length, circularity) x coordinates",
  "Tests enumerate a few hand-written axes.",
  ["include/fes/axis.hpp", "src/library/axis.cpp"],
  [("Axis::find_indices/find_index/ctor", "src/library/axis.cpp")])

p("C10", "Mesh search finds the enclosing triangle, or nothing beyond the search radius",
  """For every conforming triangle mesh and position, if the position lies inside a triangle the
  search returns a triangle that contains it. If it lies outside the mesh the search finds
  nothing unless the nearest mesh vertex is closer than the maximal distance, in which case it
  gives the point closest to the position on a triangle around that vertex (or closer);
  longitudes that differ by 360 degrees are equivalent, and saving and restoring the index changes
  nothing.""",
  ["inputs"], "all well-shaped meshes (any location, including across the date line), positions, radii",
  "Tests search a few positions in one mesh.",
  ["include/fes/mesh/index.hpp", "src/library/mesh/index.cpp", "include/fes/geometry/triangle.hpp", "src/library/geometry/triangle.cpp"],
  [("Index::search", "src/library/mesh/index.cpp"), ("Triangle::covered_by", "src/library/geometry/triangle.cpp")])

p("C11", "Finite-element models reproduce polynomial fields on their mesh",
  """A finite-element model of degree one (two) whose nodal values sample a field linear (quadratic)
  in longitude and latitude returns that field everywhere inside the mesh and the stored value
  at a vertex; outside, within the search radius, it returns the value at the closest point of the
  mesh, and it is undefined elsewhere. The result at
  a point never depends on the points evaluated before with the same accelerator, nor on the
  360-degree convention of its longitude, and it is flagged undefined when it is not finite.""",
  ["inputs", "histories"], "all meshes, polynomial fields, evaluation sequences, for both element degrees",
  "Tests evaluate few points of one LGP2 mesh; LGP1 is barely exercised and caches are history-dependent.",
  ["include/fes/tidal_model/lgp.hpp", "include/fes/geometry/triangle.hpp", "src/library/mesh/index.cpp"],
  [("LGP::interpolate, accelerator cache", "include/fes/tidal_model/lgp.hpp"), ("calculate_beta", "include/fes/tidal_model/lgp.hpp")])

p("C12", "Saved and restored models, axes and mesh indexes behave identically",
  """For every tidal model (grid or mesh), axis and mesh index, saving then
  restoring yields an object that behaves identically: same predictions bit for bit, same
  constituents, same dynamic list, same settings. The restored model also accepts further
  constituents exactly as the original would, and saving it again yields the same state.""",
  ["inputs", "histories"], "all models x operation sequences applied after the round trip",
  "Tests round-trip one instance and compare a few attributes.",
  ["include/fes/detail/serialize.hpp", "include/fes/detail/isviewstream.hpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp", "src/library/axis.cpp", "src/library/mesh/index.cpp"],
  [("getstate/setstate", "include/fes/tidal_model/*.hpp, src/library/axis.cpp, src/library/mesh/index.cpp, src/library/wave/table.cpp")])

p("C13", "Corrupt saved states are rejected or safely usable, never memory errors",
  """Restoring a model, axis or index from an arbitrary, truncated or altered byte string
  either throws a standard exception or yields an object that can be used (queried, evaluated, saved
  again) without invalid memory access, undefined behaviour or endless loop. Every strict prefix of a
  valid state is rejected.""",
  ["inputs", "fault_sequences"], "all byte strings; in particular mutations and truncations of valid states",
  "Tests feed one hand-made invalid string.",
  ["include/fes/detail/serialize.hpp", "include/fes/detail/isviewstream.hpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp", "src/library/axis.cpp", "src/library/mesh/index.cpp"],
  [("detail::serialize::read*, setstate", "include/fes/detail/serialize.hpp")])

p("C14", "Admittance infers exactly the documented minor waves, linearly",
  """Inferring minor constituents from the major ones gives each minor wave the documented linear
  (diurnal, semi-diurnal) or spline combination of its major waves, whatever their values. It never
  alters a wave that was not flagged as inferred, repeating it changes nothing, and it is
  refused on tables that lack a wave it involves.""",
  ["inputs"], "all complex values of the majors x sets of waves flagged as inferred",
  "One test checks one complex value for all waves.",
  ["src/library/wave/table.cpp", "include/fes/wave/table.hpp"],
  [("Table::admittance", "src/library/wave/table.cpp")])

p("C15", "Long-period equilibrium tide follows its potential; dynamic waves not twice",
  """The long-period equilibrium tide at any date and latitude equals the sum of the tabulated
  second and third degree potential lines with the documented Love-number factors. Disabling the
  lines of constituents provided dynamically removes exactly those lines, independently of the order
  and repetition of the waves, and of what was computed before, and does not affect other instances.""",
  ["inputs", "configurations", "histories"], "all dates, latitudes, and sets of dynamic long-period waves",
  "Tests pin single values for a single wave table.",
  ["src/library/wave/long_period_equilibrium.cpp", "include/fes/wave/long_period_equilibrium.hpp"],
  [("LongPeriodEquilibrium::lpe_minus_n_waves/disable_dynamic_wave", "src/library/wave/long_period_equilibrium.cpp")])

p("C16", "Harmonic analysis recovers the constants that generated a signal",
  """For every well-conditioned set of waves and sampling, the harmonic analysis of a
  signal predicted from known complex constants returns those constants; the analysis is linear in
  the signal. Non-finite data yield not-a-number results and inconsistent dimensions are rejected.""",
  ["inputs"], "all wave sets, samplings, constants",
  "A test analyses a single stored signal.",
  ["src/library/wave/table.cpp", "include/fes/wave/table.hpp"],
  [("Table::harmonic_analysis", "src/library/wave/table.cpp")])

p("C17", "Tide synthesis and nodal modulations agree and leave the table unchanged",
  """Tide synthesis for a series of dates equals the harmonic sum of the table's waves with their
  nodal modulations at each date, and synthesis over a mapping of constants equals, at each point,
  the same sum with this point's constants; the nodal modulations given for series are those
  of the individual dates. Results do not depend on thread count, concurrent use or previous calls,
  and computing them never changes the constants stored in the caller's table.""",
  ["inputs", "schedules", "histories"], "all tables, constants, epoch series, leap seconds, thread counts, call sequences",
  "Tests check one series with default threads and never look at the caller's table afterwards.",
  ["src/library/wave/table.cpp", "include/fes/wave/table.hpp", "include/fes/detail/thread.hpp"],
  [("Table::tide_from_tide_series/tide_from_mapping/compute_nodal_modulations", "src/library/wave/table.cpp")])

p("C18", "Parallel loops cover every index exactly once and propagate failures",
  """A parallel loop over any number of items with any number of threads calls its worker on disjoint
  ranges whose union is exactly the item range, and returns only when all the work is finished. If a
  worker throws, the caller gets one of the exceptions thrown after all workers have stopped, and
  the process neither terminates nor hangs; an empty loop does nothing and succeeds.""",
  ["inputs", "schedules", "fault_sequences"], "all sizes x thread counts x sets of failing workers x interleavings",
  "Tests use one size and one failing worker.",
  ["include/fes/detail/thread.hpp"], [("detail::parallel_for", "include/fes/detail/thread.hpp")])

p("C19", "Model constituents, dynamic and excluded waves combine as documented",
  """A constituent of the model that is excluded by the settings is handled as if the model did not
  provide it: inferred by admittance when it can be, else dropped from the short-period tide or left
  to the equilibrium tide (major waves excluded still serve to infer the minor ones). Constituents
  provided by the model or declared dynamic are neither inferred nor counted in the equilibrium tide. Declaring or adding constituents in a different
  order gives the same tide up to rounding. The identifiers of a model are those of the constituents
  it was given, and clearing a model makes it forget them.""",
  ["inputs", "configurations"], "all subsets of model constituents x dynamic lists x excluded sets",
  "Tests use the complete list only and one excluded wave.",
  ["include/fes/tide.hpp", "include/fes/abstract_tidal_model.hpp", "src/library/wave/long_period_equilibrium.cpp"],
  [("build_wave_table", "include/fes/tide.hpp"), ("AbstractTidalModel::dynamic", "include/fes/abstract_tidal_model.hpp")])

p("C20", "Angle and interpolation helpers satisfy their mathematical definitions",
  """Normalising an angle returns the congruent angle of the requested half-open interval for any
  finite angle and period; the remainder, power, unit conversion, sine/cosine and horizontal/vertical
  weight helpers equal their definitions up to rounding. Interpolation weights are non-negative and
  sum to one within a cell and missing data are left out of weighted means.""",
  ["inputs"], "all finite arguments, including boundaries, tiny negatives and huge magnitudes",
  "Tests evaluate a few values.",
  ["include/fes/detail/math.hpp", "include/fes/detail/broadcast.hpp", "include/fes/detail/grid.hpp"],
  [("normalize_angle, remainder, pow, horner, bilinear", "include/fes/detail/math.hpp")])

p("C21", "The time tolerance bounds the staleness of the astronomic angles",
  """With a time tolerance, a prediction uses astronomic angles computed for a date at most that
  tolerance away from the requested one, and with a zero tolerance exactly those of the requested
  date. Angles are reused only under that condition whatever the sequence of dates (forward,
  backward, jumping), so the predicted tide is the one of the date the angles were computed for.""",
  ["histories", "configurations"], "all sequences of epochs x tolerances",
  "Tests use a zero tolerance or a single pair of dates.",
  ["include/fes/abstract_tidal_model.hpp", "include/fes/tide.hpp", "include/fes/settings.hpp"],
  [("Accelerator::calculate_angle", "include/fes/abstract_tidal_model.hpp")])

p("C22", "Geodesic and triangle geometry is consistent",
  """Converting a geographic position to Earth-centred coordinates gives the WGS84 ellipsoid point
  and distances are symmetric, non-negative and zero only for coincident points, whatever
  longitude convention is used. A triangle contains its vertices and every interior
  combination of them and no point well outside, its reference coordinates invert the
  affine map from the unit triangle, and its vertex order does not matter for containment.""",
  ["inputs"], "all positions and non-degenerate triangles, including across the date line",
  "Tests check a few points and one triangle.",
  ["include/fes/geometry/ecef.hpp", "include/fes/geometry/point.hpp", "include/fes/geometry/triangle.hpp", "src/library/geometry/triangle.cpp"],
  [("EarthCenteredEarthFixed, Triangle", "include/fes/geometry/*.hpp")])

p("C23", "Inconsistent arguments are rejected, valid ones are accepted",
  """Arguments with inconsistent sizes (dates, positions, leap seconds, model data, mesh tables,
  mappings), unknown constituent names or out of range indexes are rejected with an exception and
  never read outside the arguments or return numbers; a rejected call leaves the object usable and
  unchanged. Consistent arguments, including empty ones, are accepted.""",
  ["inputs", "histories"], "all size combinations of every array argument of the API, followed by valid calls",
  "Tests try one mismatch for a few functions.",
  ["include/fes/detail/broadcast.hpp", "include/fes/tide.hpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp", "include/fes/wave/table.hpp", "src/library/wave/table.cpp"],
  [("detail::check_eigen_shape and ctor checks", "include/fes/detail/broadcast.hpp")])

p("C24", "Leap seconds follow the installed table for every date, even offline",
  """For every UTC date from 1972 on, whatever the unit and the order of the dates, the number of leap
  seconds (TAI-UTC) is the last tabulated value in force at that date, constant after the last entry;
  earlier dates are refused with a ValueError. The bundled table holds the published leap seconds. An
  expired table is refreshed when possible; whenever and however the refresh fails (network errors, a
  server that does not answer, interrupted or unusable contents, a full disk), the installed table is
  left usable and is used, by this process and the next ones, and no conversion fails. The astronomic
  angles and the tide are computed with the leap seconds of their dates.""",
  ["inputs", "fault_sequences", "histories"], "all dates, arrays, units, tables, and histories of processes x download and disk faults",
  "The one test samples ten dates around one leap second, with a table that can be read.",
  ["src/python/pyfes/leap_seconds.py", "src/python/pyfes/astronomic_angle.py", "src/python/pyfes/__init__.py", "src/python/pyfes/data/leap-seconds.txt"],
  [("get_leap_seconds, _load_leap_second_file, _download_leap_second_file", "src/python/pyfes/leap_seconds.py")])

p("C25", "A configuration file loads exactly the model it describes",
  """For every valid configuration, each listed constituent is loaded from its own file or variables,
  with the amplitude and phase (in the units of the file) combined into the complex wave, undefined
  where either is, at the right grid point or node whatever the order of the dimensions, into a
  model of the kind, element degree, precision and tide type requested, with the requested axes, mesh,
  tolerances and dynamic constituents. Environment variables are expanded, recursively, in every
  value of the document. Configurations that are inconsistent (files on different grids, unknown
  keys, sections, types or constituents, missing files, variables or entries, undefined or recursive
  environment variables) are rejected.""",
  ["inputs", "configurations"], "all configuration trees x data grids x environments",
  "Tests load two fixed files and check nothing of their contents.",
  ["src/python/pyfes/config.py"], [("load, Cartesian/LGP loaders, _expand", "src/python/pyfes/config.py")])

p("C26", "The Python classes compute what the library does, by name",
  """For every table of constituents, the nodal modulations of a list of dates are those of the
  same dates in an array, for the formulae asked for. The dictionary form of the table pairs each
  constituent with its own frequency and analysed coefficient, and predicts the tide of a
  dictionary of coefficients, in any order, as that of the coefficients in the order of the table,
  refusing dictionaries that lack one. The settings hold the formulae, the tolerance and the
  excluded constituents they are given, in any letter case, and refuse unknown ones.""",
  ["inputs", "configurations"], "all tables x orders of the waves x dates x settings",
  "Tests exercise the extension module, not these classes.",
  ["src/python/pyfes/wave_table.py", "src/python/pyfes/__init__.py"],
  [("WaveTable, WaveDict", "src/python/pyfes/wave_table.py"), ("Settings, evaluate_tide", "src/python/pyfes/__init__.py")])

p("C27", "Converting FES meshes, then loading the result, keeps every wave",
  """For every set of FES finite element files on one mesh, the file written by the conversion
  holds every wave given, under its name in the library, amplitudes converted from metres to
  centimetres, undefined nodes included, and loading it as an LGP2 model gives back the mesh, the codes
  and the waves of the original files. Files on different meshes and unknown waves are refused, and
  the original files are not modified.""",
  ["inputs", "configurations"], "all sets of waves x meshes x fields",
  "No test covers the conversion.",
  ["src/python/pyfes/console_script/fes_convert_mesh.py", "src/python/pyfes/config.py"],
  [("main, load_mesh, load_data, WAVE_MAP", "src/python/pyfes/console_script/fes_convert_mesh.py")])

p("C28", "Python calls give what the library computes",
  """For every call of the extension module (dates, constituents, angles, waves and tables, series,
  mappings and analyses, long period equilibrium, axes, meshes, models, interpolation, tides,
  settings), with arguments by position, by name or by default, and arrays of any layout and compatible
  type, the result is that of the library for the same values: dates of any unit are the same
  instants, NaT gives undefined tides and leaves the other dates alone, formulae and other options are
  taken into account. Models restored by pickle give the same results. Arguments are not modified, and
  those that cannot be used (sizes that differ, arrays that are not dates, dates with a time zone,
  unknown names) raise an exception and never crash. Models loaded from a configuration file give
  the tides of the data in its files. Calls from several threads give the same results.""",
  ["inputs", "configurations", "schedules"], "all calls of the extension module x layouts of arrays x units of dates x models",
  "Tests of the extension module sample one grid and a few dates; it is not built here.",
  ["src/python/core", "include/fes/python/datemanip.hpp", "include/fes/python/datetime64.hpp", "src/python/pyfes/__init__.py"],
  [("evaluate_tide", "src/python/core/tide.cpp"), ("WaveTable", "src/python/core/wave/table.cpp"), ("npdatetime64_to_epoch", "include/fes/python/datetime64.hpp"),
   ("interpolate", "src/python/core/abstract_tide_model.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
