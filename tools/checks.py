"""Registry of the checks: harness programs, numbers of cases (quick, thorough)."""
A = "asan"
CHECKS = {
    "C01": dict(parts=[dict(harness="c01.cpp", flavour=A, cases=(6000, 120000))],
                note="sampled names, near-misses and subsets against the enumeration of the header; exhaustive over the 75 names in practice",
                rule="a name/identifier (any letter case), a near-miss string, or a subset and order of names building a table; "
                     "non-trivial: case changed, unknown name, or a sparse table"),
    "C02": dict(parts=[dict(harness="c02.cpp", flavour="opt", cases=(300000, 5000000))],
                note="random and singular dates over 1669-2271 against long double formulae; accuracy of the reference itself is trusted",
                rule="a date (midnights, recent, fractional, far, or solved for N, s, h, p, P at a multiple of 90 degrees), leap seconds and formulae, "
                     "or a history of dates; non-trivial: not the epoch itself / a history of several dates"),
    "C03": dict(parts=[dict(harness="c03.cpp", flavour="opt", cases=(100000, 4000000))],
                note="all constituents, random dates and time steps, against published mean motions; tolerance 1e-8 rad plus the secular terms",
                rule="a constituent with a date, time step and formulae, or a time span and factor (half of them near the threshold of a wave); "
                     "non-trivial: non-zero step / a selection that keeps some waves and not others"),
    "C04": dict(parts=[dict(harness="c04.cpp", flavour="opt", cases=(100000, 4000000))],
                note="all constituents at random dates against an independent transcription of the published table (trusted), and compound tides "
                     "against the sum (product) of the corrections of their components (MSf, MP1 and 2MN2 excepted)",
                rule="a constituent or a table, dates (up to 5 in a row), formulae; non-trivial: every single-wave case, and tables that are sparse or reused"),
    "C15": dict(parts=[dict(harness="c15.cpp", flavour="opt", cases=(30000, 1500000))],
                note="random dates, latitudes and sets of dynamic waves against an independent evaluation of the potential table (copied from the published one)",
                rule="dates, latitude, a set of dynamic waves given at once, repeatedly or one after the other; non-trivial: at least one dynamic wave "
                     "(two when given in sequence) or a latitude off the equator"),
    "C05": dict(parts=[dict(harness="c05.cpp", flavour=A, cases=(12000, 400000))],
                note="random models (grids and meshes, float and double, masked, any constituents) against the harmonic sum in long double; the values "
                     "of the constituents at a position are those the model interpolates (decided by C08, C11), the rest is independent",
                rule="a random model, its dynamic list, 1 to 6 dates and positions; non-trivial: the model has at least one constituent"),
    "C09": dict(parts=[dict(harness="c09.cpp", flavour=A, cases=(400000, 10000000))],
                note="random axes (dyadic, arbitrary, circular, nearly circular, wrapped conventions) against positions in long double; either cell is accepted within rounding of a node",
                rule="an axis with 10 coordinates (inside, nodes and their neighbours, half steps, outside, 360 degrees apart), non-finite coordinates, or an irregular "
                     "list of points; non-trivial: more than two points (for rejections: not merely too short)"),
    "C08": dict(parts=[dict(harness="c08.cpp", flavour=A, cases=(100000, 3000000))],
                note="random grids (regional, circular, both directions and storage orders, masked per node or per wave, float and double) against the renormalised "
                     "bilinear mean in long double; within rounding of a cell edge either cell is accepted",
                rule="a grid in its 8 storage variants and 6 positions (cells, nodes, next to nodes, outside, other longitude conventions), or non-finite positions; "
                     "non-trivial: the model has at least one constituent"),
    "C18": dict(parts=[dict(harness="c18.cpp", flavour=A, cases=(20001, 600000), timeout=20),
                       dict(harness="c18.cpp", flavour="tsan", cases=(4000, 150000), timeout=20)],
                note="random sizes, thread counts, processor counts, failing workers, failing thread creations and pauses, under AddressSanitizer and ThreadSanitizer; "
                     "schedules are those the system and the pauses give, not enumerated",
                rule="a loop (size up to 2^60, threads, reported processors, failing workers, thread whose creation fails, pauses), two loops at once, nested loops; "
                     "non-trivial: several items and not one thread"),
    "C06": dict(parts=[dict(harness="c06.cpp", flavour=A, cases=(6000, 200000)),
                       dict(harness="c06.cpp", flavour="tsan", cases=(1500, 40000))],
                note="random models and batches compared bit for bit with each point alone, other orders, thread counts and concurrent callers; data races by ThreadSanitizer on "
                     "the schedules that occur; points on an edge of a mesh are compared up to rounding",
                rule="a random model and a batch (repeated positions, dates and leap seconds), a long series, successive calls on one or two models compared with each call alone, or 2 to 4 concurrent callers; non-trivial: at least two points and one constituent"),
    "C07": dict(parts=[dict(harness="c07.cpp", flavour="opt", cases=(20000, 1000000))],
                note="random models and batches with exactly representable amplitudes; scaling, combinations and the sum over the constituents, up to rounding",
                rule="a random model, two sets of amplitudes and two factors, 1 to 5 points; non-trivial: at least one constituent"),
    "C19": dict(parts=[dict(harness="c19.cpp", flavour="opt", cases=(30000, 1500000))],
                note="random subsets of provided, dynamic and excluded waves against the documented rules in long double, and against models without the waves; a wave both "
                     "provided, excluded and dynamic is not generated (the documentation does not settle it)",
                rule="a random model with its dynamic and excluded waves, 1 to 4 points; non-trivial: at least one excluded or dynamic wave (order: two constituents)"),
    "C21": dict(parts=[dict(harness="c21.cpp", flavour="opt", cases=(100000, 3000000))],
                note="random sequences of dates and tolerances; the angles and the tide must be, bit for bit, those of a requested date within the tolerance",
                rule="a sequence of 1 to 12 dates (forward, backward, jumping, back near a previous one), leap seconds and a tolerance; non-trivial: at least two dates"),
    "C10": dict(parts=[dict(harness="c10.cpp", flavour=A, cases=(60000, 2500000))],
                note="random meshes (structured, refined, around the globe, across the antimeridian, with holes) with edges above some 100 m, away from the poles; positions within "
                     "rounding of an edge may go to either side; closest points within 1000 km, up to 0.2 % (great circles against geodesics)",
                rule="a mesh and 1 to 6 positions (in a triangle, on edges and vertices, around, anywhere) with radii around the distance of the nearest vertex; "
                     "non-trivial: at least one position is found"),
    "C11": dict(parts=[dict(harness="c11.cpp", flavour=A, cases=(80000, 3000000))],
                note="random meshes, node numberings, polynomial fields or arbitrary nodal values (some masked) against the polynomial and the Lagrange basis in long double, in the "
                     "triangle given by the search (C10); sequences of positions with one accelerator",
                rule="a mesh, its nodes, 1 to 4 constituents and 1 to 8 positions; non-trivial: at least one position is on the mesh or within the radius"),
    "C12": dict(parts=[dict(harness="c12.cpp", flavour=A, cases=(30000, 1000000))],
                note="random models of every kind, axes and mesh indexes; the restored object must answer as the original, bit for bit (positions on an edge of a mesh up to rounding), "
                     "and save the same bytes",
                rule="a random object and positions, dates, searches on and around it; non-trivial: the object has data and at least one position is on it"),
    "C13": dict(parts=[dict(harness="c13.cpp", flavour=A, cases=(60000, 2500000))],
                note="valid states of every kind of object altered (bytes, sizes, numbers, cuts, insertions, splices), truncated or arbitrary, under AddressSanitizer and "
                     "UndefinedBehaviorSanitizer; whatever is accepted is used (searches, interpolations, tides, new constituents), saved and restored again",
                rule="a valid state and 1 to 4 alterations, its prefixes, or arbitrary bytes, or a history of reads and moves in the stream of bytes against an offset; non-trivial: the bytes are not those of the valid state"),
    "C14": dict(parts=[dict(harness="c14.cpp", flavour=A, cases=(60000, 2500000))],
                note="random complex values of every wave and random flags against the published combinations in long double; repeated, in sequence in one table, and on random "
                     "sparse tables",
                rule="a table (complete or sparse), values of its waves and the waves flagged as inferred; non-trivial: at least one inferred wave, or a sparse table"),
    "C16": dict(parts=[dict(harness="c16.cpp", flavour=A, cases=(40000, 1500000))],
                note="random well-conditioned systems (real tables over 40 h to 3.4 years, regular, irregular, with gaps; random phases); constants, orthogonality of the residual, "
                     "linearity up to the condition number; ill-conditioned systems (condition above 1e4) are not generated",
                rule="waves, samples and constants, with noise or not, undefined data, sizes that agree or not; non-trivial: several waves"),
    "C17": dict(parts=[dict(harness="c17.cpp", flavour=A, cases=(30000, 1000000)), dict(harness="c17.cpp", flavour="tsan", cases=(8000, 250000))],
                note="random tables, dates, constants and sequences of calls against the harmonic sum in long double; the table of the caller is compared before and after; "
                     "concurrent callers under ThreadSanitizer on the schedules that occur",
                rule="a table, 1 to 4 calls (modulations, series, mapping) one after the other or at the same time; non-trivial: a table with waves and at least one date or point"),
    "C20": dict(parts=[dict(harness="c20.cpp", flavour=A, cases=(1000000, 40000000))],
                note="random angles (around the bounds of the circle, tiny, huge), cells, samples and integers against long double; comparisons within an epsilon are not "
                     "checked at the rounding of the epsilon itself",
                rule="the arguments of one helper; non-trivial: outside the circle, negative, or with undefined samples, according to the helper"),
    "C22": dict(parts=[dict(harness="c22.cpp", flavour=A, cases=(400000, 15000000))],
                note="random positions and triangles (up to 16 degrees, any longitude convention, across the antimeridian, at the equator) against WGS84 and great circles in "
                     "long double; positions within 0.2 to 3 % of an edge (great circles against geodesics) may go to either side; geodesic distances are zero below 10 cm (Boost)",
                rule="positions, or a triangle and a position in or around it; non-trivial: away from the edges of the triangle, distinct positions"),
    "C23": dict(parts=[dict(harness="c23.cpp", flavour=A, cases=(150000, 5000000))],
                note="random combinations of sizes of the arguments of every call of the API, names, indexes, axes and meshes, some of them inconsistent, followed by valid calls, "
                     "under AddressSanitizer; null models and indexes are not generated",
                rule="the arguments of 1 to 4 calls of one object; non-trivial: at least one call must be rejected"),
    "C24": dict(parts=[dict(harness="c24.py", cases=(4000, 90000))],
                note="histories of up to 4 processes over generated tables, network and disk faults (a stand-in network below urllib's opener, a limit on the size of files), "
                     "dates near the entries of the tables in every unit, against a list of tables; the extension module is a stand-in",
                rule="a history of processes, or conversions with the bundled or a generated table, or a call that needs leap seconds; "
                     "non-trivial: a refresh that succeeds or fails / several dates / a table of more than two entries"),
    "C25": dict(parts=[dict(harness="c25.py", cases=(24000, 900000))],
                note="generated configurations, environments and files (up to 7x7 grids, small meshes, masks, units, layouts) against the description they are written from; "
                     "netCDF4 and the extension module are stand-ins that keep what they are given, with the checks of their constructors",
                rule="a configuration, valid, damaged in one known way, or over files that differ in one known way; non-trivial: environment variables, several sections or waves, "
                     "or a damage"),
    "C26": dict(parts=[dict(harness="c26.py", cases=(100000, 3000000))],
                note="the Python classes over a stand-in of the extension module that keeps its arguments; the bindings themselves (pybind11) cannot be built here",
                rule="a table and the arguments of one method; non-trivial: several waves or dates"),
    "C27": dict(parts=[dict(harness="c27.py", cases=(16000, 500000))],
                note="generated meshes and waves written, converted and loaded again through stand-ins of netCDF4 and of the extension module",
                rule="a set of files of one mesh, or with one file that does not fit; non-trivial: several waves"),
    "C28": dict(parts=[dict(harness="c28.py", extension="c28_direct.cpp", cases=(24000, 900000))],
                note="the sources of the extension module, compiled under AddressSanitizer and UndefinedBehaviorSanitizer with a stand-in for pybind11 on the API of CPython "
                     "(harness/shim; conversions of arguments and arrays are therefore those of the stand-in), against the same calls of the library made from C++; models of a "
                     "configuration file (stand-in for netCDF4) against models made from its data",
                rule="a call, or a model and positions and dates; non-trivial: defined results of several values, or arguments that must be rejected"),
}
