#!/usr/bin/env python3
"""Writes properties.jsonl (the single source for the property texts)."""
import json, os

S = "src/skspatial/"
O = S + "objects/"
ALL = [O + f for f in ("_base_array.py", "_base_line_plane.py", "_base_sphere.py", "vector.py", "point.py", "points.py",
                       "line.py", "line_segment.py", "plane.py", "circle.py", "sphere.py", "cylinder.py", "triangle.py")]
REST = [S + "_functions.py", S + "measurement.py", S + "transformation.py", S + "plotting.py"]

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe,
               "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


# --------------------------------------------------------------------------- decided by simulation
prop("C01", "Concurrent calls on shared objects each behave as if run alone",
     "Any number of threads may call any constructor, fit, query, measurement or transformation at the same time, on "
     "shared or private spatial objects and arrays that nobody modifies. Every call returns, or raises, exactly what "
     "the same call gives when it runs alone, however the threads interleave, and every thread finishes.",
     ["schedules", "inputs"],
     "all interleavings of 2 or more threads, all public operations except explicit in-place NumPy writes, all operands",
     "Every existing test is single-threaded: no schedule other than the sequential one is ever executed.",
     ALL + REST,
     [("operations keep intermediate values in locals and fresh arrays only", O + "vector.py"),
      ("no module-level or class-level mutable state", S + "_functions.py"),
      ("results are built by constructors from new arrays", O + "_base_array.py")],
     ["return values and exceptions of public calls"])
prop("C02", "No operation changes its receiver or arguments, not even temporarily",
     "Calling any operation (constructors, queries, projections, intersections, fits, measurements, transformations, "
     "rounding, plotting) leaves its receiver and every argument - spatial objects, arrays, lists, keyword values - "
     "with the values, types and attributes they had. This holds at every instant while the call is in progress, as "
     "seen by other threads, and also when the call raises or is aborted part-way; only explicit NumPy in-place "
     "operations requested by the caller write to an object.",
     ["schedules", "crash_points", "inputs"],
     "all operations and operands, at every instant of the call, completed, failed or aborted at any point",
     "Tests look at results only; no test compares the operands before and after, and none can look in mid-call or "
     "after an abort at an arbitrary instruction.",
     ALL + REST,
     [("ufunc expressions allocate results instead of writing out=", O + "vector.py"),
      ("2D arrays are copied on construction, 1D results are fresh", O + "_base_array.py"),
      ("rounding returns a new array", O + "_base_array.py")],
     ["operand values, dtypes, shapes and public attributes at every scheduling point"])
prop("C03", "A call aborted at any point leaves no trace and blocks nobody",
     "If a call is cut short at any instant (KeyboardInterrupt, task cancellation, a timeout raised from a signal "
     "handler, MemoryError), the abort reaches the caller and every later call - the same call retried, other calls on "
     "the same operands, calls from other threads - behaves exactly as if the aborted call had never been made. Other "
     "threads running at the time get their normal answers and finish.",
     ["crash_points", "schedules", "fault_sequences"],
     "every abort instant in every operation, every abort kind, any later calls, any concurrent threads",
     "No test aborts a call; reaching an arbitrary instant inside an operation needs control of execution that unit "
     "tests do not have.",
     ALL + REST,
     [("no operation publishes partial state on an object, class or module", O + "_base_line_plane.py"),
      ("attributes are assigned only by constructors", O + "_base_sphere.py")],
     ["exceptions and return values of the aborted, retried and concurrent calls"])
prop("C04", "A failed allocation or kernel surfaces as an error, never as an answer",
     "When memory allocation, the call stack, or a numerical kernel (singular value decomposition, least squares, "
     "linear solve, optimiser) fails inside an operation, the caller receives that error (or one that a third-party "
     "routine raised because of it), or else the very answer the fault-free call gives, with the same type. The failure is never turned into a different value, a "
     "degraded type, or a geometric verdict such as 'does not intersect'.",
     ["fault_sequences", "inputs"],
     "any operation, any operands, any one or more failing allocations / kernel calls / exhausted stack depth",
     "Tests never make an allocation, a LAPACK kernel or the stack fail; the error-handling code runs only on "
     "well-behaved geometric errors.",
     ALL + REST,
     [("result wrapping only tolerates shape/finite errors", O + "_base_array.py: __array_wrap__"),
      ("the quadratic solver's ValueError is the only error translated", O + "cylinder.py"),
      ("fits let LinAlgError propagate", O + "plane.py, line.py, circle.py, sphere.py")],
     ["value or exception of the faulted call"])
prop("C05", "A call nested inside another interrupted call disturbs neither",
     "While a call is in progress on a thread, the same thread may be interrupted at any instant by code that uses the "
     "library again (a signal handler, a garbage-collection finalizer, a lazily evaluated array_like, a progress "
     "callback), with the same or other operands. The nested call and the interrupted call each give exactly the "
     "result they give when run alone.",
     ["schedules", "inputs"],
     "every instant of every outer operation, every nested operation, nesting to any depth",
     "Tests never re-enter the library; thread-local or module-level scratch state would stay invisible to them.",
     ALL + REST,
     [("operations are re-entrant: no scratch buffers, no saved state", O + "vector.py")],
     ["return values and exceptions of outer and nested calls"])
prop("C06", "Process-wide and thread-wide settings are never altered",
     "No operation changes interpreter or NumPy settings the caller owns: warning filters and hooks, floating-point "
     "error handling, print options, random-number state, recursion limit, signal handlers, environment variables, "
     "locale, the garbage collector, matplotlib rc settings. Process-wide settings are untouched at every instant, "
     "thread-wide settings when the call ends, including calls that raise or are aborted anywhere and calls that "
     "overlap in other threads.",
     ["schedules", "crash_points", "configurations"],
     "all operations, any caller configuration, any interleaving, any abort instant",
     "A past release had exactly this defect (warnings filter left changed, fixed in 6.0.1); tests do not compare "
     "settings, and restore-on-exit code breaks only under overlap or abort.",
     ALL + REST,
     [("no code touches warnings, seterr, print options or RNG", O + "_base_array.py")],
     ["fingerprint of the settings at every scheduling point and at call end"])
prop("C07", "Answers depend only on current operand values, never on history",
     "The result of a call is determined by the values its operands hold at the time of the call: not by which calls "
     "were made before in the process, in what order, how often, or on which other objects. After coordinates are "
     "changed in place, every later query reflects the new values; changing an array returned by an earlier "
     "computation changes no later answer (constructors, views and accessors that hand out their operand's own array "
     "are exempt).",
     ["histories", "inputs"],
     "all sequences of operations, in-place coordinate updates, object creations and deletions",
     "Tests make one or two calls on fresh objects; stale caches, reused identities and leaked state need longer "
     "mixed histories.",
     ALL + REST,
     [("no memoisation; direction/normal/vector are the same array object", O + "line.py, plane.py"),
      ("derived quantities are recomputed on each call", O + "triangle.py, cylinder.py")],
     ["return values against a history-free evaluation in a pristine process"])
prop("C08", "Arrays under construction are valid whatever happens to their source",
     "Building a spatial object from sequences or lazily evaluated array_likes that other threads modify, or that fail "
     "or come up short while they are being read, either raises or yields a valid object. Valid means: every "
     "coordinate finite and actually held by the source at some time, the right number of axes, not empty, consistent "
     "dimensions, not degenerate in a way the constructor rejects; and once built, an object never follows later changes of a source that is not itself a NumPy array or "
     "memory buffer (Points never follows its source at all).",
     ["schedules", "fault_sequences", "inputs"],
     "all interleavings of construction with writers to the source, all read faults, all public constructors",
     "Tests construct from constant lists; validate-then-read-again errors need the source to change in between.",
     [O + "_base_array.py"] + ALL[1:],
     [("each input is converted once and validated on the converted array", O + "_base_array.py"),
      ("Points copies its input", O + "_base_array.py: _BaseArray2D")],
     ["the constructed object; the exception"])
prop("C09", "An array object's dimension always matches its current shape",
     "At every moment of any history of NumPy operations - slicing, views, reshaping in place, resizing, arithmetic, "
     "reductions, copying, pickling, transposing, stacking, interrupted or not - a Point or Vector that is alive "
     "reports as its dimension its own current size, and a Points its own current width. What a history yields as a "
     "1D Point or Vector or 2D Points keeps working with every method accordingly.",
     ["histories", "crash_points"],
     "all histories of NumPy and library operations on array objects, any abort instant, several live views at once",
     "The tests check one slice (the 6.4.1 fix); before this work, unpickled objects reported dimension 0 and in-place "
     "reshapes left a stale value with all tests passing.",
     [O + "_base_array.py"],
     [("dimension is derived from the array, not stored", O + "_base_array.py")],
     ["the dimension attribute of every live object after each step"])
prop("C10", "Saved, copied and restored objects are indistinguishable from originals",
     "A spatial object, of a class of the library or of one derived from it, that is pickled (any protocol), deep-copied or sent to another process, at any point of its "
     "life and with a crash right after, comes back with the same type, values, dtypes (up to byte order) and public attributes, answers "
     "every query the same, and evolves the same under later in-place updates, independently of the original. A save "
     "that was cut short or aborted never yields an object, and never disturbs the one being saved.",
     ["crash_points", "histories", "fault_sequences"],
     "all objects, histories before and after the checkpoint, pickle protocols 0-5, truncated writes, aborts, restarts",
     "No test copies or pickles anything; before this work unpickled points had dimension 0 and their queries failed.",
     ALL,
     [("objects hold plain arrays and attributes only; dimension is derived", O + "_base_array.py"),
      ("vector and direction/normal are one array", O + "line.py, plane.py")],
     ["restored objects in a fresh process compared to a twin that never crashed"])
prop("C11", "The core works without matplotlib; plotting recovers once it appears",
     "Importing the package and running every non-plotting operation works, and never tries to load matplotlib, "
     "whether matplotlib is missing, broken or present. While matplotlib cannot be imported the plotting helpers that need it raise "
     "ImportError (naming the 'plotting' extra when the plotting module is imported) and change nothing; as soon as "
     "it can be imported, plotting works in the same process.",
     ["fault_sequences", "configurations", "histories"],
     "all sequences of imports, operations and plot attempts with import failures switching on and off at any "
     "submodule",
     "matplotlib is installed wherever the tests run, so neither its absence nor its later arrival is ever exercised.",
     [S + "plotting.py", S + "__init__.py", O + "__init__.py"] + ALL,
     [("plotting imports happen inside the plotting methods", O + "point.py"),
      ("plotting module converts the ImportError", S + "plotting.py")],
     ["import outcomes, sys.modules, results of operations"])
prop("C12", "Plotting touches only the axes it is given; plotters are reusable",
     "Each plot_2d/plot_3d method and each function returned by plotter() draws its object on exactly the axes passed "
     "to it, the same artists every time it is called, whatever the current pyplot figure or axes is, however often, "
     "from whichever thread and after whatever drawing failures. plot_2d() and plot_3d() draw all given plotters, in "
     "order, on one new figure each and return it; existing figures, axes and the objects are never changed, and an "
     "error from the backend or from a plotter reaches the caller.",
     ["schedules", "histories", "fault_sequences"],
     "all objects, keyword arguments, interleavings of drawing calls, current-figure changes, drawing failures",
     "Plotting is only executed by doctests that draw one object on one figure; nothing checks which axes received "
     "what, repeated use, or failures. Before this work LineSegment.plotter() raised AttributeError.",
     [S + "plotting.py", O + "_base_spatial.py"] + ALL,
     [("methods call methods of the passed axes, never pyplot state", S + "plotting.py"),
      ("plotter() closes over the object and its keywords", O + "_base_spatial.py")],
     ["artists on every axes, pyplot figure registry"])

prop("C13", "However long a process runs, calls leave nothing behind that grows",
     "Public operations (constructors, queries, projections, intersections, fits, measurements, transformations, NumPy operations "
     "on the objects, making plotters) can be repeated without end: once their results and operands have been dropped and "
     "garbage has been collected, nothing is left whose amount grows with the number of calls made - no memory, no entry "
     "in a container of the library, no thread, open file, exit function, finalizer, warning filter or module. This holds "
     "for calls that return, raise, are aborted part-way or meet a failing numerical routine, on always the same or on "
     "ever new values, from one or several threads. A cache is allowed if its size is bounded (at most 8,192 entries) and what it "
     "holds is, too.",
     ["histories", "crash_points", "schedules"],
     "all operations and operands, all numbers of repetitions, every abort instant, failures of numerical routines, two threads",
     "Tests make each call once or a few times; whatever is kept per call is invisible until a process has made "
     "thousands of calls, and on the paths of failed or aborted calls it takes a fault to be kept at all.",
     ALL + REST,
     [("no module-level or class-level container is written to", S + "_functions.py"),
      ("objects refer to their arrays only; nothing refers back to objects", O + "_base_array.py"),
      ("results are new objects owned by the caller alone", O + "_base_line_plane.py")],
     ["allocated memory, library containers and process resources between rounds of calls"])

# --------------------------------------------------------------------------- pure functions: not applicable
PURE = "Only sampled at hand-picked inputs; the claim ranges over all real inputs."


def pure(id, title, statement, text, files, mech, observe):
    prop(id, title, statement, ["inputs"], text, PURE, files, mech, observe)


pure("G01", "Vector metric operations satisfy their algebraic laws",
     "Norms, unit vectors, dot/cross products, cosine similarity and (signed) angles satisfy their defining identities "
     "up to rounding for all finite vectors: unit vectors have norm one, the cross product is perpendicular to both "
     "inputs, angles lie in range and are symmetric or antisymmetric as documented.",
     "all finite vectors of every supported dimension", [O + "vector.py"], [("vector formulas", O + "vector.py")],
     ["return values"])
pure("G02", "Distances are metric and agree between scalar, plural and signed forms",
     "Point, line, plane, circle and sphere distances are non-negative, zero exactly on the object, equal to the "
     "distance to the projection, symmetric where both sides are objects, and the plural and signed variants agree "
     "with the scalar one row by row.",
     "all finite points and objects", ALL, [("distance_* methods", O + "line.py, plane.py")], ["return values"])
pure("G03", "Projections land on the target, are idempotent and nearest",
     "Projecting a point or vector onto a line, plane, circle or sphere gives an element of that object, projecting "
     "again changes nothing, and no other element is nearer; projecting a line onto a plane gives a line in the plane.",
     "all finite points, vectors, lines and targets", ALL, [("project_* methods", O + "plane.py")], ["return values"])
pure("G04", "Intersections lie on both objects and errors mean there is none",
     "A returned intersection (line, plane, circle, sphere, cylinder, segment) lies on both operands up to rounding, "
     "all intersection points are returned, and the documented error is raised exactly when no (unique) intersection "
     "exists.",
     "all pairs of objects", ALL, [("intersect_* methods", O + "line.py, circle.py, cylinder.py")], ["return values"])
pure("G05", "Comparison predicates agree with the geometry and their tolerances",
     "contains_point, is_close, is_parallel, is_perpendicular, side_point, are_collinear/coplanar/concurrent and "
     "is_point_within return what the geometry and the tolerance keywords dictate, invariantly under rigid motion, "
     "scaling and reordering of the inputs.",
     "all objects and tolerances", ALL, [("predicates", O + "points.py, vector.py")], ["return values"])
pure("G06", "Best fits recover exact data and are least-squares optimal",
     "Fitting a line, plane, circle, sphere or cylinder to points sampled exactly from one recovers it; otherwise the "
     "result minimises the documented error, which is invariant under permutation of the points, and degenerate input "
     "raises the documented error.",
     "all point sets", [O + f for f in ("line.py", "plane.py", "circle.py", "sphere.py", "cylinder.py")],
     [("best_fit", O + "cylinder.py")], ["return values"])
pure("G07", "Measures of triangles, polygons, tetrahedra and solids are consistent",
     "Areas, volumes, perimeters and lengths agree with each other (triangle method vs. measurement function, signed "
     "vs. absolute area, lateral plus cap area), are invariant under rigid motion and scale with the right power.",
     "all finite vertices and sizes", [S + "measurement.py", O + "triangle.py", O + "sphere.py", O + "cylinder.py"],
     [("measurement functions", S + "measurement.py")], ["return values"])
pure("G08", "Triangle parts are consistent",
     "Interior angles sum to pi, side lengths match the vertices, altitudes are perpendicular to the opposite side and "
     "meet in the orthocenter, the centroid is the vertex mean, and classification agrees with side lengths.",
     "all non-degenerate triangles", [O + "triangle.py"], [("Triangle methods", O + "triangle.py")], ["return values"])
pure("G09", "Coordinate transformations and centring are exact linear maps",
     "transform_points/transform_coordinates, mean_center, normalize_distance and set_dimension are the documented "
     "affine maps: origin to zero, basis coefficients recovered, centroid at zero, distances at most one, padding with "
     "zeros.",
     "all point sets, origins and bases", [S + "transformation.py", O + "points.py", O + "line.py"],
     [("transform_coordinates", S + "transformation.py")], ["return values"])
pure("G10", "Constructors reject exactly the degenerate inputs",
     "Every constructor and alternative constructor accepts all non-degenerate input of the right dimensions and "
     "raises the documented ValueError for every degenerate one (zero vector, non-positive radius, equal endpoints, "
     "collinear or coplanar points, empty, non-finite or wrongly shaped arrays, mixed dimensions).",
     "all inputs", ALL, [("__init__/__new__ checks", O + "_base_array.py")], ["exceptions"])
pure("G11", "Mesh and surface points lie on their object",
     "Every point produced by to_mesh/to_points of a plane, sphere or cylinder lies on its surface up to rounding and "
     "the mesh spans the documented limits.",
     "all objects and resolutions", [O + "plane.py", O + "sphere.py", O + "cylinder.py"],
     [("to_mesh", O + "cylinder.py")], ["return values"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
