"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Sequential tracing is the in-order composition of the leaf interfaces",
  "Tracing rays through a compound optic gives the rays obtained by applying, one after the other in depth-first item order, every non-skipped leaf interface's own interaction (reflect, refract from its incoming into its outgoing medium, deflect, or pass through) followed by its own obscuration. Tracing in reverse visits the same interfaces in exactly the opposite order with each interface's two media exchanged. Skipped items, with everything inside them, have no effect; the rays are transformed in place and end up expressed in the frame of the last interface visited. After clearObscuration exactly the interfaces named in its unless argument still vignette.",
  ["configurations", "inputs"], "every optic tree (any nesting of compounds and lenses, any interface kinds, frames, media, obscurations and skip flags), both directions, every input ray",
  "Tests trace a few shipped telescopes forward and compare with Zemax or with themselves; no test enumerates nestings, skip flags at every level and reverse order.",
  ["batoid/optic.py", "batoid/trace.py"],
  [("depth-first iteration over items, honouring skip and reverse", "batoid/optic.py CompoundOptic.trace"),
   ("one interaction per interface kind followed by obscure", "batoid/optic.py Interface.trace / interact")],
  [("optic tree", "nested items, skip flags, media and frames", "batoid/optic.py CompoundOptic.items")],
  ["final ray positions, velocities, times, flags and frame after trace()"])

p("C02", "Full trace history is a gap-free chain that agrees with tracing",
  "A full trace (distinct interface names, no explicit path) has exactly one entry per interface visited, in visiting order, under the interface's name; the first entry's incoming rays are the given rays, every later entry's incoming rays are the previous entry's outgoing rays, and the last outgoing rays equal the result of tracing. The given rays are left untouched and no recorded entry is altered by later steps. Global ray vertices computed from a history are the entry point and each exit point of the requested interval in the global frame, and the visible-vertex count of a ray is one plus the number of interfaces it left unvignetted.",
  ["configurations", "inputs", "histories"], "every optic tree with distinct interface names, both directions, all skip flags, all start/end intervals, all rays including vignetted and failed ones",
  "Tests compare the last entry of a few telescopes with trace(); aliasing between entries, intermediate links, reverse histories and vertex counts are never asserted.",
  ["batoid/optic.py", "batoid/rayVector.py"],
  [("threading of each entry's output into the next entry's input, tracing a copy", "batoid/optic.py Interface.traceFull, CompoundOptic.traceFull"),
   ("vertex extraction", "batoid/optic.py getGlobalRays")],
  None, ["the ordered history returned by traceFull()", "getGlobalRays() output"])

p("C03", "Path tracing visits the listed interfaces in order and turns where listed",
  "Tracing along an explicit list of interface names interacts exactly with the listed interfaces, in the listed order, skipped or not. With interfaces ranked by first appearance in the list, the travel direction at each step is set by whether the next listed interface ranks lower (reverse) or not (forward), the last step keeping its direction unless it returns to the first-ranked interface (reverse); where the direction changes the rays reflect and then meet the obscuration, elsewhere the interface's own interaction in that direction applies. The full history along a path gives the same final rays, one entry per visit keyed by name and visit number in visiting order, each chained to the previous one.",
  ["inputs", "configurations"], "every list of two or more interface names of an optic tree in which no name directly repeats, all skip flags and rays",
  "Tests trace a handful of two-reflection ghosts; the number of paths is exponential and the direction rule depends on the whole list.",
  ["batoid/optic.py"],
  [("nominal order and direction-change logic (implemented twice)", "batoid/optic.py CompoundOptic.trace(path=...) and traceFull(path=...)")],
  None, ["final rays of trace(path=...) and history of traceFull(path=...)"])

p("C04", "Split tracing enumerates every ghost path once with the product of coefficients",
  "Split tracing returns each distinct sequence of interface interactions that leaves the system, exactly once and on the side where it leaves, carrying the rays one gets by tracing that sequence and a flux equal to the input flux times the product of the reflection/transmission coefficients met. Rays that are vignetted or whose flux falls below the threshold after an interface are dropped there and appear in no output; no other ray is lost or duplicated. Without coatings that reflect, the forward output equals ordinary tracing of the unvignetted rays.",
  ["configurations", "inputs"], "every optic tree, coating assignment, flux threshold and direction, all rays",
  "Tests check one telescope for self-consistency of returned paths; completeness and uniqueness of the enumeration over nestings, mirrors and thresholds are never asserted.",
  ["batoid/optic.py", "batoid/trace.py", "src/batoid.cpp"],
  [("work queue over (rays, direction, position)", "batoid/optic.py CompoundOptic.traceSplit"),
   ("reflected/refracted pair with flux coefficients", "src/batoid.cpp rSplit")],
  [("work queue", "pending ray bundles with direction and item index", "batoid/optic.py CompoundOptic.traceSplit")],
  ["lists of ray vectors with their paths and fluxes"])

p("C05", "Ray status flags only ever rise and failed rays are inert",
  "Through any sequence of ray operations (intersect, reflect, refract, split, phase screen, obscure, whole-optic tracing) a ray that is vignetted stays vignetted, a ray that has failed stays failed, and a ray that fails is at the same moment vignetted. Once failed, no interaction changes a ray's time or flux again, revives it or moves it to a surface. Wavelength never changes, flux changes only by the coefficient of an applied coating, and frame changes, propagation and reads alter neither flags nor flux.",
  ["histories", "inputs"], "every finite sequence of ray operations on every ray population, including rays that start vignetted or failed and rays that miss or totally reflect",
  "Tests exercise single operations on healthy rays; flag monotonicity is a statement about arbitrary histories.",
  ["src/batoid.cpp", "batoid/rayVector.py", "batoid/obscuration.py", "batoid/optic.py"],
  [("failed/vignetted handling in each kernel loop", "src/batoid.cpp intersect/reflect/refract/rSplit/refractScreen/obscure")],
  [("vignetted, failed", "per-ray status", "batoid/rayVector.py")],
  ["flags, flux, time, wavelength after every operation"])

p("C06", "Intersection lands on the surface, on the ray's line, with matching elapsed time",
  "After a successful intersection the ray's point lies on the surface it was intersected with, on the straight line through its previous point along its velocity, its time advanced by exactly the distance travelled along that line divided by its speed, and its velocity unchanged. Intersection is idempotent: a ray already on the surface stays where it is, and on planes, paraboloids, spheres and quadrics the point reached does not depend on where along its line the ray began. (In a sum of surfaces the first addend carries the shape and the others correct it.) A ray whose line does not meet the surface is flagged failed and vignetted instead of being given a made-up point.",
  ["inputs", "configurations"], "every analytic surface type and parameter set, frame, starting point (before, behind or on the surface), direction and speed",
  "Tests use random rays aimed from one side with one or two parameter sets per surface; degenerate configurations (grazing, on-surface, parabolic conics, misses) are not sampled.",
  ["src/plane.cpp", "src/sphere.cpp", "src/paraboloid.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/surface.cpp", "src/tilted.cpp", "src/sum.cpp", "src/batoid.cpp"],
  [("closed-form or Newton time to intersection", "src/*.cpp timeToIntersect"),
   ("frame change, propagation and flagging", "src/batoid.cpp intersect")],
  None, ["positions, times, flags after intersect()"])

p("C07", "Reflection obeys the mirror law",
  "A reflected ray leaves from the intersection point with the component of its velocity along the true surface normal negated and the tangential component unchanged, so its speed, time and flux (without coating) are those at the intersection. Reflecting twice at the same point restores the original direction. The law does not depend on which side the ray arrives from or on the frame in which rays are expressed.",
  ["inputs", "configurations"], "every surface type and parameter set, frame, ray direction, side and speed",
  "Tests check the law at a few random rays per surface with batoid's own normals as the oracle.",
  ["src/batoid.cpp", "batoid/trace.py"],
  [("reflect kernel", "src/batoid.cpp reflect, rSplit")], None, ["velocities before and after reflect()"])

p("C08", "Refraction obeys Snell's law and total internal reflection fails the ray",
  "A refracted ray leaves from the intersection point in the plane of its incoming direction and the true surface normal, on the far side of the surface, with n1 sin(i) = n2 sin(r) and with speed 1/n2 at its own wavelength, where n1 is the inverse of its incoming speed. If n1 sin(i) exceeds n2 the ray is flagged failed and vignetted. The law is independent of the side of arrival and frame, and refracting back through the same interface restores the original direction.",
  ["inputs", "configurations"], "every surface type, pair of media (constant or dispersive), wavelength, frame, incidence angle and side, up to and beyond the critical angle",
  "Tests use random rays near normal incidence with one pair of media per test.",
  ["src/batoid.cpp", "src/medium.cpp", "batoid/trace.py"],
  [("refract kernel", "src/batoid.cpp refract, rSplit")], None, ["velocities and flags after refract()"])

p("C09", "Coordinate systems are rigid frames and transforms between them are inverses",
  "Shifting and rotating a coordinate system, globally or locally and about any centre given in any frame, always yields the rigid motion described, whatever the order and number of operations, and leaves the original system untouched. Transforming points, arrays or rays from one system to another preserves physical positions, distances, angles and times: forward then reverse is the identity, chaining A to B to C equals A to C, and scalar, array and ray forms agree. What a ray does at a surface does not depend on the frame it was expressed in.",
  ["histories", "inputs"], "every finite sequence of shift/rotate operations, every pair of resulting frames, every point or ray",
  "Tests apply a few random operations and compare with the same matrix formula; composition over histories and all centre/frame combinations are unbounded.",
  ["batoid/coordSys.py", "batoid/coordTransform.py", "batoid/rayVector.py", "src/batoid.cpp"],
  [("origin/rotation update", "batoid/coordSys.py"), ("relative transform", "batoid/coordTransform.py")],
  [("origin, rot", "rigid frame in global coordinates", "batoid/coordSys.py CoordSys")],
  ["origin and rot after every operation", "transformed points"])

p("C10", "Perturbing an optic moves exactly the named part and nothing else",
  "Shifting or rotating an optic or a named part of it (globally or locally, about any centre) returns a new optic in which every frame inside the named part has undergone that one rigid motion and every other part is unchanged. The original optic is never modified, and media, surfaces, obscurations, coatings, skip flags, names, stop surface and extra attributes carry over. Any sequence of such perturbations equals the sequential application of the corresponding rigid motions.",
  ["histories", "configurations", "inputs"], "every optic tree (including sibling names that are prefixes of one another), every name form, every sequence of perturbations",
  "Tests perturb a few named LSST parts once and compare traces; preservation of everything else over all trees and histories cannot be sampled by examples.",
  ["batoid/optic.py", "batoid/coordSys.py"],
  [("functional rebuild of the tree along the named branch", "batoid/optic.py with*Shift, with*Rotation, with*ShiftedOptic, withLocallyRotatedOptic")],
  [("frames of all parts", "coordSys of every node", "batoid/optic.py")],
  ["frames and attributes of every node before and after"])

p("C11", "Every part of a compound optic is reachable by its names, unambiguously",
  "Every part of a compound optic is found under its fully qualified dotted name, and also under any partial name (a trailing run of the dotted name) that fits exactly one part; lookup by any other string raises an error and never returns a different part. The mapping of fully qualified names lists every part exactly once. After any perturbation or structural edit the lookups describe the new optic.",
  ["configurations", "histories"], "every optic tree with sibling-distinct names, every candidate name, before and after edits",
  "Tests look up a few names in shipped telescopes; ambiguity and staleness over all trees are not covered.",
  ["batoid/optic.py"],
  [("cached full-name dictionary and short-name index", "batoid/optic.py CompoundOptic.itemDict, _names, __getitem__")],
  None, ["result or error of optic[name], itemDict"])

p("C12", "Structural edits change exactly the requested item",
  "Inserting an item before a named item, removing a named item, and replacing or perturbing the surface of a named part each return a new optic that differs from the original in exactly that respect: same order of the remaining items, same attributes and frames, same tracing of the untouched items. A perturbed surface has sag equal to the old sag plus the perturbation everywhere. The original optic is unchanged, naming a part that does not exist is an error, and insertion followed by removal of the inserted item gives back an equal optic.",
  ["configurations", "histories", "inputs"], "every optic tree and every named part at any depth, every sequence of edits",
  "Tests edit a couple of first-level items of the LSST telescope.",
  ["batoid/optic.py", "batoid/surface.py"],
  [("withInsertedOptic, withRemovedOptic, withSurface, withPerturbedSurface", "batoid/optic.py")],
  None, ["item sequence, names, surfaces after the edit"])

p("C13", "Obscurations are exact point sets closed under Boolean algebra",
  "A circle, annulus, rectangle, ray and polygon contain exactly the points of the plane figure they describe (any centre and rotation), and negation, union and intersection of obscurations contain exactly the complement, union and intersection of their members' points, at any nesting. Scalar, array and (for polygons, on ascending grid coordinates) grid membership agree, and a simple polygon's membership does not depend on the vertex it starts from or its orientation. Obscuring rays newly vignettes exactly the rays whose position in the rays' current frame is contained, and changes nothing else.",
  ["inputs", "configurations"], "every obscuration expression of any nesting, every point off the boundary curves, every ray population",
  "Tests sample a few random shapes and points per class with the same formula as oracle; grids are compared for timing only.",
  ["src/obscuration.cpp", "batoid/obscuration.py", "src/batoid.cpp"],
  [("contains methods", "src/obscuration.cpp"), ("construction and flattening of compound obscurations", "batoid/obscuration.py"), ("obscure kernel", "src/batoid.cpp obscure")],
  None, ["contains(), containsGrid(), vignetted flags after obscure()"])

p("C14", "Descriptions are values: equality, hash, repr, pickle and copy agree",
  "Two surfaces, media, coatings, obscurations, coordinate systems, transforms, lattices or optics built from the same parameters are equal and have equal hashes; changing any one parameter (for optics: surface, screen, obscuration, name, media, coordinate system or items), or the kind of object, makes them unequal, and comparison never raises. Changing a list or array afterwards that was passed to the constructor does not change the object (lattices, which wrap the array they are given, excepted). Rebuilding an object from a pickle or a deep copy gives an equal object that behaves identically, and evaluating its printed representation (with arrays printed in full) gives an object of the same kind that prints the same and is equal up to printed precision. Equality is symmetric and objects of different kinds never compare equal.",
  ["inputs", "configurations"], "every pair of objects from the parameter space of each class, including nested composites",
  "Tests check round trips and all-different lists for a few instances per class, not each parameter of each class.",
  ["batoid/surface.py", "batoid/medium.py", "batoid/coating.py", "batoid/obscuration.py", "batoid/coordSys.py", "batoid/coordTransform.py", "batoid/lattice.py", "batoid/optic.py"],
  [("__eq__/__hash__/__repr__/__getstate__ per class", "batoid/*.py")], None,
  ["==, hash, repr, pickle results"])

p("C15", "A ray vector is an independent, ordered collection of rays",
  "A ray vector holds its own copy of the data it was built from: constructing, copying, indexing (integers of either sign, slices, masks, index arrays) and concatenating (vectors of one frame) give collections with exactly the selected rays in the selected order with every attribute and the frame preserved. Mutating a result never affects the source, nor the other way round, whatever operations were run on either before. Equality holds exactly when lengths and all ray attributes agree, scalar attributes broadcast to all rays, and pickling round-trips.",
  ["histories", "inputs"], "every sequence of construct/copy/index/concatenate/mutate operations on ray vectors of any length including zero and one",
  "Tests check a few slices of one vector; aliasing and index arithmetic over all indices and histories are unbounded.",
  ["batoid/rayVector.py", "include/rayVector.h", "src/rayVector.cpp", "src/dualView.cpp"],
  [("copying constructors and __getitem__", "batoid/rayVector.py"), ("element-wise equality", "src/rayVector.cpp, src/dualView.cpp")],
  None, ["attributes of results and sources after every operation"])

p("C16", "Launched rays sample the requested pupil as one coherent plane wave",
  "Ray bundles launched from a field angle or direction cosine (grid, polar, spokes, stop points, fans) cross the stop surface at exactly the requested pupil points, all travel in the requested direction with speed 1/n of the launch medium, and start in phase on one plane perpendicular to that direction at the requested distance back. Every ray carries the requested wavelength and flux and is neither vignetted nor failed. Values taken from an optic are the defaults and explicit arguments override them.",
  ["inputs", "configurations"], "every grid size, spacing, ring/spoke layout, direction, projection, medium, wavelength, flux, stop surface and override combination",
  "Tests check a few layouts with the default stop and vacuum.",
  ["batoid/rayVector.py", "src/batoid.cpp", "batoid/utils.py"],
  [("pupil layout", "batoid/rayVector.py asGrid/asPolar/asSpokes/fromStop/fromFieldAngles"), ("back projection", "src/batoid.cpp finishParallel")],
  None, ["launched rays' attributes"])

p("C17", "Media reproduce their defining refractive index formulas",
  "The refractive index reported by a constant, tabulated, Sellmeier, Sumita or air medium equals its defining formula at every wavelength: piecewise-linear interpolation through every table point including both ends (and not-a-number outside the table), the Sellmeier and Sumita dispersion formulas, and the standard air formula with its pressure, temperature and vapour dependence. Scalar and array evaluation agree, whatever the numeric type of the parameters or inputs. Media files shipped as named glasses evaluate accordingly.",
  ["inputs", "configurations"], "every parameter set and every wavelength, scalars and arrays of any shape and numeric type",
  "Tests evaluate a few wavelengths per medium; end points, unsorted access and non-float inputs are not covered.",
  ["src/medium.cpp", "src/table.cpp", "batoid/medium.py"],
  [("getN", "src/medium.cpp, src/table.cpp"), ("parameter marshalling", "batoid/medium.py")], None, ["getN results"])

p("C18", "Each ray's result depends on that ray alone, not on batching or threads",
  "Tracing, transforming, obscuring or evaluating a bundle gives for each ray the same result as doing so for that ray alone, in any permutation or partition of the bundle. The result does not depend on how many threads are used or on how often the same call has been made before. Sums over rays equal the sum of the individual contributions, counting vignetted rays only when asked to and failed rays never.",
  ["schedules", "inputs", "histories"], "every number of threads and interleaving, every bundle size, permutation and partition",
  "Tests run with one fixed thread count and compare whole bundles with each other.",
  ["src/batoid.cpp", "src/rayVector.cpp", "batoid/global_vars.py", "batoid/trace.py"],
  [("parallel for loops without shared mutable state", "src/batoid.cpp, src/rayVector.cpp")], None,
  ["per-ray results across batchings and thread counts"])

p("C19", "A parsed description builds exactly the optic it describes",
  "Building an optic from a nested description gives the tree described: item order, names and kinds, each frame equal to its parent's frame moved and rotated by the listed steps in the order given, each item's media taken from its own entry or inherited from the nearest enclosing one, and surfaces and obscurations with the stated parameters. Numeric extras are preserved as attributes, and stop surface and launch distance are those stated. Parsing does not modify the description, and the same description parsed twice gives equal optics.",
  ["inputs", "configurations"], "every well-formed description over all supported item, surface, obscuration and medium types and nestings",
  "Tests load the shipped files and check that they trace.",
  ["batoid/parse.py", "batoid/optic.py"],
  [("recursive descent with inherited defaults", "batoid/parse.py")], None, ["the tree returned by the parser"])

p("C20", "A surface's sag and normal describe the same analytic surface",
  "Each surface's sag equals its defining formula (plane, paraboloid, sphere, conic, asphere, tilted plane, Zernike series, bicubic interpolant through its grid data, and sums as the pointwise sum), and its normal is the unit vector along (-dz/dx, -dz/dy, 1) of that same sag. Scalar and array evaluation of any shape or layout agree. Points where the surface is undefined (beyond a conic's extent, outside a bicubic grid; the grid's own border line excepted) give not-a-number, never a plausible value, unless the bicubic was asked to give zero there.",
  ["inputs", "configurations"], "every surface type, parameter set and point of its domain",
  "Tests compare with the same formulas at random points of a few instances; sag/normal consistency over composites and edges is not covered.",
  ["src/surface.cpp", "src/sphere.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/polynomialSurface.cpp", "src/bicubic.cpp", "src/table.cpp", "src/sum.cpp", "batoid/surface.py"],
  [("sag and normal methods", "src/*.cpp"), ("coefficient preparation for Zernike and bicubic surfaces", "batoid/surface.py")], None, ["sag() and normal() values"])

p("C21", "Propagation, phase and amplitude follow one plane wave per ray",
  "The position of a ray at time t is its position plus its velocity times the elapsed time; propagating moves the ray there, sets its time, and composes additively. The phase at a point and time is k.(r - r0) - omega (t - t0) with |k| = 2 pi n / wavelength along the velocity and omega = 2 pi / wavelength, is unchanged by propagating or by a change of frame, and the amplitude is the unit complex number with that phase. The summed amplitude is the flux-weighted sum of the amplitudes of the unfailed (and, unless asked otherwise, unvignetted) rays.",
  ["inputs", "histories"], "every ray, time, point, wavelength, index and sequence of propagations and frame changes",
  "Tests check random rays at moderate phases with the same formula in numpy.",
  ["src/rayVector.cpp", "batoid/rayVector.py"],
  [("positionAtTime, propagateInPlace, phase, amplitude, sumAmplitude", "src/rayVector.cpp")], None, ["returned positions, phases, amplitudes"])

p("C22", "Field-angle projections are mutually inverse maps onto unit directions",
  "Every supported projection turns a field angle into a downward unit direction and back again: direction to field and field to direction undo each other on the projection's whole domain. Zero field is the axis, the azimuth of the direction follows the field position, and the radial law is the one the projection is named after. Scalar and array calls agree and leave their inputs unmodified; an unknown projection name is an error.",
  ["inputs"], "all six projections, every field angle in the domain (including the axis and the axes of the field), scalars and arrays of any shape",
  "Tests round-trip random arrays; exact zeros inside arrays, mutation of inputs and large angles are not covered.",
  ["batoid/utils.py"], [("six projection pairs and the dispatchers", "batoid/utils.py")], None, ["returned coordinates"])

p("C23", "Analysis products are consistent with the traced rays",
  "Spot positions are the unvignetted rays' focal-plane positions relative to the chosen reference, wavefronts are optical-path differences to the reference sphere in waves that vanish at the reference ray, and Zernike coefficients reproduce that wavefront over the pupil. Differential maps between field, pupil and focal plane agree with finite differences of the traced rays, and the focal-to-field map inverts the field-to-focal map. Lattice arrays report coordinates equal to index times primitive vectors about their centre, and point-spread functions are non-negative arrays on lattices whose spacing follows from the pupil sampling.",
  ["inputs", "configurations"], "every optic, field angle, wavelength, sampling, projection and reference choice",
  "Tests compare with stored numbers for one or two telescopes.",
  ["batoid/analysis.py", "batoid/lattice.py"],
  [("spot, wavefront, zernike, dkdu/drdth/dthdr, fftPSF/huygensPSF", "batoid/analysis.py"), ("coords", "batoid/lattice.py")], None, ["returned arrays and lattices"])

p("C24", "A phase screen deflects rays by the gradient of its optical path",
  "A ray crossing an optical-path-difference screen is taken to the screen's surface, has the screen's value at that point added to its optical path, and leaves with its speed unchanged and its direction cosines along the surface changed by the screen's gradient there. A flat zero screen only moves the rays to the surface. Flags, flux and wavelength are unaffected unless the ray misses the surface, and this holds in every frame and within any traced optic.",
  ["inputs", "configurations"], "every intersection surface, screen surface, frame, ray and containing optic",
  "Tests use plane surfaces with a couple of screens at near-normal incidence.",
  ["src/batoid.cpp", "batoid/optic.py"], [("refractScreen kernel", "src/batoid.cpp"), ("OPDScreen", "batoid/optic.py")], None, ["times, velocities, flags after crossing"])

p("C25", "Drawings show the optics and the rays where they are",
  "The outline of an interface - drawn in two or three dimensions, listed by get3dmesh, or cut by getXZSlice - consists of points of its surface between the inner and outer radius set by its circular or annular obscuration (or the complement of one), in global coordinates: both rims all round, and the x and y diameters between them. An interface without such a radius has no outline. A system is drawn as its interfaces, wherever edits and perturbations have put them; restricting draw2d to types draws exactly those, and lenses are filled between their two faces. Traced rays are drawn as the visible part of their polyline, and drawing options reach the axes unchanged.",
  ["inputs", "configurations"], "every system, surface, obscuration, frame, selection of types, number of slice points, and traced bundle",
  "Tests only check that drawing one telescope does not raise.",
  ["batoid/optic.py"], [("draw3d, get3dmesh, getXZSlice, draw2d of Interface, CompoundOptic and Lens", "batoid/optic.py"), ("drawTrace2d, drawTrace3d", "batoid/optic.py")], None, ["coordinates handed to the axes, meshes and slices"])

p("C26", "Light paths are reversible, and independent of where the system stands",
  "A ray that has come through a system of mirrors, refracting interfaces, baffles and detectors, turned round and traced in reverse, goes back along the line it came by at the same speed, takes the same time, meets the same obscurations, and keeps its wavelength and flux. Moving a whole system by any sequence of shifts and rotations and the rays by the same rigid motion moves the traced rays by that motion and changes nothing else about them, in either direction of tracing.",
  ["configurations", "inputs"], "every system whose neighbouring media agree (any nesting, surfaces, frames and skip flags), every ray that is not lost, every sequence of whole-system motions",
  "Tests reverse a few single surfaces and two telescopes along a few rays; no test combines nesting, media, skips, motions and directions.",
  ["batoid/optic.py", "batoid/trace.py", "src/batoid.cpp"],
  [("reverse tracing", "batoid/optic.py"), ("withGlobalShift, withGlobalRotation and local variants", "batoid/optic.py"), ("intersect, reflect, refract kernels", "src/batoid.cpp")], None, ["rays returned by forward, reverse and moved tracing"])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
