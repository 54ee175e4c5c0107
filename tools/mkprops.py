"""Writes /verif/properties.jsonl from the table below (run by hand when the table changes)."""
import json, os

S = "src/hypervehicle/"
G, PA, SU, V3 = S + "geometry/geometry.py", S + "geometry/path.py", S + "geometry/surface.py", S + "geometry/vector.py"
CO, VE, UT = S + "components/component.py", S + "vehicle.py", S + "utilities.py"
WI, FI, SW, RE, PO, CP, CM = [S + "components/%s.py" % n for n in
                              ("wing", "fin", "swept", "revolved", "polygon", "composite", "common")]
GE, TR = S + "generator.py", S + "transformations.py"
HG = S + "hangar/"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Rotations are exact right-handed rotations about the requested axis and point",
     "Rotating a surface about the x, y or z axis (upper or lower case) by an angle maps every point of it through the right-handed rotation matrix about that axis through the pivot point, and changes nothing else. "
     "Component and vehicle rotations take the angle in degrees, rotate about the coordinate origin, apply to every patch, and default to the y axis when no axis is named.",
     ["inputs", "programs"], "every surface, angle, axis, pivot point, parameter pair, and every set of patches",
     "a test samples a few angles and points; a sign, unit or pivot error shows only for particular axis/angle/offset combinations",
     [G, CO, VE], [("rotated patch", G), ("component rotate", CO), ("vehicle transform", VE)],
     ["coordinates returned by the rotated patch"])
prop("C02", "Mirroring negates one coordinate; reflection keeps or replaces patches",
     "Mirroring a surface in x, y or z (upper or lower case) negates that coordinate of every point and leaves the other two unchanged. "
     "Reflecting a component leaves, for every original patch, exactly one mirror image of it; the originals are kept unchanged when the reflection is appended and removed when it replaces the component, and no axis means no reflection. "
     "The axis stored when the component was added takes precedence over one passed to the call.",
     ["inputs", "configurations"], "every surface, point, axis, patch set and reflection option",
     "hangar references reflect only in y with appended patches; the other axes, replace mode and precedence are never compared",
     [G, CO], [("mirrored patch", G), ("component reflect", CO)], ["coordinates of mirrored patches", "the set of patch keys after reflecting"])
prop("C03", "Translations and offset functions move each point by the offset at that point",
     "An offset surface or path returns the underlying point plus the offset function evaluated at that same underlying point, with the coordinates passed in x, y, z order. "
     "Translating a component by a vector moves every patch by exactly that vector, by a function moves each point by the function's value there, and a modifier function does the same when one is set and nothing otherwise.",
     ["inputs", "programs"], "every surface, path, offset function, vector and point",
     "an offset evaluated at the wrong point or with swapped coordinates coincides with the right one for the constant or symmetric offsets used in tests",
     [G, CO], [("offset patch and offset path", G), ("component translate / modifier", CO)], ["coordinates of the offset patch"])
prop("C04", "Curvature bends patches by the given profile and its slope, in listed order",
     "Curving a surface in x (or y) shifts z by the profile value and turns the local thickness through the arctangent of the profile slope, both evaluated at the uncurved point, leaving y (or x) untouched. "
     "A component with several curvatures applies all of them to every patch in the order listed, and one with none is unchanged.",
     ["inputs", "configurations"], "every surface, profile, slope function, direction and list of curvatures",
     "reference vehicles use one curvature in x; order, direction and slope errors need two curvatures or non-zero thickness to show",
     [G, CO], [("curved patch", G), ("component curve", CO)], ["coordinates of the curved patch"])
prop("C05", "Vehicle generation applies every stage once, in order, to every component",
     "Generating a vehicle takes every component through patch generation, modifier, curvature, vehicle angle offset, reflection and its own transformations in that order and exactly once each, whatever the number of components. "
     "Vehicle-level transformations are applied afterwards to every component in the order added, analysis on generation sees the fully transformed vehicle, and generating the same vehicle again gives the same geometry.",
     ["programs", "histories", "configurations"], "every number and mix of components, every option combination, repeated generation",
     "stages commute for many option sets, so a reordered, skipped or doubled stage is invisible to the reference meshes",
     [VE, CO], [("generate", VE), ("transform", VE)], ["patches of every component after generation"],
     [("patches", "parametric patches currently held by a component", CO)])
prop("C06", "Meshes and files always describe the current geometry",
     "After generating or transforming a vehicle, the next mesh, file or mass analysis of each component is computed from its current patches, never from a mesh cached before the change. "
     "Within one state of the geometry the mesh is computed from all patches and the same mesh is what gets analysed and saved, and a failed meshing leaves nothing behind that a later call would mistake for a finished mesh.",
     ["histories", "fault_sequences"], "every sequence of generate, transform, mesh, save and analyse calls, with meshing failing at any patch",
     "requires a mesh request between two geometry changes, or a failure part-way, in a particular order",
     [CO, VE], [("mesh cache", CO), ("vehicle transform", VE)], ["mesh data after each history"],
     [("mesh and surface cache", "discretised surfaces held by a component", CO)])
prop("C07", "Meshing covers each patch with a gap-free, consistently wound triangle fan",
     "Meshing a surface with ni by nj cells produces exactly four triangles per cell joining the surface's values at the cell's corners with their mean, all wound the same way round in (r, s), with every triangle slot filled once. "
     "Neighbouring cells use identical corner points, the first and last nodes are at 0 and 1 in both directions, and the mirror option negates y in every vertex and nothing else.",
     ["inputs"], "every surface, every ni and nj of at least one",
     "square resolutions and symmetric patches hide swapped indices and unfilled slots; winding is never compared except bit for bit on a few shapes",
     [UT], [("surface to triangles", UT), ("default vertex spacing", UT)], ["triangle vertices of the returned mesh"])
prop("C08", "Each meshing direction uses its own resolution, spacing and clustering",
     "The number of cells, the spacing exponent and the clustering function given for the r direction control only the r nodes, and those for the s direction only the s nodes, and a clustering function is sampled uniformly from 0 to 1 over that direction's own nodes. "
     "A component passes its clustering options and, when per-edge resolutions are given, each patch's own r and s resolutions (including for mirrored patches) to the mesher.",
     ["inputs", "configurations"], "every pair of resolutions, clustering functions, spacings and per-patch resolution table",
     "with equal resolutions in both directions every mix-up is invisible",
     [UT, CO, SW], [("surface to triangles", UT), ("component surface", CO), ("per patch resolution", SW)],
     ["node positions used for each patch"])
prop("C09", "Clustering functions pin both ends and stay uniform when disabled",
     "Every clustering distribution maps 0 to 0 and 1 to 1 whichever ends are clustered, is the identity when clustering is off or its strength is below one, treats its two ends as mirror images of each other, and distributes n intervals as n+1 values running from the first given value to the second.",
     ["inputs", "configurations"], "every clustering strength, pair of end flags, end values and number of points",
     "a slightly wrong stretch still looks like a stretch; only the algebraic identity at the ends separates right from wrong",
     [PA], [("Roberts stretching and point distribution", PA)], ["returned node values"])
prop("C10", "Paths start, end, subdivide and reverse exactly where they say",
     "A line, Bezier curve, spline or polyline starts at its first point and ends at its last; a polyline follows its segments one after another with parameter shares proportional to their lengths, and a closed one returns to its start. "
     "A sub-ranged path covers exactly the requested part of the underlying path, a reversed path runs it backwards, an arc stays at constant radius from one end to the other, arc-length reparameterisation keeps both ends, and reported lengths belong to the path itself.",
     ["inputs"], "every choice of points, segments, sub-range and parameter value",
     "wrong joints, directions or shares appear only for unequal segments, reversed ranges or off-plane points",
     [PA, G], [("paths", PA), ("sub-ranged, reversed, mean and perimeter paths", G)], ["points and lengths returned by paths"])
prop("C11", "Vector algebra and frame transformations obey their definitions",
     "Addition, subtraction, negation, scaling, division, dot and cross products, norm, unit vector and equality of vectors are the componentwise Euclidean operations for all real components, and adding, subtracting, comparing or dotting with something that is not a vector is refused. "
     "Transforming a vector into a local frame and back to the global one returns the original vector for every orthonormal frame and origin.",
     ["inputs"], "every pair of vectors, scalar, orthonormal frame and origin",
     "planar test data zero out a component and hide errors in it",
     [V3], [("three-vector", V3)], ["vector components"])
prop("C12", "Coons patches reproduce their four edges and reject open corners",
     "A Coons patch equals the given edge path along each of its four sides, plus any offset, and equals the bilinear patch of its corners when built from corners; in between it is the standard transfinite blend. "
     "Edges whose corners do not meet are rejected at each of the four corners, adding or subtracting a vector gives a displaced copy and leaves the original unchanged, and later changes to the edges handed in do not alter the patch.",
     ["inputs", "histories"], "every set of compatible edges, corner points, offsets and parameter values",
     "tests use planar squares for which swapped corners and edges cancel",
     [SU], [("Coons patch", SU)], ["patch values on edges, corners and inside"])
prop("C13", "Swept components pass through every section and close at both ends",
     "A swept patch equals each given section's edge at that section's station and interpolates linearly between neighbouring stations; a swept component has one patch per section edge, and its end caps share their boundary with the first and last sections. "
     "Sections with differing edge counts, sections that do not close on themselves, and end caps for other than four edges are rejected.",
     ["inputs", "configurations"], "every number of sections and edges, every station and parameter value",
     "two or three simple sections cannot tell neighbouring-section interpolation from end-to-end interpolation",
     [SW, G], [("swept component", SW), ("swept patches, perimeter path", G)], ["points of swept patches and caps"])
prop("C14", "Revolved, cone, cube and sphere bodies are exact and closed",
     "A revolved body keeps every point's axial position and distance from the axis, its patches together cover the full turn exactly once with neighbouring patches meeting, and a cone patch is the straight ruled surface between its two rings over the given angles. "
     "Cube faces lie at the half-length from the centre and share edges, sphere faces lie at the radius from the centre and share edges, a circle patch is bounded by its circle, an ogive profile runs along nose circle, tangent ogive arc, body and base, and unknown faces are rejected.",
     ["inputs"], "every revolve line, angle range, size, centre and parameter pair",
     "shape checks at a few points miss a gap or overlap between faces or an offset centre",
     [RE, PO, G, CM], [("revolved component", RE), ("cube and sphere", PO), ("patches", G), ("ogive nose", CM)], ["points of the patches"])
prop("C15", "Wing and fin patches join along shared edges",
     "The patches of a wing split the leading edge at the requested or computed break points, and each patch meets its neighbours - top, bottom, leading edge, trailing edge, tip and closing patches - along coinciding edges. "
     "The same holds for the patches of a fin of uniform thickness, whose pivot, cant and offset are applied to every patch in that order.",
     ["inputs", "configurations"], "every planform, thickness function, leading-edge width, break point, flap and rudder setting",
     "the reference wing tolerates a third of its vertices being wrong and option combinations are not covered",
     [WI, FI, G], [("wing patches", WI), ("fin patches", FI), ("leading and trailing edge patches", G)], ["edges of neighbouring patches"])
prop("C16", "Evaluating geometry never changes it, and caller data stays as passed",
     "Evaluating a path, surface or component any number of times returns the same points, and neither evaluation, generation, transformation, meshing nor analysis alters the points, paths, functions, lists or dictionaries the caller passed in, nor module constants and default arguments. "
     "Deep copies of components are independent of the original.",
     ["histories", "inputs"], "every sequence of evaluations, generations and copies over shared inputs",
     "in-place arithmetic on a shared point changes results only on a later call or in another object using the same input",
     [V3, PA, SU, G, CO, VE, TR], [("in-place vector operators", V3), ("deep copy", CO), ("transformation lists", VE)],
     ["results of repeated evaluation, caller objects after the call"])
prop("C17", "STL output writes each non-ghost component once under the documented name",
     "Writing a vehicle saves every non-ghost component exactly once and no ghost component, under the prefix and component name when both exist, else the component name, else prefix or vehicle name with the type and its running number, so unnamed components never overwrite each other. "
     "Analysis results and user properties are written under the prefix (or vehicle name) only when present, and merging uses exactly the files just written for non-ghost components.",
     ["programs", "configurations"], "every number and mix of named, unnamed and ghost components, prefix and merge options",
     "no test writes a vehicle; naming collisions need several unnamed components of one type, ghosts and prefixes together",
     [VE, CO, UT], [("vehicle STL writing", VE), ("component STL writing", CO), ("merging", UT)], ["file names saved, files merged"])
prop("C18", "Vehicle mass properties compose component properties by rigid-body rules",
     "Total volume, area and mass are the sums over all components, each with its own density; the centre of gravity is the mass-weighted mean; the inertia is the sum of component inertias moved to that centre by the full parallel-axis rule. "
     "Per-component tables carry each component's own values under its name, and the results stored on the vehicle, returned, and tabulated agree.",
     ["inputs", "programs"], "every number of distinctly named components and every set of component meshes and densities",
     "no test analyses a vehicle; symmetric single-component cases hide weighting and parallel-axis errors",
     [UT, VE], [("inertial assessment", UT), ("vehicle analyse", VE)], ["returned totals and tables"])
prop("C19", "Sensitivities are finite differences of one perturbed parameter at a time",
     "For every parameter, the sensitivity study rebuilds the vehicle with that parameter alone increased by the requested percentage and all other parameters and overrides at nominal, and divides the change of every vertex coordinate, analysis result and user property by that parameter's increment. "
     "Results are stored under their own parameter and component, and the caller's dictionaries are unchanged.",
     ["inputs", "programs", "histories"], "every parameter set, overrides, perturbation, number of components",
     "with one parameter, cumulative perturbation and a wrong divisor cannot be distinguished from the right ones",
     [UT], [("sensitivity study", UT)], ["sensitivity tables"])
prop("C20", "Sensitivity tables stay aligned through combination and export",
     "Combining the sensitivities of several parameters keeps, for each component and vertex, the vertex coordinates and that same vertex's derivatives for every parameter in one row, with no invented or missing entries. "
     "CSV export writes one file per component, one combined file holding all of them in order, and the scalar and property sensitivities in their own folder, all under the chosen output directory.",
     ["inputs", "programs"], "every number of parameters, components and vertices, including duplicated vertices",
     "misalignment needs two parameters whose duplicate vertices differ; no test runs a study",
     [UT], [("table combination", UT), ("CSV export", UT)], ["combined tables, written files"])
prop("C21", "Appending sensitivities to a TRI file keeps point order and zero-fills misses",
     "Every point of the geometry file receives, for every parameter and in file order, the sensitivities of the matching vertex within tolerance, or zeros when there is none; values below the rounding tolerance become zero. "
     "The returned fraction is matched points over all points, the combined file holds the same rows, an old combined file is not read as input, and the caller's list is unchanged.",
     ["inputs"], "every set of points, sensitivity files, tolerances and parameters",
     "no test covers it; a lost row shifts all later points silently",
     [UT], [("append sensitivities", UT)], ["XML arrays, combined CSV, returned fraction"])
prop("C22", "Generator keyword arguments override every default of a hangar vehicle",
     "Every parameter given as a keyword to a vehicle generator takes the given value and every other keeps its default, for the base generator and every hangar generator, and creating the vehicle uses the overridden values. "
     "Angles documented in degrees are converted to radians exactly once wherever a radian value is needed.",
     ["inputs", "configurations"], "every generator, every subset of its parameters, every value",
     "tests build every hangar vehicle with defaults only, where a default re-assigned after the override is invisible",
     [GE] + [HG + n + ".py" for n in ("d21", "falcon9", "finner", "hifire4", "hifire8", "htv", "refex", "waverider", "wedge", "x43")],
     [("generator initialisation", GE)], ["generator attributes, components of the created vehicle"])
prop("C23", "Adding a component records exactly the options given; unknown types refused",
     "Adding a component to a vehicle stores each supplied option on that component, leaves options not supplied as the component had them, counts it under its type, registers it under its given, own or generated name, and keeps insertion order. "
     "A component type that is not supported is refused and leaves the vehicle unchanged; the same holds for composites.",
     ["programs", "configurations"], "every sequence of additions and option combinations",
     "options interact only in combinations that no reference vehicle uses",
     [VE, CP, CO], [("add component", VE), ("composite add component", CP), ("clustering options", CO)], ["component options and vehicle registries"])
prop("C24", "A composite is the union of its children, each with its own options applied",
     "A composite holds, for every child in order, every patch that child would have when processed on its own with its curvature, reflection and transformations, under keys that never collide, and nothing else. "
     "Generating the composite again gives the same patches.",
     ["programs", "histories", "configurations"], "every list of children and options, repeated generation",
     "no test builds a composite with options, several children or twice",
     [CP], [("composite patch generation", CP)], ["patches of the composite"])
prop("C25", "Unsupported options raise an error instead of being ignored",
     "Axis names, curvature directions, leading-edge sides, cube faces, wing line types, tail options, merge lists and sweep definitions outside the supported set raise an error before or at first evaluation; they never yield silently untransformed or undefined geometry. "
     "Vectors built from unsupported types, transformations before generation, meshing without patches and exporting before a study are likewise refused.",
     ["inputs", "configurations"], "every value outside the supported set of each option",
     "tests exercise valid options only",
     [G, CO, VE, WI, SU, PA, V3], [("option checks", G), ("call order checks", VE)], ["exceptions raised"])
prop("C26", "Verbosity zero is silent and never changes results",
     "With verbosity zero, generating, transforming, writing and analysing a vehicle and running a sensitivity study print nothing. "
     "The verbosity setting never changes the geometry, files or results, and a component added to a vehicle takes zero from a silent vehicle and the larger of the two settings otherwise.",
     ["configurations", "programs"], "every verbosity value and every option combination",
     "tests do not capture output and never compare verbosity levels",
     [VE, CO, UT, WI, FI, CP], [("verbosity guards", VE)], ["printed output"])
prop("C27", "Library code never reaches an undefined name, attribute or bad call",
     "No public operation of the library can stop because a variable was never assigned, an attribute was never set, a name does not exist, or an internal call passes arguments the callee does not accept, whichever options are chosen.",
     ["inputs", "configurations", "programs"], "every path through every function of the package",
     "only executed lines with executed option combinations are checked by tests",
     [S], [("whole package", S)], ["definitions, attributes and call signatures"])
prop("C28", "Parallel and serial meshing agree and no worker pool outlives its use",
     "Meshing a component in parallel gives, patch by patch, the same surfaces under the same keys as meshing it serially, in patch order. "
     "Every worker pool that is opened is released on every exit, including when meshing a patch fails.",
     ["schedules", "fault_sequences"], "every set of patches, every worker schedule, failure at any patch",
     "a leaked pool or mismatched result needs many components or a failing patch to show",
     [CO], [("component surface", CO)], ["surfaces per patch, pool lifetime"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
