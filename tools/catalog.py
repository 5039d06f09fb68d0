"""The property list: one entry per property; make_docs.py writes
properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
P = []


def prop(id, title, statement, over, text, why, files, mech, how,
         assume="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, how=how, assume=assume,
                  observe=observe or []))


S = "welleng/survey.py"
U = "welleng/utils.py"

prop("P01", "Surveys follow minimum-curvature geometry",
     "For every listing of measured depths, inclinations and azimuths, the reported positions (n, e, tvd, pos_nev, x, y, z and the MinCurve helper) are those of circular arcs tangent to successive directions, started at the given start position. Adding a station on an arc moves no other station, and dogleg, DLS, build rate, turn rate and toolface agree with the arcs. Stating the same well in feet, with another start position or with a grid scale factor only scales or shifts the results, and positions and direction vectors given with the listing are kept, in both frames.",
     ["inputs"], "all listings with successive directions under 180 degrees apart, both units, any start position and scale factor",
     "the tests compare a handful of published wells; the arc formula has removable singularities (straight intervals, tiny doglegs) and unit branches that they don't reach",
     [S, U], [("Survey min-curve and rates", S + "::Survey"), ("MinCurve, get_rf, min_curve_step", U)],
     "Random listings (vertical, straight, tiny-dogleg, high-inclination classes) against an independent vector-geometry arc reference; metamorphic facets cut arcs, shift, scale and convert units.",
     "successive directions differ by less than 180 degrees")
prop("P02", "Azimuth reference and angle units don't change the well",
     "Stating the same directions as grid, true or magnetic azimuths (through the header's convergence and declination), in degrees or radians, yields the same positions, the same three azimuth columns, rates, toolfaces and covariances. True azimuth is grid plus convergence and magnetic is true minus declination, whatever reference was given.",
     ["inputs", "configurations"], "all wells, convergences, declinations, references and angle units",
     "tests use grid azimuths or a single declination; the reference branches multiply",
     [S], [("azimuth reference processing", S + "::Survey._process_azi_ref"), ("error angles", S + "::Survey._get_errors")],
     "The same generated well is stated six ways (3 references x deg/rad) and every public column is compared pairwise and with the definition; a second facet compares covariances of error models.")
prop("P03", "Frame and angle conversions are faithful rotations",
     "Converting vectors and covariances between north-east-vertical and highside-lateral-along frames, between x-y-z and n-e-v, and between inclination/azimuth and direction vectors follows the definition of the frames, preserves lengths, traces and eigenvalues, and returns the input when converted back. A survey's n-e-v and h-l-a covariances, whichever was given, describe the same uncertainty.",
     ["inputs"], "all directions (poles, any azimuth), vectors, positive semi-definite matrices, degrees or radians, single rows or arrays",
     "tests check a few rows; transposition and sign errors cancel for symmetric or axis-aligned samples",
     [U, S], [("get_transform, NEV_to_HLA, HLA_to_NEV", U), ("get_vec, get_angles, get_xyz, get_nev", U)],
     "Random poses and PSD matrices against rotation matrices built from the definition; round-trip, trace/eigenvalue invariants.")
prop("P04", "Arc, toolface and dogleg primitives agree with geometry",
     "An arc of given sweep, radius and toolface from any pose ends at the position and direction of that circular arc, both for the arc class and the helper functions, and transforming back from the target pose recovers the start. The toolface reported between a pose and a point is the one that an arc needs to reach it, single steps and curve-hold-curve paths agree with composing arcs, and radius and dogleg severity convert both ways in metres or feet.",
     ["inputs"], "all sweeps, radii, toolfaces, poses including vertical ones, zero-length and tiny-dogleg steps",
     "tests sample a few toolfaces; sign and quadrant errors hide on the axes",
     [U], [("Arc, get_arc, make_clc_path", U), ("get_toolface, get_toolface_fast", U), ("dls_from_radius, radius_from_dls", U)],
     "Independent Rodrigues-rotation reference, with forward/backward round trips.")
prop("P05", "Interpolating at a measured depth stays on the arc",
     "The point returned for any measured depth inside a survey lies on the circular arc between its neighbouring stations with the tangent of that arc there, in position, direction, inclination, azimuth and x-y-z, at every azimuth reference and unit. At a station it is that station; covariances are those of the station or lie between its neighbours' linearly; points not on a station are flagged interpolated.",
     ["inputs"], "all wells, headers and depths inside the survey",
     "tests interpolate one well at a few depths with grid azimuths",
     [S], [("interpolate_md", S + "::interpolate_md"), ("_interpolate_survey", S)],
     "Random wells/headers/depths against the arc reference, including stations and exact fractions.",
     "successive directions differ by less than 180 degrees")
prop("P06", "Resampling a survey keeps the well",
     "Resampling at any step keeps every original station (same depth, position, direction and covariance), adds only points on the arcs between them at most a step apart, and flags exactly the added points as interpolated. Header, unit, start position, radius and error model carry over.",
     ["inputs"], "all wells, headers, covariance sources and steps",
     "tests resample one well; loss of header, unit or covariance is invisible there",
     [S], [("interpolate_survey", S + "::interpolate_survey"), ("from_connections", S)],
     "Random well/header/step; every output station is located on the reference path.",
     "stations at least 2 length units apart")
prop("P07", "TVD interpolation finds the depth asked for",
     "For a well that keeps descending, the point at a given TVD has that TVD to within a millimetre and lies on the well's arc, whether the depth is at a station or between two, in metres or feet and for any azimuth reference. Resampling by TVD keeps the original stations, adds points at multiples of the step in TVD that lie on the arcs, and leaves start, unit and directions alone.",
     ["inputs"], "all descending wells, headers and TVDs within the survey",
     "tests check one depth of one well; root bracketing fails at stations and tiny doglegs",
     [S], [("interpolate_tvd, interpolate_survey_tvd, get_node_tvd", S)],
     "Random descending wells against bisection on the arc reference.",
     "inclination at most 80 degrees")
prop("P08", "Slicing and splicing give the well back",
     "A slice of a survey has the positions, directions, covariances, radii and curvature of the same stations of the original, and splicing consecutive slices (or surveys that start where the previous ends) returns the original well with strictly increasing depths. This holds with or without covariances, for every azimuth reference and unit.",
     ["inputs", "programs"], "all wells, cut points, headers and covariance sources",
     "tests splice two parts of one grid-referenced well with an error model",
     [S], [("slice_survey", S), ("SurveyData, splice_surveys", S)],
     "Random cuts of random wells; splice(slices) compared with the original; independently built surveys spliced too.")
prop("P09", "Results depend on the inputs, not on what was done before",
     "Interpolating, slicing, projecting, connecting, meshing, clearance, error models, indices, exports, torque and drag: each call gives the same result whatever was called before it in the process, on the same objects or on others, and however often. None of them changes the surveys, headers, nodes, connections, arrays or lists it is given, or results returned earlier. Setting a vertical section azimuth or an error model on a survey changes just that survey's sections and header azimuth, or its covariances, and only the last setting counts.",
     ["histories", "inputs"], "all sequences of operations on two wells, nodes and connections",
     "tests make fresh objects for one call each and compare numbers, so nothing sees what a call leaves behind",
     [S, "welleng/connector.py", "welleng/clearance.py", "welleng/mesh.py", "welleng/error.py", "welleng/node.py"],
     [("Survey and its functions", S), ("Connector, drop_off, extend_to_tvd", "welleng/connector.py"), ("Clearance classes", "welleng/clearance.py")],
     "Random histories of operations (repeats, the other well, the same path under another reference) on shared objects; every result is compared with the one from freshly made objects and with the one a forked process that has done nothing else gives; all inputs and earlier results are compared before and after.")
prop("P10", "Projecting ahead, to the bit and to a target lands right",
     "Projecting ahead follows an arc of the stated dogleg severity and toolface (a straight line for zero), to the bit by default the continuation of the last interval's curve, and reports the new measured depth and unit. Projecting to a target several turn radii ahead starts at the survey's last station, passes the projected bit when a lead is given, ends at the target (and in its direction, if it has one), and turns at the design severity and no sharper, with the survey's radius, error model and last covariance carried on; the survey is left unchanged.",
     ["inputs"], "all poses, severities, toolfaces, leads; targets 3 to 10 turn radii ahead within about 40 degrees of the current direction, both units and all references",
     "tests project one vertical and one horizontal case in metres with grid azimuths",
     [S, "welleng/connector.py"], [("project_ahead, project_to_target", S), ("Survey.project_to_bit", S)],
     "Arc reference for projections; for targets the endpoint, start, bit pass-through and per-interval bend are judged.",
     "targets are ahead and at least 3 turn radii away")

C = "welleng/connector.py"
prop("P11", "Connecting a pose to a target reaches it on the designed curve",
     "A connection from a start pose to a direction, a measured depth, a point, or a point with a direction ends exactly there, and the survey made from it at any step follows it from start to end with stations at most a step apart. Directions and points are reached by the arc (and hold) of the design radius, tightened only as far as a point inside the turning circle needs (or stopping at the closest point of the circle on request), with the measured depth of that path, and the batch solver returns the same paths for arrays. Poses at least 3 turn radii ahead are reached turning no sharper than designed.",
     ["inputs"], "all start poses, input forms, units, severities and targets in the stated domain",
     "tests use a few targets mostly straight down in metres; quadrant, wrap-around and unit branches multiply",
     [C, "welleng/node.py"], [("Connector", C), ("solve_curve_hold_batch", C), ("interpolate_well", C)],
     "Closed-form plane geometry of arc-and-hold paths as the reference for directions, depths and points (ahead, beside, behind, inside the circle); endpoint, continuity, curvature and length invariants for poses; batch against the same reference and the connector.",
     "targets with a direction are at least 3 turn radii away, ahead within about 35 degrees, and turn at most 50 degrees off the line to them")

prop("P13", "Connecting points and chains of targets passes through them all",
     "The survey assembled from a chain of connected sections (holds, turns to directions, points), whatever the step, unit, start offset and radius asked for, lies on that chain of arcs and straights at every station, in position, direction and measured depth, keeps every section end as an original station, and has stations at most a step apart. Connecting a list of points from a start direction (in n-e-v or x-y-z, with one severity or one per point) passes through every point in order with one connection per pair.",
     ["inputs", "programs"], "all lists of points or targets ahead, units, severities, references",
     "tests connect a handful of points in metres with one severity",
     [C], [("connect_points, interpolate_well, get_min_curve", C), ("from_connections", S)],
     "Random chains; pass-through, continuity and curvature invariants over the whole history of connectors.",
     "successive targets are ahead and several turn radii apart")
prop("P14", "Drop-off and extend-to-TVD end at the depth and inclination asked for",
     "Dropping (or building) to a target inclination turns at the stated severity in the vertical plane of the start direction, keeps the azimuth, and passes through the nodes reported with consistent depths; extending to a TVD holds or drops and ends at exactly that TVD with the stated final inclination. Units and start depths are respected and a default severity of 2.5 deg per unit applies.",
     ["inputs"], "all start poses, severities, target inclinations, depths and units in the domain",
     "tests drop one well",
     [C], [("drop_off, extend_to_tvd", C)],
     "Closed-form plane geometry in the vertical plane as reference.",
     "the TVD asked for is reachable by the drop and a hold")
prop("P30", "Vertical section is the displacement along the section azimuth",
     "The vertical section at every station is the horizontal displacement from the first station resolved along the section azimuth, which is relative to the header's azimuth reference, whether set on the header, set later or asked for, in degrees or radians. Resampled and sliced surveys keep the same section direction in space, and setting it changes no position or azimuth.",
     ["inputs", "configurations"], "all wells, headers, section azimuths and references",
     "tests check one section azimuth with grid references",
     [S], [("get_vertical_section, set_vertical_section, _grid_header", S)],
     "Displacement of the reference path resolved along the grid section azimuth.")
prop("P31", "Difficulty, tortuosity and maximum-curvature figures follow their definitions",
     "The tortuosity index sums, section by section (a section starts where the plane of turning or, with a dls tolerance, the severity changes), the excess of along-hole length over chord, weighted as documented; it is zero at the start. The directional difficulty index is the logarithm of depth times displacement times total turn over TVD in feet, for wells in metres or feet. Maximum curvature keeps every station, and adds half way between each pair one reached by turning at the interval's severity plus the noise.",
     ["inputs"], "plans of separate sections, random wells, noise, tolerances, units and references",
     "tests compare one well in metres to stored numbers",
     [S], [("tortuosity_index, modified_tortuosity_index, directional_difficulty_index", S), ("Survey.maximum_curvature", S)],
     "Independent reference computation of the published formulas from the arc reference path.",
     "sections of wells judged for tortuosity are clearly separate; the difficulty index is judged for wells that start at the origin")

K = "welleng/clearance.py"
prop("P19", "Clearance reports the closest approach of the offset well",
     "For every station of the reference well, clearance reports a point of the offset well (its depth, position and direction lying on that well's path) that is as close as the path comes, the distance to it, and the horizontal, toolface and travelling-cylinder bearings of it from the station; lines join the two points. Asking for minima keeps every original station and leaves both surveys unchanged.",
     ["inputs"], "all pairs of wells (alike, unrelated, from the same slot, coincident), headers and units",
     "tests compare two wells with stored results; sign and quadrant errors in bearings, and failures of the search for wells that touch, need other geometry",
     [K], [("IscwsaClearance._get_closest_points, _get_delta_nev_vectors", K)],
     "Random pairs of wells against a dense search of the reference path with refinement, and bearings from the definition of the highside frame; stations inside the bends of wells that go round and round, whose closest point is away from their nearest station; clearances from a kick-off depth.")
prop("P20", "Separation factors follow the published rule",
     "The separation factor at every station is (distance - hole radii - surface margin) / (k times the root sum of squares of both pedal radii and the project-ahead uncertainty), where pedal radii are the standard deviations of the wells' covariances along the line between them, interpolated at the closest point; boundary, separation and minimum allowable distance agree with it. It doesn't change when both wells are moved, turned or scaled; asking for minima finds the smallest factor between stations where there is one; and with a kick-off depth it is judged from there (with uncertainty relative to the kick-off for error models).",
     ["inputs", "configurations"], "all pairs of wells, covariances (also singular), radii, k, margins, kick-off depths",
     "tests compare one pair of wells to stored results at default settings",
     [K], [("IscwsaClearance", K), ("get_sf_mins, _get_ref_cov_below_kop", K)],
     "The formula is recomputed from the generated covariances and reference paths at every station; metamorphic moves; a dense scan of the reference well for minima.")

E = "welleng/error.py"
EM = "welleng/errors/tool_errors.py"
EI = "welleng/errors/interpreter.py"
prop("P15", "Error models give valid, consistent covariances",
     "For every listed error model and every well within its range, the n-e-v and h-l-a covariances of each station are finite, symmetric, positive semi-definite and zero at the first station, they are the sum of the model's terms and of its propagation modes, and leave positions alone. The first stations of a well have the uncertainty they have when surveyed on their own, an uncertain start adds to every station, and diagnostic data, get_error, the deprecated alias and the default model agree. Unknown models and inclinations beyond a model's range are rejected.",
     ["inputs", "configurations"], "all listed models, wells, headers, start covariances and units",
     "tests compare one or two models on three ISCWSA wells; other models, vertical and short wells, and the sums behind the totals are not looked at",
     [E, EM, S], [("ErrorModel, get_errors, make_diagnostic_data", E), ("ToolError", EM), ("Survey.get_error, _process_cov", S)],
     "Every listed model on random wells: eigenvalues, sums, rotations to the hole's axes, prefix metamorphic relation, rejections.",
     "wells outside of 15 degrees of horizontal east-west for axially corrected models, whose published exclusion that is")
prop("P16", "Error models evaluate their published weight functions",
     "Each term of each listed model contributes the covariance of its published weight function (azimuth, inclination and depth errors, or lateral ones) times its magnitude, propagated over intervals and stations as its mode (random, systematic, global, within pad) demands, at every station including vertical ones. Terms a definition can't evaluate contribute nothing and are announced by a RuntimeWarning.",
     ["inputs", "configurations"], "all listed models, wells within their range, headers",
     "the tests' ISCWSA wells exercise a few MWD terms; a coefficient of another term may change unseen",
     [E, EM], [("weight functions", EM), ("propagation modes", E)],
     "An independent evaluation of the weight-function table and propagation, term by term.",
     "an accelerometer or misalignment term of a vertical station is the north/east singularity of the published model")
prop("P17", "Weight-function formulas evaluate as written and run nothing else",
     "A formula of an error-model definition evaluates to the value of the arithmetic written (usual precedence, ^ as power, the named functions, case-sensitive bound variables), elementwise for arrays, leaving its bindings alone. Anything else (attribute access, other calls, comparisons, indexing, comprehensions, unbound names, malformed text) is rejected without using any bound object.",
     ["inputs"], "all expressions over the documented grammar and foreign constructs",
     "tests evaluate a handful of formulas; precedence, nesting and hostile text are open-ended",
     [EI], [("evaluate_formula", EI)],
     "Random expression trees printed as formulas against direct evaluation; hostile expressions with a recording object.")

prop("P28", "Control points and listings describe the survey",
     "The control points of a plan are its first and last stations and every station where a hold or turn ends; each has its station's depth, location (east, north, -tvd) and direction, the severity of the turn that ends there, and build and turn rates and the toolface from the previous control point, so that following them gives the plan. An export keeps enough of them to end within the tolerance of the survey's end, in the frame and in the file (header first, rounded as asked). The survey's table and nodes show its own values, and a plan drawn from a survey is a chain of connections from its first station to its last through stations of it.",
     ["inputs"], "all plans of distinct holds and turns, random wells, tolerances, units",
     "tests export one survey and look at nothing in it",
     [S, "welleng/exchange/csv.py"], [("get_sections, export_csv, survey_to_df, get_node", S)],
     "Plans are generated section by section, so the control points are known; arcs through the points returned are compared with every station of the survey.",
     "exports end within two tolerances (one per pass) of the survey's end, unless turns of different severity share a plane and dls_cont is off; plans are drawn with turns much tighter than the sections are long")
prop("P29", "Degrees, minutes and seconds keep the angle",
     "A decimal angle of either sign becomes whole degrees and minutes and seconds under 60, of the angle's sign, within the rounding asked for; it converts back to the same decimal, alone, as an array or with directions, and survives being printed (with or without symbols) and read.",
     ["inputs"], "all decimal angles, roundings, shapes and directions",
     "tests convert a few positive angles",
     [U], [("decimal2dms, dms2decimal, pprint_dms, dms_from_string", U)],
     "Round trips and the definition on random and edge values (just under a minute, within a degree of zero).")
prop("P32", "A well in feet is the same well",
     "The same well stated in metres and in feet (lengths converted, severities per 30 m or 100 ft) has the same covariances term by term, rates, toolfaces, vertical section, radii, interpolated, resampled, sliced, projected and connected stations, difficulty index, separation factors and mesh.",
     ["inputs", "configurations"], "all wells, error models, operations and pairs of wells",
     "every test but a few is in one unit; a hard-coded metre is invisible there",
     [S, E, K, "welleng/connector.py", "welleng/node.py", "welleng/mesh.py"],
     [("units", S), ("error models of surveys in feet", E), ("clearance", K)],
     "Metamorphic: each case is run in both units and every output is compared after conversion.",
     "steps don't fall within a millimetre of a station; default margins and steps are plain numbers")

prop("P23", "Torque and drag follow the soft-string model",
     "Tensions (pickup, slackoff, rotating, drilling, sliding, overpull) and torques at every station down to the bottom of the string are those of the published soft-string equations summed from the bit up, with the weight, buoyancy and radius of the pipe and the friction of the hole at each interval. Stations are the survey's plus the ends of every section, on the well's path. Hook loads are the surface tensions of the string at each depth with each friction factor; incomplete well bores and strings, and weight without torque on bit or the reverse, are rejected.",
     ["inputs", "configurations"], "all wells, well bores, strings, fluids and loads",
     "no test touches this module",
     ["welleng/torque_drag.py"], [("TorqueDrag, HookLoad", "welleng/torque_drag.py")],
     "An independent implementation of Johancsik et al. on random wells and architectures; hook loads for strings cut off by the generator's own arithmetic.",
     "well bores and strings from the surface, in metres")
prop("P24", "Strings and well bores keep contiguous sections",
     "After any history of adding sections (by length, by end, or with neither, top down or bottom up), a string's sections are numbered from the top, contiguous, inside its ends, with the parameters given (BHAs of steel by default), and it is complete exactly when they span it. A section that doesn't fit, or lacks what a well bore needs, is rejected and changes nothing. The string at another depth has the same sections from the bottom up, cut off at its top, and shares nothing with the original.",
     ["histories"], "all histories of valid and invalid additions and moves",
     "no test touches this module; the faults show after rejected or truncated sections",
     ["welleng/architecture.py"], [("String, WellBore, BHA", "welleng/architecture.py")],
     "Model-based: a list of sections mirrors every operation.")
prop("P25", "Fluid densities solve the published equation",
     "The volumes of oil, water and solids of a fluid have its base fluid's ratio and mix to its density at the reference temperature and pressure. The density profile gives for every depth and temperature, in any form, the average density that satisfies the published equation with the volumes the fluid has (surface density at depth zero). Diesel densities reproduce the published table and change smoothly and monotonically in between.",
     ["inputs"], "all fluids, depths, temperatures and pressures in range",
     "one test checks one density of the paper's example",
     ["welleng/fluid.py"], [("Fluid, DensityDiesel", "welleng/fluid.py")],
     "Bisection of the equation and the published table.",
     "fluids no lighter than their base fluid; averages within the default bounds")

prop("P26", "EDM queries return what the file says",
     "A query of an EDM file returns exactly the records, in the file's order, of the tags asked for whose attributes match all (or with OR any) of those asked for, however often and in whatever order queries are made. A well bore's data are its own records plus its well, datum and its ancestors' surveys, found by id or name; parents and the graph follow the file; cases have their own fluid, scenario, hole sections and surveys, joined along the tie-ons from the top; pressures and temperatures are grouped and sorted by depth.",
     ["inputs", "histories"], "all files of well bores, queries and orders of asking",
     "no test reads an EDM file",
     ["welleng/exchange/edm.py"], [("EDM, Well", "welleng/exchange/edm.py")],
     "Random files are written and read back; every query is compared with a filter of the generated records, repeatedly on one instance.",
     "names of wells and well bores are unique")

prop("P27", "Well plans survive the .wbp format",
     "Plans exported to .wbp and loaded have the same units, names, header fields, targets and, within the format's decimals, the same turn points and locations, for one or several plans, with comments or a parent's file, and again when the loaded plans are exported. Files of other programs with survey points and target geometry load as written. A plan made into a survey follows the path of the survey the plan was made from, with stations at its control points and at the step asked for.",
     ["inputs", "configurations"], "all plans, headers, targets, units and steps",
     "no test writes or reads a .wbp file",
     ["welleng/exchange/wbp.py"], [("WellPlan, export, load, wbp_to_survey", "welleng/exchange/wbp.py")],
     "Round trips of random plans and files written by an independent formatter; arcs of the original plan for the survey.",
     "names without colons up to 60 characters")

prop("P12", "A pose stated in any form is the same pose",
     "A node given by inclination and azimuth (degrees or radians, any turn count) or by a vector of any length, in n-e-v or x-y-z, has the same position, unit direction, inclination and azimuth (within [0, 360]) in both frames; what isn't given is None, covariances default to zero, depth, unit and additional attributes are kept, and an incomplete direction is refused. The node of a survey's station is that station. Connecting poses gives the same path whichever form or node they are given in.",
     ["inputs", "configurations"], "all poses (poles included), containers, vector lengths and pairs of forms",
     "tests make nodes in one form; swapped axes and angles show only off the axes",
     ["welleng/node.py", S, C], [("Node, get_node_params", "welleng/node.py::Node"), ("get_node", S), ("Connector inputs", C)],
     "Metamorphic over every form of one generated pose, against the definition of the frames.",
     "directions given to a connector itself are unit vectors")
prop("P33", "Map coordinates and headers keep the place and angles",
     "The survey parameters of a map coordinate are the latitude and longitude (in the projection's datum) that project back to it, with x the easting and y the northing, the convergence (true = grid + convergence) and scale factor of the projection there, and the date asked for or today's. Coordinates transformed between projections, in 2D or 3D, single or listed, easting or northing first, stay at their place in x, y order and come back. Headers hold the same angles (radians) from degrees and radians, look magnetic values up for the place and date (a stated date is kept), default what isn't given, and refuse places off the globe, unknown references and invalid dates.",
     ["inputs", "configurations"], "all places in the area of use of 15 projections, containers, dates and header fields",
     "tests look up one place in one projection",
     [S], [("SurveyParameters", S + "::SurveyParameters"), ("SurveyHeader, get_unit", S + "::SurveyHeader")],
     "Numerical differentiation of the projection against the geodesic, round trips, same-datum references.",
     "no network, so magnetic fields come from a stand-in for the service")

M = "welleng/mesh.py"
prop("P21", "Meshes enclose the well at the uncertainty asked for",
     "At every station the mesh has a ring of the number of vertices asked for, across the hole and in order around it, on the curve of the method: the circle of the radius, the ellipse of the highside-lateral covariance or its pedal curve, scaled by sigma with radius, margin and project-ahead added. Rings are joined in alignment into a closed surface capped at the ends, which as a trimesh is watertight, consistently wound and has the tube's volume. Sections of a sliced mesh join from start to stop, scenes hold every well and transform by origin and scale, and repaired meshes are closed.",
     ["inputs", "configurations"], "all wells, covariances, radii, methods, even vertex counts, steps and scenes",
     "tests only construct meshes of one well with twelve vertices",
     [M], [("WellMesh", M + "::WellMesh"), ("sliced_mesh, scenes, fix_mesh, to_trimesh", M)],
     "The vertices are put in the hole's own frame and tested against the curve's equation; combinatorial checks of the faces; volume against the frusta.",
     "an even number of vertices; reduction of triangles isn't judged (its library isn't installed)")
prop("P22", "Mesh clearance finds overlapping and separate wells",
     "For every section of the reference, a collision is reported exactly when its uncertainty tube (sigma, radius, margins) overlaps the offset's, inside one another included, whether or not data are asked for. The distance is that between the surfaces, centre points lie on the wells at the depths reported, with their distance and bearing, separation factors are at most one in collision and otherwise centre distance over what the tubes take up of it.",
     ["inputs", "configurations"], "all pairs of wells, sizes, sigmas, margins, units and vertex counts",
     "one test runs it with no check of containment, margins or end-on approaches",
     [K, M], [("MeshClearance", K + "::MeshClearance")],
     "Tubes of known position and size are placed to contain, overlap, touch or miss each other; an independent dense sampling bounds distance and overlap from both sides.",
     "isotropic uncertainty; gaps or overlaps smaller than the polygon's error aren't judged")
prop("P34", "Published workbooks and diagnostics are read as written",
     "ISCWSA example workbooks, error model and tool group workbooks, clearance test workbooks and Copsegrove diagnostics load with every header field, term, station, reference parameter, covariance and factor they state, degrees in radians where a code is made from a term. A tool group sheet converts to a JSON definition with its metadata, inclination limits, terms, formulas and stable identities, with a warning for what it can't represent. The definitions that are shipped are those of the workbooks they were made from.",
     ["inputs"], "all workbooks and files of the published layouts, with any values, optional fields, sheets and units",
     "the tests read the shipped files; cells that move, repeat or are empty show only in other ones",
     ["welleng/errors/iscwsa_ingest.py", "welleng/errors/extract_owsg_codes_generic.py", "welleng/errors/tools/owsg_to_json.py", "welleng/io.py", "welleng/errors/copsegrove.py"],
     [("load_iscwsa_example, to_legacy_codes_dict", "welleng/errors/iscwsa_ingest.py"), ("convert_sheet, convert_workbook", "welleng/errors/tools/owsg_to_json.py"), ("extract_data", "welleng/errors/extract_owsg_codes_generic.py"), ("import_iscwsa_collision_data", "welleng/io.py"), ("parse_copsegrove", "welleng/errors/copsegrove.py")],
     "Random workbooks and text files written cell by cell are read back and compared; every shipped definition is converted again.",
     "the published sheet layouts")
prop("P35", "Validators pass what agrees and flag what doesn't",
     "Validating a workbook passes exactly the source and total rows whose every component is within the absolute or relative tolerance of what the model gives for the workbook's well (metres or feet), and lists the sources the model doesn't have. Comparing a JSON definition with the coded weight functions reports, per term, the largest difference over the stations, and which have no formula value or no function, and prints them with their verdicts for the standard test well. Comparing random terms with Copsegrove sigmas gives the verdict of the largest difference, never a match for what isn't a number.",
     ["inputs"], "all wells, models, tolerances and perturbations of workbooks, formulas and diagnostics",
     "the tests validate files that agree; nothing shows that a disagreement is reported",
     ["welleng/errors/iscwsa_validate.py", "welleng/errors/conformance.py", "welleng/errors/copsegrove_validate.py"],
     [("validate_workbook", "welleng/errors/iscwsa_validate.py"), ("compare_model", "welleng/errors/conformance.py"), ("validate_random_terms", "welleng/errors/copsegrove_validate.py")],
     "Files are made to agree and then disturbed by known amounts inside and outside of the tolerance.",
     "conformance surveys in metres, inclined at least a degree")
prop("P36", "Figures and scenes show the data they are made from",
     "A survey's 3D figure shows its line and each station or interpolated point once, at its position and with its depth and angles; its panel shows plan, vertical, west-east and north-south sections. A mesh's figure or scene has the mesh's triangles (caps and edges included), tension, torque and hook load figures show every calculated curve against depth in the units asked for, and lines between wells join their closest points with the separation factor as value. Targets keep what they're given, refuse unknown shapes and wrong geometry, and circles are drawn at their place with their radius, dip and orientation about the vertical.",
     ["inputs", "configurations"], "all surveys, meshes, strings, friction factors, units, clearances and targets",
     "no test makes a figure or scene",
     ["welleng/visual.py", "welleng/torque_drag.py", "welleng/target.py"],
     [("figure, Plotter, get_lines", "welleng/visual.py"), ("figure_string_tension_and_torque, figure_hookload", "welleng/torque_drag.py"), ("Target", "welleng/target.py")],
     "A recorder stands in for plotly; recorded traces and vedo objects are compared with the data of random surveys, meshes, torque-drag runs and clearances.",
     "plotly isn't installed (a recorder stands in) and nothing is rendered; the colours of curves aren't judged")
prop("P37", "Curvature circles, volumes and unit conversions follow their definitions",
     "For every interval of a survey that turns, the curvature circle's centre reported from each of its two stations is the centre of the interval's arc, with the stations as the spokes' ends. Annular volume is the area between the diameters times the length (a cylinder without an inner diameter, an area without a length), for numbers, arrays and quantities with units. Converting by a factor keeps lists, their order and their gaps, and the registry's lengths, forces and torques convert as defined.",
     ["inputs"], "all wells, diameters, lengths, units and lists",
     "no test calls them",
     [S, U, "welleng/units.py"], [("get_circle_radius", S), ("annular_volume, linear_convert", U), ("ureg, Q_", "welleng/units.py")],
     "Arc centres of the reference geometry, additivity and published unit factors.",
     "intervals that turn by less than 1e-4 radians have no circle")
prop("P18", "Leaving an argument out is the same as passing its documented default",
     "Every public call with optional arguments gives, for any well and any subset of those arguments passed at the default its documentation or signature states (steps, tolerances, design doglegs, vertices, sigmas, pad uncertainty, friction range, units, radians or degrees, output precision), the result it gives without them. This covers surveys and headers, interpolation, tortuosity, sections and exports, connectors and plans, nodes, clearance and meshes, torque and drag, fluids, targets and the utilities. The survey methods that wrap a function of the module pass every argument on and give its result.",
     ["inputs"], "all wells, calls and subsets of their optional arguments",
     "tests call each function with one set of arguments and pin no default",
     [S, "welleng/connector.py", U, "welleng/clearance.py", "welleng/mesh.py", "welleng/torque_drag.py", "welleng/fluid.py", "welleng/target.py", "welleng/node.py", "welleng/exchange/wbp.py"],
     [("signatures and wrapping methods", S), ("Connector, survey_to_plan, connect_points", "welleng/connector.py"), ("IscwsaClearance, MeshClearance", "welleng/clearance.py"), ("HookLoad", "welleng/torque_drag.py")],
     "A table of about sixty public calls with their documented defaults; each generated case runs one call without and with a random subset of them and compares everything public in the two results. Methods are compared with the functions they wrap over random options.",
     "defaults of None are not passed; mesh reduction needs a package that isn't installed and stays off")
prop("P38", "The form in which numbers are passed doesn't matter",
     "Depths, angles, positions, covariances and radii passed as lists, tuples, whole numbers, integer arrays, read-only arrays, Fortran-ordered arrays or views give exactly the results of the same values in arrays of floats. Numbers passed as Python or numpy integers give the results of floats. What is passed in isn't changed.",
     ["inputs"], "all wells, public calls and forms of their input",
     "tests pass floats in one form",
     [S, "welleng/connector.py", U, "welleng/clearance.py", "welleng/mesh.py", "welleng/node.py", "welleng/torque_drag.py", "welleng/fluid.py"],
     [("Survey.__init__, interpolate_survey", S), ("Connector.__init__, connect_points", "welleng/connector.py"), ("get_vec, get_nev, NEV_to_HLA", U), ("get_ref_nevs with kickoffs", "welleng/clearance.py")],
     "The same table of public calls run with float arrays and with another form of the same whole numbers, and with only some of the arrays as integers while others have fractions; everything public in the results is compared and the inputs are compared with what was passed.",
     "functions documented for arrays only (transforms of covariances, sigmas) aren't given lists or tuples; 32-bit floats aren't passed")
