import json
P=[]
def p(id,title,statement,over,text,why,files,syms=None):
    a={"files":files,"mechanism":[dict(name=n,where=w) for n,w in (syms or [("implementation",files[0])])]}
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
IN=["inputs"]; HI=["histories","inputs"]
p("C01","Rigid transforms obey the group laws over any history of operations",
"Composing, inverting, differencing, re-basing and in-place updating of valid rigid transforms, in any order and any number of times (including a transform composed with itself in place), gives the same result as exact rigid-motion algebra up to float rounding, and the result always remains a valid transform (orthonormal right-handed rotation, determinant 1). The in-place, operator and free-function spellings of an operation agree, an inverse composed with its transform is the identity, and distance, norm, determinant, equality and nearness report what the matrices say.",
HI,"all histories of transform operations on valid transforms (any rotation, bounded translation)",
"The unit tests compose a handful of axis-aligned or single-axis transforms, one operation at a time; the claim is over every transform and every operation history.",
["almath/types/altransform.h","src/types/altransform.cpp","src/tools/altransformhelpers.cpp"])
p("C02","Rotations, quaternions and displacements compose, invert and act consistently",
"For all rotation matrices, unit quaternions and displacements, product, in-place product, transpose/inverse and application to a point agree with exact rotation algebra up to float rounding, whichever representation carries them. Equality, nearness, norm, determinant and element order (constructing from and exporting to a flat vector) report exactly the stored values.",
IN,"all pairs/triples of rotations, quaternions, displacements and points",
"Tests check a few fixed rotations; consistency of the composition order and of the point action across representations is a statement over all rotations.",
["almath/types/alrotation.h","src/types/alrotation.cpp","almath/types/alquaternion.h","src/types/alquaternion.cpp","almath/types/aldisplacement.h","src/types/aldisplacement.cpp"])
p("C03","All representations of an orientation or pose convert into each other losslessly",
"Converting an orientation or pose between rotation matrix, roll-pitch-yaw angles, angle and axis, quaternion, six-component position, planar pose, displacement and homogeneous transform always yields a representation of the same motion (up to float rounding), for every input including gimbal lock, half-turn, and near-identity orientations and non-normalised quaternions where accepted. Round trips return an equivalent motion, results are finite, quaternions have unit norm and rotation axes are unit vectors.",
IN,"all orientations (uniform plus degenerate strata) and bounded translations, through every conversion and conversion chain",
"Conversion code branches on the largest diagonal term, on gimbal lock and on small angles; tests sample few points per branch and never the branch boundaries.",
["src/tools/altransformhelpers.cpp","src/types/alrotation.cpp","src/types/alquaternion.cpp","src/types/altransform.cpp","src/types/alrotation3d.cpp"])
p("C04","Exponential and logarithm of rigid motions are inverse; means interpolate",
"For every rigid transform whose rotation is not too close to a half-turn, the exponential of its logarithm is that transform, and for every twist in the documented range the logarithm of its exponential is that twist; both agree with the analytic formulas. The logarithm of a half-turn about a coordinate axis is this half-turn, with the matching translation. The mean of two transforms with weight 0 is the first, with weight 1 the second, and for every weight lies on the screw motion between them.",
IN,"all transforms with rotation angle below pi - 0.001 (tiny angles included), all twists in the same range, all weights in [0,1]",
"The formulas switch to series expansions near zero and lose accuracy near pi; fixed test points cannot cover the switch-over regions.",
["src/tools/altransformhelpers.cpp","almath/tools/altransformhelpers.h"])
p("C05","Frame changes of poses, velocities and positions are exact rigid actions",
"Re-expressing a position, velocity, pose, planar pose or transform in another frame equals applying the rotation of that frame (and, for poses, only the documented part), and the in-place, by-reference and returning forms agree. The pose error between two transforms, the relative transforms and applying a transform to points equal their analytic definitions for all inputs.",
IN,"all frames (rotations/transforms) and all bounded vectors",
"Tests use frames rotated about one axis; sign and transposition errors can cancel there.",
["src/tools/altransformhelpers.cpp","src/tools/almath.cpp","almath/tools/almath.h"])
p("C06","Planar poses compose, invert and act on points as rigid motions of the plane",
"For all planar poses, composition, in-place composition, inversion, difference, action on points, polar construction and distance agree with exact planar rigid motions and with the same operations carried out on the corresponding 3D transforms, up to float rounding. Planar vectors' sums, cross and dot products, norms, distances, polar construction and normalisation follow their definitions, and normalising a null vector is refused.",
HI,"all planar poses and points, and products of many of them",
"Fixed examples cannot establish agreement of the 2D algebra with the 3D one for all angles.",
["almath/types/alpose2d.h","src/types/alpose2d.cpp","almath/types/alposition2d.h","src/types/alposition2d.cpp"])
p("C07","Vector-like types follow vector-space arithmetic componentwise",
"For positions, velocities, poses and angle triples, addition, subtraction, negation, scaling, division, in-place forms, dot and cross products, squared distances, norms, masks, equality and nearness act componentwise as defined, and converting to a flat vector and back preserves every component in order. Dividing by zero and normalising a null vector raise an error and leave the operand unchanged, and building from a vector of the wrong size yields the documented zero value.",
IN,"all component values (bounded finite floats, zeros, subnormals, sign changes), scalars and vector sizes",
"Component slips (copy-paste of x for y) survive tests which use equal or zero components; the claim is for every component of every type.",
["src/types/alposition3d.cpp","src/types/alposition6d.cpp","src/types/alvelocity3d.cpp","src/types/alvelocity6d.cpp","src/types/alrotation3d.cpp","src/types/alpositionandvelocity.cpp","src/types/altransformandvelocity6d.cpp","src/types/alaxismask.cpp"])
p("C08","Normalisation repairs drifted rotations and transforms",
"Normalising any rotation, transform or quaternion that has drifted from validity by accumulated error yields a valid one (orthonormal, right-handed, unit norm) close to the input, leaves already valid ones unchanged up to rounding, and is idempotent. The orthogonal frame built from any direction is a valid rotation whose z axis is along this direction (the identity for a null one).",
IN,"all valid rotations/transforms/quaternions perturbed by bounded noise or scaling; all non-null direction vectors including axis-aligned ones",
"Tests normalise one or two matrices; validity must hold for every drift direction.",
["src/types/alrotation.cpp","src/types/altransform.cpp","src/types/alquaternion.cpp","src/tools/altransformhelpers.cpp"])
p("C09","Angle and interval tools stay in range and preserve the angle",
"Wrapping an angle always gives an equivalent angle in the documented half-turn range; clipping always gives a value inside the interval, equal to the input when it already was inside, and tells whether it clipped. The (weighted) mean of angles is the direction of the (weighted) sum of unit vectors, is independent of adding full turns and of the ordering, does not depend on the overall scale of the weights, and an undefined mean or a non-positive weight is reported as an error.",
IN,"all finite angles up to many turns, all bounds, all lists of angles and positive weights",
"Tests check isolated angles; range membership at the wrap boundaries and weight scaling need search.",
["src/tools/almath.cpp","almath/tools/almath.h"])
p("C10","Projecting a rotation on an axis gives a rotation about this axis",
"Projecting a rotation, or the rotation of a transform, on the rotations about a given axis (of any non-zero length) always returns a valid rotation about this axis, which is the input itself when it already was a rotation about it. About a coordinate axis, the result is the first factor of the decomposition of the input into a rotation about this axis followed by rotations about the two other axes, chosen among the two candidates as the one closest to the input. The four forms agree, the transform forms keep the translation, and a null axis is refused and leaves the operand unchanged.",
IN,"all rotations (uniform, degenerate, already about the axis) and all axes",
"Clamping and degenerate (aligned, opposite, gimbal) cases are reachable only by float coincidences which fixed tests do not contain.",
["src/tools/altransformhelpers.cpp"])
p("C11","Dubins solutions reach the target through valid turns of the given radius",
"For every target pose at least four radii away, the three returned checkpoints describe a feasible path from the origin: a turn of the given radius tangent to the x axis, a straight part along the heading of the first two checkpoints (the same up to full turns), and a turn of the given radius ending exactly at the target, which is the last checkpoint. The headings count each turn in its direction and below one full turn (for target headings in [-pi, pi]). The straight part is the shortest of the four combinations of turns. Nearer targets are refused. Mirror-image targets give mirror-image paths and scaling target and radius scales the path.",
IN,"all target poses around the origin (near, far, all headings) and all positive radii",
"The existing tests pin a few targets; selection among turn combinations and degenerate near targets need exploration.",
["src/tools/aldubinscurve.cpp","almath/tools/aldubinscurve.h"])
p("C12","Foot collision avoidance never lets the feet overlap",
"For all clockwise rectangular foot boxes and all target placements: the box-overlap verdict agrees with the exact intersection of convex polygons except when they merely touch, whatever the order of the boxes and the frame; the corrected placement keeps the requested position and only reduces the rotation, between none and the requested one; it never overlaps the other foot when the unturned foot is free; it equals the request when the request is free; it is reduced by no more than 1/32 of the request beyond need; the reported flag says whether the request overlapped; both feet are treated alike. Segment intersections are found, with their point, exactly when the segments cross.",
IN,"all rectangular foot boxes and all placements (both moving feet)",
"Geometric predicates fail on particular relative orientations that fixed tests do not reach.",
["src/tools/avoidfootcollision.cpp","almath/tools/avoidfootcollision.h"])
p("C13","Foot step clipping always lands inside the allowed ellipse",
"Clipping a foot placement with an ellipse of given half-axes (whatever their signs) keeps every placement inside the ellipse unchanged, moves any other to the border along its direction from the centre, never changes its orientation, and reports whether it changed something.",
IN,"all foot placements and all positive ellipse half-axes, for both feet",
"Tests use a few placements; containment must hold for every direction and distance.",
["src/tools/avoidfootcollision.cpp","almath/tools/avoidfootcollision.h"])
p("C14","Digital filters realise their difference equation over any signal",
"For every configuration (any number of input and output weights, gain) and every history of samples, resets and reconfigurations, and for the default filter, each output is the input while the filter has not yet seen as many inputs and outputs as it has weights, and then the sum of the weighted last inputs divided by the gain (oldest first) and of the weighted last outputs (oldest first). A reset forgets all samples, copies are independent, and nothing outside the samples is read.",
HI,"all weight vectors, gains, biases and all histories of process/reset/configure calls",
"Tests run one or two fixed filters on a short signal; buffer order and warm-up errors depend on lengths and history.",
["src/dsp/digitalfilter.cpp","almath/dsp/digitalfilter.h"])
p("C15","PID controllers compute the documented command over any error history",
"For all gains, thresholds, offsets, periods and error histories, each command is the offset plus the proportional, derivative (none at the first command after a reset) and integral terms of the errors outside of the dead zone since the last reset, using the period given by the caller when one is given and the configured one otherwise; the absolute form ignores errors below the threshold and uses the absolute derivative. Invalid gains, thresholds, offsets or periods are refused and leave the controller as it was.",
HI,"all gains, positive periods and histories of initialise/reset/compute/set calls",
"Tests compute few steps with one configuration; state carry-over needs histories.",
["src/dsp/pidcontroller.cpp","almath/dsp/pidcontroller.h"])
p("C16","Occupancy map pixel and metric coordinates are mutually inverse",
"For every square map (size, resolution, centre), pixel (0, 0) is the upper left corner: columns follow x, rows go against y, and the centre of the map is at half the size. The position of a pixel converts back to that pixel, the pixel of a position is the nearest one, so that converting back moves it by at most half a pixel along each axis; orientations are kept; differences do not depend on the centre. The parameters are reported as given, and moving the centre moves all positions accordingly.",
IN,"all map sizes, resolutions, origins and coordinates in range",
"Tests check a few pixels of one map; rounding and sign conventions must hold for every pixel.",
["src/types/occupancymapparams.cpp","almath/types/occupancymapparams.h"])
p("C17","Shapes report their dimensions, dispatch to the right visitor, and pills match their sphere centres",
"Every shape reports the dimensions it was given and dispatches visitors to its own kind, itself, exactly once per accept; visitors which do not handle a kind refuse it with their message. The sphere centres of a pill are at its half extent along the z axis of its frame, and the pill computed from two centres has half their distance, their middle, and a rotation whose z axis goes from the first to the second, so that both computations are mutually inverse.",
HI,"all dimensions, shape kinds, sequences of visits, pill frames and sphere centres",
"Tests check one example per shape.",
["src/geometrics/shapes3d.cpp","src/geometrics/shapes3d_utils.cpp","almath/geometrics/shapes3d.h"])
p("C18","Robot descriptions are accepted exactly when they form one valid tree",
"A robot description is accepted if and only if its links and joints form a single connected tree with unique names, existing endpoints and a valid (existing, acyclic) set of joint-mimicking relations; otherwise it is refused with an error, in finite time. Once accepted, the root, the lookup of joints and links by name, the depth-first traversal order with matched enter/leave events, and the graph export are those of the document.",
["inputs","programs"],"all joint/link graphs (trees, forests, cycles, duplicated names, dangling ends, mimic chains) in any file order",
"Tests use a few well-formed models plus a few malformed; the accept/reject boundary is over all graphs.",
["src/scenegraph/urdf.cpp","almath/scenegraph/urdf.h"])
p("C19","Changing a robot's root or moving its frame preserves the physical robot",
"Choosing another link as root, and moving the root frame, never changes the robot as a mechanism: for every joint configuration, the relative poses of all visual, collision and inertial elements are the same as before (joints reversed on the way included), all links and joints are kept, and the result is again a valid tree. Coming back to the original root restores the original mechanism.",
HI,"all trees, all joint kinds and axes, all joint values and all sequences of re-rootings and frame transports",
"Tests re-root one small model and compare textual results; equivalence over all joint values is never evaluated.",
["src/scenegraph/urdf.cpp","almath/scenegraph/urdf.h"])
p("C20","Merging link masses preserves total mass, centre of mass and inertia",
"Squashing a fixed joint's child mass into its parent, alone or for all fixed joints and for massless joints made fixed, preserves the total mass, the overall centre of mass and the overall inertia tensor of the merged bodies expressed in any frame. Links which are not concerned are untouched.",
["inputs","histories"],"all trees with any masses (zero included), inertia tensors, centre-of-mass frames and joint frames",
"Tests use one symmetrical case in which a wrong rotation sense is invisible.",
["almath/scenegraph/urdfeigen.h","almath/scenegraph/bodymass.h","src/scenegraph/urdf.cpp"])
p("C21","Robot description values read, default, compose and write back faithfully",
"Every attribute of a pose, joint, link, limit, inertial, visual or collision element is read with its documented default when missing, and pose composition and inversion are exact rigid-motion algebra. Writing a pose or vector and reading it again, or writing the whole document and parsing it again, gives back the same values, and file name rewriting visits every mesh and texture file name exactly once.",
IN,"all element contents with any subset of attributes present and any finite values",
"Tests parse a few literal snippets; round trip is over all values.",
["src/scenegraph/urdf.cpp","almath/scenegraph/urdf.h"])
p("C22","Building a rigid body system from a robot description loses nothing",
"Feeding a robot description to a rigid-body-system builder produces exactly one body per link that is not fixed to its parent, joined as in the description, with the joint kinds, axes, frames and names of the description, the inertial data of each body (fixed children merged in) and a static frame for each fixed link, visited in the order of the description. Joints moving a massless body are made fixed, a branch starting at a massless root is not explored, the options removing the root joint, fixing continuous joints and leaving out static frames do so, and kinds of joints or axes which a rigid body system cannot hold are refused.",
IN,"all valid trees with fixed, continuous, revolute, prismatic, planar and floating joints, any inertial data",
"Tests build one or two small models.",
["src/scenegraph/urdfrigidbodysystemtraverser.cpp","almath/scenegraph/rigidbodysystembuilder.h","almath/scenegraph/urdfrigidbodysystemtraverser.h"])
p("C23","Rigid-body builder decorators filter without altering the construction",
"Each builder decorator forwards every body and frame in order with all data unchanged except what it documents (mass erasure), refuses duplicated or unknown names exactly when they are duplicated or unknown, and the interface adapter produces the same construction as the direct one.",
HI,"all call sequences (valid and invalid) on all decorator stacks",
"Tests cover a few calls.",
["almath/scenegraph/rigidbodysystembuilder.h"])
p("C24","Animation documents keep key order and content under any editing history",
"For every sequence of key, label, curve and actuator insertions and look-ups, in documents which may contain comments and other elements, an animation document holds for each curve the keys sorted by frame with exactly the values last set, returns existing elements instead of duplicating them, and leaves unrelated elements in place. Writing it and reading it back gives the same document, and missing required content is reported as an error.",
HI,"all histories of editing operations on animation documents, with any interleaved foreign elements",
"Tests insert few keys in a nearly fixed order; binary search over mixed children depends on history.",
["src/scenegraph/qianim.cpp","almath/scenegraph/qianim.h"])
p("C25","Animation checks accept exactly the well-formed Bezier curves",
"Checking an animation accepts a document exactly when its version is the supported one, every curve names its actuator, has a valid rate, and unit, and, for every two adjacent keys, frames strictly increase, both keys have a value, the first has a right tangent and the second a left one, with handles pointing into the interval and not beyond the other key; otherwise it reports an error. Any other element of the document is ignored.",
IN,"all curves, with all placements of tangents, sides, interpolation kinds and key frames",
"Tests check a few bad curves; the acceptance boundary is over all.",
["src/scenegraph/qianim.cpp","almath/scenegraph/qianim.h"])
p("C26","The mesh builder records exactly the geometry it was given, or refuses it",
"For every sequence of builder calls, the mesh holds the vertices, normals, texture coordinates and polygons given, in order, with all indices in range, and misuse (undefined normal or texture coordinate, wrong polygon size, inconsistent use of texture coordinates, out-of-range index) is refused. Accepted geometry is never changed by a later refused call's absence of effect on polygons already recorded.",
HI,"all sequences of mesh builder calls, valid and not",
"Tests build two fixed meshes.",
["src/scenegraph/mesh.cpp","almath/scenegraph/mesh.h"])
p("C27","Generated primitive meshes are closed, outward and on the intended surface",
"For all dimensions and resolutions, the generated box, rounded box, sphere and pill meshes are closed orientable surfaces with outward-facing polygons and normals, with every vertex on the surface of the intended solid and the right overall extent.",
["inputs","configurations"],"all positive dimensions and all supported resolutions",
"Tests only look at a few counts of the result; watertightness is a property over dimensions and resolutions.",
["src/scenegraph/meshfactory.cpp","almath/scenegraph/meshfactory.h"])
p("C28","Exported Collada scenes are self-consistent and complete",
"For every sequence of meshes, materials and transforms added to a scene, the exported document has unique identifiers, every internal reference resolves to the right kind of element, counts and strides match the data and polygon indices, and the coordinates (to the printed precision), transforms and polygons are those given. A refused addition leaves the scene valid. Copies of a scene or mesh builder are independent.",
HI,"all sequences of scene additions with any meshes, transforms and materials",
"Tests compare one or two literal documents.",
["src/scenegraph/colladabuilder.cpp","src/scenegraph/colladascenebuilder.cpp","src/scenegraph/scenebuilder.cpp"])
p("C29","Conversions to and from the linear algebra library are exact; averages are means",
"Converting transforms, poses, rotations, positions, velocities and quaternions to the linear algebra library's types and back preserves every coefficient with the right layout, and both sides agree on composition and application to points. The average of a set of transforms is a valid transform, has the mean translation and, as rotation, the direction of the sum of the unit quaternions (taken in the same half-space), is independent of the ordering and of duplicating the whole set, and averaging copies of one transform returns it.",
IN,"all transforms, and all non-empty lists of transforms with bounded rotation spread",
"Tests convert a few matrices.",
["almath/scenegraph/almatheigen.h"])
p("C30","Reading arbitrary XML never crashes, hangs or corrupts memory",
"For every text, reading it as a robot description or as an animation document and then querying and editing everything it offers either succeeds or reports an error; it never crashes, aborts, hangs, or reads outside its data. A document which was accepted gives the same answers when queried again or when written and read again.",
IN,"all byte strings, in particular mutations of valid robot descriptions and animation documents",
"Tests feed only files that were written by hand.",
["src/scenegraph/urdf.cpp","src/scenegraph/qianim.cpp","almath/scenegraph/urdf.h","almath/scenegraph/qianim.h"])
p("C31","Text output of values is complete and can be read back",
"For every value of every type, its printed and space-separated forms contain all components, in order, with the documented labels and layout, so that parsing the numbers back gives the value up to the printed precision. Printing never modifies the value.",
IN,"all values of all printable types",
"Tests print nothing or one value.",
["src/tools/almathio.cpp","almath/tools/almathio.h"])
p("C32","Editing a robot tree keeps its structure, index and document in step",
"For every sequence of joint and subtree removals, conversions of joints to fixed or floating ones, mass merging, root frame moves and re-rootings on a valid robot tree, the tree obtained is the one the documented edits describe (structure, file order, frames, masses), its lookups, traversal and document agree with each other, elements which remain are still the same objects of the document, refused edits change nothing, and parsing the document again gives the same tree.",
HI,"all valid trees and all histories of tree edits",
"Tests apply at most one or two edits to a small model.",
["src/scenegraph/urdf.cpp","almath/scenegraph/urdf.h"])
p("C33","Transforms of the messaging library are rigid motions and convert faithfully",
"For all messaging-library (qi) transforms with unit quaternions, composition, inversion, in any history, and the linear algebra form agree with exact rigid-motion algebra; norm, normalisation, nearness (blind to the sign of the quaternion), construction from an angle and any non-null axis, and text output follow their definitions. Conversions to and from the library's transforms and planar poses denote the same motion up to float rounding, keep translations, and agree with composition.",
HI,"all transforms, histories of operations, poses, angles and axes",
"The tests of these headers need libqi and check a handful of quaternions.",
["almath/scenegraph/qigeometry.h","almath/scenegraph/almathqigeometry.hpp"])
p("C34","Time stamps convert between clocks exactly, in order, and within the valid range",
"For every duration since the epoch, the ROS time is this duration when it is in the valid range of ROS times and the nearest limit of this range otherwise (never the null time); the conversion preserves order, and converting a valid ROS time to a duration and back gives it back, to the nanosecond.",
IN,"all 64 bit counts of nanoseconds and all ROS times",
"Tests check the limits and three values; truncation or overflow shows for particular dates only.",
["almath/scenegraph/qirostime.h"])
p("C35","The scripting interface shows values completely and multiplies from both sides",
"The text a script gets for a value (point, pose, rotation, transform, quaternion, displacement, velocity, map parameters, and vectors of them of any length) is one complete notation: the type's name, every component once, under its name, in order, to six significant digits, with balanced brackets and nothing else, however large the numbers. A number times a value from the left is the componentwise product, and a rotation or transform times a point is the moved point.",
IN,"all values (including extreme, infinite and undefined components) and vectors of any length",
"There are no tests of the functions added for scripts: a component swapped, missing or printed through too small a buffer would pass.",
["almath.i"],[("%extend blocks","almath.i")])
p("C36","Results depend only on the arguments: no hidden state, safe from several threads",
"What any function or method of the library returns depends only on its arguments and on the object it is called on: the same calls made in another order, after other calls, twice in a row, or on other objects in between give the same results bit for bit. Several threads which work on objects of their own, or which only read the same objects (descriptions, animations, meshes, shapes, maps), do not interfere: there is no data race, and each gets the result it gets alone.",
["schedules","histories","inputs"],"all sequences of calls, all pairs of orders, and all schedules of up to three threads",
"Tests call each function from one thread and in one order: a cached result, a static buffer or a shared scratch object answers correctly until another call comes in between.",
["src/types","src/tools","src/dsp","src/geometrics","src/scenegraph","almath","geometry_module/src/registration.cpp"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
