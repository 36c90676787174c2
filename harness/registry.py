"""Per-property settings of the checks."""
PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, rule, **kw):
    PROPS[pid] = dict(rule=rule, **kw)


prop("C01",
     "random histories (up to 40 operations on 4 registers) of transform products, self products, "
     "pre-multiplications, inversions, differences, normalisations and vector round trips, mirrored in "
     "double precision with a propagated forward error bound; plus factories, comparisons and validity "
     "tests. Non-trivial: a history with at least 3 products/inversions involving two rotations with "
     "different axes, or a comparison/validity case whose operands differ.",
     assumptions=["translations bounded by 100", "float rounding: 4 times the worst-case forward error bound"])

prop("C02",
     "random histories of products, in-place (self) products, inversions, normalisations, scalings and vector "
     "round trips of rotation matrices, quaternions and displacements, mirrored in double precision with a "
     "forward error bound, and their action on points; comparisons with a controlled difference; validity tests "
     "of perturbed matrices. Non-trivial: a history with 2 or more products of operands which do not commute, or "
     "a comparison/validity case with a real difference.",
     assumptions=["float rounding: 4 to 8 times the forward error bound"])

prop("C03",
     "random walks (up to 10 steps) through the representations Transform, Rotation, Rotation3D, Position6D, "
     "Quaternion, angle and axis, Displacement; after each conversion the motion denoted by the representation, "
     "computed in double precision from its definition, is compared with the previous one. Also unprincipal angles, "
     "scaled quaternions, the axis of rotations down to 1e-8 rad, planar poses, positions and coordinate-axis rotations. Rotations are uniform or from the "
     "strata identity, tiny, half-turn, gimbal lock, axis aligned, drifted products. Non-trivial: at least two "
     "effective conversions of a rotation which is not the identity, or non-zero distinct components.",
     assumptions=["rotation error below 4e-6 per conversion"])

prop("C04",
     "random twists and transforms (angles uniform in the documented range, tiny, around the switch-over at 1e-3 and "
     "up to pi - 0.002; translations of several magnitudes; also transforms coming out of computations) compared with "
     "the closed forms in double precision, half-turns about the coordinate axes, and random pairs and weights for the mean. Non-trivial: non-zero angle and "
     "translation, weight strictly inside (0, 1) for the mean.",
     assumptions=["angles at most pi - 0.002 (documented range: pi - 0.001)",
                  "error bound: conditioning angle/sin(angle) of the logarithm, eps/angle of the float exponential"])

prop("C05",
     "random frames (uniform and degenerate rotations, translations), random positions, velocities, poses and "
     "transforms; every frame change, point action, pose error and point mass inertia compared with its definition in "
     "double precision, in all its forms. Non-trivial: frame and vectors neither null nor symmetric.",
     assumptions=["relative tolerance 1e-6"])

prop("C06",
     "random histories (up to 20 operations) of planar compositions, inversions, differences and round trips mirrored "
     "in double precision with an error bound and on the corresponding 3D transforms, action on points; polar "
     "construction, norms, products. Non-trivial: at least two products and a final pose which is not the identity.",
     assumptions=["translations bounded, accumulated angle below 60 rad"])

prop("C07",
     "for each vector-like type (positions 2D/3D/6D, planar poses, velocities 3D/6D, angle triples, and the pairs built "
     "from them) random component values of several magnitudes, scalars, single-component differences around the "
     "nearness threshold, wrong-size vectors, masks; every operation compared with componentwise arithmetic in double "
     "precision (one or two float roundings allowed). Non-trivial: at least two non-zero components, distinct operands, "
     "a scalar which is neither 0 nor 1.",
     assumptions=["components up to 1e5 in magnitude"])

prop("C08",
     "random rotations (uniform and degenerate strata) multiplied by I + E with E random of magnitude 1e-7 to 0.15, and "
     "rotations, transforms and quaternions drifted by up to 3000 float products, then normalised in every form; "
     "degenerate matrices; quaternions of any scale; orthogonal frames of random directions, including those close to "
     "the coordinate axes. Non-trivial: an actual drift of a rotation which is not the identity.",
     assumptions=["closeness: 8 times the largest coefficient of E (the normalisation keeps one axis exactly and is not the orthogonal projection)"])

prop("C09",
     "angles: multiples of pi/4, float multiples of pi and their neighbours, up to 1000 turns, up to 1e5 rad; sets of 1 "
     "to 200 angles of any spread with weights of any scale from 1e-6 to 1e6, cancelling sets included; intervals of "
     "several magnitudes with data at, next to, inside and outside the bounds, scalars, vectors and vectors of vectors. "
     "Non-trivial: angle out of range, at least two distinct angles with a defined mean, a clipped element.",
     assumptions=["angle equivalence up to 1e-7 relative (float value of 2 pi)",
                  "means whose mean vector has a norm between 1e-6 and 2e-3 are neither required nor refused"])

prop("C10",
     "random rotations (uniform, degenerate, already about the axis, close to it) and axes (uniform, coordinate and "
     "diagonal ones, any length), in the four forms, compared with the decomposition of the rotation in double precision; for oblique axes, where the "
     "library has a known finding, with the closest rotation about the axis and with the formula of the finding. "
     "Non-trivial: the projection differs from the input and from the identity.",
     assumptions=["where the decomposition is nearly degenerate (below 1e-4) only a valid rotation about the axis is required"])

prop("C11",
     "random targets from 4 radii (boundary included) to 4000 radii, all directions and headings, radii of several "
     "magnitudes; geometric verification of the path (turn centres, tangency, direction of travel, shortest straight "
     "part), mirror images and scaling; nearer targets; targets at exactly 4 radii. Non-trivial: a straight part, lateral offset and target heading "
     "which are not null.",
     assumptions=["heading checks allow the conditioning of the cross tangents of targets close to 4 radii"])

prop("C12",
     "random clockwise rectangles (the feet of the robot, random and equal ones, any first corner) at random relative "
     "placements, most of them close to touching; overlap verdicts compared with the separating axis theorem in double "
     "precision; corrected placements checked to be free, between the unturned foot and the request, and not reduced "
     "by more than the resolution of the search; random segments. Non-trivial: boxes close to touching, a placement "
     "reduced to a non-null angle, segments which meet.",
     assumptions=["boxes are clockwise and convex, with sides between 0.03 and 3",
                  "verdicts are not judged when the boxes touch (gap below 5e-5, overlap below 2e-5 of their size)"])

prop("C13",
     "random ellipses (half-axes from 1e-4 to 30 m, both signs, ratios up to 100) and placements of any elliptical radius "
     "up to 1e4, half of them within a few percent of the border; the result compared with the definition in double "
     "precision, and with its mirror image. Non-trivial: a clipped move which is not along an axis.",
     assumptions=["half-axes are not null", "radii within 3e-5 of the border are not judged"])

prop("C14",
     "random histories (up to 60 operations) of samples, resets, reconfigurations (0 to 12 weights each, any gain) and "
     "copies, starting with the default filter, compared at each sample with the difference equation in double precision; "
     "superposition and delay of random signals. Non-trivial: at least 3 samples past the warm-up of a filter which has "
     "more than one weight.",
     assumptions=["after a reconfiguration which changes the sizes or the gain, outputs are judged from the next reset on, or once the whole history is newer than the change",
                  "gains are not null; filters which diverge are judged until they exceed 1e30"])

prop("C15",
     "random histories (up to 40 operations) of commands (signed and absolute errors, with and without a given period), "
     "resets, initialisations, gain changes and refused parameters, compared with the PID formula in double precision. "
     "Non-trivial: 3 or more commands since the last reset with non-null derivative and integral gains.",
     assumptions=["periods between 0.001 and 10, gains up to 50"])

prop("C16",
     "random maps (1 to 20000 pixels, resolutions from 1 mm to 10 m, any centre, moved up to 3 times), pixels inside and "
     "outside of the map, positions inside, outside and at the limit between pixels, differences; compared with the "
     "definition in double precision and converted back. Non-trivial: more than one pixel and a centre which is not the "
     "origin.",
     assumptions=["map centres at most 100 map sizes away, so that a pixel exceeds the rounding errors"])

prop("C17",
     "random sequences of shapes of every kind and dimension and of visits; random pairs of sphere centres (distances and "
     "directions of any magnitude, almost along an axis, equal) and pill frames. Non-trivial: visits of at least two "
     "kinds, pills which are not along an axis.",
     assumptions=["pill axes are judged for half extents above 5e-5 and well above the rounding errors"])

SG = ["types", "tools", "dsp", "geometrics", "scenegraph"]

prop("C18",
     "random descriptions (1 to 25 links in any document order, names shuffled against the tree, comments and odd "
     "spacing, mimic relations), intact or damaged (duplicate names, missing ends, moved ends, added or dropped joints "
     "and links, any mimic relation), and descriptions lacking a name or an end; acceptance compared with a graph "
     "oracle, then root, look-ups, traversal with pruning, graph and mimic flatness with the document. Non-trivial: "
     "at least 2 (damaged) or 3 (valid) joints.",
     dirs=SG)

prop("C19",
     "random robots (joints of all types, random origins with gimbal lock and missing ones, masses, shapes), histories of "
     "up to 4 changes of root and moves of the root frame (random, or onto an element); the relative poses of all "
     "elements at three joint configurations, and all other data, compared before and after with double precision "
     "mechanics written from the URDF definition. Non-trivial: at least two joints reversed.",
     assumptions=["relative tolerance 1e-9"],
     dirs=SG)

prop("C20",
     "random robots (chains of fixed joints, massless links, null masses, missing origins, origins which cancel out); one "
     "joint, all fixed joints, or massless joints too; the merged bodies compared with the parallel axis theorem in double "
     "precision, the rest of the description compared exactly; the underlying algebra on random poses and tensors in "
     "float and double. Non-trivial: at least two bodies merged at different poses.",
     assumptions=["masses are not negative", "the tensor of a merge whose total mass is null is judged up to the parallel axis terms, which vanish"],
     dirs=SG)

prop("C21",
     "random histories of pose compositions and inversions (gimbal lock, pure translations) in double precision; random "
     "triples of any finite double in any spelling and layout, and malformed ones; random elements with each optional "
     "attribute present or not, and elements lacking a mandatory one; whole random documents read, written and read again; "
     "file name rewriting on random documents. Non-trivial: distinct values, at least two products, elements with some "
     "of the optional attributes, two or more file names.",
     assumptions=["numbers are finite", "relative tolerance 1e-11 for compositions; values read are exact"],
     dirs=SG)

prop("C22",
     "random robots (all joint types, massless links and roots, unit and other axes, names which clash), each option, "
     "document or stream, with and without the names checker; the sequence of calls received by a recording builder "
     "compared with the one derived from the document (depth first, fixed children merged by the parallel axis theorem). "
     "Non-trivial: at least two bodies and one static frame.",
     assumptions=["the galilean frame is the default one"],
     dirs=SG)

prop("C23",
     "random stacks of decorators and adapters (eraser, names checker, single precision) and histories of up to 20 "
     "additions with colliding, unknown and default names, some refused by the last builder, against sets of names; "
     "everything forwarded compared exactly. Non-trivial: at least two additions accepted, and a refusal, an eraser or a "
     "change of precision.",
     dirs=SG)

prop("C24",
     "random histories (up to 30 operations) on documents with up to 5 curves and lists of labels, empty or read from "
     "text, holding comments and other elements anywhere (with look-alike names and attributes): keys, tangents, labels and "
     "attributes required, set, moved, erased, looked up, refused; write and read. After each operation everything the "
     "accessors say is compared with a model, and what lies out of the edited element with its previous content. "
     "Non-trivial: at least two elements added, with a reuse, an insertion out of order or a foreign element.",
     dirs=SG)

prop("C25",
     "random valid animations (1 to 3 curves of up to 5 keys, tangents in any order, handles anywhere in their bounds and at "
     "them, foreign elements, large frames) with up to 3 damages (frames swapped, equal, negative or missing, handles moved to "
     "or next to the bounds, tangents missing, incomplete, doubled or on the wrong side, attributes missing, version); "
     "acceptance compared with an independent reader, the segments with the document; the bounds directly. Non-trivial: a "
     "damaged document which is refused, or accepted with at least two segments.",
     dirs=SG)

prop("C26",
     "random histories (up to 50 calls) of the mesh builder, with and without texture coordinates: positions, normals, "
     "texture coordinates, their selection, begin, vertices and end, in and out of turn, valid and invalid indices, copies; "
     "after each call all buffers and accessors compared with a model. Non-trivial: at least two polygons, or two vertices "
     "and a refusal.",
     assumptions=["normals given are unit vectors (asserted)"],
     dirs=SG)

prop("C27",
     "random extents (zero along any subset of axes for rounded boxes), radii and resolutions (0 to 12 vertices per arc), in "
     "an empty mesh or after other geometry, with and without texture coordinates; vertices on the surface, extent, normals, "
     "closed manifold with Euler characteristic 2, convexity and orientation of each polygon, distance to the solid and "
     "volume; boxes without thickness along any subset of axes. Non-trivial: three distinct extents (box), some extent and resolution (rounded box).",
     assumptions=["extents and radii positive, of comparable magnitudes (ratio below 3000)"],
     dirs=SG)

prop("C28",
     "random histories (up to 16 operations) on up to 4 scenes: meshes (empty, primitive, random polygons), shapes, refused "
     "ones, with any transform, configurations, copies, assignments (also to itself), destructions; every scene written and "
     "read back by an independent reader which resolves all references, and compared with a model; each low level element; "
     "meshes of more than a million positions; another implementation of the interface, and its copies. Non-trivial: at least two additions, or one and a copy.",
     assumptions=["numbers are printed with 6 significant digits", "meshes are complete (no open polygon)"],
     dirs=SG)

prop("C29",
     "random coefficients of any magnitude converted to every Eigen type and back (matrices of both storage orders, dynamic "
     "ones, blocks, affine, compact, isometric transforms, into fresh and used objects), compared exactly; products and "
     "images of points on both sides; random sets of 1 to 120 transforms within a spread of up to 1.35 rad of a base, "
     "averaged in any order, container and multiplicity, and moved. Non-trivial: asymmetric coefficients, rotations, at "
     "least two transforms which differ.",
     assumptions=["rotations averaged are within 155 degrees of each other",
                  "the mean rotation is the one of the normalised sum of the aligned unit quaternions"],
     dirs=SG)

prop("C30",
     "random texts: valid robot descriptions and animations with up to 6 structural damages (values, names, attributes, "
     "missing, copied, moved elements) or textual ones (bytes, cuts, copies, markup), random documents over the vocabulary "
     "of each format, random tokens and bytes (also driven by coverage); read, queried twice in full, written, read and "
     "queried again, edited by up to 6 calls with answers after each; run under sanitizers too. Non-trivial: a document "
     "which is accepted with more than 20 (robot) or 5 (animation) answers, or refused after parsing.",
     assumptions=["magnitudes below 1e60 in the documents which are edited",
                  "nesting and kinematic depth bounded by the call stack (Boost's parser and the traversal recurse)",
                  "is_mimic_tree_flat is not asked once joints were removed (known finding of C32)"],
     dirs=SG, fuzz_thorough=240, fuzz_len=1024, thorough_scale=12)

prop("C31",
     "random values (any magnitude, integers, extreme, infinite, not a number, subnormal) of the twelve printable types, "
     "printed with default settings, with any precision and number format, after one another, and converted to text; the text "
     "is parsed back: labels, order, count, rows, values to the printed precision (exactly from 9 digits on). Non-trivial: all "
     "components different and non-zero but at most one.",
     assumptions=["no field width, C locale"])

prop("C32",
     "random descriptions (up to 9 links, every joint type, masses, shapes, mimics, limits, any element order) and histories of "
     "up to 12 edits (root changes, root frame moves, removals of root, leaf, subtree, joints made fixed or floating, masses "
     "squashed, massless and continuous joints made fixed, files renamed, refused ones); after each the document, the poses of "
     "frames and shapes in two configurations, the masses, the look-ups (same elements), the traversal, the mimic query and the "
     "document written and read again are compared with a model. Non-trivial: at least 3 kinds of edits, 3 joints.",
     assumptions=["positive masses",
                  "after the removal of a joint which another mimics (known finding), reading again and the mimic query are not asked"],
     dirs=SG)

prop("C33",
     "random histories (up to 15 operations) of products, inversions and normalisations of transforms, mirrored in double "
     "precision; the linear algebra form, nearness with controlled differences (opposite quaternions included), norms, "
     "construction from any angle and axis, text; conversions to the library's transforms and planar poses, and back; the functions the scripting module advertises, by "
     "name. "
     "Non-trivial: at least two products, distinct coordinates, rotation and translation which are not null.",
     assumptions=["structures as libqi's compiler lays them out from geometry.idl.qi (libqi is not installed: the structures are made from this file, in declaration order)",
                  "tolerance 1e-14 per operation in double precision, 2e-6 for conversions through floats",
                  "headings are judged when the x axis is more than 1 mrad off the vertical"],
     gen=["idl"], sources=["geometry_module/src/registration.cpp"])

prop("C34",
     "random durations over the whole signed 64 bit range (valid dates, around whole seconds, around both limits of the valid "
     "range and of the type) and pairs of them; random valid times. Non-trivial: in the valid range, seconds and nanoseconds "
     "which are not null.",
     assumptions=["ros::Time and qi::Duration as their documentation defines them (not installed: stand-in headers)"])

prop("C35",
     "random values of the fifteen types scripts can print (components of any magnitude, extreme, infinite, not a number, "
     "subnormal), vectors of up to 11 of them, and factors from the left; the text is parsed back by an independent reader. "
     "Non-trivial: every single value; vectors of at least two elements; factors which are not null.",
     assumptions=["the functions of almath.i's %extend blocks, translated to C++ (SWIG is not installed)",
                  "commas and line breaks both separate components", "C locale"],
     gen=["swig"])

prop("C36",
     "(1) random sets of 2 to 16 calls (130 operations of every part of the library, a few of them at a time with several "
     "random arguments each) made in two different orders, and twice in a row, in processes of their own: the results are the "
     "same bit for bit; (2) under ThreadSanitizer, 2 or 3 threads making such calls with the same constant objects "
     "(descriptions, animations, meshes, scenes, shapes, maps), results compared with the ones of a single thread; (3) under "
     "ThreadSanitizer, 2 or 3 threads running random histories of the other properties (each facet of C01 to C34) "
     "on objects of their own, with their oracles. Non-trivial: an operation called with two different arguments in two "
     "different orders; at least two calls shared; a non-trivial case in every thread.",
     assumptions=["ThreadSanitizer sees the races of the executions it runs; the C++ library and Boost's are not instrumented where they "
                  "are compiled (only their headers are)", "cases which fail on their own, in one thread, are left to their property"],
     dirs=SG, plan=[("plain", 1.0, 3), ("tsan", 1.0, 4)], gen=["idl"], sources=["geometry_module/src/registration.cpp"],
     others=["C%02d" % i for i in range(1, 35)],
     technique="property-based testing: random call sequences in two orders (differential, separate processes), and random operation histories "
               "run from several threads under ThreadSanitizer against their reference models; failures are shrunk and replayed")
