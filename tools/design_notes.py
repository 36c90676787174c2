"""Per property: oracle, and what the tests cannot reach (for DESIGN.md)."""
NOTES = {
"C01": "double precision mirror of every register with a forward error bound; validity predicate of the result; the spellings of one operation compared bit for bit. Histories expose aliasing (a *= a), drift and stale members, which single-call tests do not.",
"C02": "double precision mirror with error bound, and action on a point. Reaches self products, drifted norms, and comparisons decided by one single component.",
"C03": "the motion denoted by a representation is computed from the definition of this representation, independently of the library, at each step of a random walk through the conversions.",
"C04": "closed forms of exp and log on SE(3), and the screw motion between two transforms.",
"C05": "definition R^T p, R p, T^-1 T' and parallel axis theorem; the in-place, by-reference and returning forms must agree.",
"C06": "planar motions in double precision, and the same history on 3D transforms.",
"C07": "componentwise arithmetic in double precision; errors must leave operands unchanged.",
"C08": "validity, closeness bound, idempotence.",
"C09": "angle equivalence modulo 2 pi, direction of the weighted sum of unit vectors in double precision, membership in the interval.",
"C10": "decomposition of the rotation in double precision, both candidates; closest rotation about the axis (oblique axes).",
"C11": "geometry: tangency, direction of travel, arrival, shortest of the four families, recomputed from the target only.",
"C12": "separating axis theorem in double precision with a band of indecision; minimality of the correction by re-running the oracle at the admissible angle.",
"C13": "the ellipse's equation, direction and magnitude of the clipped move.",
"C14": "a model with two unbounded lists of samples; linearity and time invariance.",
"C15": "sums over the whole error history kept by the model.",
"C16": "affine map in double precision; nearest pixel.",
"C17": "a visitor which records; definition of the centres.",
"C18": "a graph oracle over the list of (joint, parent, child, mimic) decides validity; the traversal is recomputed.",
"C19": "forward kinematics from the URDF definition in double precision, at random joint configurations, before and after.",
"C20": "parallel axis theorem in double precision on the un-merged robot.",
"C21": "values generated first, document written from them, then read: the generator is the oracle; written again and read again.",
"C22": "sequence of calls derived from the document by an independent traversal, compared with what a recording builder receives.",
"C23": "sets of names, and the expected forwarded bodies, compared exactly.",
"C24": "a model of the document (ordered lists), compared after each operation; nodes outside of the edited element must be as before.",
"C25": "an independent reader of the same document decides.",
"C26": "a state machine of the builder decides acceptance and the content of each buffer.",
"C27": "topology (each edge twice, opposite), geometry (on the surface, outside) and volume.",
"C28": "an independent reader resolves every reference of the exported XML, and compares it with a model of what was added.",
"C29": "coefficients compared exactly; the mean recomputed in double precision.",
"C30": "survival (no signal, assertion, sanitizer report or hang), and stability: the same questions get the same answers twice and after write and read.",
"C31": "a parser of the printed text written from the documented format.",
"C33": "double precision mirror of rigid motions and unit quaternions; the same composition done on the library side.",
"C34": "integer arithmetic on 64 bit counts of nanoseconds.",
"C35": "a small parser of the notation, compared with the components (almath.i's added functions are translated to C++ by harness/gen.py; SWIG is not installed, so the generated wrappers and the copying of vector elements are not covered).",
"C36": "the same calls in another order, in another process (bitwise); a single thread; ThreadSanitizer; the oracles of C01-C34 on objects of each thread.",
"C32": "a model of the robot (joints, links, poses, masses, mimics) edited in parallel.",
}
