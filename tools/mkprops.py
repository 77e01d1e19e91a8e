import json
I="include/vecmath/"
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":[I+f for f in files],"mechanism":[{"name":n,"where":I+w} for n,w in mech],"observe_at":observe or ["return values of the public functions"],"hook_needed":None}})
p("C01","Vectors, ranges, segments and matrices have one lexicographic order",
 "Comparing two vectors, two ranges of vectors, two segments or two matrices yields the lexicographic order of their components (matrices column by column, a range that is a prefix of the other first), in which a NaN component comes after every number and equals another NaN. With an epsilon, components that differ by at most epsilon count as equal. ==, !=, <, <=, >, >= and the epsilon equality all agree with that three-way result, which is a total preorder for epsilon 0.",
 ["inputs"],"all pairs and triples of vectors of any size and component type, including NaN, infinities and negative zero, and all epsilons >= 0",
 "tests compare a handful of literal vectors; totality, transitivity and NaN placement quantify over all pairs and triples",
 ["vec.h","segment.h","mat.h"],[("compare","vec.h: compare(vec), compare(range)"),("operators","vec.h, segment.h, mat.h: comparison operators")])
p("C02","Vector construction, access and arithmetic act component by component",
 "Every vector constructor, conversion, accessor, constant, slice and swizzle yields exactly the specified components (missing ones are zero, surplus ones are dropped, numeric conversions round like the language does), and unswizzling undoes swizzling. The arithmetic operators on vectors, on a vector and a scalar, and on std::vector/std::array lists of vectors apply the scalar operation (rounding, zero divisors, infinities and NaN included) to each component, and average is the arithmetic mean of a non-empty range.",
 ["inputs"],"all vectors of sizes 1..4 and more, component types float, double and int, all scalars and lists",
 "tests use a few literals and mostly size 3 float vectors",
 ["vec.h","vec_ext.h"],[("constructors","vec.h: class vec"),("operators","vec.h, vec_ext.h"),("average","vec.h: average")])
p("C03","Dot, cross, length, distance and the metric predicates are Euclidean",
 "dot, cross, (squared) length, (squared) distance, normalisation and the conversions to and from homogeneous coordinates return the Euclidean value up to rounding for every vector, in the run-time and in the constexpr variant. is_unit, is_zero, is_nan, is_integral, is_colinear (squared parallelogram area at most epsilon) and is_parallel (|cos| within epsilon of 1) answer exactly that question. is_between for three points of one line holds iff the first lies on the closed segment between the other two.",
 ["inputs"],"all vectors of all sizes over float and double (integers where defined), all epsilons",
 "tests check a few literals with a 0.001 tolerance; accuracy and threshold behaviour are claims about all inputs",
 ["vec.h"],[("dot/cross/length/normalize","vec.h"),("is_colinear, is_parallel, is_between","vec.h")])
p("C04","Component ranking finds the k-th largest component",
 "For every vector and every rank k, find_max_component and find_abs_max_component return the index of a component with the k-th largest value or magnitude, and over all k the indices are a permutation. get_max_component and get_abs_max_component return that component, and get_abs_max_component_axis returns the unit axis of such a component, negated iff the component is negative.",
 ["inputs"],"all finite vectors of any size, including ties and equal magnitudes of different sign, and all k below the size",
 "tests use a few vectors without systematic ties; the in-place sort's correctness quantifies over all permutations",
 ["vec.h","constexpr_util.h"],[("sort","constexpr_util.h: detail::sort"),("find_*/get_*","vec.h")])
p("C05","Rounding, snapping and remainders are exact for every finite value",
 "trunc, floor, ceil, round (halves away from zero), round_up (away from zero), round_down (towards zero) and fract return the exact mathematical result for every finite argument of any magnitude, and for vectors component by component. snap, snapUp and snapDown return the nearest, the outer and the inner multiple of the grid, and mod returns the remainder with the sign of the dividend. correct returns the nearest integer if it is closer than epsilon and the unchanged value otherwise.",
 ["inputs"],"all finite floats and doubles (for snapping and mod: quotients that are meaningful in the type), all positive grids, all non-zero divisors",
 "tests probe a dozen small values; magnitudes beyond 2^53 or 2^63, halves and their floating point neighbours are never sampled",
 ["scalar.h","vec.h"],[("trunc and its users","scalar.h: trunc, floor, ceil, round, mod, fract"),("snap*, correct","scalar.h")])
p("C06","Selection, clamping, blending and tolerance predicates pick the right value",
 "min, max, abs_min, abs_max (any number of arguments) return an argument that is extreme in value or magnitude, safe_min and safe_max ignore NaN arguments unless all are NaN, and clamp returns the closest value of the interval ([0,1] by default). abs, sign, step, smoothstep, mix, contains, is_equal, is_zero, is_nan, is_inf, abs_difference (operands of one sign), succ and pred (modulo count, any stride) and nextgreater return their defining value, for vectors component by component.",
 ["inputs"],"all numbers including infinities, denormals and (for the safe variants) NaN; all index/count/stride triples",
 "tests use few literals; ties, NaN positions and boundary equality are not covered systematically",
 ["scalar.h","vec.h"],[("selection functions","scalar.h"),("vector variants","vec.h")])
p("C07","Angles are converted, normalised and measured consistently",
 "to_radians and to_degrees convert by pi/180. normalize_degrees and normalize_radians terminate for every finite angle with a result in [0, 360) or [0, 2 pi) that is congruent to the angle. measure_angle returns the counter-clockwise angle in [0, 2 pi] about up from axis to v, for unit vectors v and axis perpendicular to the unit vector up (0, not a full turn, if v is axis).",
 ["inputs"],"all finite angles (congruence up to 2^20 turns), all orthonormal frames and all directions in their plane",
 "tests check multiples of 90 degrees; termination and range quantify over all finite angles",
 ["scalar.h","vec.h","constants.h"],[("normalize_*","scalar.h"),("measure_angle","vec.h")])
p("C08","Polynomial solvers return exactly the real roots",
 "solve_quadratic returns one root when the discriminant (b/2a)^2 - c/a is within epsilon of zero, none when it is smaller and two otherwise, and the returned values are those roots. solve_cubic and solve_quartic return exactly the real roots, each within tolerance, of every polynomial whose roots are well separated compared to epsilon, and of polynomials with repeated roots they return each real root. The first n returned values are numbers and the remaining ones are NaN.",
 ["inputs"],"all coefficients with a non-zero leading one (cubic, quartic: roots up to 5 in magnitude and at least 0.3 resp. 0.5 apart, or integer roots with repetitions), all epsilons above rounding",
 "tests solve 16 fixed polynomials; the case analysis (two quadratic factors with 0, 1 or 2 roots each) is larger",
 ["scalar.h"],[("solve_quadratic, solve_cubic, solve_quartic","scalar.h")])
p("C09","A bounding box is the set of points between its corners",
 "contains (closed), encloses (strictly inside on every side), intersects (closed), is_valid, is_empty (no extent along some axis), repair, constrain and relative_position agree with the reading of a box as the set of points between min and max, and epsilon equality compares the corners. merge is the least box that contains both arguments, merge_all and a builder after any history of adds yield the least box containing everything that was added (the builder: an empty box at the origin if nothing was), and intersect yields the common part (the empty box at the origin if there is none).",
 ["inputs","histories"],"all valid boxes and points (touching, nested, disjoint, degenerate), and all histories of builder additions of points, boxes and ranges",
 "tests use a few boxes; the set reading quantifies over all pairs and the builder over all histories",
 ["bbox.h"],[("set operations","bbox.h: class bbox, merge, intersect"),("builder","bbox.h: bbox::builder")])
p("C10","Box corners, faces, edges and derived boxes describe the same box",
 "A 3D box has exactly its 8 corners as vertices, 12 distinct axis-parallel edges each joining two corners, and 6 faces whose corners lie in the face's plane and are in clockwise order seen from outside, consistent with the normal that is reported with them; every per-face, per-edge, per-vertex visitor and collector reports the same elements. center, size, volume, corner, expand, translate and transform (the least box around the transformed corners) follow from min and max.",
 ["inputs"],"all valid boxes, all corner selections, all affine transformations",
 "tests check one or two boxes and mostly counts",
 ["bbox.h"],[("for_each_face/edge/vertex, faces, edges, vertices","bbox.h"),("transform, expand, translate","bbox.h")])
p("C11","A segment is an unordered pair of points stored in order",
 "Whatever the order or type of the points it is built, converted, translated or transformed from, a segment's start is not after its end in the vector order, and the two are exactly the given points; so two segments are equal iff they join the same points. length, squared length, center and direction follow from the end points, and contains is true for points of the segment (within the maximal distance) and false for points farther than that from it.",
 ["inputs","histories"],"all point pairs, conversions between component types, and chains of translations and transformations",
 "tests build two or three segments; the order invariant must survive every construction path",
 ["segment.h"],[("ordering constructor","segment.h: segment(p1, p2)"),("contains","segment.h")])
p("C12","Lines, rays and segments agree on projection, sides and transformation",
 "point_at_distance, distance_to_projected_point and project_point of lines, rays and segments return the point at that distance along the unit direction and the orthogonal projection. A line's canonical form is its point closest to the origin and its direction with the first non-zero component positive, so it is the same for all descriptions of one line; == compares lines by it, epsilon equality of lines and rays compares the components. A ray's point_status is above, below or inside by the point's distance along the direction, and transforming a line or ray maps its points with the transformation and keeps its direction a unit vector.",
 ["inputs"],"all origins, unit directions, points, and invertible affine transformations",
 "tests use axis-aligned literals",
 ["abstract_line.h","line.h","ray.h"],[("projection","abstract_line.h"),("canonical","line.h: make_canonical"),("transform","line.h, ray.h")])
p("C13","A plane classifies, projects and moves points consistently",
 "point_distance is the signed distance, point_status is above, below or inside by that distance and epsilon, and project_point and project_vector return the point reached along the normal or along the given direction (NaN if the direction is parallel, |cos| <= 0.001). at, xAt, yAt and zAt solve the plane equation for a coordinate (0 if the normal has none along that axis), flip negates the orientation, from_points gives the plane through the first three points with the documented orientation or fails iff they are colinear (sine of the angle at the first point below 1e-8), the horizontal, orthogonal and aligned orthogonal planes contain their anchor and have the normal they are named after, and transforming a plane by a rotation, translation or uniform scaling keeps every point's membership and side. Epsilon equality compares distance and normal.",
 ["inputs"],"all planes with unit normals, points, non-degenerate and degenerate point triples, and similarity transformations",
 "tests use a few axis-aligned planes",
 ["plane.h"],[("class plane, from_points, transform","plane.h")])
p("C14","Matrix algebra obeys the definitions of linear algebra",
 "Sum, difference, scaling, product, matrix-vector and vector-matrix product, application to points (with perspective divide) and to lists, transposition, minors, slices, determinant and adjugate equal their textbook definition up to rounding, exactly so for small integers, with constructors and indexing that agree on rows and columns.",
 ["inputs"],"all matrices of sizes 2..4 (also rectangular where allowed) over float and double, all vectors",
 "tests multiply two or three fixed matrices",
 ["mat.h","mat_ext.h"],[("operators and compute_*","mat.h"),("list application","mat_ext.h")])
p("C15","Linear systems are solved or reported singular",
 "lup_solve and invert succeed for every well-conditioned square matrix, at every scale that keeps the pivots above 1e-15, and return x with A x = b, resp. the two-sided inverse, up to rounding. For a matrix with a zero row or column, with two equal rows, or that is singular with entries from {-s, 0, s}, they report failure, with a zero solution resp. the identity as the value. For finite entries whose products do not overflow, they never return NaN as a success.",
 ["inputs"],"all square matrices of sizes 2..4 (all of a small integer lattice, permuted and badly pivoted ones), all right hand sides",
 "tests invert a handful of matrices; pivoting has a case for each permutation",
 ["mat.h"],[("lup decomposition","mat.h: detail::lup_find_pivot, lup_solve, invert")])
p("C16","Matrix builders produce the transformation they are named after",
 "translation, scaling, rotation (axis and angle, Euler angles, quaternion, from one direction to another), mirror, coordinate-system, plane-projection, shear and bounding-box scale/shear matrices, points_transformation_matrix, and the perspective, orthographic and view matrices map points as defined: e.g. rotations are proper orthogonal, counter-clockwise about the axis and keep it fixed; the box builders map the box to the target while keeping the opposite side or the anchor; the points builder maps the three or four given points onto the given images. Extracting Euler angles or the translation part and rebuilding the matrix gives the same transformation, and products of builders act as the composition.",
 ["inputs"],"all axes, angles, factors, boxes, sides and point tuples in general position, and all products of generators up to length 3 (4 in the thorough tier)",
 "tests check angles that are multiples of 90 degrees and unit cubes",
 ["mat_ext.h"],[("builders","mat_ext.h")])
p("C17","Unit quaternions compose and act as rotations",
 "A quaternion built from an axis and an angle, or from two directions, rotates vectors by that rotation, agrees with the corresponding rotation matrix, reports that axis and angle, and preserves lengths; the one from two directions is the shortest rotation, also for directions that are (almost) parallel or opposite. The product composes rotations, the conjugate inverts them, after any history of products and inversions. == and epsilon equality compare the vector parts and the scalar parts up to the sign of the latter. Negation negates the real component only, and multiplying with a scalar scales the real component, the same on either side.",
 ["inputs"],"all axes, angles and pairs of directions, and histories of products, inversions and resets",
 "tests use axis-aligned rotations by multiples of 90 degrees",
 ["quat.h"],[("class quat, slerp","quat.h")])
p("C18","Reported distances are minimal and attained at the reported positions",
 "The (squared) distance from a point to a ray or segment, and between a ray and a ray, segment or line, is the minimum of the Euclidean distance over the two sets. The positions reported with it lie on the respective set and attain that distance. Input whose squared sine is at most 0.001 is flagged as parallel, with the distance still being right for exactly parallel input, and is_colinear holds iff it is flagged parallel and the distance is at most the maximum.",
 ["inputs"],"all points, unit-direction rays and lines and segments (also degenerate ones), in general, parallel, anti-parallel, intersecting and end-point-closest position; between parallel and 2.5 degrees only up to the angle",
 "tests fix about 20 configurations; clamping has a case for each end-point combination",
 ["distance.h"],[("squared_distance, distance overloads","distance.h")])
p("C19","Ray intersections are hits on the object, and the first ones",
 "The distance returned by intersecting a ray with a plane, triangle, bounding box, sphere, torus or polygon belongs to a point of the ray that lies on the object and is the smallest non-negative one (for a box, sphere or torus seen from inside: where the ray leaves it). NaN is returned exactly if the ray misses the object, whose edges, corners and tangents count as hits. A plane counts as parallel if |cos| <= 0.001, and as hit down to a distance of -0.001. A polygon given only by vertices that do not define a plane (fewer than three, or the first three in a line) is missed.",
 ["inputs"],"all rays with unit direction and all objects, including axis-parallel rays and origins inside and on the far side; at edges and silhouettes within rounding (torus: general position, solver epsilon) either answer",
 "tests shoot a few axis-aligned rays per object",
 ["intersection.h"],[("intersect_ray_*","intersection.h")])
p("C20","Point-in-polygon agrees with geometric containment",
 "For every planar polygon (convex or not, any orientation, vertex order and start) and every point of its plane, polygon_contains_point is true iff the point is inside or on the boundary, also when the point is level with vertices or edges. The answer is the same for the variants with and without a given normal (its first three vertices not being colinear) and with a vertex accessor.",
 ["inputs"],"all simple polygons and points of their plane in any axis-aligned or tilted plane, in particular points level with vertices; within epsilon of the boundary, but not on it, either answer",
 "tests probe a square and a triangle; the crossing rule's degenerate cases are never sampled",
 ["intersection.h"],[("polygon_contains_point","intersection.h: polygon_contains_point, detail::handle_polygon_edge_intersection")])
p("C21","Line-plane and plane-plane intersections lie on both objects",
 "Intersecting a line with a plane returns the distance of the common point, or NaN iff line and plane are parallel (|cos| <= 0.001). Intersecting two planes returns a line that lies in both planes with a unit direction, or a line with zero direction iff the planes are parallel (sine of their angle at most 0.001).",
 ["inputs"],"all lines, all pairs of planes outside a small band around parallel",
 "tests intersect a few axis-aligned planes",
 ["intersection.h"],[("intersect_line_plane, intersect_plane_plane","intersection.h")])
p("C22","The convex hull contains every point and only corner points",
 "For every list of coplanar points that are not all on one line, in any order and with duplicates, convex_hull returns exactly the corner points of their convex hull, each once, in cyclic order around it; for points that are all on one line or fewer than three distinct points it returns an empty list. The result does not depend on the order of the input apart from the start and the orientation. Point sets that span no triangle above the colinearity epsilon may count as being on one line.",
 ["inputs"],"all coplanar point lists: permutations, duplicates, colinear runs, points inside, any plane; lattice coordinates exactly, others up to rounding",
 "tests use five point lists; correctness is a claim about all permutations and degeneracies",
 ["convex_hull.h"],[("Graham scan","convex_hull.h")])
p("C23","A polygon's identity is its cyclic vertex sequence",
 "A polygon keeps the cyclic order of the vertices it was given and starts with the smallest one, after every construction, conversion, inversion, translation and transformation, so equality means the same oriented polygon regardless of the start vertex. compare is the lexicographic order of the vertex sequences (with epsilon, vertex by vertex), compareUnoriented is antisymmetric and returns 0 iff the polygons have the same vertices in the same or the reverse cyclic order, iteration yields the vertices forwards and, from rbegin to rend, backwards, and hasVertex, center and vertexCount agree with the vertices.",
 ["inputs","histories"],"all vertex lists (with distinct vertices), all pairs that differ in one vertex, and all histories of operations on a polygon",
 "tests compare a few triangles and squares; differences in each single position and operation histories are not covered",
 ["polygon.h"],[("rotate_min_to_front","polygon.h"),("compareUnoriented","polygon.h")])
p("C24","Reading text and writing text are inverse",
 "parse reads the first numbers of the given text view, as many as the vector or matrix has components, and nothing behind the end of the view: tokens are separated by blanks and parentheses, each token's value is that of its longest prefix that is a decimal literal (0 if there is none), and parsing fails iff there are too few tokens. parse_all returns all consecutive vectors of tokens separated by blanks, parentheses, commas and semicolons and drops an incomplete last one. Vectors, matrices, boxes, lines, rays and planes are written as their components, vectors separated by single blanks and the others composed of vector texts, and parsing the text of a vector or matrix back returns the components up to the printed precision.",
 ["inputs"],"all texts over digits, signs, points, exponents, blanks, separators and parentheses, given as a whole or as a view into a longer text",
 "tests parse eight literals, none of them a view into a larger buffer",
 ["vec_io.h","mat_io.h","bbox_io.h","line_io.h","ray_io.h","plane_io.h"],[("parse, parse_all, operator<<","vec_io.h"),("matrix text","mat_io.h")])
p("C25","Compile-time evaluation agrees with run-time evaluation",
 "Every function that can be evaluated in a constant expression returns there what it returns at run time, and the constexpr variants (sqrt_c and everything built on it) terminate for every number and agree with the run-time variants up to rounding.",
 ["inputs","configurations"],"all arguments; both evaluation modes",
 "tests evaluate a fixed list of constant expressions; Newton iteration's termination quantifies over all numbers",
 ["scalar.h","vec.h","mat.h","bbox.h","plane.h","line.h","ray.h","segment.h","quat.h"],[("sqrt_c","scalar.h: sqrt_c_nr"),("_c variants","vec.h, plane.h, line.h")])
p("C26","A Bezier surface is the tensor product of Bernstein polynomials",
 "Evaluating a biquadratic patch at (u, v) returns the sum of the control points weighted with the Bernstein polynomials in u (within a row) and v (across rows), up to rounding, so it interpolates the corners and stays within the bounds of the control points for parameters in [0, 1].",
 ["inputs"],"all control grids of points of dimensions 1..4 and all parameters, also outside of [0, 1]",
 "tests evaluate one surface",
 ["bezier_surface.h"],[("evaluate_quadratic_bezier_surface","bezier_surface.h")])
p("C27","Approximate values compare equal exactly within epsilon",
 "A number, vector, matrix or line equals an approximate value iff every component differs by at most epsilon (0.001 by default), != is the negation, and both orders of the operands agree. For numbers < and > mean smaller or larger by more than epsilon and <= and >= are the complements of > and <, so exactly one of <, ==, > holds; for vectors these compare lexicographically with the value moved by epsilon in every component. A list equals a list of approximate values iff the sizes agree and all elements do. The text of an approximate value is that of its value.",
 ["inputs"],"all finite values and epsilons >= 0, including differences right at epsilon, and infinite numbers against finite approximate values",
 "tests use approx as a tool and never test its thresholds",
 ["approx.h"],[("approx","approx.h")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
