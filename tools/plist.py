NA = {}
SC, IV, VE, VI, TR, TI = ('src/math/scalar.rs', 'src/math/interval.rs', 'src/math/vector.rs', 'src/math/vectori.rs',
                          'src/math/transform.rs', 'src/math/transform_inverse_impl.rs')
IG = 'src/math/interval_as_gfloat.rs'
VT, RA, BB, SP, PR, CA = ('src/math/vector_traits.rs', 'src/geometry/ray.rs', 'src/geometry/bbox.rs',
                          'src/geometry/sphere.rs', 'src/geometry/primitive.rs', 'src/cameras/thin_lens.rs')

prop('C01', 'Interval arithmetic encloses every exact result and stays tight',
     'For intervals with finite ends (f32 and f64), the result of adding, subtracting, multiplying or dividing intervals '
     '(interval or scalar right operand, assigning forms included), of negation, square, recip and of sqrt (non-negative '
     'operand) contains the exact real result for every choice of members of the operands. Its ends are never NaN and '
     'exceed the exact range by at most a few ulps; dividing by something that contains zero gives the whole line.',
     ['inputs'], 'every pair of intervals with finite endpoints, every pair of real members, both float types',
     'Tests multiply a handful of intervals; the claim is about all sign patterns, magnitudes and rounding cases.',
     [IV], [('outward rounding by next_up/next_down of the corner results', IV)], T_RR, N_RR)
prop('C02', 'next_up and next_down are the adjacent floats',
     'For every f32 and f64, next_up returns the least representable value strictly greater than its argument (with '
     'infinity and NaN as fixed points and either zero stepping to the smallest subnormal), and next_down is its mirror '
     'image.', ['inputs'], 'all 2^32 and 2^64 bit patterns',
     'The tests do not touch it, and an error at one bit pattern (a zero, a power of two, an infinity) silently breaks '
     'every interval bound.', [SC], [('bit-pattern increment', SC)], T_F, N_F)
prop('C03', 'Interval set operations, queries and constants agree with real sets',
     'For intervals with inf <= sup (infinite ends included): intersection and union are the common part and the hull; '
     'in_range, equality, ordering, sign tests, is_exact, is_same, is_finite, is_infinite, is_nan and almost_eq say of '
     'the interval what holds of its members (order and sign tests only when certain for all members); abs, min and max '
     'enclose the results for all members; approx is a member, the middle up to rounding (ends within half the float range); conversions and constants (zero, one, infinities, NaN, pi '
     'and its fractions) contain the number they stand for and never panic.', ['inputs'],
     'all ordered endpoint bit patterns of both float types',
     'Tests cover a few literal intervals; the order of endpoints, emptiness, signed zeros and infinities give many '
     'distinct cases.', [IV], [('endpoint comparisons', IV)], T_F, N_F)
prop('C04', 'Trigonometric functions of intervals enclose every member and are tight',
     'For an interval with finite ordered ends: sin and cos contain the sine and cosine of every member and are the exact '
     'range up to a few ulps (away from widths next to pi and 2 pi); sin_cos is that pair; tan contains the tangent of every '
     'member and is everything when the cosine can vanish; asin, acos (within [-1, 1]) and atan contain the value at every '
     'member and are tight; atan2 contains the angle of every point of the box other than the origin, in all quadrants and '
     'on the axes (up to the rounding of pi in the left half plane).', ['inputs'],
     'all ordered intervals: ends up to 2^30 for sin and cos, within [-1, 1] for asin and acos, any for atan and atan2',
     'Tests sample uniformly a few intervals; errors hide at widths beyond a half period, at ends on a zero, on the axes '
     'and in the last ulp.', [IG], [('signs of the derivative at the ends decide which extrema are crossed', IG)],
     'symbolic execution of the LLVM IR, SMT over reals with rounding and libm axioms', N_RR)
prop('C05', 'Scalar helpers satisfy their algebraic definitions on every scalar type',
     'On every scalar type (f32, f64, u8..u64, i8..i64) square, min, max, min_max, abs, clamp, in_range, signum, sign and '
     'zero/one tests, recip, casts (from/to_*) and constants have their mathematical meaning for every value whose result '
     'is representable; is_nan, is_infinite and is_finite are exact; pi_lower/pi_upper and their fractions bracket pi.', ['inputs'], 'all bit patterns of all ten types',
     'Tests do not exercise these helpers at type limits, zeros, NaN or infinities.', [SC],
     [('macro-generated trait implementations', SC)], T_F, N_F)
prop('C06', 'Approximate equality is reflexive, symmetric and honours its tolerance',
     'almost_eq is reflexive on finite values, symmetric, never true for NaN, exact on integers, true for floats whose '
     'difference is within the documented absolute or relative tolerance and false beyond both; vectors, points, normals, '
     'matrices, transforms and intervals are almost equal exactly if all their parts are.', ['inputs'],
     'all pairs of values of all scalar types (tolerance law: finite operands whose difference does not overflow)',
     'The tests use it as an oracle but never test it.', [SC], [('absolute then relative comparison', SC)],
     'symbolic execution of the LLVM IR, bit-precise SMT and SMT over reals with rounding axioms', N_RR)

prop('C07', 'Vectors, points and normals obey vector algebra in every dimension',
     'In dimensions 2 to 4: the componentwise operators and their assigning forms, scaling and division by scalars, negation, '
     'indexing and accessors, dot, cross, squared norm, norm, distance, normalize (unit length, same direction), min, '
     'max, equality and almost_eq compute the textbook result in every component, and mixed operations and conversions '
     'between points, vectors and normals keep the components.', ['inputs'], 'all components, exact reals and i16',
     'Tests use single vectors; a swapped index in one component or operator shows only for some inputs.', [VE, VT, VI],
     [('generic array-backed vectors', VE)], T_RX, N_RX)
prop('C08', 'Matrix4x4 is the 4x4 matrix algebra and inverse() is the true inverse',
     'Products, scalar multiples, transposes, identity and zero, rows, columns, indexing and comparison of 4x4 '
     'matrices are entrywise the mathematical ones, and for every matrix with non-zero determinant m * m.inverse() and '
     'm.inverse() * m are the identity.', ['inputs'], 'all 16 entries of every operand',
     'One wrong sign among the cofactors shows only for matrices where that cofactor matters.', [TR, TI],
     [('closed-form cofactor inverse', TI)], T_RX, N_RX)
prop('C09', 'Every Transform carries a matrix together with its exact inverse',
     'identity, translate, scale, rotate_x/y/z, rotate (any non-zero axis), look_at, perspective, inverse() and every '
     'composition of transforms yield a matrix m and inverse minv with m * minv = minv * m = I.', ['inputs'],
     'all parameters for which the transform exists',
     'Code maps rays by minv and hits by m; a mismatch at some parameter is invisible to tests that sample a few.', [TR],
     [('constructors build both matrices by hand', TR)], T_RX, N_RX)
prop('C10', 'Transforms map points, vectors, normals and rays consistently',
     'map multiplies points by the matrix with perspective division, vectors by its linear part, normals by the inverse '
     'transpose (so they stay perpendicular to mapped vectors) and rays by origin and direction with tmax kept; '
     'map_inverse does the same with the inverse matrix; the two undo each other, composition maps in sequence, and the '
     'image of a ray point is the ray point of the image (Ray::eval is origin + t * direction).', ['inputs'],
     'all matrices and coordinates', 'Tests check rotations of axis vectors only.', [TR, RA],
     [('TransformMap implementations', TR)], T_RX, N_RX)
prop('C11', 'Transform constructors have their documented geometric effect',
     'translate adds, scale multiplies per axis, rotations fix their axis, turn the perpendicular plane by the angle in '
     'the right-handed sense and preserve lengths; look_at puts the eye at the origin, the target on the negative z axis at its '
     'distance and up in the upper yz half plane, rigidly; perspective maps the near and far planes to depth 0 and 1 '
     'and divides x and y by depth times tan(fov/2).', ['inputs'], 'all parameters for which the transform exists',
     'Tests sample twenty random angles and a few poses.', [TR], [('constructors', TR)], T_RX, N_RX)
prop('C13', 'Interval coordinates mapped by transforms and rays enclose every member',
     'For points, vectors, normals and rays with interval coordinates, map and map_inverse by an affine transform never '
     'panic and return, up to outward rounding, the exact interval hull of the images of all members; rounding never loses '
     'a member; Ray::eval of an interval ray at an interval parameter does the same, and so do interval coordinates '
     'multiplied or divided by a number and converted from and to numbers.', ['inputs'],
     'all affine matrices, all finite interval boxes', 'No test maps interval coordinates.', [TR, RA, IV],
     [('generic map over U: Scalar', TR)], 'symbolic execution of the LLVM IR, SMT over exact reals and over reals with '
     'IEEE rounding axioms', N_RR)
prop('C14', 'Bounding box set operations agree with boxes as point sets',
     'Bbox3::new contains both corners and nothing beyond, union is the smallest box containing both operands, '
     'intersection contains exactly the common points, inside is exact and closed, overlaps tells whether the '
     'boxes overlap strictly on every axis (touching does not count), the empty '
     'box contains nothing and is neutral for union; centre, diagonal, extents and max_extent are those of the box.',
     ['inputs'], 'all non-NaN coordinates', 'Tests use a few boxes; orderings of coordinates give many distinct cases.', [BB],
     [('componentwise min and max', BB)], T_F, N_F)
prop('C15', 'A transformed bounding box is the smallest box around the transformed points',
     'map and map_inverse of a bounding box by an affine transform give a box that contains the image of every point of '
     'the box and whose every face touches such an image.', ['inputs'],
     'all affine matrices, all ordered boxes, all points of the box', 'The tests do not transform boxes.', [BB, TR],
     [('accumulation of minima and maxima per matrix entry', BB)], T_RX, N_RX)
prop('C16', 'Ray-box intersection reports exactly the rays that meet the box',
     'For every ordered box and every ray (zero direction components included), intersect_ray and do_intersect report '
     'a hit exactly when some point of the ray with 0 <= t <= tmax lies in the closed box; the '
     'reported period is ordered, within [0, tmax], and covers exactly the ray points in the box.', ['inputs'],
     'all ordered boxes, all rays of finite origin and direction (tmax infinite included), all parameters',
     'Degenerate rays (parallel to slabs, on faces, edges and corners) are the cases tests leave out.', [BB],
     [('slab test', BB)], T_RX, N_RX)
prop('C17', 'The surface interaction at a box hit is the entry point with a face frame',
     'For a ray that starts outside a box (or on its surface) and meets it, intersect reports the first ray point in the box, the '
     'outward unit normal of a face that contains it, and unit tangents perpendicular to the normal and each '
     'other with dpdv x dpdu = n.', ['inputs'], 'all boxes with positive extents, all rays from outside (tmax infinite included)',
     'Six faces, two signs and parallel rays give many cases.', [BB, PR], [('face selection', BB)], T_RX, N_RX)
prop('C18', 'Ray-sphere intersection finds the nearest point of the (partial) sphere',
     'For every sphere (radius, z range, phi_max) and ray, intersect returns the smallest t in [0, tmax] at which the ray '
     'meets the clipped surface, and nothing when there is none; the reported point lies on the sphere, within z_min, z_max '
     'and phi_max; do_intersect answers exactly whether intersect finds a hit.', ['inputs'],
     'all spheres, all rays with non-zero direction (tmax infinite included)',
     'Clipping makes the second root matter; combinations of clipped roots are not sampled by tests.', [SP],
     [('quadratic solver and clipping', SP)], T_RX, N_RX)
prop('C19', 'Sphere geometry: parametrisation, normal, tangents, bounds and area agree',
     'A Sphere keeps its radius, z range and phi_max and derives theta_min/theta_max as the polar angles of the clip planes; at a hit '
     '(u, v) are the fractions of phi and theta in [0, 1], dpdu and dpdv are the partial derivatives of the surface, the normal is unit, '
     'outward and perpendicular to both; its bounding box contains the clipped surface; area is that of the clipped zone.',
     ['inputs'], 'all spheres and all hits off the z axis', 'The tests never look at tangents, uv, bounds or area.', [SP],
     [('spherical parametrisation', SP)], T_RX, N_RX)
prop('C20', 'A primitive list behaves like the union of its members',
     'PrimitiveList::intersect reports a hit exactly when some member is hit, with the result of a member at the smallest '
     'ray parameter; do_intersect answers whether any member is hit; the box is the union of the member boxes.',
     ['inputs', 'histories'], 'lists of up to 6 primitives (7 in the thorough run) of arbitrary behaviour in every order',
     'The tests have no lists; the order of members decides whether a wrong scan is noticed.', [PR], [('linear scan', PR)],
     T_RX, N_RX)
prop('C21', 'A transformed primitive behaves like the primitive placed in world space',
     'TransformedPrimitive asks its primitive with the ray in object space and reports the hit in world space: same ray '
     'parameter, mapped point and tangents, unit normal along the mapped normal, same texture coordinates; do_intersect '
     'agrees, and its bounding box is the transformed box of the primitive.', ['inputs'],
     'all affine transforms, rays and hits of an arbitrary primitive', 'Not tested at all.', [PR, TR],
     [('map_inverse of the ray, map of the result', PR)], T_RX, N_RX)
prop('C22', 'Disk sampling maps the unit square into the unit disk as documented',
     'uniform_sample_disk has radius sqrt(y) and angle 2 pi x; concentric_sample_disk maps concentric squares to '
     'concentric circles with the documented angle in each quadrant and keeps the centre; both stay in the unit disk.',
     ['inputs'], 'all sample points of the unit square', 'Not tested; quadrants and diagonals are separate cases.',
     ['src/cameras/camera.rs'], [('polar and concentric maps', 'src/cameras/camera.rs')], T_RX, N_RX)
prop('C23', 'Thin lens camera rays leave the lens and meet the focal plane in focus',
     'A generated ray starts at the lens point of the sample (lens radius times the concentric disk sample, in the lens plane) and '
     'passes through the point at distance focal_distance that the film sample images through the lens centre: film samples '
     'span the horizontal field of view fov and fov/aspect vertically, left to right and bottom to top; its direction '
     'has unit length in camera space, everything is mapped to world space by the inverse view and tmax is unbounded.', ['inputs'],
     'all cameras, views and samples', 'Not tested.', [CA], [('lens geometry', CA)], T_RX, N_RX)
