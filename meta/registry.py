"""The properties: what properties.jsonl, MANIFEST.json and DESIGN.md say about each.
python3 meta/generate.py writes those files."""
Q = "include/integratorxx/quadratures/"
P = Q + "primitive/"
R = Q + "radial/"
S = Q + "s2/"
C = "include/integratorxx/composite_quadratures/"
G = "include/integratorxx/generators/"
B = "include/integratorxx/batch/spherical_micro_batcher.hpp"
U = "include/integratorxx/util/"
S2FILES = [S + "lebedev_laikov.hpp", S + "delley.hpp", S + "ahrens_beylkin.hpp", S + "womersley.hpp"]
S2ALL = S2FILES + [S + d + "/" for d in ("lebedev_laikov", "delley", "ahrens_beylkin", "womersley")] + [U + "copy_grid.hpp"]

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, design):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, design=design))


prop("C01", "Angular grids are exact up to their advertised order",
     "For every supported size of every angular family, the double-precision grid integrates every real spherical harmonic of degree up to the advertised algebraic order of that size to its exact value (sqrt(4 pi) for degree 0, else 0), and the weights sum to 4 pi, within 2e-13 (Ahrens-Beylkin: 2e-11).",
     ["inputs"], "all families, all supported sizes, all (l,m) up to the advertised order",
     "The tests integrate one harmonic combination on a handful of sizes; a wrong digit in a table only shows in the harmonics of the orbit concerned.",
     S2ALL, [("tabulated orbits", S + "*/"), ("size to table dispatch", "*_grid_by_npts in the family headers")],
     "exhaustive enumeration of grids x harmonics on the real code",
     "Complete over the finite space of grids and harmonics up to 20000 points; long double accumulation; trusts libm and the recurrence.",
     "Enumerates every family x supported size (a size is supported if the family says so up to 20000) x every (l,m) up to the advertised order: 1.26 million harmonics over 155 grids. Oracle: orthogonality of harmonics to the constant, evaluated by a stable long-double recurrence. Known finding: the Ahrens-Beylkin table of 5472 points.")

prop("C02", "Angular grids are proper, symmetric and precision-independent",
     "For every supported size of every angular family, the points are distinct unit vectors with finite nonzero weights and their number is that size; Lebedev-Laikov and Delley grids are invariant (with weights) under the octahedral group with inversion, Ahrens-Beylkin grids under the icosahedral rotations, and Womersley designs have equal weights. The float and long double grids are the double grid, in the same order, to float and double accuracy respectively.",
     ["inputs", "configurations"], "all families and sizes in three precisions, all points, all pairs of points, all operations of the point group",
     "Tests compare a few sizes with reference tables in one precision; wrong orbit points which keep low moments pass.",
     S2ALL, [("orbit expansion and tables", S + "*/"), ("conversion to the point type", U + "copy_grid.hpp")],
     "exhaustive enumeration of grids x symmetry operations on the real code",
     "Complete over sizes up to 20000, with tolerances 5e-14 (norm), 1e-9 (symmetry), 3e-7 (float).",
     "Every grid is built in the three types; every point is checked alone, against every near point, and under every operation of the group generated from its generators (48 octahedral, 60 icosahedral).")

prop("C03", "Order and size look-ups are mutually consistent",
     "In every angular family, the look-ups of size by order and of order by size are inverse to each other, sizes increase with orders, unsupported or wrapped-around orders and sizes give -1, and the next order for a given order is the smallest supported order not below it, or the largest one if there is none. The published pairs of order and size are all there, and a grid of a size which has an order can be constructed with exactly that many points.",
     ["inputs"], "every order in -50..1000 and size in -50..40000, all values congruent to supported ones modulo 2^16 and 2^32, int64 extremes",
     "Tests look up a few orders; the tables have 160 entries and any one can be off.",
     S2FILES, [("npts_by_algebraic_order, algebraic_order_by_npts, next_algebraic_order", "quadrature_traits in the family headers")],
     "exhaustive enumeration of look-ups against a golden catalogue",
     "Complete over the windows given; the golden catalogue of pairs was taken from the published families.",
     "Every argument in the windows is looked up and compared with the inverse look-up and the golden catalogue (mc/catalogue.inc), and every supported size is constructed.")

prop("C04", "Unsupported sizes are rejected, supported ones accepted, on every route",
     "A request for an angular grid of a size the family does not have ends with an exception, and never with some grid, whether made through the constructor, the angular generator, an unpruned grid, a pruning scheme (from three radial points on) or any pruning region; a supported size is accepted by all of them. Gauss-Lobatto and trapezoid rules of fewer than two points are rejected too.",
     ["inputs"], "all sizes 0..16000 directly plus sizes congruent to supported ones modulo 2^32; sizes 0..330 and the neighbours of all supported sizes through 8 composite routes x 4 radial schemes x 4 families",
     "No test asks for an unsupported size.",
     S2FILES + [G + "impl/s2_factory.hpp", G + "impl/pruned_grid.hpp", G + "impl/unpruned_grid.hpp", P + "gausslobatto.hpp", P + "uniform.hpp"],
     [("no table for the size -> exception", "quadrature_traits::generate of each family")],
     "exhaustive enumeration of sizes x routes on the real code",
     "Complete over the windows given.",
     "Every size in the window through every route that takes one. Oracle: accepted exactly if the family reports an order for the size.")

prop("C05", "Gauss-Legendre and Gauss-Lobatto rules are exact for every size",
     "For every number of points n (from 1, respectively 2) the Gauss-Legendre rule integrates every polynomial of degree up to 2n-1, and the Gauss-Lobatto rule up to 2n-3, over (-1,1) exactly to rounding error, in float, double and long double. Nodes increase strictly, lie in the interval (Lobatto: including both ends exactly), are antisymmetric, and weights are positive and symmetric.",
     ["inputs", "configurations"], "every n to 768 (thorough 2048) and selected n to 2100 (8200), in double 3 (7) more to 65537 (70001); every Legendre polynomial up to the degree (above n=32768 to 200); three types (float to n=500, thorough 1500)",
     "Tests use a few n in one precision; the Newton iteration is data dependent in n and type.",
     [P + "gausslegendre.hpp", P + "gausslobatto.hpp", U + "legendre.hpp"],
     [("Newton iteration from asymptotic guesses", P + "gausslegendre.hpp"), ("eval_Pn", U + "legendre.hpp")],
     "exhaustive enumeration of sizes x Legendre polynomials on the real code",
     "Complete over n within the bound; tolerance (256+8n) units of rounding of the type.",
     "For every n and type, all moments of Legendre polynomials up to the exactness degree, which determine the rule uniquely; plus shape and symmetry.")

prop("C06", "Gauss-Chebyshev rules are exact and nested as defined for every size",
     "For every number of points, the Gauss-Chebyshev rules of the first, second and third kind and the modified second kind have strictly increasing nodes inside (-1,1) (third kind: (0,1); modified: as far as rounding resolves them) and positive weights, and are the rules of their definition: they integrate to rounding error every polynomial, against the weight function of their kind, up to the degree of Gaussian exactness. All three floating-point types give them to their accuracy.",
     ["inputs", "configurations"], "every n to 640 (thorough 2048), selected n to 2100 (8200) and 6 to 300007 (first 25 degrees and every node), in double and long double; n to 200 in float; every degree",
     "Tests use a few n.",
     [P + "gausschebyshev1.hpp", P + "gausschebyshev2.hpp", P + "gausschebyshev2modified.hpp", P + "gausschebyshev3.hpp"],
     [("closed-form nodes and weights", P + "gausschebyshev*.hpp")],
     "exhaustive enumeration of sizes x Chebyshev moments on the real code",
     "Complete over n within the bound.",
     "For every n, kind and type: node formula by moments of Chebyshev polynomials against the closed-form integrals, shape and symmetry.")

prop("C07", "The trapezoid rule is the composite trapezoid on any interval",
     "For every number of points n from 2, every interval [lo,up] and each floating-point type, the uniform trapezoid rule has n equidistant ascending nodes from lo to up, end weights half of the inner weights which equal the spacing, and so integrates linear functions exactly to rounding error; the default interval is [0,1].",
     ["inputs", "configurations"], "n = 2..400 (thorough 1500) and selected n to 300007, all pairs of 20 end points up to 1e30, three types",
     "Tests use [0,1] with one n; radial schemes only exercise the default interval.",
     [P + "uniform.hpp"], [("nodes by uniform spacing", P + "uniform.hpp")],
     "exhaustive enumeration of sizes x intervals on the real code", "Complete within the bounds; tolerance 16 units of rounding.",
     "Every node and weight against the definition in long double, and both linear moments.")

prop("C08", "Radial quadratures are the published mapped rules with their Jacobian",
     "For every number of points, scale and (where it has one) exponent, the Becke, Murray-Handy-Laming (every order of the map), Mura-Knowles and Treutler-Ahlrichs quadratures have strictly increasing positive nodes (rounding allowing, beyond 100000 points) and positive weights equal to those of the published map of their base rule including the Jacobian, so they integrate smooth decaying functions over (0,inf). The public map of each scheme is increasing with its Jacobian as derivative, and construction from a size and scale, from traits, from base-class or cloned traits gives the same rule.",
     ["inputs", "configurations"], "n to 320 (thorough 1024) and selected n to 300007, 9 scales (n to 60: 12 more from 1e-100 to 1e100), 10 exponents, map orders 1..4, double and long double; maps on 2000 points",
     "Tests integrate one function for a few n and scale 1 and compare Mura-Knowles with one reference.",
     [R + "becke.hpp", R + "mhl.hpp", R + "muraknowles.hpp", R + "treutlerahlrichs.hpp", R + "radial_transform.hpp", P + "gausschebyshev2.hpp", P + "uniform.hpp"],
     [("radial_transform, radial_jacobian", R + "*.hpp"), ("preprocess_base_quad drops end points of the base rule", R + "mhl.hpp, muraknowles.hpp")],
     "exhaustive enumeration of sizes x scales x exponents against a long-double reference model", "Complete within the bounds; tolerance scaled with the condition of the map.",
     "Reference formulas of the four papers in long double, node by node and weight by weight; the public maps against numerical derivatives; integrals of Gaussians and exponentials.")

prop("C09", "The interval map sends rules on (-1,1) to any interval",
     "The map of (-1,1) to an interval with finite or infinite ends is increasing into the open interval (rounding allowing) and multiplies the weight by its derivative, in each floating-point type, for all four combinations of finite and infinite ends. A Gauss rule so mapped integrates monomials over finite intervals exactly and decaying functions over infinite ones.",
     ["inputs", "configurations"], "all ordered pairs of 23 end points of magnitudes up to a quarter of the largest number, with both infinities, 499 (thorough 3999) nodes, three types; all Gauss-Legendre rules to n=24 on all monomials they must integrate",
     "No test maps to a left- or two-sided infinite interval.",
     [U + "bound_transform.hpp"], [("transform_minus_one_to_one", U + "bound_transform.hpp")],
     "exhaustive enumeration of intervals x nodes against the map's definition", "Complete within the bounds.",
     "Values and derivative of x(1-x^2)^-1, (1+x)/(1-x) and the affine map in long double, linearity in the weight, monotonicity, and integrals.")

prop("C10", "A spherical grid is the product of its radial and angular rules",
     "For every radial scheme (and any one-dimensional rule), angular family, pair of sizes, scale and centre, the spherical grid holds exactly the points centre + r_i * omega_j with weights w_i * r_i^2 * v_j, each once; its size is the product and its centre the one given, the origin by default. This holds for whatever nodes the two factors hold when it is built, and reads the same through the base class.",
     ["inputs", "configurations"], "4 radial schemes (and Gauss-Legendre) x 4 families x 4-12 angular sizes x 9-16 radial sizes x 2 scales x 8 centres; every size of every family; every number of radial points to 200 (600); 70001 (200003) radial points and rules of 5810 points; factors edited by the user",
     "Tests build two grids and integrate; a permuted weight of equal total passes.",
     [C + "spherical_quadrature.hpp", C + "product_quadrature.hpp"], [("spherical_combine_op and recentering", C + "spherical_quadrature.hpp"), ("generic pairing", C + "product_quadrature.hpp")],
     "exhaustive enumeration of factor pairs against a product model", "Complete within the bounds; order of points is not fixed by the oracle.",
     "The point set is compared as a set with the product of the factors' own points and weights.")

prop("C11", "Recentering keeps the grid rigid over every history",
     "After any sequence of recenterings (also to one of its own points, by reference), copies, moves and clones, a spherical grid (pruned or not) reports the last centre set, its points are its original points shifted to that centre, and its weights are bit for bit unchanged; recentering to the current centre changes nothing. Clones and copies are independent of their origin, and clones keep the type.",
     ["histories"], "every history of up to 5 (thorough 6) out of 10 operations from 5 start centres, on three kinds of grids; every operation (thorough: pair) on grids of 69000 points",
     "Tests recenter once.",
     [C + "spherical_quadrature.hpp", C + "pruned_spherical_quadrature.hpp"], [("recenter shifts by the difference", C + "spherical_quadrature.hpp")],
     "explicit-state exploration of operation histories on the real objects against a reference model", "Complete to the depth; drift tolerance 1e-14 times the largest coordinate.",
     "Depth-first over all histories; each state is checked against the model (shape about the origin, centre) after each operation.")

prop("C12", "A pruned grid is the union of its regions, however it is built",
     "A pruned spherical grid holds exactly the union over its regions of the products of the radial nodes in the region with the region's angular rule, about its centre; with one angular rule everywhere it is the unpruned grid. Building the radial partition by one constructor call, incrementally, by finalizing twice, by copying, moving or assigning gives the same partition, and every way to walk it (iterators, constant iterators, range-for, addition) sees the same regions in order.",
     ["inputs", "histories"], "every composition of 1..6 radial points into regions with 4 assignments of angular sizes, and of 1..5 with rules that were written over; every pair of cuts of 9..30 points; 8 ways to build, 7 ways to walk, 8 centres; 6 radial x angular combinations; 300 regions, 70001 radial points cut at 9 places, rules of 5810 points; every history of up to 4 (6) of 10 operations on two partitions from 4 starts",
     "Tests build two partitions and never iterate backwards, copy or finalize twice.",
     [C + "pruned_spherical_quadrature.hpp", C + "sub_quadrature.hpp"], [("RadialGridPartition: add_quad, finalize, iterators", C + "pruned_spherical_quadrature.hpp"), ("generate_pruned_spherical_quadrature", C + "pruned_spherical_quadrature.hpp")],
     "exhaustive enumeration of partitions, ways to build and walk them, and histories of two partitions against a union model", "Complete within the bounds.",
     "Every composition; union model from the factors' own nodes; walks compared element by element.")

prop("C13", "Pruning schemes cut every radial rule as documented",
     "For every radial scheme and size, and every supported angular size, the robust, Treutler and unpruned schemes produce non-empty regions which tile the radial points in order, of the same angular family, the outermost (from three radial points on) having the angular size asked for; inner sizes are the smallest supported sizes of order at least 7 and order-6 (robust, up to 1/4 and 1/2 of the radial points) or at least 7 and 11 (Treutler, up to 1/3 and 1/2). The radial kind and traits are passed on unchanged.",
     ["inputs"], "3 schemes x 4 families x all sizes x 4 radial schemes x radial sizes 1..320 (thorough 900) and selected to 3 * 2^40",
     "Tests prune a few fixed specifications with 99 radial points.",
     [G + "impl/robust_pruning.hpp", G + "impl/treutler_pruning.hpp", G + "impl/pruned_grid.hpp"], [("robust_psi4_pruning_scheme_impl", G + "impl/robust_pruning.hpp"), ("treutler_pruning_scheme_impl", G + "impl/treutler_pruning.hpp")],
     "exhaustive enumeration of specifications against a golden model", "Complete within the bounds; small radial sizes clip the regions.",
     "Golden description of the three schemes, independent look-up table (catalogue); regions compared exactly.")

prop("C14", "Runtime generators give the grids of the types they name, or refuse",
     "For every radial kind, angular family, sizes and scale, the runtime generators (radial, angular, unpruned, pruned, from specifications, typed) give the same nodes and weights as the types they stand for, centred at the origin, whichever route is used and however often. They refuse with an exception: traits of another scheme or none, regions which do not tile the radial points exactly, regions mixing families, unknown enumerators.",
     ["inputs", "configurations"], "16 combinations x up to 12 angular sizes x 7-12 radial sizes x 3 scales x 15 routes; every angular size; 300 regions; all lists of up to 3 regions over 4 radial points by 4 routes; all trait mismatches; all family mixtures; enumerators 0..0x1fff (0xffff) and all within two (three) bits of a known one",
     "Tests compare a few specifications and never try a wrong one.",
     ["src/radial_factory.cxx", "src/s2_factory.cxx", "src/spherical_factory.cxx", G + "impl/radial_factory.hpp", G + "impl/radial_types.hpp", G + "impl/s2_factory.hpp", G + "impl/unpruned_grid.hpp", G + "impl/pruned_grid.hpp"],
     [("dispatch over kinds", G + "impl/*.hpp")],
     "exhaustive enumeration of requests x routes against the statically typed grids", "Complete within the bounds.",
     "Product and union models from the types; acceptance exactly if the region list tiles.")

prop("C15", "Names select schemes in any letter case; anything else is refused",
     "Every documented name of a radial scheme or angular family selects its scheme in every combination of letter cases, and any other string (near misses, embedded or surrounding whitespace, extra bytes, concatenations) is refused with an exception.",
     ["inputs"], "all 2^k letter cases of all names; all strings of up to 3 of 66 characters, up to 2 bytes; all single edits of the names",
     "Tests try each name once in upper case.",
     ["src/radial_factory.cxx", "src/s2_factory.cxx", "src/spherical_factory.cxx", G + "impl/radial_types.hpp", G + "impl/s2_types.hpp"], [("radial_from_string, angular_from_string and the scheme names", "src/*.cxx")],
     "exhaustive enumeration of strings", "Complete within the bounds.",
     "Every case variant of every documented name; every short string and edit must be refused.")

prop("C16", "Radial traits and grid specifications are values",
     "Radial traits compare equal exactly if they are of the same scheme with the same size and parameters, also through the base class and through clones; traits made at run time carry the parameters given or the defaults, and parameters a scheme does not have are refused. Pruning regions and grid specifications compare equal exactly if all their parts do, and any history of copies, assignments, moves and edits leaves each specification with what was put there, independent of the others.",
     ["inputs", "histories"], "all pairs of 210 traits, 256 regions and 140 specifications; every history of up to 4 (thorough 5) out of 16 operations on two specifications",
     "Tests compare three pairs of traits and never edit a copy.",
     ["include/integratorxx/generators/spherical_factory.hpp", R + "radial_transform.hpp", R + "becke.hpp", R + "mhl.hpp", R + "muraknowles.hpp", R + "treutlerahlrichs.hpp", G + "impl/radial_types.hpp"],
     [("compare, clone", R + "*.hpp"), ("copy operations of specifications", "include/integratorxx/generators/spherical_factory.hpp")],
     "exhaustive comparison of a value population and explicit-state exploration of histories against plain records", "Complete within the bounds.",
     "All pairs against member-wise equality of plain records; all histories against a two-slot record model.")

prop("C17", "Batches partition the weighted points, whatever the points and size",
     "For every set of points and every maximum batch size, the batches of a quadrature are non-empty, hold at most the maximum number of points, together hold every weighted point exactly once, and each box is the tight bounding box of its points; batching terminates also for coinciding points, an empty quadrature has no batches, and size zero is refused. The quadrature given is not changed when it was copied, and every way to make a batcher gives such a partition.",
     ["inputs"], "all multisets of up to 4-6 points of five lattices (one with overflowing extents) with every batch size; up to 90 (400) and about 65536 coinciding points; up to 300 (800) geometrically crowding points in 24 ways; all 5040 orders of 7 points; product and pruned grids with batch sizes 1..24 (128) and larger; grids of 70000 points; 8 ways to make a batcher",
     "Tests batch one grid with one size and check counts and sums.",
     [B], [("recursive bisection of the points", B)],
     "exhaustive enumeration of point sets x batch sizes on the real code", "Complete within the bounds (small scope).",
     "Partition oracle on the multiset of (point, weight) pairs and exact boxes.")

prop("C18", "All ways to traverse a batcher see the same batches",
     "Iterators, constant iterators, range-for, prefix and postfix increment, addition to an iterator, indexed access and ranges all see the same batches, as many as announced, which are consecutive slices of the batcher's points and weights with their boxes; adding to an iterator leaves it where it was, end is begin plus the number of batches, and indexed access past the end is refused. This holds after cloning and recentering and for batchers with a given partition.",
     ["inputs", "histories"], "grids of 1..5 (8) x 4 sizes x 13 batch sizes, clones, after recentering; all 64 given partitions of 7 points x 3 constructors; every pair of positions; 70001 (200003) batches",
     "Tests walk one batcher forward.",
     [B], [("batch iterator, at, generate_batch", B)],
     "exhaustive enumeration of traversals against the slices", "Complete within the bounds.",
     "Every traversal is compared with the slices seen by the constant iterator and these with the raw storage.")

prop("C19", "Batches stay rigid and consistent over every history of the batcher",
     "After any sequence of recenterings (of the batcher or of its quadrature, also to one of their own points), clones, copies, moves and reconstructions with the same partition, a batcher has the same batches with the same weights, shifted to the last centre, with tight boxes; clones and their origin do not affect each other, nor do a batcher and the quadrature it was copied from.",
     ["histories"], "every history of up to 4 (thorough 5) out of 13 operations, 4 batch sizes, 3 start centres, unpruned and pruned grids",
     "Tests recenter once after batching.",
     [B, C + "spherical_quadrature.hpp"], [("recenter, clone", B)],
     "explicit-state exploration of operation histories on the real objects against a reference model", "Complete to the depth.",
     "Model: batches about the origin and the centre; every state compared in full.")

prop("C20", "Quadratures are values, and every accessor sees the same nodes",
     "For every quadrature type, the containers, element access, data pointers and number of points, through the object or any of its base classes, constant or not, describe the same nodes and weights, and what is written through one is read through all; reading element npts() or beyond is refused with an exception. After any history of copies, moves, slicing to a base class, writes and recentering, each object holds what was put there, independent of the others.",
     ["inputs", "histories"], "18 types in up to 3 floating-point types, 4-60 sizes each; every history of 2-3 (thorough one more) out of 16 operations on two objects and a sliced base, moving the centre of grids among them; 10 rules and grids of up to 70001 points",
     "Tests read points() and weights() of fresh objects only.",
     ["include/integratorxx/quadrature.hpp", "include/integratorxx/type_traits.hpp", C + "spherical_quadrature.hpp", C + "sub_quadrature.hpp"], [("QuadratureBase accessors", "include/integratorxx/quadrature.hpp")],
     "explicit-state exploration of operation histories on the real objects against plain vectors", "Complete to the depth; moved-from objects are only reused after a new value was put there.",
     "Each object is compared, through the type itself, its Quadrature base and its storage base, with plain vectors after every operation of every history.")

prop("C21", "Generation depends on its arguments alone",
     "Every generating call (rules, angular and radial generators, spherical and pruned grids, schemes, batchers, names, refusals) gives the same result bit for bit whatever calls were made before it in the process, whether their results were destroyed, kept or written over, and whatever the memory it is given held before.",
     ["histories"], "every sequence of up to 3 out of 34 generating calls, each in a process of its own, with results kept, destroyed or overwritten; in 16 groups of 12 to 210 calls alike but for one argument, every pair a, b, a, long histories forwards and backwards, and 300 repetitions; 6 patterns of memory content",
     "Tests generate each object once in one order.",
     [Q, C, "include/integratorxx/generators/spherical_factory.hpp", "src/radial_factory.cxx", "src/s2_factory.cxx", "src/spherical_factory.cxx", B],
     [("static tables and dispatch", Q), ("batch generation", B)],
     "exhaustive exploration of call sequences on the real code, one forked process per sequence", "Complete to depth 3 (depth 2 for all kinds of leftovers in the quick tier) over the alphabet in mc/calls.hpp; complete for a, b, a within the groups of calls which differ in one argument.",
     "A tree of forks: each node is a process in which exactly one history of calls has happened; the next result is compared byte for byte with the result of that call in a fresh process. operator new and delete fill memory with a pattern and the stack is painted before each call.")

prop("C25", "Spherical grids integrate over three-dimensional space",
     "For every pruning scheme, radial scheme, angular family and angular size, the grid from the runtime generator with at least 80 radial points integrates x^a y^b z^c exp(-r^2) about its centre, for all a+b+c up to the smallest angular order in its regions, to the exact value within 1e-8 relative to the integral of the absolute values, also after recentering.",
     ["inputs"], "3 schemes x 4 x 4 families x all angular sizes up to 450 (1500) x 2 (4) radial sizes, all monomials of degree up to the order (at most 12); every radial size from 80 to 280 (700) with a small angular rule, to degree 2",
     "Tests integrate one spherically symmetric function.",
     [C, "src/spherical_factory.cxx", Q], [("composition of radial and angular rules", C)],
     "exhaustive enumeration of grids x monomials on the real code against closed forms", "Complete within the bounds; 80-1025 radial points.",
     "All three-dimensional Gaussian moments against Gamma functions.")

prop("C26", "Other floating-point types give the same grids to their precision",
     "Rules, radial rules, spherical and pruned grids, recentering and batches made in float, long double or with distinct point and weight types agree with those in double to the coarser precision of the types involved. Composite grids, their recentering and batches hold the products of their factors, shifted, to the precision of their own type.",
     ["inputs", "configurations"], "10 rules of up to 160 (400) points in 5 combinations of types; all 16 pairs of schemes as spherical and pruned grids and batches in 3 types",
     "Tests use double throughout.",
     [P, R, C, B], [("templates over point and weight types", Q)],
     "exhaustive enumeration of rules x sizes x types against the double-precision rule", "Complete within the bounds.",
     "Every rule in every combination is compared node by node with double, scaled by the conditioning of the map; composite grids are compared as sets with the product of their own factors.")

prop("C28", "Sub-quadratures are slices; products pair every node with every node",
     "A sub-quadrature over the range [b,e) of any quadrature, itself possibly a sub-quadrature, holds exactly its nodes and weights b..e-1 in order, and neither follows later changes of the other. The generic product of two rules holds the given operation applied to every pair of nodes, and to the corresponding weights, each pair once.",
     ["inputs"], "every range of rules of 1..20 (40) points of 13 types and ranges of those; products of 1..12 x 1..12 (24 x 24) points for 4 pairs of rules and of rules with themselves, two operations; ranges of rules of 70001 points around powers of two, products of 140002 pairs",
     "Tests take two slices.",
     [C + "sub_quadrature.hpp", C + "product_quadrature.hpp"], [("SubQuadrature generate", C + "sub_quadrature.hpp"), ("ProductQuadrature generate", C + "product_quadrature.hpp")],
     "exhaustive enumeration of ranges and pairs on the real code", "Complete within the bounds.",
     "Slices are compared element by element, products as multisets of quadruples that keep both factors apart.")

prop("C22", "Concurrent use without shared mutation is safe",
     "Generating calls, operations on objects of the calling thread's own (also copies and clones of a common origin), and constant operations on shared objects (reading, copying, cloning, comparing, building grids, slices and batchers from them, constant batch traversal) may run concurrently in several threads. There is no data race or deadlock in any schedule, and every result is what it is without the other threads.",
     ["schedules"], "every pair of 52 operations in two threads in both orders and triples in three; all interleavings of operations and of synchronisation on shared variables with at most 2 (thorough 4) preemptions",
     "The tests have one thread; a static buffer or lazily filled table passes all of them.",
     [Q, C, "include/integratorxx/generators/spherical_factory.hpp", "src/radial_factory.cxx", "src/s2_factory.cxx", "src/spherical_factory.cxx", B],
     [("static data and constant member functions", Q)],
     "stateless model checking of the real code under a controlled scheduler with happens-before race detection", "Complete to the preemption bound for code instrumented at compile time; races inside precompiled libstdc++ functions are seen only through mem* calls.",
     "The library is compiled with -fsanitize=thread but linked with a runtime of our own (mc/sched.cc): a cooperative scheduler which explores schedules depth first (threads switch at operations, locks, once-initialisation, and atomics shared by threads), vector clocks, a shadow of every byte read or written, memory never reused. Each schedule runs in a process of its own; results are compared with those of each thread alone. Validated by planting racy and correctly synchronised caches: the former are found, the latter are quiet.")

prop("C23", "Every way to build the library gives the same library",
     "Each public header compiles on its own and may be included in several translation units (impl.hpp in one). The compiled library, the header-only one, and one built, installed and found or added as a subdirectory through CMake give the same grids, sizes, regions, names and refusals whatever the compiler, optimisation level, language standard, NDEBUG, INTEGRATORXX_DISABLE_SANITY_CHECK, INTEGRATORXX_VERBOSITY_LEVEL, checked standard library or content of fresh memory, up to rounding.",
     ["configurations"], "36 headers x 2 compilers (thorough 3 standards); 28 build configurations (thorough 756: 3 modes x 2 compilers x 5 levels x 2 standards x 6 macro sets x 2 architectures, and more) x 2 memory contents; 5 CMake consumers",
     "Tests run in one build; a side effect in an assertion, a missing include or an uninitialised variable passes them.",
     ["CMakeLists.txt", "include/integratorxx/generators/impl/impl.hpp", "include/integratorxx/quadrature.hpp", B, "include/integratorxx/util/create_array.hpp"], [("header-only implementation", "include/integratorxx/generators/impl/impl.hpp"), ("sanity_check", "include/integratorxx/quadrature.hpp")],
     "exhaustive enumeration of build configurations of the real code, each run and compared", "Complete within the bounds for g++ 13 and clang 18 on this machine; results compared to 1e-7 (2e-3 in float).",
     "mc/c23/c23.py builds and runs mc/c23/dump.cxx in every configuration and compares the dumps token by token; a failure to build is a violation here.")

prop("C27", "Running out of memory loses nothing and breaks nothing",
     "If any allocation, or any and all later ones, fails within a generating call or a copy, clone, batch or comparison, the call ends with std::bad_alloc or completes with the right result. Whether it fails or not, no memory is lost, no other object is changed, and every later call gives the right result.",
     ["fault_sequences"], "every allocation of every one of 47 operations, failing once or from there on; every operation run after each failure (quick: a seventh of them)",
     "Tests never run out of memory.",
     [Q, C, "include/integratorxx/generators/spherical_factory.hpp", "src/radial_factory.cxx", "src/s2_factory.cxx", "src/spherical_factory.cxx", B],
     [("owning pointers and containers", C)],
     "exhaustive enumeration of allocation faults on the real code", "Complete for the operations in mc/world.hpp; operations that change an own object are left out.",
     "operator new is replaced; the live block count is compared before and after, twice where something was kept, so that what is made once for good is no leak.")

prop("C24", "No call has undefined behaviour",
     "No public call within its asserted preconditions, accepted or refused, on a fresh, copied, moved-to, cloned, sliced, recentered or edited object, reads or writes memory it does not own or that was destroyed, overflows, dereferences null or otherwise has behaviour the language leaves undefined. No point, weight, region or batch holds memory that was never written.",
     ["inputs", "histories"], "the quick or thorough spaces of C03-C20, C26 and C28 (histories of C20 one step shorter; sizes beyond 2^32 excluded) under address and undefined-behaviour sanitizers and a checked standard library; operations, sizes 0..320 (1500) and grids of all schemes under memcheck",
     "Tests run unwatched: reading one element beyond a table or an unwritten weight passes them.",
     [Q, C, B, "include/integratorxx/generators/spherical_factory.hpp", "include/integratorxx/quadrature.hpp"], [("storage and indices", "include/integratorxx/quadrature.hpp"), ("batch generation", B)],
     "exhaustive enumeration of inputs and histories on the real code under memory monitors", "Complete for what the monitors see (AddressSanitizer, UBSan, _GLIBCXX_ASSERTIONS, memcheck) within the spaces.",
     "The harnesses of the other properties are rebuilt with sanitizers; here only what the monitors report counts. mc/c24.cxx asks memcheck whether each byte of each result is defined.")

prop("C29", "Composite quadratures work alike for user-defined rules and maps",
     "Spherical and pruned grids of any user-defined radial and angular rules, also with zero or negative weights and zero or repeated nodes, hold every pair of a node and a direction of its region exactly once with weight w r^2 v, shifted to the centre; their clones, recentering and batches are as for the library's rules. A radial transform of any base rule, with or without its bounds, by any user map holds the image of every (inner) node with its weight times the map's jacobian, in number as asked, and refuses traits of another map.",
     ["inputs"], "all rules of 1..3 (4) nodes out of 3 places x 3 weights with all angular rules of 1..2 (3) out of 4 weighted directions, all batch sizes; all cuts of two radial rules into up to 3 regions with all choices of angular rules; 3 user maps x 3 scales of 8 base rules in 4 types, 1..48 (200) points",
     "Tests use the library's rules only, none of which has a node at zero, a zero or negative radial weight or a repeated node.",
     [C + "spherical_quadrature.hpp", C + "pruned_spherical_quadrature.hpp", C + "product_quadrature.hpp", C + "sub_quadrature.hpp", Q + "radial/radial_transform.hpp", B],
     [("SphericalQuadrature, PrunedSphericalQuadrature generate", C), ("RadialTransformQuadrature generate", Q + "radial/radial_transform.hpp")],
     "exhaustive enumeration of small user-defined rules and maps on the real code (small scope)", "Complete within the bounds.",
     "Every rule over the small alphabet of nodes and weights is made, combined, moved and batched; points are compared as multisets on a lattice where rounding cannot confuse them, images of nodes to 32 ulp in any order.")

prop("C30", "Calls leave the process as it is and do not depend on it",
     "The result of every generating, naming, copying or batching call is bit for bit the same whatever errno, raised floating-point flags, C or C++ locales, working directory, environment variables, clocks, number of processors, random number state, closed standard streams, a 1 MiB stack or stack unwinding in progress. No call changes the rounding mode, locales, state of standard streams, working directory, environment, umask, signal handlers or mask, open files, threads, handlers, timers, limits or the random number sequence, nor prints, makes files or ends the process, also with upward rounding or denormals flushed.",
     ["configurations"], "every combination of 10 two-valued settings of the process x 45 calls with 17 aspects observed around each; 16 calls for up to 70001 points in 22 of them; 3 floating-point modes x every 31st (every) combination; every environment variable the library asks for, with 10 values, in a process started anew",
     "Tests run in one process environment and look only at results.",
     [Q, C, G + "spherical_factory.hpp", "src/radial_factory.cxx", "src/s2_factory.cxx", "src/spherical_factory.cxx", B],
     [("name conversion", G + "impl/radial_factory.hpp"), ("iterations and generators", Q)],
     "exhaustive enumeration of process environments x calls on the real code", "Complete for the settings, calls (mc/calls.hpp) and aspects listed; each combination runs in a process of its own.",
     "Each call is first run in a fresh process as the reference, then in each of the 1024 environments, with the surroundings recorded before and after it. getenv and the clocks are replaced, so that names asked for are noted and clocks jump.")

prop("C31", "Every type is what its traits and the library's predicates say",
     "For every class of the library and every combination of floating-point types, element types, containers and bases are those the class and its traits announce, constant objects do not let their nodes be changed, and objects copy and move, the latter without exceptions. The scheme and family predicates and radial_from_type, angular_from_type hold exactly for the types of that scheme or family and refuse all others, relatives like other orders of a map included; casts of radial traits give the object itself or are refused, and all polymorphic bases are destroyed through.",
     ["configurations"], "19 one-dimensional classes x 9 combinations of types, 6 angular classes x 3, 20 pairs of rules x 3 types x 2 grids and batchers, 6 traits x all casts",
     "Tests instantiate most classes in double only.",
     ["include/integratorxx/type_traits.hpp", "include/integratorxx/quadrature.hpp", G + "radial_factory.hpp", G + "s2_factory.hpp", Q + "radial/", Q + "s2/"],
     [("is_*_v", Q), ("radial_from_type, angular_from_type", G)],
     "exhaustive enumeration of types x predicates of the real code", "Complete for the types listed.",
     "Every type is instantiated and each predicate, kind, base and element type is compared with a table.")

prop("C32", "Legendre polynomials and derivatives are right at every degree",
     "For every degree n and every x with |x| <= 1, in float, double and (to double accuracy) long double, the Legendre evaluation returns P_n(x) and, for n > 0, P_{n-1}(x), and for |x| < 1 the derivative P_n'(x), to the rounding error of the three-term recurrence, which grows with n and towards the ends.",
     ["inputs"], "degrees 0..600 (1500), six to 2048 and 70001 at 257 (1025) equidistant abscissae, 240 towards the ends and the middle and 120 others, in three types",
     "Tests reach it only through the Gauss rules they tabulate.",
     ["include/integratorxx/util/legendre.hpp"], [("eval_Pn", "include/integratorxx/util/legendre.hpp")],
     "exhaustive enumeration of degrees x abscissae on the real code", "Complete for the degrees and abscissae listed (bounded enumeration).",
     "Oracle: the recurrences of P_n and of P_n' = n P_{n-1} + x P_{n-1}' in quadruple precision; values are compared to 8 (n+4) (1 + min(n, (1-x^2)^(-1/2))) ulp of one.")

prop("C33", "Batches are separate boxes in space",
     "Any two batches of a newly made batcher lie on two sides of a plane across x, y or z, which both may touch, in a direction in which the set of points has extent, for every set of points with finite extents and every batch size, unless all points of both batches coincide or differ by rounding only. So no batch reaches into the inside of the box of another.",
     ["inputs"], "all multisets of 2 to 4-7 points of ten lattices of extents from 1e-300 to 1e300 with every batch size; 16 radial x angular combinations x 3 x 5 sizes x 2 centres x 15 (103) batch sizes; pruned, large and mostly coinciding grids",
     "Tests count batches and add weights; batches which interleave in space pass them.",
     [B], [("partition_box, generate_batches", B)],
     "exhaustive enumeration of point sets x batch sizes on the real code", "Complete within the bounds (small scope).",
     "Boxes are computed from the points of each batch and compared pairwise (sweep along x); inseparable means within 4 ulp in every coordinate.")

prop("C34", "A refused call throws a std::exception and leaves everything as it was",
     "Whatever is refused (sizes, traits, regions, names, enumerators, positions past the end of a rule, grid or batcher, batches of none, missing traits) is refused by an exception derived from std::exception which says something, also again, after any other refusal and while another exception is handled. The objects the call was given are unchanged, no memory is lost, and every later call gives the result it would have given without the refusal.",
     ["histories"], "each of 275 refused calls three times, all ordered pairs, each followed by each of 34 good calls, and within the handler of every seventh (every) other; thorough: triples",
     "Tests ask for a few refusals and look at nothing afterwards.",
     [G + "impl/pruned_grid.hpp", G + "impl/s2_factory.hpp", G + "impl/radial_factory.hpp", "include/integratorxx/quadrature.hpp", Q, B], [("every throw", "include/integratorxx/")],
     "exhaustive exploration of histories of refused and good calls on the real code", "Complete for all pairs over the refusals in mc/c34.cxx.",
     "The arguments are rendered as bytes before and after each call, allocations are counted, results of good calls are compared byte for byte with those made first.")
