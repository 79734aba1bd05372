NOTE = 'Generated-input search on the real code with AddressSanitizer; bounded by the sizes and case counts in the evidence file.'
prop('C11', 'pdcore', 'Rebuilding a planar diagram yields a valid code of the same diagram',
  'Rebuilding the derived records of a planar diagram code from its crossings gives a fully consistent code (edges, components, faces, canonical order) of the same diagram, keeping signs and orientations whenever they were supplied; doing it twice, or copying, changes nothing. The hash of a code depends only on the unsigned, unoriented diagram up to relabelling and reflection. The validity check accepts such codes and rejects a code in which a single crossing, edge, component or face entry has been corrupted into inconsistency.',
  ['inputs'], 'all connected link diagrams, all labellings of their crossings and edges, all single-field corruptions',
  'Tests rebuild a few fixed diagrams and a few corruptions; the guarantee is for every diagram and labelling.',
  ['src/pdcode.c', 'src/plcTopology.h'], [('pd_regenerate and friends', 'src/pdcode.c'), ('pd_ok', 'src/pdcode.c'), ('pd_copy', 'src/pdcode.c')],
  'property-based testing: random plane-map generator, independent diagram model as oracle', NOTE)
prop('C12', 'pdcore', 'Planar diagram codes survive text and packed round trips',
  'Writing valid diagram codes to a stream in the native text format and reading them back gives, code by code, exactly the same codes, including identifiers, tags, signs and diagrams without crossings; reading past the last code reports an error. Writing in the KnotTheory format and reading back gives the same signed, oriented diagram, except that the direction of a two-edge component lying over everything is not recorded. Packing into bits and unpacking gives the same diagram with the same orientations and signs, and unset signs stay unset.',
  ['inputs', 'histories'], 'all valid codes and all sequences of codes in one stream',
  'Tests round-trip a handful of fixed codes, one per file.',
  ['src/pdcode.c', 'src/pd_pack.c'], [('pd_write, pd_read', 'src/pdcode.c'), ('pd_write_KnotTheory, pd_read_KnotTheory', 'src/pdcode.c'), ('pd_pack, pd_unpack', 'src/pd_pack.c')],
  'property-based testing: round trip against an independent diagram model', NOTE)
prop('C22', 'pdcore', 'Diagram queries and component relabelling agree with the diagram',
  'Over and under strands, successor and predecessor edges, component and face lookups, the alternating test, signed and unsigned linking numbers, interlacement counts, orientations and comparisons of crossings, edges, faces and components reported for a diagram equal those counted directly from its crossings, asking leaves the diagram as it was, and each validity test refuses exactly the damage in its own part of the code. Reversing a component or shifting its edge numbers gives a valid code of exactly the diagram with that component reversed (signs of mixed crossings flipped), or of the same diagram.',
  ['inputs', 'histories'], 'all signed oriented diagrams; all sequences of component reversals and renumberings',
  'Tests check a few diagrams and single operations.',
  ['src/pdcode.c', 'src/plcTopology.c', 'src/pd_invariants.c'], [('pd_overstrand, pd_understrand, pd_is_alternating', 'src/pdcode.c'), ('pd_linking_number', 'src/plcTopology.c'), ('pd_interlaced_crossings', 'src/pd_invariants.c'), ('pd_reorient_component, pd_renumber_component', 'src/pdcode.c')],
  'property-based and stateful testing against an independent diagram model', NOTE)
prop('C01', 'curve', 'Curves survive a write and read of the text file format',
  'Writing a polygonal curve to a VECT file and reading it back gives the same curve: the same components in order, open or closed, vertices equal to printed precision, one or per-vertex or no colours, and the same kind and parameters of constraint on every vertex. Writing leaves the curve unchanged, and a copy equals its original in all these respects.',
  ['inputs'], 'all curves: numbers of components, vertices, colour schemes, constraint layouts, coordinate magnitudes',
  'Tests round-trip a few fixed curves with a few constraints.',
  ['src/plCurve.c'], [('plc_write', 'src/plCurve.c'), ('plc_read', 'src/plCurve.c'), ('plc_copy', 'src/plCurve.c')],
  'property-based testing: write/read round trip against an independent curve model', NOTE)
prop('C02', 'curve', 'Reading a damaged curve file never crashes and reports errors',
  'Reading any file as a curve either returns a structurally sound curve (every vertex, colour and constraint record in range and usable by the other operations) together with error number zero, or returns no curve, a positive documented error number and a terminated message. In particular a file cut off before its last number, or one that is not a VECT file, is rejected. No input makes the reader crash, abort or read outside its buffers.',
  ['inputs', 'faults'], 'all byte sequences with moderate declared sizes; truncation at every point; token, line and byte mutations of valid files',
  'Tests feed a few malformed files.',
  ['src/plCurve.c'], [('plc_read', 'src/plCurve.c'), ('get_comment, scandoubles', 'src/plCurve.c')],
  'fuzzing: structure-aware mutation, truncation and noise under AddressSanitizer with a soundness oracle', NOTE)
prop('C03', 'curve', 'Constraint bookkeeping follows every history of edits',
  'After any sequence of setting fixed, line or plane constraints, clearing ranges and removing constraints, each vertex carries exactly the constraint last placed on it and no other, and the records stay ordered and non-overlapping. Enforcing constraints moves exactly the constrained vertices, each to the nearest point of its constraint, after which the reported violation is zero; the reported violation is always the largest distance of a vertex from its constraint.',
  ['histories', 'inputs'], 'all sequences of constraint operations on all curves',
  'Tests run a fixed list of operations.',
  ['src/plCurve.c'], [('plc_set_fixed, plc_constrain_to_line, plc_constrain_to_plane', 'src/plCurve.c'), ('plc_unconstrain, plc_remove_constraint', 'src/plCurve.c'), ('plc_fix_cst, plc_check_cst', 'src/plCurve.c')],
  'stateful model-based testing against a per-vertex constraint model', NOTE)
prop('C04', 'curve', 'Editing a curve keeps geometry, colours and constraints together',
  'After any sequence of component insertions, drops, resizings, vertex doublings, arc deletions, component permutations or reversals, and recolourings, the curve equals the one obtained by the same edits on a plain list of vertices: positions, open or closed state, colours and the constraint of each surviving vertex all stay attached to the right vertex. No edit reads or writes outside the curve, and wrap-around vertices are current.',
  ['histories', 'inputs'], 'all sequences of edits on all curves',
  'Tests apply single edits to a few curves.',
  ['src/plCurve.c', 'src/plwhitten.c'], [('plc_add_component, plc_drop_component, plc_resize_colorbuf', 'src/plCurve.c'), ('plc_double_verts, plc_delete_arc', 'src/plCurve.c'), ('plc_whitten', 'src/plwhitten.c')],
  'stateful model-based testing against a plain list model', NOTE)
prop('C05', 'curve', 'Geometric measurements of curves and vectors are correct',
  'Lengths, edge and vertex counts and numbering, arclength positions and subarc lengths, turning angles, total curvature and torsion, curvatures at vertices, tangents, diameter, centre of mass, radius of gyration, chord lengths and dihedral angles reported for a curve equal their definitions evaluated directly from the vertices, for open and closed components alike. The vector operations (sums, products, norms, angles, normals, circumcentre, intersection of planes), called as functions or as macros, equal their definitions and report degenerate input. Measuring never changes the curve.',
  ['inputs'], 'all curves without zero-length edges; all vectors',
  'Tests compare a few known curves.',
  ['src/plCurve.c', 'src/vector.c', 'src/plc_dihedrals.c'], [('plc_arclength, plc_s, plc_subarc_length', 'src/plCurve.c'), ('plc_totalcurvature, plc_turning_angle, plc_MR_curvature', 'src/plCurve.c'), ('vector operations', 'src/vector.c')],
  'property-based testing: differential against direct definitions', NOTE)
prop('C06', 'curve', 'Rigid motions and scalings act exactly on curve and constraints',
  'Scaling, translating, rotating, reflecting, folding a subarc, perturbing and projecting a curve move each vertex exactly as the named map does; scalings, translations, rotations and reflections carry the constraints along, so constraint violations scale with the curve. Lengths, angles, diameters and gyration are invariant under rigid motions and scale under scalings. Any sequence of such maps equals the composed map, with wrap-around vertices current.',
  ['histories', 'inputs'], 'all sequences of transformations of all curves',
  'Tests transform a few curves once.',
  ['src/plCurve.c', 'src/plwhitten.c'], [('plc_scale, plc_translate, plc_rotate, plc_random_rotate', 'src/plCurve.c'), ('plc_pfm, plc_perturb, plc_project', 'src/plCurve.c')],
  'stateful metamorphic testing against an exact transformation model', NOTE)
prop('C18', 'homfly', 'The HOMFLY polynomial equals the one given by the skein relation',
  'The HOMFLY polynomial computed for an oriented signed link diagram equals the polynomial defined by the skein relation and the value one on the unknot, for knots and links alike. It is therefore unchanged by relabelling the diagram and by reversing all orientations.',
  ['inputs'], 'all connected oriented link diagrams up to the size the reference can evaluate',
  'Tests compare a table of known knots.',
  ['src/plcTopology.c', 'src/pllmpoly02.c', 'src/polynomials.c'], [('pd_homfly', 'src/plcTopology.c'), ('plc_lmpoly', 'src/pllmpoly02.c'), ('pdcode_to_ccode', 'src/plcTopology.c')],
  'property-based testing: differential against an independent skein-tree evaluator', NOTE)
prop('C14', 'pdiso', 'Diagram stores hold each diagram type once and survive files',
  'After any history of insertions, a store of diagrams holds exactly one diagram of each class (up to isomorphism, or up to diagram isotopy, or every insertion, as chosen), under distinct identifiers, whatever iterations or searches came between; a duplicate is reported by the identifier of the stored one, and iteration yields exactly the stored diagrams in hash order. Searching finds an isomorphic stored diagram exactly when there is one, with correct isomorphisms. Writing a store and reading it back under any of the relations gives the same diagrams merged accordingly, and a truncated file or a header with inconsistent counts is refused.',
  ['histories', 'inputs', 'faults'], 'all sequences of insertions, iterations and searches; all truncations of a stored file',
  'Tests store a few fixed diagrams.',
  ['src/pd_storage.c', 'src/pd_pack.c'], [('pd_addto_pdstor, pd_stor_firstelt, pd_stor_nextelt', 'src/pd_storage.c'), ('pd_read_pdstor, pd_write_pdstor', 'src/pd_storage.c'), ('pd_pack', 'src/pd_pack.c')],
  'stateful model-based testing against canonical forms computed independently', NOTE)
prop('C15', 'pdiso', 'Isomorphism and isotopy tests decide exactly when diagrams agree',
  'Two diagrams are reported isomorphic exactly when some relabelling, possibly with the sphere reflected and strands reversed, carries one to the other; map-isomorphic when the sphere orientation is kept; and isotopic when signs, orientations and component tags are kept, turning the sphere over being allowed. The isomorphisms listed are all of them, each once, and each really carries crossings, edges, components and faces to one another; a map altered in any way is accepted by the consistency check exactly when it is still an isomorphism. The automorphisms of a diagram form a group under the composition offered, with correct identity test and periods.',
  ['inputs'], 'all pairs of connected diagrams, circles without crossings included, with a moderate number of candidate maps',
  'Tests compare a few diagrams.',
  ['src/pd_isomorphisms.c', 'src/pd_perm.c'], [('pd_build_isos, pd_isomorphic', 'src/pd_isomorphisms.c'), ('pd_diagram_isotopic', 'src/pd_isomorphisms.c'), ('pd_compose_isos, pd_iso_period', 'src/pd_isomorphisms.c')],
  'property-based testing: differential against canonical forms and an exhaustive count', NOTE)
prop('C13', 'pdread', 'Reading damaged diagram files never crashes and never yields bad codes',
  'Reading any text as a diagram code (native or KnotTheory format) or as a store of diagrams either reports failure or returns codes that are complete and consistent in every record, whatever was damaged: single numbers, signs, lines, tokens, bytes or the end of the file. A code cut off before its last number (a crossingless one: before its tag) is refused, white space between tokens is irrelevant, and an accepted KnotTheory code is the diagram its crossings describe. No input crashes, aborts or ends the calling program.',
  ['inputs', 'faults'], 'all byte sequences which declare at most ten thousand crossings; truncation at every point; number, token, line and byte mutations of valid files',
  'Tests read a few malformed files.',
  ['src/pdcode.c', 'src/pd_storage.c'], [('pd_read, pd_read_err', 'src/pdcode.c'), ('pd_read_KnotTheory', 'src/pdcode.c'), ('pd_read_pdstor', 'src/pd_storage.c')],
  'fuzzing: structure-aware mutation, truncation and noise under AddressSanitizer with an independent validity oracle', NOTE)
prop('C16', 'moves', 'Reidemeister moves produce exactly the moved diagram',
  'Removing or adding a kink, removing or adding a bigon and flipping a triangle give valid codes of exactly the diagram the named move produces at the chosen place, with the signs, orientations and (for removals) component tags of everything else unchanged, and leave their input alone. When removing a bigon splits the diagram, every piece is returned once, crossing-free circles included, the one with the upper strand first. The same holds along any sequence of moves.',
  ['inputs', 'histories'], 'all diagrams and all legal places for a move; all sequences of moves on unsigned diagrams',
  'Tests apply the moves to a few fixed diagrams.',
  ['src/pd_crossingmoves.c', 'src/pd_operations.c'], [('pd_R1_loopdeletion, pd_R1_loop_addition', 'src/pd_crossingmoves.c'), ('pd_R2_bigon_elimination, pd_R2_bigon_addition', 'src/pd_crossingmoves.c'), ('pd_R3_triangle_flip', 'src/pd_crossingmoves.c')],
  'stateful model-based testing against exact moves on an independent diagram model', NOTE)
prop('C17', 'moves', 'Connected sums join exactly the chosen edges',
  'The connected sum of two diagrams along chosen edges is a valid code of exactly the diagram in which those two oriented edges are cut and rejoined, with all crossings, signs and orientations of both summands; summing with a crossing-free circle gives back the other summand, and the summands are left alone.',
  ['inputs'], 'all pairs of diagrams (a diagram with itself included) and all pairs of edges',
  'Tests join a few pairs.',
  ['src/pd_crossingmoves.c'], [('pd_connect_sum', 'src/pd_crossingmoves.c')],
  'property-based testing against an independent diagram model', NOTE)
prop('C20', 'moves', 'Simplification removes every kink and nothing else',
  'Simplifying a diagram returns a valid code without one-sided faces of exactly the diagram obtained by removing kinks until none is left (a crossing-free circle if everything unravels), with signs, orientations and component tags kept; the input is left alone and simplifying again changes nothing.',
  ['inputs'], 'all diagrams',
  'Tests simplify a few diagrams.',
  ['src/pd_simplify.c', 'src/pd_crossingmoves.c'], [('pd_simplify', 'src/pd_simplify.c'), ('pd_R1_loopdeletion', 'src/pd_crossingmoves.c')],
  'property-based testing against an independent diagram model', NOTE)
prop('C24', 'homfly', 'Polynomial arithmetic and text forms of link polynomials are faithful',
  'Writing a two-variable integer Laurent polynomial in the compact, LaTeX or Mathematica form, or reading it from the compact or KnotTheory form, keeps exactly its terms; converting between forms and back changes nothing. Two polynomials are reported equal exactly when their terms agree in any order, and the product of two polynomials has exactly the terms of the algebraic product, none of them zero.',
  ['inputs'], 'all nonzero Laurent polynomials with machine integer coefficients; all pairs of them',
  'Tests convert a few fixed polynomials.',
  ['src/polynomials.c', 'src/polynomials.h'], [('lmpoly_to_polynomial, polynomial_to_lmpoly', 'src/polynomials.c'), ('poly_to_latex, poly_to_mathematica, KnotTheory_to_polynomial', 'src/polynomials.c'), ('product_polynomial, polynomials_eq', 'src/polynomials.c')],
  'property-based testing: round trips and differential arithmetic against an independent polynomial model', NOTE)
prop('C21', 'topo', 'The diagram computed for a space curve has the topology of the curve',
  'For every closed polygonal curve without self-intersections whose diagram is connected, the computed diagram is a valid signed code with the same number of components, the same linking numbers and the same HOMFLY polynomial as the curve itself, also when the projection along the viewing direction has vertical edges, overlapping edges or multiple points. The curve is left unchanged, and the polynomial computed directly from the curve is that of its diagram.',
  ['inputs'], 'all embedded closed polygons of moderate size and scale, generic or on a small grid, whose link is not split',
  'Tests convert a few fixed curves.',
  ['src/plcTopology.c'], [('pd_code_from_plCurve', 'src/plcTopology.c'), ('make_zprojection_generic, findcrossings', 'src/plcTopology.c'), ('assemble_pdcode', 'src/plcTopology.c')],
  'property-based testing: differential against an independent projection and skein evaluator', NOTE)
prop('C23', 'topo', 'Knot classification lists the true type and only possible types',
  'Classifying a knot diagram or a closed curve lists every prime knot up to ten crossings, and the unknot, that has the same HOMFLY polynomial; the true type of any diagram of a tabulated knot (prime up to ten crossings, or composite up to twelve) is among those listed, each listed type can have that polynomial, and none is listed twice. The diagram or curve given is left alone. Knot type names are read exactly when every factor exists and there are not too many of them, giving those factors in order, and what is written reads back.',
  ['inputs'], 'all diagrams and closed polygons of one component; all strings as names',
  'Tests classify a few curves.',
  ['src/plcTopology.c', 'src/homfly.h'], [('pd_classify, plc_classify', 'src/plcTopology.c'), ('plc_read_knottype, plc_write_knottype', 'src/plcTopology.c'), ('table of knot types', 'src/homfly.h')],
  'property-based testing: diagrams of known knots complicated by Reidemeister moves, skein evaluator as oracle', NOTE)
prop('C19', 'tangles', 'Tangles hold exactly their contents and slides move strands exactly',
  'For every sub-tangle of a diagram given by its boundary, in which no edge occurs twice, the computed strands, edge directions, interior crossings and interior edges are exactly those inside the boundary, and boundaries whose edges do not lie on the given faces or repeat, damaged tangle records, and strands that do not run past the tangle in one legal way are refused. Sliding a strand that runs wholly over (or wholly under) consecutive edges of the tangle, from and to crossings outside it, removes exactly those crossings and adds crossings at the same level with exactly the other boundary edges; all resulting connected pieces are returned as valid codes with signs, orientations and component tags kept, and the diagram given is left alone.',
  ['inputs'], 'all connected diagrams, all tangles cut out of them along a closed curve, all over- and understrands of any length along the boundary whose description is unambiguous',
  'Tests slide over a few fixed tangles.',
  ['src/pd_tangles.c', 'src/pd_deletions.c', 'src/pd_splitdiagram.c'], [('pd_regenerate_tangle, tangle_contents_worker', 'src/pd_tangles.c'), ('pd_tangle_slide', 'src/pd_tangles.c'), ('pd_crossing_delete, pd_edge_delete', 'src/pd_deletions.c'), ('pd_split_diagram', 'src/pd_splitdiagram.c')],
  'property-based testing against an independent diagram model', NOTE)
prop('C10', 'rope', 'Struts, minimum radius, thickness and ropelength are exact',
  'For every polygonal link the shortest strut, the strut list (all struts below the cutoff or within the tolerance of the shortest, each once, as far as the list has room), the minimum radius and its list, the length, the thickness for any stiffness and the ropelength agree with comparing all pairs of edges and all corners, whatever the search depth, the memory buffer or the position of the link in space, and the combined call agrees with the single ones; the curve is left alone. Strut files read back as written, to the digits kept, and a damaged file gives an error or struts that lie on the curve.',
  ['inputs'], 'all links of open and closed polygons, with parallel edges or in general position, all cutoffs, tolerances, list sizes, depths and buffers; all texts as strut files',
  'Tests measure a few fixed curves.',
  ['src/octrope.c', 'src/octmem.c', 'src/minrad.c', 'src/octrope.h'], [('octrope_struts, octrope', 'src/octrope.c'), ('octrope_minrad', 'src/minrad.c'), ('octrope_strutfile_read, octrope_strutfile_write', 'src/octrope.c')],
  'property-based testing: differential against all-pairs brute force in extended precision', NOTE)
prop('C07', 'geom', 'Nearest-vertex queries find a nearest vertex',
  'For every set of points or curve and every query point the point or vertex returned lies at the least distance, with its position and numbers matching, whether or not data precomputed by earlier queries is passed in. Precomputed data made for other points is reported as stale and replaced, and neither the points nor the curve are changed.',
  ['inputs', 'histories'], 'all finite point sets and curves, small and large; all sequences of queries sharing precomputed data',
  'Tests query a few random curves.',
  ['src/nearest_neighbor.c', 'src/plCurve.h'], [('plc_nearest_neighbor', 'src/nearest_neighbor.c'), ('plc_nearest_vertex', 'src/nearest_neighbor.c')],
  'stateful property-based testing against exhaustive search', NOTE)
prop('C08', 'geom', 'Splines interpolate the curve smoothly and resample it by arclength',
  'The spline of a curve is the cubic spline through the vertices at their arclength positions, with continuous second derivative inside and the mean tangents at the ends (or where a closed strand closes), and its points and tangents are those of that spline at every position, wrapping around closed strands. Resampling gives for every number of vertices the points at equal steps along the spline, keeps open strands open with both ends, interpolates the colors the same way, and carries every constraint to the corresponding stretch inside the curve; the original is left alone.',
  ['inputs'], 'all curves without degenerate edges or undefined end tangents; all positions and vertex counts',
  'Tests spline a few fixed curves.',
  ['src/splines.c', 'src/plCurve.h'], [('plc_convert_to_spline', 'src/splines.c'), ('plc_convert_from_spline', 'src/splines.c'), ('plc_sample_spline, plc_spline_tangent', 'src/splines.c')],
  'property-based testing: differential against an independent spline solver in extended precision', NOTE)
prop('C09', 'geom', 'Symmetrization averages exactly over the symmetry group',
  'For a curve nearly invariant under rotations about an axis, a reflection or the reflections in the coordinate planes (or a group the caller puts together from its transforms), the symmetry group built has exactly the elements of that group, each with its transform, its inverse and the vertex nearest to the image of each vertex, and it is refused when two vertices share an image. Symmetrizing the curve or a vector field on it replaces every value by the average of its transported images, after which the reported symmetry error vanishes and symmetrizing again changes nothing; copies and rotated curves keep their symmetries, and the matrix arithmetic behind it equals its definitions.',
  ['inputs'], 'all curves near a symmetric one; all axes and orders; all vector fields',
  'Tests symmetrize a few fixed curves.',
  ['src/symmetries.c', 'src/matrix.c', 'src/plCurve.c'], [('plc_symmetrize, plc_symmetrize_variation', 'src/symmetries.c'), ('plc_rotation_group, plc_reflection_group, plc_coordplanes_reflection_group', 'src/symmetries.c'), ('plc_build_symmetry, plc_compose_symmetries', 'src/symmetries.c')],
  'property-based testing against an independent group model', NOTE)
prop('C25', 'iters', 'Enumerators visit every arrangement once and containers lose nothing',
  'Stepping through permutations, rotations, rotations with reflections, orientations, or any product of these visits every arrangement exactly once, permutations in lexicographic order and products with the last factor fastest, returns to the start after the announced count, and every element visited is valid, composes, inverts, compares, copies and prints as it should, while maps that are not elements are judged invalid. The growable container, the sorted index buffer and the packed bit strings used by the diagram searches hold exactly what was put in, in order, through any sequence of operations.',
  ['inputs', 'histories'], 'all sizes of set and all products with a moderate number of states; all sequences of insertions and removals; all bit strings',
  'Tests step through a few small sizes.',
  ['src/pd_perm.c', 'src/pd_dihedral.c', 'src/pd_cyclic.c', 'src/pd_orientation.c', 'src/pd_multidx.c', 'src/pd_container.c', 'src/pd_sortedbuf.c', 'src/pd_pack.c'], [('pd_increment_perm, pd_compose_perms, pd_inverse_perm', 'src/pd_perm.c'), ('pd_increment_dihedral', 'src/pd_dihedral.c'), ('pd_increment_multidx', 'src/pd_multidx.c'), ('pd_addto_container', 'src/pd_container.c'), ('pd_sortedbuf_insert', 'src/pd_sortedbuf.c'), ('pd_packbitstring, pd_unpackbitstring', 'src/pd_pack.c')],
  'stateful property-based testing against enumeration and standard-library models', NOTE)
prop('C26', 'rand', 'Random polygon samplers give the right shapes with the right averages',
  'For every number of edges and every stream of random numbers the samplers of random open and closed polygons, in space or in the plane, of total length two or equilateral, return a finite polygon that is open or closed as named, with the number of edges asked for and the promised lengths (and flatness), and the same stream gives the same polygon. Over many samples the averages of squared edges, products of edges, chords and triple products agree with their exact expectations; random unit vectors have length one and random perturbations stay within the radius given.',
  ['inputs'], 'all numbers of edges, all streams with at most one extreme random number',
  'Tests sample a few sizes with one seed.',
  ['src/plcRandomPolygon.c', 'src/plcRandomPolygon.h'], [('plc_random_closed_polygon and friends', 'src/plcRandomPolygon.c'), ('plc_random_equilateral_closed_polygon', 'src/plcRandomPolygon.c'), ('plc_random_vect, plc_perturb_vect', 'src/plCurve.c')],
  'property-based testing with generated random-number streams; exact expectations as statistical oracle at seven standard errors', NOTE)
prop('C27', 'rand', 'Arcs close to polygons of length two; self-avoiding means self-avoiding',
  'Closing an open component with a given number of edges keeps every given vertex and all other components and yields a closed component with that many edges and a curve of total length two, and it is refused exactly when the component is already closed, there is no edge to add, or no such polygon exists. A curve is judged self-avoiding exactly when all its vertices are more than one apart, and the sampler of self-avoiding equilateral polygons returns closed polygons of unit edges with all vertices at least one apart, the same for the same seed and with the averages of uniformly drawn ones.',
  ['inputs'], 'all curves and components, all edge counts, all streams with at most one extreme random number; sampler sizes five to fifteen',
  'Tests close a few arcs and sample a few polygons.',
  ['src/plcRandomPolygon.c', 'src/plcRandomSap.c'], [('plc_loop_closure', 'src/plcRandomPolygon.c'), ('plc_random_equilateral_closed_self_avoiding_polygon, plc_is_sap', 'src/plcRandomSap.c')],
  'property-based testing with generated random-number streams against geometric invariants', NOTE)
prop('C28', 'mcmc', 'The polygon Markov chain keeps its constraints and has the right averages',
  'Every triangulation generated for a polygon, from chords or of a named kind, consists of exactly the triangles cut out by non-crossing diagonals, and polygons convert to lengths and dihedral angles along it and back without change, while impossible lengths are refused. Steps of the chain keep edge lengths, triangle inequalities, confinement and whatever the kind of step should keep; the expectations returned are the plain average of the integrand over the polygons visited, with its error bar, and agree with the exact expectations for equilateral, one-long-edge and confined polygons. Logs and printed forms state the true values for any number of edges.',
  ['inputs', 'histories'], 'all triangulations and polygons, degenerate ones included; all sequences of steps and random streams',
  'Tests run a few chains on a few triangulations.',
  ['src/plcToricSymplectic.c', 'src/plcToricSymplecticTriangulation.c', 'src/tsmcmc.h'], [('tsmcmc_generate_triangulation and friends', 'src/plcToricSymplecticTriangulation.c'), ('tsmcmc_embed_polygon, tsmcmc_compute_dihedral_angles', 'src/plcToricSymplecticTriangulation.c'), ('tsmcmc_moment_polytope_step, tsmcmc_edgepermute_step', 'src/plcToricSymplectic.c'), ('tsmcmc_equilateral_expectation and friends', 'src/plcToricSymplectic.c')],
  'stateful property-based testing: round trips, invariants of the chain, exact expectations as statistical oracle', NOTE)
prop('C29', 'mcmc', 'Averages of correlated data and their error bars are computed exactly',
  'For every sequence of numbers the estimator returns the arithmetic mean and the error bar of the initial positive sequence rule computed from all of the data, whether it is given at once or one value at a time through a buffer of any size, and at every moment of the history. The error bar is finite and non-negative, and it is reported as unreliable only when the sequence of covariances does not end within those kept.',
  ['inputs', 'histories'], 'all sequences: correlated, anticorrelated, constant, alternating; all buffer sizes and query times',
  'Tests compare a few long runs.',
  ['src/geyer_estimators.c', 'src/geyer_estimators.h'], [('ips_sigma_estimator_with_gammas, ips_value, sample_mean', 'src/geyer_estimators.c'), ('geyer_ips_add, geyer_ips_value', 'src/geyer_estimators.c')],
  'stateful property-based testing: differential against direct evaluation in extended precision', NOTE)
prop('C30', 'nplc', 'Curves in n-dimensional space survive files, copies and measurement',
  'A polygonal curve in a space of any dimension, with open and closed components, colors and constraints, that is written to a file and read back, or copied, or reduced to one of its components, is the same curve, after any sequence of setting and removing constraints each vertex has exactly the constraint last put on it, and a damaged or truncated file gives a usable curve or a documented error, never a crash. Its counts of edges and vertices, its lengths, arc lengths (the shorter way on closed components) and its reversal follow from its vertices, and the vector operations compute what they are named after, in every dimension, without changing their operands.',
  ['inputs', 'histories'], 'all dimensions up to a hundred, all numbers of components, vertices, colors and constraints; all sequences of constraint operations; all damaged files of moderate declared size',
  'No test touches the n-dimensional curves.',
  ['src/nplCurve.c', 'src/nplCurve.h', 'src/nvector.c'], [('nplc_write, nplc_read', 'src/nplCurve.c'), ('nplc_copy, nplc_component, nplc_reverse, nplc_arclength, nplc_subarc_length', 'src/nplCurve.c'), ('n-dimensional vector operations', 'src/nvector.c')],
  'property-based testing: round trip, grammar-based file mutation, comparison with definitions in extended precision', NOTE)
prop('C31', 'judy', 'The associative arrays under the diagram store behave as sets and maps',
  'After every sequence of insertions, deletions, lookups and clearings of word-sized or string keys, in any distribution, the set and map arrays contain exactly the keys inserted and not since deleted, each with its value, and first, last, next, previous, next and previous absent, counting in a range and access by rank agree with the sorted list of those keys. An array loaded from a sorted list of any length equals the one built key by key, memory is accounted for and comes back to nothing when the array is freed, and no operation touches memory outside it.',
  ['inputs', 'histories'], 'all sequences of operations, all key distributions: dense, sparse, clustered at both ends of the range; all lengths of bulk loads',
  'No test exercises the arrays except through a few stores of diagrams.',
  ['judy/src/JudyCommon', 'judy/src/JudySL', 'judy/src/JudyHS', 'judy/src/Judy.h'], [('Judy1, JudyL: insert, delete, get, first/next, empty, count, by count', 'judy/src/JudyCommon'), ('bulk load', 'judy/src/JudyCommon/JudyInsArray.c'), ('string keys', 'judy/src/JudySL/JudySL.c'), ('byte-string keys', 'judy/src/JudyHS/JudyHS.c')],
  'stateful property-based testing against an ordered-map reference model, with address sanitizer', NOTE)
prop('C32', 'planarity', 'Planarity answers come with an embedding or an obstruction that proves them',
  'For every simple graph with at most three edges per vertex the planarity and outerplanarity tests either return the same graph with adjacency lists in the rotation order of an embedding in the plane (with all vertices of each component on one face, for outerplanarity), or a subgraph of it that is a subdivision of K5 or K3,3 (of K4 or K2,3); the searches for subdivisions of K2,3, K4 and K3,3 succeed exactly when there is one and return it. A planar drawing places vertices as disjoint horizontal and edges as disjoint vertical segments which meet exactly at the ends of each edge, in the record and in its rendition. Files, copies, hiding and restoring edges, deleting and adding edges, and reuse of a graph preserve the graph, and random graphs are connected, simple, have the requested number of edges and are planar when that number allows it.',
  ['inputs', 'histories'], 'all graphs: connected or not, with cut vertices and 2-cuts, subdivided obstructions, dense and sparse, in any vertex and edge order, before and after edits',
  'No test calls the planarity library.',
  ['planarity/c/graphEmbed.c', 'planarity/c/graphUtils.c', 'planarity/c/graphIO.c', 'planarity/c/graphDrawPlanar.c', 'planarity/c/graphK23Search.c', 'planarity/c/graphK33Search.c', 'planarity/c/graphK4Search.c', 'planarity/c/graphIsolator.c', 'planarity/c/graphOuterplanarObstruction.c'], [('gp_Embed', 'planarity/c/graphEmbed.c'), ('gp_Read, gp_Write', 'planarity/c/graphIO.c'), ('gp_DrawPlanar_RenderToFile', 'planarity/c/graphDrawPlanar.c'), ('homeomorph searches', 'planarity/c/graphK4Search.c')],
  'property-based testing: answers certified by Euler characteristic or by the obstruction returned, searches against independent algorithms', NOTE)
prop('C33', 'planarmap', 'Random planar maps have the requested type and size and are all equally likely',
  'Every map generated is a connected map of the sphere with consistent vertex, edge and face records and numbering, of the requested type (cubic or four-valent, bipartite, with two legs, with the requested edge connectivity), with exactly the requested number of vertices, edges, faces or faces of each color for the basic types and within the tolerance for the extracted ones, and with a number of closed curves in the requested range. Each rooted map of the type and size occurs with the same probability, and the same seed gives the same maps. Printed vertex lists, edge lists and matrices, of the map, its dual and the general map it encodes, describe that map.',
  ['inputs'], 'all types, sizes, size options, curve-count ranges and seeds',
  'No test runs the map generator.',
  ['planarmap/PMplanmap.c', 'planarmap/PMconjugation.c', 'planarmap/PMextract.c', 'planarmap/PMenlight.c', 'planarmap/PMdisplay.c', 'planarmap/interface.c', 'planarmap/stats.c'], [('pmPlanMap', 'planarmap/PMplanmap.c'), ('pmSetParameters, pmParseArgs', 'planarmap/PMplanmap.c'), ('pmPrint', 'planarmap/PMdisplay.c'), ('pmStatGauss, pmStatGeodesicDistance', 'planarmap/stats.c')],
  'property-based testing: Euler characteristic, degrees and dual cycles as oracles; chi-square against the known numbers of rooted maps', NOTE)
prop('C34', 'cli', 'The curve programs report and write what the library computes',
  'Run on any readable curve files with any combination of their options, the programs for curvature, ropelength, struts and minimum-radius locations exit normally, print exactly the values, counts and summaries (the excess length of clasps included) that hold for those curves, and write exactly the files documented, leaving the input unchanged. The random polygon program writes the requested number of polygons in the requested format, with the requested number of edges and of the requested kind, confinement radius and knot type. The same seed gives the same polygons.',
  ['inputs'], 'all curves, option combinations, file names, sizes and seeds',
  'No test runs the installed programs, and each has its own option handling and output code.',
  ['src/plcurvature.c', 'src/ropelength.c', 'src/struts.c', 'src/mrlocs.c', 'src/plcrwalk.c'], [('main', 'src/plcurvature.c'), ('main', 'src/ropelength.c'), ('main', 'src/struts.c'), ('main', 'src/mrlocs.c'), ('main', 'src/plcrwalk.c')],
  'property-based testing: generated curves and command lines, output parsed and compared with definitions and with the library', NOTE)
prop('C35', 'cli', 'The diagram programs filter, join, split, sum and tabulate stores faithfully',
  'Filtering a store of diagrams keeps exactly the diagrams with the requested number of components, joining stores keeps all diagrams or exactly one of each class of the chosen relation, and splitting a store distributes its diagrams over consecutively numbered pieces of the requested size or number. The connected sum program produces exactly one diagram of each class of shadows of connected sums, and the table program prints one numbered row per diagram with the requested quantities; the counts these programs report are those of the diagrams read and written. C code written for a diagram, when compiled and run, recreates the diagram.',
  ['inputs'], 'all stores of diagrams, file names and option combinations',
  'No test runs these programs, nor compiles the code that is written.',
  ['src/filterpd.c', 'src/joinpd.c', 'src/splitpd.c', 'src/computepd.c', 'src/connectsum.c', 'src/carbonizepd.c', 'src/pdcode.c'], [('main', 'src/filterpd.c'), ('main', 'src/joinpd.c'), ('main', 'src/splitpd.c'), ('main', 'src/computepd.c'), ('main', 'src/connectsum.c'), ('main', 'src/carbonizepd.c'), ('pd_write_c', 'src/pdcode.c')],
  'property-based testing: generated stores and command lines, results compared with a combinatorial-map model', NOTE)
prop('C36', 'homfly', 'The built-in families of diagrams are the knots and links they are named after',
  'For every size, the built-in diagrams of (2,q) torus knots and links, twist knots, chains, unknots and three-armed unknots are valid, fully signed diagrams with the crossing and component counts their parameters prescribe. The torus diagram is the positive alternating one, the twist diagram alternates and is the twist knot with that many half twists, the chain links neighbours once and nothing else, and the unknots are unknotted. Building the same member twice gives the same diagram.',
  ['inputs'], 'all parameters of all families, up to 150 crossings; knot types to 24 crossings',
  'Tests compare counts and automorphisms of a few members; none looks at the knot type.',
  ['src/pdcode_testcodes.c', 'src/plcTopology.h'], [('pd_build_torus_knot, pd_build_twist_knot, pd_build_simple_chain', 'src/pdcode_testcodes.c'), ('pd_build_unknot, pd_build_unknot_wye', 'src/pdcode_testcodes.c')],
  'property-based testing: generated parameters, HOMFLY polynomials from skein recurrences, linking graph, face counts', NOTE)
prop('C37', 'moves', 'Splitting a disconnected diagram returns exactly its pieces',
  'A code holding several separate diagrams and crossing-free circles, numbered and tagged in any way, is split into exactly its connected pieces: one valid code per piece, each once, with the crossings, signs, strand orientations and component tags it had. The code that was split is left as it was.',
  ['inputs'], 'all disjoint unions of connected diagrams and circles under all numberings of crossings, edges and components',
  'Tests split a few fixed codes.',
  ['src/pd_splitdiagram.c'], [('pd_split_diagram', 'src/pd_splitdiagram.c')],
  'property-based testing: unions of generated diagrams, pieces compared by canonical form', NOTE)
prop('C38', '*', 'Everything an operation allocates is handed over or given back',
  'Whatever an operation of the three-dimensional curve, diagram, sampling, planarity, map-generation and integer-array parts allocates is either part of the result the caller receives and releases with the matching release function, or is released before the operation returns. This holds when an operation succeeds and when it reports failure or refuses its input, so repeating any operation on the same input any number of times does not make the memory in use grow.',
  ['inputs', 'histories'], 'all inputs and operation sequences the other checks generate, each repeated',
  'Tests do not look at memory; leaks sit on rarely taken error and special-case paths and only show over millions of calls.',
  ['src', 'judy/src', 'planarity/c', 'planarmap'], [('pd_code_free', 'src/pdcode.c'), ('plc_free', 'src/plCurve.c'), ('pd_tangle_free', 'src/pd_tangles.c'), ('homfly_polynomial_free', 'src/polynomials.c')],
  'property-based testing: every generated case of the other checks repeated, allocated bytes compared between repetitions', NOTE)
prop('C39', 'report', 'Formatted reports show exactly what diagrams and records hold',
  'A report format may mix any text with any of the documented conversions in any order: text and unrecognised conversions pass through unchanged, and each conversion consumes its own arguments and shows the numbers, orientations, signs and tags held by the face, edge, crossing, component, diagram, map, permutation, group element, index or tangle it is given, unset entries included. Neither the format nor the diagram is changed.',
  ['inputs'], 'all formats, diagrams and records, from one to thousands of entries',
  'Tests print reports but never read them back.',
  ['src/pdcode.c', 'src/pd_isomorphisms.c', 'src/pd_perm.c', 'src/plcTopology.h'], [('pd_printf, pd_vfprintf', 'src/pdcode.c'), ('pd_print_iso, pd_print_edgemap', 'src/pd_isomorphisms.c'), ('pd_print_perm', 'src/pd_perm.c')],
  'property-based testing: generated formats and records, output parsed and compared with the records', NOTE)
