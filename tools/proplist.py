T='plcTopology.h'
p('P01','Regenerating a diagram rebuilds consistent, canonical derived data',
 'Given the crossing records of any planar link diagram (with or without edge records), regenerating the derived data yields a diagram that passes every consistency rule: edges, components and faces agree with the crossings, edges are numbered consecutively along oriented components, faces and crossings are in canonical order, and components get distinct tags. The result is the same diagram as the input: same underlying planar map, same crossing signs on the same strands, and orientations kept where the input fixed them. Whatever the numbering of crossings and edges in the input, the number of components and faces is that of the diagram.',
 'every planar diagram, crossing-sign assignment, numbering of its crossings and edges, and component orientation','The tests regenerate a fixed set of stored diagrams; the guarantee is over every diagram and every relabelling of it.',
 ['src/pdcode.c'],[('pd_regenerate','src/pdcode.c'),('pd_regenerate_crossings','src/pdcode.c'),('pd_regenerate_edges','src/pdcode.c'),('pd_regenerate_comps','src/pdcode.c'),('pd_regenerate_faces','src/pdcode.c')],['pd_regenerate and the fields of the resulting pd_code_t','pd_ok'])
p('P02','The diagram checker accepts every valid diagram and rejects corrupted ones',
 'The consistency check accepts every valid diagram and rejects every diagram one or two of whose records (a crossing slot or sign, an end of an edge, an entry or tag of a component, an entry or orientation of a face, the order of crossings or faces) were changed so that the records no longer describe one planar diagram. It never reads outside the diagram, whatever values the records hold.',
 'every corruption of up to two records of a diagram, including out-of-range values','Tests corrupt no records, or a few by hand; the check must catch every contradictory record.',
 ['src/pdcode.c'],[('pd_ok','src/pdcode.c'),('pd_cross_ok','src/pdcode.c'),('pd_edges_ok','src/pdcode.c'),('pd_faces_ok','src/pdcode.c'),('pd_comps_ok','src/pdcode.c')],['return value of pd_ok'])
p('P03','Writing a diagram as text and reading it back gives the same diagram',
 'A diagram written in the native text format and read back is the same diagram: crossings, signs, edges, components with their tags, faces, and the header identifiers. Several diagrams written one after another are read back one by one in order, and a header without hash or identifier is accepted. A fully signed diagram whose components all have at least three edges, written in the Mathematica format and read back, is the same signed oriented diagram.',
 'every diagram, sign assignment (including unset signs), component tag assignment and orientation','Tests round-trip a fixed list of diagrams with default tags and regular signs.',
 ['src/pdcode.c'],[('pd_write','src/pdcode.c'),('pd_read_err','src/pdcode.c'),('pd_write_KnotTheory','src/pdcode.c'),('pd_read_KnotTheory','src/pdcode.c')],['pd_read(pd_write(x))','pd_read_KnotTheory(pd_write_KnotTheory(x))'])
p('P04','Reading malformed diagram text fails cleanly',
 'Whatever bytes the text of a diagram holds, reading it touches no memory outside the diagram, does not hang or abort, and either reports failure or returns a diagram whose records are mutually consistent. A failed read always says that it failed.',
 'every one-byte change, number change, truncation, deleted or duplicated line, and section or record whose announced count differs, of the text of a diagram; every change of one edge number in Mathematica text','Tests read only well-formed files.',
 ['src/pdcode.c'],[('pd_read_err','src/pdcode.c'),('pd_read','src/pdcode.c'),('pd_read_KnotTheory','src/pdcode.c')],['pd_read_err return value and error code'])
p('P05','The packed binary form of a diagram unpacks to the same diagram',
 'Packing a diagram with at least one crossing (all signs set, or all unset) into its compact binary form and unpacking it gives the same diagram with the same orientations and signs (unset stays unset). The packed length and the first word are exactly the documented function of the number of crossings and of whether signs are stored. Edge indices and bit strings of any length survive the bit-level encoding.',
 'every diagram, sign assignment, orientation and numbering, every edge index and bit string','Tests pack a few diagrams, none near the word and index-width boundaries.',
 ['src/pd_pack.c'],[('pd_pack','src/pd_pack.c'),('pd_unpack','src/pd_pack.c'),('pd_packbitstring','src/pd_pack.c'),('pd_idx_bitencode','src/pd_pack.c')],['pd_unpack(pd_pack(x))','packed length and header word'])
p('P09','Copying a diagram gives an equal, independent diagram',
 'A copy of a diagram (with the same or another capacity) equals the original in every record, tag and identifier, has at least the capacity asked for, and shares no memory with it: changing or freeing one leaves the other intact. Freeing clears the pointer and may be repeated.',
 'every diagram, sign and tag assignment, identifier and capacity','Tests copy a few diagrams and compare them; aliasing shows only when one is changed or freed later.',
 ['src/pdcode.c'],[('pd_copy','src/pdcode.c'),('pd_copy_newsize','src/pdcode.c'),('pd_code_free','src/pdcode.c')],['pd_copy, pd_copy_newsize, pd_code_free'])
p('P10','Reversing or renumbering a component changes exactly that component',
 'Reversing a component gives a consistent diagram in which exactly that component runs backwards and every crossing keeps which strand is over: signs flip exactly at crossings between that component and another one, and reversing twice restores the diagram. Renumbering a component by an offset gives the same diagram with that component\'s edge numbers shifted cyclically and everything else unchanged.',
 'every diagram, sign assignment, component and offset','Tests reverse components of a few stored diagrams.',
 ['src/pdcode.c'],[('pd_reorient_component','src/pdcode.c'),('pd_renumber_component','src/pdcode.c')],['resulting diagram'])
p('P11','Queries about strands, edges, faces and alternation answer from the diagram',
 'For every crossing, the reported over and under strands (as positions and as edges) are those determined by the crossing sign and the orientations. For every edge, the next and previous edge, its component and position, and the two faces on its sides with positions and orientations are the right ones, and an edge is reported to lie on a face exactly when it does. A diagram is reported alternating exactly when every edge goes from over to under or from under to over.',
 'every diagram, sign assignment and orientation, every crossing and edge','Tests query a few diagrams.',
 ['src/pdcode.c'],[('pd_overstrand_pos','src/pdcode.c'),('pd_component_and_pos','src/pdcode.c'),('pd_face_and_pos','src/pdcode.c'),('pd_is_alternating','src/pdcode.c')],['return values of the query functions'])
p('P15','Linking numbers and interlacement counts match their definitions',
 'The linking number of two components is half the sum of the signs of the crossings between them, and the unsigned one half their number, for all signs and orientations. The (signed) number of interlaced crossing pairs of each component is the count over pairs of self-crossings met in alternating order along it. Computing them leaves the diagram unchanged.',
 'every diagram, sign assignment and orientation, every pair of components','Tests know the values for a few links only.',
 ['src/pd_invariants.c'],[('pd_linking_number','src/pd_invariants.c'),('pd_unsigned_linking_number','src/pd_invariants.c'),('pd_interlaced_crossings','src/pd_invariants.c')],['return values'])
p('P06','The diagram hash does not depend on numbering, orientation, signs or tags',
 'Two diagrams with the same shadow up to reflection have the same hash, whatever the numbering of their records, their orientations, crossing signs, component tags and capacities. The hash is always a non-empty printable string that fits its field.',
 'every diagram, renumbering, reflection, reorientation, sign and tag assignment','Tests compare hashes of a few renumberings; a hash that depends on numbering loses matches silently.',
 ['src/pdcode.c'],[('pd_regenerate_hash','src/pdcode.c')],['hash field after regenerating'])
p('P07','Isomorphism and isotopy tests decide exactly the documented equivalences',
 'Two diagrams are reported isomorphic exactly when some bijection of the sphere, possibly reversing it, carries one shadow to the other, and map-isomorphic exactly when one that keeps the orientation of the sphere does; signs and tags are ignored. They are reported diagram-isotopic exactly when such a bijection (reversal allowed) also carries signs, tags and orientations to each other; diagrams with different tags are simply not isotopic. For diagrams without two-edge components the list of isomorphisms contains each one exactly once, and composing one with itself gives the identity first at its reported period.',
 'every pair of diagrams, sign and tag assignment, orientation and numbering','Tests compare a diagram with a few renumberings of itself; nearly all wrong answers concern pairs, signs and orientations that they do not sample.',
 ['src/pd_isomorphisms.c'],[('pd_isomorphic','src/pd_isomorphisms.c'),('pd_map_isomorphic','src/pd_isomorphisms.c'),('pd_diagram_isotopic','src/pd_isomorphisms.c'),('pd_build_isos','src/pd_isomorphisms.c')],['return values; list of isomorphisms'])
p('P08','A diagram store holds each diagram once up to the chosen equivalence',
 'After any sequence of additions to a store, it holds exactly one diagram per class of the chosen equivalence (or every added one, when none is chosen): the reported count, the iteration and the search by isomorphism agree with that set, each stored diagram is the first of its class that was added, and an added duplicate is given the identifier of the stored one. A store written to a file and loaded holds the same diagrams, and a file whose header contradicts itself or announces more than is there is refused.',
 'every sequence of up to three additions, equivalence, sign and numbering','Tests add fixed lists of diagrams, with one equivalence.',
 ['src/pd_storage.c'],[('pd_addto_pdstor','src/pd_storage.c'),('pd_stor_nextelt','src/pd_storage.c'),('pd_search_pdstor_by_isomorphism','src/pd_storage.c'),('pd_read_pdstor','src/pd_storage.c')],['pd_stor_nelts, iteration, pd_write_pdstor/pd_read_pdstor'])
p('P12','Adding, deleting and simplifying loops changes exactly those loops',
 'Deleting a loop at a crossing gives a consistent diagram that differs from the original by exactly that crossing: all other crossings keep signs, orientations and component tags, and the last loop leaves a tagged 0-crossing unknot. Adding a loop puts one unsigned crossing on the chosen edge with the loop inside the chosen face, and deleting it again restores the diagram. Simplifying removes loops until none is left and changes nothing else; the input is never modified.',
 'every diagram, sign assignment, orientation, loop, face and edge on the face','Tests apply the moves to a few stored diagrams.',
 ['src/pd_crossingmoves.c','src/pd_simplify.c'],[('pd_R1_loopdeletion','src/pd_crossingmoves.c'),('pd_R1_loop_addition','src/pd_crossingmoves.c'),('pd_simplify','src/pd_simplify.c')],['returned diagram'])
p('P13','Removing or adding a bigon changes exactly its two crossings',
 'Removing a bigon whose strand is over at both crossings (or unsigned) gives consistent diagrams that together are the original without those two crossings, split into connected pieces, with signs, orientations and tags kept; with two pieces the first holds the strand on top, and pieces may be 0-crossing unknots. Adding a bigon pushes one edge of a face across another inside that face, adding two unsigned crossings, and removing it again restores the diagram. The input is never modified.',
 'every diagram, sign assignment, orientation, bigon, face and pair of edges on it','Tests apply the moves to a few stored diagrams.',
 ['src/pd_crossingmoves.c'],[('pd_R2_bigon_elimination','src/pd_crossingmoves.c'),('pd_R2_bigon_addition','src/pd_crossingmoves.c')],['returned diagrams and their number'])
p('P14','Triangle flips and connected sums are the exact surgery',
 'Flipping a triangular face with three different corners gives a consistent diagram in which each of the three strands meets its two crossings in the opposite order and everything else is kept, flipping back restores the diagram, and a face that is not triangular is refused. The connected sum of two diagrams at two edges is a consistent diagram with both sets of crossings and signs in which exactly those edges are joined respecting orientation (orientation is fixed only if some crossing is signed), and summing with the 0-crossing unknot gives the other diagram. Inputs are never modified.',
 'every diagram or pair of diagrams, sign assignment, orientation, face, pair of edges','Tests flip and sum a few stored diagrams.',
 ['src/pd_crossingmoves.c'],[('pd_R3_triangle_flip','src/pd_crossingmoves.c'),('pd_connect_sum','src/pd_crossingmoves.c')],['returned diagram'])
p('P16','Splitting a disconnected diagram yields exactly its connected pieces',
 'Splitting a possibly disconnected collection of crossings, edges and components, in any order and numbering, yields one consistent diagram per connected piece. Each piece keeps its planar map, crossing signs, orientations and component tags, circles without crossings become 0-crossing unknots with their tag, and nothing is lost or duplicated.',
 'every collection of pieces, interleaving and numbering of their records, sign and tag assignment','Tests split a few stored collections.',
 ['src/pd_splitdiagram.c'],[('pd_split_diagram','src/pd_splitdiagram.c')],['number of children and each child'])
p('P20','Permutation, dihedral, cyclic and tuple iterators enumerate each element once',
 'Starting from its first value and incrementing, each iterator (permutations in lexicographic order from the identity, dihedral, cyclic and orientation groups, and tuples of them) passes through legal values without repetition and returns to the start after exactly the announced number of steps. Products, in-place products, inverses, periods, identity and equality of permutations are the mathematical ones, comparison is a total order that is zero exactly for equal values, copies are equal and independent, and uniqueness checks of lists are exact. The validity checks accept exactly the elements of the group and never read out of bounds.',
 'every group size, element, pair of elements and content of the records','Tests step through some groups; errors at one element or in one product show only in a missed isomorphism.',
 ['src/pd_perm.c','src/pd_dihedral.c','src/pd_cyclic.c','src/pd_orientation.c','src/pd_multidx.c'],[('pd_increment_perm','src/pd_perm.c'),('pd_increment_dihedral','src/pd_dihedral.c'),('pd_increment_multidx','src/pd_multidx.c'),('pd_perm_ok','src/pd_perm.c')],['values, counts and return codes of the iterator functions'])
p('P21','Containers and sorted index buffers hold exactly what was put in',
 'After any sequence of additions and removals, a container holds exactly the added elements that were not removed, in order of addition, whatever its initial capacity; removal returns the last one, and freeing it frees each remaining element exactly once. A sorted index buffer is strictly increasing after any insertions, contains exactly the inserted numbers once each, and membership queries are exact.',
 'every sequence of operations around the growth points of the container, all 32-bit numbers','Tests run a fixed sequence.',
 ['src/pd_container.c','src/pd_sortedbuf.c'],[('pd_addto_container','src/pd_container.c'),('pd_pop_container','src/pd_container.c'),('pd_sortedbuf_insert','src/pd_sortedbuf.c')],['elements, counts and return codes'])
p('P22','A curve keeps its components through copying, adding, dropping and recolouring',
 'A new curve has the requested components, and after the wrap-around is fixed the vertex before the first and past the last is the cyclic neighbour (closed) or the reflected neighbour (open); components of fewer than three vertices are open. Copying (also after the original is freed), adding a component at any place, dropping one, resizing colours and setting a colour change exactly what they say: every other component keeps its vertices, closure, colours and constraints. Vertex numbers and (component, vertex) pairs convert into each other, with wrap-around on closed and repetition on open components.',
 'every curve shape, coordinate and colour, every sequence of operations','Tests build a few curves.',
 ['src/plCurve.c'],[('plc_new','src/plCurve.c'),('plc_copy','src/plCurve.c'),('plc_add_component','src/plCurve.c'),('plc_drop_component','src/plCurve.c'),('plc_fix_wrap','src/plCurve.c'),('plc_vertex_num','src/plCurve.c')],['fields of the curve'])
p('P23','Vertex constraints are exactly those set last, and are enforced exactly',
 'After any sequence of setting (fixed point, line, plane) and removing constraints on runs of vertices, each vertex has exactly the constraint set for it last, with its kind and data, and no other vertex is affected; removing by kind and data frees exactly the matching vertices and returns their number. The reported error is the largest distance of a constrained vertex to its point, line or plane. Enforcing moves each constrained vertex to the nearest allowed point and no other vertex.',
 'every sequence of operations on runs of vertices of several components, arbitrary coordinates','Tests use a fixed sequence; splitting and joining of runs goes wrong only for particular overlaps.',
 ['src/plCurve.c'],[('plc_set_constraint','src/plCurve.c'),('overrun_check','src/plCurve.c'),('plc_remove_constraint','src/plCurve.c'),('plc_check_cst','src/plCurve.c'),('plc_fix_cst','src/plCurve.c')],['plc_is_constrained, constraint list, vertices, return values'])
p('P24','A curve written to a file and read back is the same curve',
 'Writing any curve and reading the file back gives a curve with the same components in the same order, each open or closed as before, with the same vertices, colours and constraints (kind, data and vertices), all numbers to at least 14 digits, whatever the number of constraints and the size of the numbers. Reading a valid file gives exactly its contents wherever white space and comments are placed between the numbers.',
 'every curve shape, coordinate, colour and constrained run','Tests round-trip a few files; losses concern long numbers and many constraints.',
 ['src/plCurve.c'],[('plc_write','src/plCurve.c'),('plc_read','src/plCurve.c')],['curve returned by plc_read'])
p('P25','Reading a damaged curve file never crashes and never yields a broken curve',
 'For any contents of the file, reading either returns nothing together with an error number and a message, or returns a curve whose components have vertices, whose colours are in range and whose constraints are of a known kind and refer to existing vertices. It never aborts, reads or writes out of bounds, or uses freed memory.',
 'every single-byte change, insertion and truncation of a file with all features, extreme counts and references','Tests read intact files.',
 ['src/plCurve.c'],[('plc_read','src/plCurve.c'),('get_comment','src/plCurve.c')],['return value, error number, memory safety'])
p('P26','Vector and matrix routines compute the mathematical operations',
 'Sums, differences, products, scalings, componentwise operations, norms, distances, normalisation, angles, unit normals, dihedral angles, circle and plane constructions, rotation and reflection matrices, matrix products and linear solves return the mathematical value for every input for which it exists. When it does not exist (zero vectors, collinear or parallel input, division by zero, singular matrices) the success flag is cleared, or without a flag the program ends with a message; the flag is set whenever the value is returned. The arguments are not modified.',
 'every real vector, scalar and angle, degenerate inputs','Tests use a few vectors; sign and degenerate-case errors need particular ones.',
 ['src/vector.c','src/matrix.c','src/symmetries.c'],[('plc_cross_prod','src/vector.c'),('plc_angle','src/vector.c'),('plc_normalize_vect','src/vector.c'),('plc_rotation_matrix','src/symmetries.c'),('lu_decmp','src/matrix.c'),('solve_linear','src/matrix.c')],['return values and success flag'])
p('P27','Measurements of a curve are those of its edges and vertices',
 'Edge and vertex counts, vertex lookup, length in total and by component, arc length at a vertex, subarc length, edge length statistics, centre of mass, diameter, gyration radius, mean squared chord lengths, turning angles, total curvature and torsion, tangents and radius of curvature at a vertex, and the list of dihedral angles equal their definitions over exactly the edges the curve has: closed components have a closing edge and open ones do not. Where a measure does not exist at a vertex the success flag is cleared. Measuring changes nothing and stays within the curve.',
 'every curve of one or two open or closed components with arbitrary coordinates','Tests measure a few regular shapes; errors at ends and at wrap-around need particular shapes.',
 ['src/plCurve.c'],[('plc_arclength','src/plCurve.c'),('plc_subarc_length','src/plCurve.c'),('plc_edgelength_stats','src/plCurve.c'),('plc_turning_angle','src/plCurve.c'),('plc_MR_curvature','src/plCurve.c')],['return values'])
p('P28','Motions move every vertex and constraint of the curve as they say',
 'Translating, scaling and rotating a curve (about any axis, of any length) moves every vertex of every component by exactly that motion, together with the data of the constraints, and keeps closure and wrap-around vertices. Turning an axis to the vertical is a rotation taking it there, projecting is the orthogonal projection along the given normal, and folding turns exactly the vertices strictly between the two given ones about the line through these. A perturbation moves no vertex by more than its radius and no constrained vertex.',
 'every vertex position, translation, factor and angle, several axes, both kinds of components','Tests move a few curves about coordinate axes.',
 ['src/plCurve.c'],[('plc_translate','src/plCurve.c'),('plc_scale','src/plCurve.c'),('plc_rotate','src/plCurve.c'),('plc_random_rotate','src/plCurve.c'),('plc_project','src/plCurve.c'),('plc_pfm','src/plCurve.c'),('plc_perturb','src/plCurve.c')],['vertices and constraints of the curve'])
p('P29','Nearest-point queries return a nearest point',
 'A query for the nearest point of a buffer, or the nearest vertex of a curve, returns the index (component and vertex) and position of a point at least as close as every other one, for small and large buffers, with or without precomputed data kept from an earlier query. Precomputed data belonging to another buffer or curve is reported as stale, the answer is still right, and the data is renewed. Nothing else is modified.',
 'every query point and buffer of up to four points, large buffers along each direction, every way of passing precomputed data','Tests query random points, where a wrong cut-off of the search costs nothing.',
 ['src/nearest_neighbor.c','src/plCurve.c'],[('plc_nearest_neighbor','src/nearest_neighbor.c'),('plc_nearest_vertex','src/nearest_neighbor.c')],['returned index and vertex, error number'])
p('P30','Whitten operations mirror, reverse and permute components with their constraints',
 'Applying an element of the Whitten group (mirror sign, reversal sign per component, permutation in cycle form) puts the right component in each place, reverses exactly those marked, and mirrors all or none in the horizontal plane. Colours, closure, wrap-around vertices and constraints move with their vertices, and the result is a working curve on which further operations and constraint changes behave normally.',
 'every mirror and reversal, every permutation of up to three components, arbitrary coordinates, colours and constraints','Tests apply a few operations to curves without constraints.',
 ['src/plwhitten.c'],[('plc_whitten','src/plwhitten.c')],['vertices, colours and constraints of the curve'])
p('P31','Symmetry groups act as groups, and symmetrizing gives a symmetric curve',
 'For a curve close to symmetric, the rotation, reflection and coordinate-plane groups contain each matrix of the group once, each with the vertex correspondence of the symmetry, and name the right inverse of each element; a curve without the symmetry has no group. Symmetrizing a curve or a variation gives its average over the group, which the checks then report as symmetric up to rounding. Composition applies the first symmetry first, and copies are equal and independent.',
 'every curve near symmetric ones of orders 1 to 6, arbitrary variations and matrices','Tests symmetrize a few regular polygons about coordinate axes.',
 ['src/symmetries.c'],[('plc_rotation_group','src/symmetries.c'),('plc_reflection_group','src/symmetries.c'),('plc_coordplanes_reflection_group','src/symmetries.c'),('plc_symmetrize','src/symmetries.c'),('plc_compose_symmetries','src/symmetries.c')],['group elements, vertices, variations, reported errors'])
p('P32','Deleting an arc and doubling the vertices change exactly that',
 'Deleting the vertices from one to another (through the start on a closed component) leaves the remaining arcs in order as open components, drops a component of which nothing is left, and keeps all other components with their colours; the original is unchanged. Doubling replaces each vertex by a point on the edge before it and one on the edge after it, equally far from it, keeps the ends of open components, closure and the colours of the vertices.',
 'every arc, component shape, colour scheme and coordinate','Tests delete a few arcs of uncoloured curves.',
 ['src/plCurve.c'],[('plc_delete_arc','src/plCurve.c'),('plc_double_verts','src/plCurve.c')],['returned curve'])
p('P33','Thickness, struts and minimum radius of a link are found exactly',
 'The shortest strut, the list of struts within a length limit or tolerance, the minimum radius with its list of places, the length, the thickness (the smaller of half the shortest strut and the minimum radius over the stiffness) and the ropelength equal their definitions over all pairs of edges and all vertices; no strut is missed because of the search structure, and each one listed is a local minimum of distance between its two edges, with its right edges, positions and length. Lists are cut at the given size with the count reported, caller-supplied memory gives the same result, and the curve is not modified.',
 'every position of one component relative to the other along a direction, self-struts of one component, arbitrary stiffness and limits','Tests compare a few links with known thickness; missed struts need particular positions.',
 ['src/octrope.c','src/minrad.c'],[('octrope','src/octrope.c'),('octrope_struts','src/octrope.c'),('octrope_minradval','src/octrope.c'),('octrope_minrad','src/minrad.c')],['return values and lists'])
p('P34','A strut file read back is the same list, and a damaged one is refused',
 'Writing a list of struts and minimum-radius records and reading it back with the same link gives the same records in the same order (places, positions, lengths, radii and compressions to at least 14 digits), wherever white space and comments lie between the numbers. For any contents of the file, reading either reports an error number and message or yields records that refer to existing components and vertices; it never reads or writes out of bounds. The ends of a strut are the points at its positions along its two edges.',
 'every list of up to two records of each kind, every single-byte change, insertion and truncation, extreme counts and references','Tests never read a strut file.',
 ['src/octrope.c'],[('octrope_strutfile_read','src/octrope.c'),('octrope_strutfile_write','src/octrope.c'),('octrope_strut_ends','src/octrope.c')],['records read, error number'])
p('P35','A spline passes smoothly through its curve and resamples it evenly',
 'The spline of a curve passes through every vertex at the length travelled so far, is one cubic per edge with continuous tangent (also across the seam of closed components) and continuous second derivative at inner vertices, leaves and reaches the ends of open components along their edges, and its tangent is the derivative of its position; parameters outside wrap around on closed components and stop at the ends of open ones. Resampling gives components of the requested numbers of vertices spaced evenly in the parameter, with colors interpolated and every constraint kept on existing vertices of its component, the first, the last and all vertices staying so. The source curve and spline are unchanged.',
 'every position of a vertex along a line, every parameter value, every run of constrained vertices','The test samples one spline at one parameter.',
 ['src/splines.c'],[('plc_convert_to_spline','src/splines.c'),('plc_convert_from_spline','src/splines.c'),('plc_sample_spline','src/splines.c'),('plc_spline_tangent','src/splines.c')],['sampled positions, tangents, resampled curve'])
p('P36','Random polygons have the promised lengths, edges and closure',
 'Whatever the random generator returns, random closed and open polygons in space and in the plane have the requested number of edges and total length 2 (planar ones lie in a plane), equilateral closed polygons have unit edges, equilateral open ones equal edges of total length 2, and self-avoiding ones have unit edges and vertices at least one apart. A closure of an open component keeps its vertices and the other components, has the requested number of edges and brings the total length to 2, and is refused (nothing returned) exactly when that is impossible. The self-avoidance test accepts exactly the curves whose vertices are all at least one apart.',
 'every value the generator may return at each of its calls, every length of the open curve','Tests draw a few seeds.',
 ['src/plcRandomPolygon.c','src/plcRandomSap.c'],[('plc_random_closed_polygon','src/plcRandomPolygon.c'),('plc_random_equilateral_closed_polygon','src/plcRandomPolygon.c'),('plc_loop_closure','src/plcRandomPolygon.c'),('plc_random_equilateral_closed_self_avoiding_polygon','src/plcRandomSap.c'),('plc_is_sap','src/plcRandomSap.c')],['vertices of the polygons'])
p('P37','The diagram of a space curve shows its crossings and has its knot type',
 'The diagram made from a closed polygonal knot or non-split link whose projection along the z-axis is generic has exactly the crossings of that projection, in order along each component, with their signs; a knot without crossings gives the one-crossing unknot. If the projection is not generic (triple points, vertical edges, vertices or edges above each other) the diagram made is still a consistent diagram of a link with the same polynomial, and the polynomial and knot type found for a curve are those of its diagram. A curve of thickness zero gives no diagram, and the curve handed in is unchanged.',
 'every position of a vertex or component along a line, through all changes of the diagram on it','Tests take fixed and random polygons without comparing the diagram with a projection.',
 ['src/plcTopology.c'],[('pd_code_from_plCurve','src/plcTopology.c'),('plc_homfly','src/plcTopology.c'),('plc_classify','src/plcTopology.c')],['diagram, polynomial and knot type of a curve'])
p('P38','The HOMFLY polynomial of a diagram obeys the skein relation',
 'The polynomial computed for a diagram is the HOMFLY polynomial of the oriented link: it satisfies the skein relation at every crossing and is 1 on the unknot, so it is the same for every diagram, labelling and starting point of the same link. Diagrams without crossings have the polynomial of the unknot, and computing the polynomial leaves the diagram unchanged.',
 'every 1..3-crossing diagram with every choice of signs and orientations, braid closures of up to 8 crossings with every choice of signs','Tests compare a handful of table entries.',
 ['src/plcTopology.c','src/pllmpoly02.c'],[('pd_homfly','src/plcTopology.c'),('pdcode_to_ccode','src/plcTopology.c'),('plc_lmpoly','src/pllmpoly02.c')],['polynomial text'])
p('P39','Classification names the knot type of a diagram and knot types parse',
 'The possible knot types listed for a knot diagram all have its HOMFLY polynomial, each is listed once, and the type of the knot is among them whatever the diagram (unknot, trefoils, figure eight, sums of trefoils told apart by chirality); the diagram itself is unchanged and still belongs to the caller. A knot type written as text and read back is the same list of prime factors, and text naming a knot that does not exist, or with too many factors, is refused.',
 'every 1..3-crossing diagram with every choice of signs, braid closures, every digit of the names','Tests classify fixed examples.',
 ['src/plcTopology.c'],[('pd_classify','src/plcTopology.c'),('plc_read_knottype','src/plcTopology.c'),('plc_write_knottype','src/plcTopology.c')],['knot type list'])
p('P40','The standard diagram builders build the links they name',
 'For every allowed size the builders give a consistent diagram of the link they name with the stated number of crossings, components and signs: twist knots (whatever the parity of the twists), torus links on two strands, chains of unknots linked one to the next, unknots with a given number of loops and the other unknots; their polynomials are those of these links. Calls outside the allowed sizes end with an error and never yield a diagram.',
 'every size up to the bound, for each builder','Tests check that a few diagrams are consistent, not which link they show.',
 ['src/pdcode_testcodes.c'],[('pd_build_twist_knot','src/pdcode_testcodes.c'),('pd_build_torus_knot','src/pdcode_testcodes.c'),('pd_build_simple_chain','src/pdcode_testcodes.c'),('pd_build_unknot','src/pdcode_testcodes.c'),('pd_build_unknot_wye','src/pdcode_testcodes.c')],['diagram returned'])
p('P41','A tangle lists exactly what lies inside its boundary',
 'Given the edges met and the faces passed by a closed path through a diagram, the regenerated tangle lists exactly the crossings and edges inside, one strand for each arc of the link inside with its end points, number of edges and component, and tells for each boundary edge whether it enters or leaves. The tangle check accepts tangles with this data and rejects a boundary that is not a closed path, and the diagram is unchanged.',
 'every closed path of 2, 4 or 6 edges in small diagrams, either side, every orientation, every wrong entry in the boundary','Tests use a handful of stored tangles.',
 ['src/pd_tangles.c'],[('pd_regenerate_tangle','src/pd_tangles.c'),('pd_tangle_ok','src/pd_tangles.c'),('pd_tangle_bdy_or','src/pd_tangles.c')],['tangle contents'])
p('P42','Sliding a strand over or under a tangle keeps the link',
 'Sliding a strand that passes entirely over or entirely under the boundary of a tangle to its other side gives consistent diagrams, split into connected pieces, of the same link: the polynomial of the pieces together is that of the original, the crossings with the near side are replaced by one for each edge on the far side, components keep their tags, and the original diagram is unchanged. A strand that changes between over and under, or does not start and end as required, is refused.',
 'every such strand and tangle in small diagrams with every choice of crossings','Tests slide a few stored tangles.',
 ['src/pd_tangles.c'],[('pd_tangle_slide','src/pd_tangles.c'),('pd_split_diagram','src/pd_splitdiagram.c')],['pieces returned'])
p('P43','Triangulations of a polygon are complete and describe the polygon they are given',
 'From any system of non-crossing diagonals, and for the fan, spiral, teeth and random kinds, the triangulation of a polygon lists every edge once and every diagonal on exactly two triangles, joined in one consistently oriented tree, passes its own check, and that check rejects indices outside their range. Lengths and fold angles of a triangulated polygon are embedded as a closed polygon with exactly those edge lengths, diagonal lengths and angles between triangles, are refused when a triangle inequality fails, and are measured back from it.',
 'every chord system in every order and direction, every choice of the random generator, every admissible length','Tests build a few sizes and embed random data.',
 ['src/plcToricSymplecticTriangulation.c'],[('tsmcmc_generate_triangulation','src/plcToricSymplecticTriangulation.c'),('tsmcmc_random_triangulation','src/plcToricSymplecticTriangulation.c'),('tsmcmc_triangulation_ok','src/plcToricSymplecticTriangulation.c'),('tsmcmc_embed_polygon','src/plcToricSymplecticTriangulation.c'),('tsmcmc_compute_diagonals','src/plcToricSymplecticTriangulation.c')],['triangulation returned'])
