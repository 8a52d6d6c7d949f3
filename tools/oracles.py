O={
'P01':'Oracle: dart reference. After pd_regenerate the records are checked one by one against the reference (edges consecutive along components, faces = orbits, canonical order, tags distinct) and the diagram must be isomorphic to the input as a signed, oriented map.',
'P02':'Oracle: the reference decides whether the records still describe one planar diagram; pd_ok must agree in both directions.',
'P03':'Oracle: the original diagram, record by record.',
'P04':'Oracle: memory safety of the executor; a returned diagram must pass the reference validity predicate; a failure must set the error code.',
'P05':'Oracle: the original diagram; length and header word from the documentation.',
'P06':'Oracle: the hash of a renumbered/reoriented/reflected copy made by the reference.',
'P07':'Oracle: reference isomorphism (all rootings of the dart structure).',
'P08':'Oracle: a list of the diagrams added, with the reference equivalence.',
'P09':'Oracle: the original; independence by mutating/freeing one and re-reading the other (use-after-free is detected by the executor).',
'P10':'Oracle: the dart reference with one component reversed/renumbered.',
'P11':'Oracle: the dart reference.',
'P12':'Oracle: surgery on darts (surg.h).','P13':'Oracle: surgery on darts (surg.h).','P14':'Oracle: surgery on darts (surg.h).',
'P15':'Oracle: definitions, summed over the dart reference.',
'P16':'Oracle: connected components of the dart reference.',
'P20':'Oracle: definitions (each element once: all produced elements compared pairwise; composition and inverse pointwise).',
'P21':'Oracle: a plain array with the same history.',
'P22':'Oracle: array mirror of the curve (curve.h).','P23':'Oracle: an array "constraint of vertex v" updated by each operation.',
'P24':'Oracle: the curve written.','P25':'Oracle: memory safety; a returned curve must be well formed; error code must be set otherwise.',
'P26':'Oracle: definitions in real arithmetic (polynomial identities).',
'P27':'Oracle: definitions (sums over edges and vertices).','P28':'Oracle: the motion applied to each vertex and to the data of each constraint.',
'P29':'Oracle: no other point is nearer.','P30':'Oracle: array mirror with the operation applied.','P31':'Oracle: matrices and group axioms; symmetrized curve compared with the average over the group.',
'P32':'Oracle: array mirror.','P33':'Oracle: brute force over all pairs of edges (closest points by cases) and over all vertices for the minimum radius.',
'P34':'Oracle: the list written; memory safety for damaged files.','P35':'Oracle: the C2 interpolation conditions, arclength parametrisation and the documented count of vertices.',
'P36':'Oracle: total length 2, closure, edge lengths, the failure condition of the confined/self-avoiding constructions.',
'P37':'Oracle: the crossings of all pairs of projected edges, sorted along the components (proj.h); for non-generic projections the polynomial (by the skein relation) of the curve sheared into general position.',
'P38':'Oracle: the HOMFLY polynomial computed by the skein relation on descending diagrams, in polynomials with integer coefficients (homfly.h).',
'P39':'Oracle: the skein-relation polynomial of the diagram compared with those of braid closures of the knots up to 6 crossings; mirror images; a reference parser of names.',

'P40':'Oracle: consistency of the diagram, the number of crossings and components, linking numbers, and the polynomial by the skein relation compared with that of the braid or continued-fraction form of the link (homfly.h).',
'P41':'Oracle: tangle.h - flood fill of the crossings on one side of the path, tracing of the arcs inside, orientation of the boundary edges by the side of their head.',
'P42':'Oracle: the skein-relation polynomial of the diagram and of the disjoint union of the pieces, the number of crossings, the tags; a reference test of which strands may be slid.',
'P43':'Oracle: use counts of every edge and diagonal over the triangles and the corner equations of each triangle; a separate crossing test for chords; squared distances of the embedded vertices, and the dot and triple product of the two apexes seen from each diagonal, against the given lengths and angles.',
}
