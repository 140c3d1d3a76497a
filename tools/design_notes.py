NOTES = {
'C01': """Specified: effect of `__init__` on the whole relation (`a<b` afterwards iff before, or via the new event), frame on all other
events, and `wf`/`linkok` as postconditions; `link`/`unlink`/`merge` change no order. Oracle: closure formula in the spec. No bounds.""",
'C02': """Specified: each comparison and each cone / cardinality equals the set formula over `prec`/`succ`; lemma *trichotomy*. No bounds.""",
'C03': """Specified: every function that writes order or link memory preserves `linkok` (link memory, where present, equals the covering
relation of the current order); every query returns the covering relation whether or not link memory is present. Being an
invariant over arbitrary states it covers every history. No bounds.""",
'C04': """Specified: exact effect of `disjoin` on all relations (frame on other pairs), `wf`, `linkok` afterwards. No bounds.""",
'C05': """Specified: membership of the constructed causet is the least cone-closed superset (leastness by an arbitrary closed
superset), effects of add/discard with events and causets, operators against set formulas for both operand orders, freshness of results.
No bounds.""",
'C06': """Specified: the order of the generated causet as a formula over the positions (permutation, height and length, subset order).
`NewFence` (all lengths, heights, open and closed) and `NewCrown` are proved: ghost functions give the event at each place and the
place of each event, and the loop over the layers keeps the order of the layers built so far. `NewSimplex` is evaluated for all small parameters.""",
'C07': """Specified: relation of the created events equals reachability in the matrix, labels 1..m, ValueError exactly for cycles and self-loops (n ≤ m).
`FromPastMatrix` is proved for matrices of any size: the closure is a ghost relation T (transitive, contains the matrix; for a matrix P
that is transitive and contains it, T lies in P), the loop over k keeps "matrix ⊆ P ⊆ T" and "P passes through the first k events", the
second loop sets past and future of the first k events. Files are objects with ghost content (the matrix read with a delimiter):
`savetxt` sets it, `genfromtxt` returns it (assumed of numpy, evaluated at run time on real files in a scratch directory.""",
'C08': """Specified: sorted lists contain each event once and respect the order (reversed as well); matrices entry by entry. The sort's loop
carries the invariant that the processed prefix is a linear extension. `saveAsCSV` writes the past matrix of some listing; the client that
saves and reads again is proved to return events ordered like those saved.""",
'C09': """Specified: every query against its set formula for all argument kinds, including `intersect` and empty sets.""",
'C10': """Specified: reported truth value iff the quantified definition; `isPath` against the covering relation in the underlying structure.""",
'C11': """Specified: cover, disjointness, no relations between different pieces, connectedness inside; layers against the height function;
central antichain is a maximal antichain around the middle. Connectedness needs reachability through relations and is evaluated at run time.""",
'C12': """Specified: layer numbers against interval cardinalities, requested layers, ranks against the length of a shortest
link path (`link_distance`, an uninterpreted function; the facts assumed for it are its recursions at both ends, only inside the proof
of `Rank`). `Rank`'s double loop is proved with contract-given invariants (the running minimum, possibly infinite, is attained by a pair
of the visited rectangle of link neighbours and is least over it); the recursive call is replaced by Rank's own contract.""",
'C13': """Specified: yielded sequences are exactly the link paths with the requested length, each once; oracle enumerates by recursion.
Recursive generator with list-valued yields: outside the verifier, bounded.""",
'C14': """Specified: formula for `SmallestIntervalCard`; consistency of both argument orders; distance matrices and antipaths against a breadth-first oracle.""",
'C15': """Specified: both components of the verdict against the metric formula, never both true; distance functions as
real arithmetic with quantified coordinates (any dimension for flat). No bounds.""",
'C16': """Specified: after creating / relating, order of the events equals the verdict of the spacetime on their coordinates; labels; `wf`, `linkok`.
`create` is proved for any number of rows (the comprehension that creates events is executed as a loop with invariants), with the verdict of
the spacetime as an uninterpreted function of two events; `_Permutation_Coords` is proved to list the points of the permutation, and a
lemma states that those points are ordered by it. The client that compares both constructions is evaluated at run time.""",
'C17': """Specified: number of events, dimension, containment in the shape (centre, hollow part), intensity accounting. Random streams are
varied by seed and by replacing the generator with adversarial extreme draws (0, 1-, ties). `sprinkle`, `intensify`, `create`, `add` and
`discard` are proved: exactly the requested (drawn) number of new events, at the rows of the matrix that `_sprinkle_coords` returned for
this number, shape and stream, related by the spacetime, intensity as documented. The geometry of `_sprinkle_coords` itself is bounded.""",
'C18': """Specified: ValueError exactly for invalid parameters; volume, limits, half edges against closed formulas for arbitrary dimension
(products and powers as terms). No bounds.""",
'C19': """Specified: exact sums as recursively defined ghost sums with loop invariants, threshold behaviour, int64 overflow; Newton steps stay
within bounds. No bounds.""",
'C20': """Specified: embedding state, stored copy (aliasing tested by writing through the returned array), dimension, errors. No bounds.""",
'C21': """Specified: opacity within [0,1] as formula (`fade`, proved); conversion of colours, lists and dictionaries against the palettes, evaluated
for all schemes and names.""",
}
P = 'failed obligation and replayed input'
CAUGHT = {b: 'its check (exit 1)' for b in '''
c01-future-direct-only c02-spacelikecard-shortcut c03-prune-only-multi c04-disjoin-keeps-links c05-init-single-cone c06-fence-offset
c06-permutation-window c08-linkmatrix-transposed c08-sort-window c09-internal-union c11-disjoint-passes c12-rank-first
c12-ranknumbers-first c13-max-local c13-range-open c14-smallest-future c15-ds-horizon c15-periodic-sum c16-label-add
c16-relabel-descending c17-cylinder-centre c17-hollow-power c17-intensity-rejected c18-bicone-hollow-volume c18-cuboid-maxedge
c19-harmonics-threshold c20-embed-alias c07-first-loop c07-future-truncate c10-empty-chain c14-matrix-asymmetric c20-embed-same c21-empty-scheme c21-fade-dim1
c21-fade-small c03-count-outside c05-falsy-label c09-inf-card-inner c12-layers-zero c15-bh-swap c19-newton-relative c02-causal-prec
c16-create-discarded'''.split()}
