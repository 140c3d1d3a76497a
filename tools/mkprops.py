#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

EV, CA, EM, SP = 'causetevent.py', 'causet.py', 'embeddedcauset.py', 'sprinkledcauset.py'

prop('C01', 'Creating an event keeps the causal relation a strict partial order',
 'If the past and future sets of all existing events form a strict partial order in which a is in the past of b exactly when b is in the future of a, then after creating an event from any consistent choice of past and future events this is still so. '
 'The past of the new event is exactly the given past events together with all of their pasts, its future is exactly the given future events together with all of their futures, and every event of that past precedes every event of that future. '
 'All other relations, all labels and all embeddings of existing events are unchanged.',
 ['inputs', 'histories'], 'every finite event structure reached by any sequence of event operations, every pair of past/future collections whose past events are not equal to or preceded by a future event, linked and unlinked events in any mixture',
 'tests create a handful of fixed small structures (always with past= only); the statement quantifies over all structures and over both arguments together',
 [EV], [('event initialiser', 'CausetEvent.__init__'), ('relation update', 'CausetEvent._addToPast, CausetEvent._addToFuture')],
 ['CausetEvent(past=..., future=...)', 'CausetEvent.Past', 'CausetEvent.Future'],
 [('past set', 'set of all preceding events', 'CausetEvent._prec'), ('future set', 'set of all succeeding events', 'CausetEvent._succ')])
prop('C02', 'Comparisons, cone sets and cardinalities of events agree with the order',
 'For any two events, <, <=, >, >=, the causal-relatedness test and the spacelike test return exactly what the past/future sets say: a < b iff a is in the past of b, <= and >= additionally include identity, causal-relatedness is <= or >, and spacelike means distinct and unrelated, so exactly one of a < b, a is b, a > b, spacelike holds. '
 'Cone, present-or-past, present-or-future and the spacelike part of any event set are exactly the corresponding sets (never changing the event), and every reported cardinality is the number of elements of the corresponding set. '
 'None of these queries changes any event.',
 ['inputs', 'histories'], 'every pair of events in every strict partial order, every event set',
 'the existing tests evaluate no comparison or cone query on more than a few fixed chains and antichains',
 [EV], [('comparison operators', 'CausetEvent.__lt__, __le__, __gt__, __ge__'), ('cone queries', 'CausetEvent.Past ... SpacelikeCard')])
prop('C03', 'Link queries always return the covering relation',
 'For every history of event creation, disjoining, merging, causet add/discard and explicit linking or unlinking of events and causets, every link query (link test between two events, past-link, future-link and linked-to tests, the sets and numbers of linked past, future and cone events, number of links) answers exactly by the current covering relation: a is linked to b iff a precedes b and no event lies strictly between them. '
 'Linking a whole causet and linking single events give the same answers, and the numbers of links inside a set of events count each link between two of its members once. '
 'Link queries never change the causal relations.',
 ['inputs', 'histories'], 'every finite event structure and every interleaving of creating, linking, unlinking and disjoining operations',
 'tests link freshly built causets only; stale link memory needs a sequence of mutations after linking',
 [EV, CA], [('lazy link memory', 'CausetEvent.link, unlink, isLink'), ('incremental link maintenance', 'CausetEvent._addToPast, _addToFuture, _discard'), ('bulk linking', 'Causet.link, Causet.unlink')],
 state=[('link memory', 'cached linked past/future', 'CausetEvent._lprec, CausetEvent._lsucc')])
prop('C04', 'Disjoining an event removes it everywhere and changes nothing else',
 'After disjoining an event its past and future are empty and no other event has it in its past or future. '
 'Every other pair of events keeps its relation, so the remaining events still form a strict partial order with matching pasts and futures, and link queries on them answer by the covering relation without the removed event.',
 ['inputs', 'histories'], 'every event of every finite structure, with any subset of events linked',
 'no test calls disjoin',
 [EV], [('removal', 'CausetEvent.disjoin, CausetEvent._discard')])
prop('C05', 'A causet holds the causal closure of its events; set operations are set algebra',
 'A causet built from events contains these events and exactly those that are connected to them by causal relations (the smallest superset that contains the whole past and future of every member). '
 'Adding and discarding events change the membership by exactly the given events, the operators and methods for union, difference, intersection and symmetric difference (on either side, with sets, lists or causets) return the mathematical results as new sets without changing the causet, and membership, iteration, cardinality and finding events by label agree with the member set (an absent label raises ValueError).',
 ['inputs', 'histories'], 'every event structure, every event collection, every sequence of add/discard',
 'tests build causets from generators only and never check closure, right-hand operators, discard or find',
 [CA], [('closure', 'Causet.__init__'), ('membership changes', 'Causet.add, Causet.discard'), ('set algebra', 'Causet.__sub__ ... Causet.union'), ('lookup', 'Causet.find, findAny, findAll, __contains__')])
prop('C06', 'Causet generators produce exactly the order they are named after',
 'From a permutation of 1..n the causet has n events labelled 1..n where event i precedes event j iff i < j and i stands before j in the permutation; the chain generator gives a total order and the antichain generator no relations. '
 'Fences of any length and height (open or closed) and crowns have length*(height+1) events, each event of a higher layer covering exactly its one or two designated neighbours in the layer below; a simplex has one event per face, ordered by inclusion. '
 'Merging two event sets relates every event of the first to every event of the second (unless disjoint is requested) and keeps all other relations.',
 ['inputs'], 'all permutations of all lengths, all sizes, lengths, heights, dimensions and label formats, all pairs of event sets closed to the past/future respectively',
 'tests cover a few sizes',
 [CA], [('permutation', 'Causet.FromPermutation'), ('chain/antichain', 'Causet.NewChain, Causet.NewAntichain'), ('fence/crown', 'Causet.NewFence, Causet.NewCrown'), ('simplex', 'Causet.NewSimplex'), ('merge', 'Causet.merge')])
prop('C07', 'Reading a causal or link matrix gives its transitive closure or a ValueError',
 'For any logical n-by-m matrix with n <= m, the resulting causet has m events labelled 1..m such that event j precedes event i iff i is reachable backwards from j through one or more nonzero entries (row i, column j meaning j in the past of i), so a link matrix and its closure give the same causet, and pasts and futures match. '
 'A matrix with more rows than columns or with a causal loop of any length raises ValueError. '
 'Reading a future matrix is the same for the transposed matrix.',
 ['inputs'], 'all logical matrices of all sizes, with rows and columns in any order',
 'tests read four fixed small matrices',
 [CA], [('matrix reader', 'Causet.FromPastMatrix, Causet.FromFutureMatrix, Causet.FromTextFile')])
prop('C08', 'Causal sorting is a linear extension and the matrices state the relations',
 'Sorting any set of events by causality returns each event exactly once, with every event after all its predecessors (before them if reversed); sorting by labels returns each event once with labels in non-decreasing order (non-increasing if reversed). '
 'The past matrix (and link matrix) for any listing of events has a true entry (i, j) iff event j precedes (is linked in the past of) event i, the future matrices are the transposes, and no events are changed. '
 'Saving a causet to a file and reading it back gives an isomorphic causet.',
 ['inputs'], 'every event structure, every subset of events, any labels (also equal, missing or reversed labels)',
 'tests never check the order of the sorted list or the entries of a matrix',
 [CA], [('sorting', 'Causet.sortedByCausality, Causet.sortedByLabels'), ('matrices', 'Causet.PastMatrix, FutureMatrix, LinkPastMatrix, LinkFutureMatrix'), ('files', 'Causet.saveAsCSV, Causet.FromTextFile')])
prop('C09', 'Past, future, cone, interval and infinity queries return the exact sets',
 'The past, future and cone of a set of events are the union (or, when intersecting, the intersection over all members; empty for no members) of the members\' pasts, futures or cones, with the members themselves included exactly when the present is included. '
 'Interval, perimetral and internal events between a and b are exactly the events between them (with or without the boundary), those on two-link paths, and the remaining ones; past and future infinity are exactly the minimal and maximal events (events without any past or future at all for a whole causet), and the spacelike set contains exactly the causet events unrelated to all given events. '
 'Each reported number equals the size of the corresponding set, and no query changes any event or argument set.',
 ['inputs'], 'every event structure, all event sets, all pairs of events, all option combinations',
 'tests call few of these and only on generated chains',
 [CA], [('cones of sets', 'Causet.PastOf, FutureOf, ConeOf, SpacelikeTo'), ('intervals', 'Causet.Interval, IntervalCard, PerimetralEvents, PerimetralEventCount, InternalEvents, InternalEventCount'), ('infinities', 'Causet.PastInf, FutureInf, PastInfCard, FutureInfCard, PastInfOf, FutureInfOf, PastInfCardOf, FutureInfCardOf')])
prop('C10', 'Chain, antichain and path tests decide exactly these notions',
 'A set of events (by default all events of the causet) is reported as a chain iff every two of its events are related, as an antichain iff no two distinct ones are related. '
 'It is reported as a path iff it is a non-empty chain in which every event but the first is linked (in the underlying structure) to an event of the set in its past, i.e. consecutive events are linked.',
 ['inputs', 'histories'], 'every event structure, every set of events, causets after discarding events',
 'tests only use chains and antichains and one path',
 [CA], [('classification', 'Causet.isChain, Causet.isAntichain, Causet.isPath')])
prop('C11', 'Disjoint pieces, layers and the central antichain decompose the events correctly',
 'Splitting a set of events into disjoint subsets gives non-empty, pairwise disjoint sets that cover it, where events of different subsets are never related and each subset is connected by relations between its members; it is reported as disjoint iff there is more than one subset. '
 'The layered list partitions the given events into non-empty antichains whose first is the set of minimal events (maximal if reversed) and where every event of a later layer is preceded (succeeded) by one of the layer just before. '
 'The central antichain is an antichain of causet events that is maximal: every other causet event is related to one of its members.',
 ['inputs'], 'every event structure and every subset of events',
 'no test checks any of these on a structure with more than one piece',
 [CA], [('pieces', 'Causet.disjoint, Causet.isDisjoint'), ('layers', 'Causet.layered'), ('antichain', 'Causet.CentralAntichain')])
prop('C12', 'Layer and rank numbers agree with intervals and link distances',
 'The layer number of an event relative to a set is one less than the largest cardinality of the intervals between it and the members of the set in its past (0 if there are none; negated for the time-reversed version), and a request for layers first..last returns exactly the events of the past, present and future of the set whose numbers lie in that range. '
 'The rank between two events is the number of links on a shortest link path from the first to the second (0 for the same event, infinite if not related), and rank numbers and rank ranges are built from it in the same way.',
 ['inputs'], 'every event structure, event set, number range and direction',
 'tests look at layer numbers of one or two causets',
 [CA, EV], [('layers', 'Causet.Layers, Causet.LayerNumbers'), ('ranks', 'Causet.Ranks, Causet.RankNumbers, CausetEvent.Rank')])
prop('C13', 'Path enumeration yields exactly the link paths of the requested length',
 'Enumerating the paths from a to b yields, each exactly once, all sequences of events that start with a, end with b and step along links, restricted to the requested fixed length, length range, minimal or maximal length (length counted in events). '
 'Nothing is yielded when a does not precede or equal b.',
 ['inputs'], 'every event structure, pair of events and length option',
 'one test checks one generated causet',
 [CA], [('path search', 'Causet.Paths')])
prop('C14', 'Smallest-interval cardinalities and antichain distances are consistent',
 'For related events the smallest interval cardinality is the cardinality of their interval; for spacelike events it is the least cardinality of an interval from a common past event to a common future event, falling back to the least future (past) cardinality over the common past (future) events when only one kind exists, and 0 when neither exists. '
 'It does not depend on the order of the two events. '
 'The distance matrix of an antichain is symmetric with zero diagonal, an unsupported counting method raises ValueError, and each path along the antichain starts and ends at the requested events and stays within it.',
 ['inputs'], 'every event structure, every pair and antichain, all search/intersection options with both events inside the search set',
 'tests check two fixed distances',
 [CA], [('distance', 'Causet.SmallestIntervalCard, Causet.DistanceMatrix, Causet.Antipaths')])
prop('C15', 'Spacetime causality verdicts implement the metric and exclude each other',
 'For any two coordinate points the causality function of a spacetime returns (x precedes or equals y, x succeeds y), never both true. '
 'For flat spacetime of any dimension the points are related iff the squared time difference is at least the squared spatial distance up to the rounding tolerance (with distances wrapped around every periodic direction), for de Sitter and Anti-de Sitter iff the embedding-space separation is non-spacelike (no relations beyond the de Sitter horizon), and for two-dimensional black holes iff one point lies between the ingoing and outgoing light rays of the other in the chosen metric; the direction follows the time order. '
 'Swapping two points with different time coordinates swaps the verdict.',
 ['inputs'], 'all pairs of coordinates, all supported dimensions, periods, radii and metrics',
 'tests check one sprinkle size per spacetime, never a verdict',
 ['spacetimes.py'], [('flat', 'FlatSpacetime.Causality'), ('(anti-)de Sitter', 'deSitterSpacetime.Causality, AntideSitterSpacetime.Causality'), ('black hole', 'BlackHoleSpacetime.Causality'), ('default', 'Spacetime.Causality')])
prop('C16', 'Embedded causets relate exactly the coordinate pairs that the spacetime relates',
 'After creating events from coordinates (and after every re-relating) every two events are related exactly as the spacetime\'s causality verdict for their coordinates says, pasts and futures match, events carry the given coordinates, and link queries answer by the resulting order. '
 'New events are labelled with consecutive numbers after the current cardinality, all are added and returned; relabelling numbers all events 1..n in ascending (descending) order of the chosen coordinate. '
 'An embedded permutation gives the same order as the abstract permutation causet, and the length scale is the inverse d-th root of the density, which is the cardinality divided by the shape volume.',
 ['inputs', 'histories'], 'all coordinate lists, spacetimes, shapes and sequences of create/relate',
 'tests only create two small causets and check labels',
 [EM], [('creation', 'EmbeddedCauset.create'), ('relations', 'EmbeddedCauset.relate'), ('labels', 'EmbeddedCauset.relabel'), ('permutation coordinates', 'EmbeddedCauset._Permutation_Coords, EmbeddedCauset.FromPermutation'), ('scale', 'EmbeddedCauset.Density, EmbeddedCauset.LengthScale')])
prop('C17', 'Sprinkling puts exactly the requested number of points inside the shape',
 'Sprinkling n points adds exactly n new events to the causet, each with coordinates of the right dimension inside the shape (respecting its centre, and outside the empty interior of hollow shapes) up to single-precision rounding, for every shape, dimension and random stream. '
 'The intensity grows by exactly n per sprinkled or created number of events and by the requested value when intensifying, shrinks in proportion when discarding; a negative number or intensity raises ValueError before anything changes.',
 ['inputs', 'histories'], 'all shapes, dimensions, centres, counts, random streams and sequences of sprinkle, intensify, add, discard',
 'tests count the events of a few sprinkles, never look at coordinates',
 [SP], [('sampling', 'SprinkledCauset._sprinkle_coords'), ('bookkeeping', 'SprinkledCauset.sprinkle, intensify, create, add, discard, Intensity, Density, LengthScale')])
prop('C18', 'Coordinate shapes validate parameters and report correct limits and volume',
 'A coordinate shape is created exactly for a dimension of at least 1, a supported name, a centre of that dimension, positive lengths and a hollow fraction in [0, 1), and otherwise ValueError is raised; a diamond is a bicone. '
 'The limits along each dimension are the centre plus or minus half the extent in that dimension (ValueError outside the dimensions), the largest half edge is the largest half extent among the asked dimensions, and the volume is that of the solid minus that of its hollow interior by the standard formula for the shape.',
 ['inputs', 'configurations'], 'all dimensions, shape names and parameter values',
 'tests check some default shapes',
 ['shapes.py'], [('validation', 'CoordinateShape.__init__'), ('geometry', 'CoordinateShape.Limits, CoordinateShape.MaxEdgeHalf, CoordinateShape.Volume')])
prop('C19', 'Harmonic numbers are exact sums and Newton steps stay within the bounds',
 'The exact n-th harmonic number is the sum of 1/k for k = 1..n (0 for n = 0), the list of exact harmonic numbers holds all of them from 0 to n, and the floating-point versions give the same sums below the approximation threshold and the asymptotic expansion ln n + gamma + 1/(2n) - 1/(12 n^2) + 1/(120 n^4) from the threshold on, the vector version agreeing with the scalar version at every index. '
 'Newton\'s method returns either the default value or a point within the given bounds (widened by the precision) that is less than the precision away from the previous iterate, after at most the given number of iterations.',
 ['inputs'], 'all n, thresholds, functions, start values and bounds',
 'tests compare values for a few n',
 ['calculations.py'], [('harmonic numbers', 'HarmonicNumber, HarmonicNumbers, HarmonicNumberFraction, HarmonicNumberFractions'), ('root finding', 'NewtonsMethod')])
prop('C20', 'Embedding coordinates and positions of events follow set, read and remove',
 'An event is embedded exactly from the moment coordinates are assigned (at creation or by embedding) until it is disembedded; reading returns exactly the values last assigned as an independent copy, reading without an embedding raises AttributeError and the reported dimension is the number of coordinates (0 without). '
 'Embedding an embedded event raises AttributeError and leaves it unchanged unless re-embedding is requested. '
 'The diagram position defaults to the origin, must be set to exactly two values (ValueError otherwise, leaving it unchanged), and neither affects causal relations; copying an event keeps its label and relations and drops the embedding.',
 ['inputs', 'histories'], 'all sequences of create, embed, disembed and position assignments with any coordinate lists',
 'tests never disembed, re-embed or copy',
 [EV], [('embedding', 'CausetEvent.isEmbedded, embed, disembed, Coordinates, CoordinatesDim'), ('position', 'CausetEvent.Position'), ('copy', 'CausetEvent.copy')])
prop('C21', 'Colour conversion and fading functions return scheme colours and bounded opacity',
 'Converting a colour, or the colours in a list or dictionary of plot parameters, replaces exactly the string values starting with "cs:" by the colour of that name in the chosen (or global) scheme and leaves everything else unchanged; an unknown scheme raises ValueError and keeps the global scheme. '
 'Every colour of every scheme is valid for the plotting library. '
 'The fading functions give the maximum at value 0, vanish on the wrong side of a signed depth, and follow the linear, exponential or power law on the other side, for every depth, dimension and maximum.',
 ['inputs', 'configurations'], 'all colours, schemes, parameter dictionaries, depths, dimensions and values',
 'no test converts a colour or evaluates a fading function',
 ['colorschemes.py', 'causetplotting.py'], [('colours', 'getColor, convertColorsInDict, convertColorsInList, pickColorScheme, setGlobalColorScheme'), ('fading', 'dynamic_parameter')])
for p in P:
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
