COMMON = (' Trusted: the generator pyvc and its model of Python built-ins, z3/cvc5, finite event '
          'sets; partial correctness (termination not proved).')
BOUNDED = ('The contracts state the property for all inputs. Those functions the verifier handles '
           'are proved; the others (listed as bounded in the evidence) are evaluated on the real '
           'code: every clause, on all strict orders of up to 4 events and on random larger '
           'states. Bounded evaluation is not counted as proof.' + COMMON)
CLAIMS = {
    'C01': 'Every obligation of CausetEvent.__init__ and the functions it relies on is discharged '
           'for all finite orders, all link states and all consistent arguments.' + COMMON,
    'C02': 'All comparison, cone and cardinality functions of CausetEvent proved for all states.' + COMMON,
    'C03': 'All functions that read or write link memory are proved to keep it equal to the '
           'covering relation, from every reachable link state (an inductive invariant, so for '
           'every history).' + COMMON,
    'C04': 'disjoin and the functions it uses proved for all states.' + COMMON,
    'C05': 'All membership and algebra functions proved for all states and argument kinds.' + COMMON,
    'C09': 'All cone, interval and infinity queries proved for all states.' + COMMON,
    'C10': 'isChain, isAntichain, isPath proved for all states.' + COMMON,
    'C20': 'Embedding, coordinate, position and copy functions of CausetEvent proved for all '
           'states and all coordinate sequences.' + COMMON,
    'C19': 'Harmonic number functions and NewtonsMethod proved for all n, thresholds, functions and '
           'bounds over the mathematical reals; 64-bit integer overflow is an obligation. log and '
           'the Euler constant are uninterpreted.' + COMMON,
    'C15': 'Causality verdicts of all spacetimes proved against the metric formulas over the '
           'mathematical reals (any dimension for flat, including periodic; de Sitter, anti-de '
           'Sitter and black hole in 2 dimensions as in the code).' + COMMON,
    'C18': 'Volume, edge lengths, limits and edge functions of all shapes proved against the '
           'closed formulas over the mathematical reals (powers of pi and products as '
           'uninterpreted terms).' + COMMON,
    'C11': 'disjoint, isDisjoint, layered, the infinities and CentralAntichain proved for all orders '
           'and all sets, by loop invariants. Assumed: finite sets have extreme events.' + COMMON,
    'C06': BOUNDED,
    'C07': 'FromPastMatrix and FromFutureMatrix proved for all matrices (the closure loop by invariants '
           'between the relation given and its transitive closure), FromTextFile for all files. '
           'Assumed: every relation has a least transitive relation around it; numpy reads the '
           'matrix that is in the file.' + COMMON,
    'C08': 'Sorting, all matrices, saveAsCSV and the client that saves and reads proved for all '
           'orders. Assumed: numpy reads back the integers it has written.' + COMMON,
    'C12': 'layer and rank numbers, layers, ranks and Rank proved for all orders, sets and ranges (the '
           'double loop of Rank by invariants, its recursion against its own contract). Assumed: the '
           'link distance satisfies its recursions at both ends.' + COMMON,
    'C13': BOUNDED, 'C14': BOUNDED, 'C16': BOUNDED, 'C17': BOUNDED, 'C21': BOUNDED,
}
LEVELS = {p: 'exploration' for p in ('C06', 'C13', 'C14', 'C16',
                                     'C17', 'C21')}
EVALUATED = ('contracts on the real functions; provable ones discharged by z3/cvc5 over obligations '
             'generated from the source, the others evaluated clause by clause on the real code '
             'over generated states (bounded)')
TECHNIQUES = {p: EVALUATED for p in LEVELS}
NOTYET = {}
