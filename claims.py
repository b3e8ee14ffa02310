DV = 'contract-based deductive verification (symbolic execution of the real source, z3/cvc5)'
CLAIMS = {
 'C01': (DV, 'proof', 'Every pair of EmptySet/Interval/FiniteReal/FiniteNominal operands is proved for all endpoints and all finite sets of any size; unions are proved up to a stated number of intervals, and searched beyond it.'),
 'C02': (DV, 'proof', 'The class invariant of every result is proved as for C01; hashing is proved up to collisions.'),
 'C03': (DV, 'proof', 'The inverse image is proved for every expression form over arbitrary sub-expressions and sets of any size, given the contracts of the mathematics library; whole expressions through sympy are searched.'),
 'C04': (DV, 'proof', 'Every operator is proved over arbitrary operands for sums, products, quotients with numbers and expressions that are not polynomials; polynomial operands up to degree 2, powers from -3 to 3.'),
 'C05': (DV, 'proof', 'Comparison, membership and Boolean operators are proved over arbitrary sub-expressions, sets and any number of operands; mixed lists up to a stated length.'),
 'C06': (DV, 'proof', 'Every function of dnf.py and to_dnf of every event class is proved over arbitrary literals, sets and truth values, for the stated numbers of clauses and literals; the recursion of the disjoint form by its own contract.'),
 'C07': (DV, 'proof', 'subs of every class of transforms and events is proved over arbitrary sub-expressions and definitions, substitute by a loop invariant (any number of rounds); leaf queries, sampled values and transform of every model class for two derived variables.'),
 'C08': (DV, 'proof', 'Leaves (any distribution function, any interval; finite sets and unions up to a stated size), mixtures of any number of components, products up to 4 clauses and log-space arithmetic are proved; whole models are searched.'),
 'C09': (DV, 'proof', 'Leaves (by contracts of their parts), mixtures of any number of components, products up to 3 disjoint clauses and the treatment of events are proved; whole models are searched.'),
 'C10': (DV, 'proof', 'Leaves, mixtures of any number of components and products of up to 3 components are proved; whole models are searched.'),
 'C11': (DV, 'proof', 'Memo keys, cache stores and looked-up values are proved for every model class over arbitrary components and events; deep duplicates of models are proved by induction over components.'),
 'C12': (DV, 'proof', 'Flattening, merging, factoring and equality are proved over arbitrary components, weights and events for the stated numbers of components; the numbers beyond are searched.'),
 'C21': (DV, 'proof', 'Constructors and operators accept exactly the valid arguments and build what was written, over arbitrary components and weights for the stated numbers of components.'),
 'C22': (DV, 'proof', 'Evaluation, inverse image, range and domain are proved for any number of disjoint regions, given the contracts of branches and guards; construction up to a stated number of branches.'),
 'C14': (DV, 'proof', 'The rewriting of expressions is proved for every operator over arbitrary operands; every construct of the language is compiled by the real compiler over arbitrary statements, expressions and parameters within it, and the rendered module run; ill-formed texts, one of each kind, are rejected.'),
 'C15': (DV, 'proof', 'The text of every class of sets and expressions is read back by the real reader over arbitrary numbers and sub-expressions; every class of models through its dictionary and JSON for the stated numbers of parts; whole models through scipy and sympy are searched.'),
 'C18': (DV, 'proof', 'The text of every number, set, event and expression form is one operand and reads back, over arbitrary parts; every class of models over arbitrary components is rendered and its text compiled by the real compiler into the commands of the model, for the stated numbers of parts; whole models are searched.'),
 'C16': (DV, 'proof', 'Every sampling function is proved for all draws of the random generator, given the contracts of numpy.random and scipy, for the stated numbers of samples, components and variables; frequencies of whole models are searched.'),
 'C13': (DV, 'proof', 'Conditionals with any number of branches, given the events of their guards; these events for up to 3 guards (4 in the thorough tier); switches up to 3 cases, sequences and loops up to 4 commands; whole programs are searched.'),
 'C17': (DV, 'proof', 'Every primitive is proved for all parameters, locations and scales, given a table of the standard supports of scipy, which a bounded comparison checks against scipy.'),
 'C19': (DV, 'proof', 'Infinite bounds, the choice of solver with its time limit, and the symbolic relations are proved for every polynomial, given the contracts of sympy; the numerical solver for every polynomial with up to 3 real roots (4 in the thorough tier).'),
 'C20': (DV, 'proof', 'Proved for every measure and pair of events, given the contract of logprob.'),
}
NOT_APPLICABLE = {}
