import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({"state":[dict(name=a,meaning=b) for a,b in state]} if state else {}))))
CC="qldpc/codes/common.py"; QQ="qldpc/codes/quantum.py"; CL="qldpc/codes/classical.py"; DI="qldpc/codes/distance.py"
AB="qldpc/abstract.py"; OB="qldpc/objects.py"; DE="qldpc/decoders.py"; CI="qldpc/circuits.py"; CA="qldpc/cache.py"; MA="qldpc/math.py"
p("C01","A classical code is exactly the kernel of its parity check matrix",
  "For every parity check matrix over every supported finite field, a classical code's words (as enumerated, as tested by membership, as drawn at random and as spanned by its generator matrix) are exactly the vectors with zero syndrome, each enumerated once. Rank, dimension, block length, check weight, canonical form, equality and equivalence agree with that kernel, and the dual code is exactly its orthogonal complement (so taking the dual twice gives the same code back). Setting a generator matrix is accepted if and only if it spans the code.",
  ["inputs"],"every parity check matrix of the bounded shapes over GF(2), GF(3), GF(4), GF(5), GF(8), GF(9); every candidate word; every candidate generator matrix",
  "Tests look at a few random or named binary codes; dependent rows, zero rows or columns and non-prime fields are never swept.",
  [CC],[("ClassicalCode words, generator, dual, canonical form","qldpc/codes/common.py: class ClassicalCode")])
p("C02","Operations that derive classical codes have exactly their defining word set",
  "Stacking, tensor product, puncturing, shortening, construction from a generator matrix and the Tanner-code construction produce codes whose set of words is exactly the one their mathematical definition gives, over the same field, for every operand including degenerate ones (zero-dimensional, full, dependent checks, bits that are always zero). Deriving a code never alters its operands.",
  ["inputs"],"all pairs of operand codes and all bit subsets in the bounded shapes over several fields; all small subgraphs for Tanner codes",
  "Tests check one or two derived codes by one scalar property; the result set for every operand and subset cannot be sampled.",
  [CC,CL],[("stack, puncture, shorten, tensor_product, from_generator","qldpc/codes/common.py: class ClassicalCode"),("TannerCode","qldpc/codes/classical.py: class TannerCode")])
p("C03","Exact distance of a classical code is the true minimum",
  "The exact distance reported for a classical code is the minimum Hamming weight of its nonzero words, or undefined exactly when it has none, and the exact distance to a given vector is the minimum Hamming distance between that vector and any code word. This holds for every field, every block length (including block lengths that cross machine-word boundaries) and every code dimension.",
  ["inputs"],"every generator of the bounded shapes over GF(2), GF(3), GF(4), GF(5); structured long binary codes around multiples of the machine word; every vector; every vectorisation block size",
  "The fast path packs bits in words and walks Gray codes; tests use a few codes and one block size.",
  [CC,DI],[("bit-packed Gray-code search","qldpc/codes/distance.py: get_distance_classical"),("exact distance","qldpc/codes/common.py: ClassicalCode.get_distance_exact")])
p("C04","Exact distance of a quantum code is the true minimum",
  "The exact distance reported for a stabilizer or subsystem code is the minimum weight of a Pauli operator that commutes with every stabilizer and is not itself a stabilizer (for a subsystem code: not a gauge operator), or undefined exactly when the code encodes no logical qudits. For CSS codes the X-distance and Z-distance are the corresponding minima over X-type and Z-type operators, and the overall distance is their minimum.",
  ["inputs","configurations"],"every stabilizer and gauge group of the bounded sizes (general and CSS, qubits and qudits), block lengths crossing machine-word boundaries, every block size of the fast search",
  "Tests compare a handful of named codes; the fast search has separate vectorised, Gray-code and multi-word regimes selected by code size.",
  [CC,DI],[("bit-packed search","qldpc/codes/distance.py: get_distance_quantum"),("QuditCode/CSSCode.get_distance_exact","qldpc/codes/common.py")])
p("C05","Distance bounds never fall below the true distance, whatever the randomness",
  "Every upper bound returned by a randomised distance estimator is at least the exact distance and at most the block length, for every outcome of its random choices and every number of trials, cutoff and decoder it accepts. Several trials give the smallest of their single bounds, ending early only once the cutoff is reached, and a code with logical operators always has outcomes that yield a bound. A randomly drawn logical operator is always a genuine logical operator (a nontrivial one when that is requested), and reducing logical operators never raises a weight, never changes the logical class of an operator and never breaks the pairing between the two bases.",
  ["inputs","schedules"],"all outcomes of the random choices (enumerated through a controlled random source) for every CSS and classical code of the bounded sizes",
  "Tests run the estimators with a few fixed seeds and look at the final number only.",
  [CC],[("get_one_distance_bound, get_random_logical_op, reduce_logical_op","qldpc/codes/common.py: classes ClassicalCode, QuditCode, CSSCode")])
p("C06","Logical operators of every stabilizer code form a symplectic basis",
  "For every stabilizer code the library returns exactly k logical X and k logical Z operators, where k is the number of qudits minus the number of independent stabilizers; each commutes with every stabilizer, X_i and Z_j have symplectic product one if i = j and zero otherwise, operators of the same type commute, and together with the stabilizers they span all operators that commute with the stabilizers. Operators requested for one basis or in CSS form agree with the full set, and replacing the logical operators is accepted if and only if the replacement satisfies the same relations.",
  ["inputs"],"every stabilizer group on the bounded numbers of qubits and qudits, given by arbitrary (also redundant) check matrices, general and CSS, plus every candidate replacement basis in bounds",
  "Tests check a few named codes over one field; degenerate and redundant check matrices and k = 0 are not swept.",
  [CC],[("standard form and logical operators","qldpc/codes/common.py: QuditCode/CSSCode get_logical_ops, get_standard_form_data, set_logical_ops")])
p("C07","Subsystem codes decompose into stabilizers, gauge pairs and logical pairs",
  "For every set of gauge generators the reported stabilizer group is exactly the centre of the gauge group, stabilizers and gauge operators together span exactly the gauge group, gauge operators come in conjugate pairs that commute with the logical operators, and logical operators come in conjugate pairs that commute with the whole gauge group. The number of logical qudits plus gauge qudits plus independent stabilizers equals the number of physical qudits, a code is classified as a subsystem code exactly when its generators do not all commute, and exchanging logical and gauge roles yields the dual subsystem code. The standard form of the gauge generators spans the same gauge group, its pivots form the documented identity blocks, and its rows in the stabilizer sectors are stabilizers.",
  ["inputs"],"every gauge group of the bounded sizes, general and CSS, over qubits and qudits, given by arbitrary check matrices",
  "Tests use Bacon-Shor-like codes and one random code; a gauge group with an unusual mixture of generators is never tried.",
  [CC,QQ],[("get_stabilizer_ops, get_gauge_ops, get_logical_ops, get_dual_subsystem_code","qldpc/codes/common.py: classes QuditCode, CSSCode")])
p("C08","Stacking, concatenating, conjugating and deforming preserve the code structure",
  "Stacking quantum codes gives the code whose checks and logical operators act independently on the blocks; conjugation and Clifford deformation give exactly the code whose stabilizers and logical operators are the images of the original ones; concatenation gives exactly the code whose stabilizers are the inner stabilizers together with the outer stabilizers written in inner logical operators, wired as requested. Derived codes have the implied number of logical qudits, carry valid logical operators and never report a wrong distance; operands are left unchanged, and operands over different fields or of sizes that do not fit are rejected with an error instead of giving a wrong code.",
  ["inputs","programs"],"all combinations of small codes, wirings, conjugated subsets and Clifford circuits up to the stated depth",
  "Tests try a couple of combinations and compare parameters only.",
  [CC],[("stack, concatenate, conjugated, deformed","qldpc/codes/common.py: classes QuditCode, CSSCode")])
p("C09","Answers about a code do not depend on what was asked or derived before",
  "Every query on a code object (parameters, distances, logical, gauge and stabilizer operators, Tanner graph, canonical form, derived codes) gives the same or an equally valid answer whatever sequence of queries and derivations was executed on it before, and repeating a query repeats the answer. No query or derivation modifies the code's checks, any other code object, or the arrays and graphs a caller passed in; copies of a code are independent of each other.",
  ["histories"],"all sequences of public operations up to a bounded depth on a family of small codes, compared with the same query on a fresh object",
  "Codes cache operators and distances lazily and share arrays; unit tests query fresh objects.",
  [CC,QQ,CL],[("cached operators, distances and copies","qldpc/codes/common.py: AbstractCode, ClassicalCode, QuditCode, CSSCode")],
  [("cached logical/gauge/stabilizer operators and distance","memoised answers of a code object")])
p("C10","Alternative representations of codes and Paulis convert back without loss",
  "Converting a parity check matrix to a Tanner graph and back, a quantum code to Pauli strings and back, and a Pauli or qudit operator to text and back gives the original object, for every field. Two codes are equivalent exactly when their checks span the same space over the same field, however they are represented, and parts that do not fit together are rejected. The product, inverse and commutation rules of single-qubit Pauli operators agree with the Pauli matrices up to phase, and the symplectic conjugate pairs vectors with exactly the symplectic product.",
  ["inputs"],"every matrix of the bounded shapes over several fields, every Pauli and every qudit operator of the fields in bounds",
  "Tests round-trip random matrices in one field where every row and column is nonzero.",
  [CC,OB,MA],[("matrix_to_graph, graph_to_matrix, from_strings, get_strings","qldpc/codes/common.py"),("Pauli, QuditOperator","qldpc/objects.py"),("op_to_string, symplectic_conjugate","qldpc/math.py")])
p("C11","Decoders return a correction that reproduces the syndrome",
  "For every syndrome caused by some error, the lookup, union-find, integer-programming and matching decoders return a correction with exactly that syndrome; the integer-programming decoder, and the lookup decoder up to the error weight it was built for, return one of minimum weight, and a direct decoder returns a code word for any word within its correction radius. Decoders selected by name, options, defaults or a custom function behave as the decoder they name, a block decoder decodes each block independently, and no decode call changes the outcome of a later one or modifies its arguments.",
  ["inputs","histories"],"every check matrix and every syndrome in bounds over several fields, every decoder, sequences of decode calls on one decoder object",
  "Tests decode one or two errors per decoder on a fixed code.",
  [DE],[("decoder classes and dispatch","qldpc/decoders.py")])
p("C12","Built-in groups are groups and their lifts are faithful matrix representations",
  "Every built-in group (trivial, cyclic, abelian, dihedral, alternating, symmetric, quaternion, small, special and projective special linear, direct products, and groups given by tables, permutations or matrices) has the order and multiplication it is defined to have, enumerates each member once, and its multiplication table agrees with composing members. The lift and the regular representation map products to products, the identity to the identity and inverses to transposes for orthogonal lifts, over the group's field, and distinct members to distinct matrices wherever the lift is faithful by definition.",
  ["inputs","configurations"],"all members and all ordered pairs of members of every group in a bounded list, several fields",
  "Tests check a few lifts of a few groups; representation errors show up only on particular pairs of members.",
  [AB],[("Group and its subclasses","qldpc/abstract.py")])
p("C13","Group-algebra arithmetic and matrices over group algebras are exact",
  "Elements of a group algebra form a ring: sums, differences, scalar and group-element multiples, products, powers, transposes and inverses agree with the definition of the group algebra over the base field, an inverse is returned exactly when one exists, and lifting to matrices, the regular representation and conversion to and from coefficient vectors all commute with these operations. For matrices over a group algebra the lift agrees entry by entry, the null space contains only and all null vectors (up to ring multiples), and row reduction preserves the row space.",
  ["inputs"],"all elements and all pairs of elements of small group algebras over GF(2), GF(3) and GF(4), and all small matrices over them",
  "Tests evaluate a handful of elements in one group; inverse and row reduction have group-dependent special cases.",
  [AB],[("GroupRing, RingMember, RingArray","qldpc/abstract.py")])
p("C14","Chain complexes and Cayley complexes satisfy their defining relations",
  "Boundary operators of every chain complex, its dual and every tensor product compose to zero with the dimensions and homology of the definition (Kuenneth formula), and invalid sequences of operators are rejected. A left-right Cayley complex has exactly the vertices, edges and faces given by its group and generator sets, each vertex in the right number of faces, in the double or quadruple cover that was asked for (the former refused exactly when the no-conjugacy condition fails), and the derived subgraphs contain exactly the diagonals of its faces.",
  ["inputs"],"all small chain complexes over several fields and all pairs of symmetric generator subsets of small groups",
  "Tests build a few complexes and check vertex counts.",
  [OB],[("ChainComplex","qldpc/objects.py: class ChainComplex"),("CayleyComplex","qldpc/objects.py: class CayleyComplex")])
p("C15","Named quantum codes are valid and have their advertised parameters",
  "Every quantum code family built from explicit sizes or classical seed codes (five-qubit, Steane, iceberg, C4, C6, surface, toric, generalized surface, hypergraph product, subsystem hypergraph product, Bacon-Shor and subsystem hypergraph product simplex) has commuting X and Z stabilizers, the number of qudits, logical qudits and (X-, Z- and overall) distance that its definition promises, and canonical logical operators that are valid. Parameters reported without computation equal the ones computed from the parity checks, over every supported field.",
  ["configurations","inputs"],"all sizes, variants (rotated or not, periodic or not), fields and all small classical seed codes in bounds",
  "Tests check one size per family and trust the stored dimension and distance.",
  [QQ],[("code families with stored parameters","qldpc/codes/quantum.py")])
p("C16","Named classical codes have their advertised length, dimension and distance",
  "Repetition, ring, Hamming, extended Hamming, Reed-Solomon, BCH, Reed-Muller, simplex and random codes have, for every admissible size and field, the block length, dimension, distance and check structure that define the family, and sizes outside the documented range are rejected.",
  ["configurations"],"all sizes and fields in bounds",
  "Tests check one or two sizes in the binary case.",
  [CL],[("classical code families","qldpc/codes/classical.py")])
p("C17","Quasi-cyclic and bivariate bicycle codes match their polynomials and layouts",
  "The checks of a quasi-cyclic code are exactly the circulants of its two polynomials with opposite orders of multiplication, for any number of variables, orders and field, and equal polynomials up to variable names give the same code. Lattice labels, positions and neighbour shifts of a bivariate bicycle code are consistent with its checks for every stabilizer and data qubit, and every reported toric layout or change of basis yields a code with the same parameters whose chosen neighbours are nearest neighbours.",
  ["configurations","inputs"],"all orders and all polynomial pairs up to the stated numbers of terms and degrees",
  "Tests check two published codes; index arithmetic modulo the orders fails only for particular shapes.",
  [QQ],[("QCCode, BBCode, TBCode","qldpc/codes/quantum.py")])
p("C18","Lifted-product and quantum Tanner codes are valid and survive save and load",
  "Every lifted product, subsystem lifted product, two-block and quantum Tanner code constructed from admissible inputs has the check matrices its definition gives, with X checks commuting with Z checks unless it is a subsystem code, and lifted products over the trivial group equal hypergraph products. A quantum Tanner code written to a file and read back is equal to the original with identical checks, and two quantum Tanner codes compare equal exactly when their defining data agree.",
  ["inputs","configurations"],"all small seed matrices over small group algebras and all small groups, generator subsets and seed codes",
  "Tests build two examples; commutation for unusual groups, conjugations and seeds is not swept.",
  [QQ],[("LPCode, SLPCode, TBCode, QTCode, HGPCode","qldpc/codes/quantum.py")])
p("C19","Encoding, logical and transversal circuits implement what they claim",
  "The encoding circuit of every qubit stabilizer or subsystem code maps single-qubit X and Z on the designated input qubits to the code's logical (and gauge) operators and Z on the remaining qubits to its stabilizers, all with positive sign. The logical tableau extracted from a physical tableau is the action of that operation on the logical qubits, and every transversal circuit returned for a logical tableau preserves the code space and implements exactly that tableau, being found whenever one exists within the allowed gates and permutations.",
  ["inputs","programs"],"every stabilizer code of the bounded sizes, all single- and two-gate physical circuits, all one-qubit logical Cliffords and gate sets",
  "Tests check a few codes; wrong signs and orderings of qubits only show on particular codes.",
  [CI],[("encoders, logical tableaus, transversal automorphisms","qldpc/circuits.py")])
p("C20","The disk cache never changes results",
  "A function with results cached on disk returns, for every sequence of calls, argument spelling, restart, concurrent process or failure in between, the value the function itself returns for those arguments. A call that fails or is interrupted leaves no value behind that a later call would return, distinct arguments never share an entry, and with caching disabled nothing is read or written.",
  ["histories","crash_points","schedules"],"all call sequences up to a bounded depth over a small set of argument spellings, with restarts, injected failures and interleavings of two processes at every cache operation",
  "Tests cache one value once; key collisions and failures between compute and store are not exercised.",
  [CA],[("use_disk_cache, get_disk_cache","qldpc/cache.py")])
p("C21","External group and code databases are read back exactly",
  "Group generators, group names, code parity checks and idempotents obtained from the external algebra system or website are exactly the ones in its reply, for every reply of the documented format, and answers already known locally are used without external access. When a source is missing or unusable, the next source is tried, and if all fail the caller gets an error instead of a wrong group or code.",
  ["inputs","fault_sequences"],"all replies generated from a bounded grammar of the documented formats and all combinations of source failures",
  "The external programs are absent in tests, which mock one reply each.",
  ["qldpc/external/groups.py","qldpc/external/codes.py","qldpc/external/gap.py"],[("reply parsers and fallbacks","qldpc/external/*.py")])
p("C22","Estimated logical error rates are consistent with the sampled errors",
  "For every outcome of sampling, the logical error rate estimator samples only errors of the stated weight, counts as failures exactly the samples whose correction leaves a logical error (or a wrong word), and combines them into a rate between zero and one that is zero at zero physical error rate, with the standard error implied by the samples. When sampling happens to visit all errors of each weight equally, the rate equals the exact failure probability up to the truncation weight; physical rates above the declared maximum are rejected.",
  ["inputs","schedules"],"all outcomes of the random choices for small codes and sample budgets, all error-rate grid points",
  "Tests only check that the function runs and gives something smaller than one.",
  [CC],[("get_logical_error_rate_func","qldpc/codes/common.py: ClassicalCode, CSSCode")])
p("C23","Seeded random constructions are reproducible and satisfy their contract",
  "Every randomised constructor (random codes, words, group members, symmetric subsets, random quantum Tanner codes) returns an object satisfying its documented contract for every seed and every outcome of its random choices. Calling it again with the same seed gives the same object, irrespective of what was drawn in between, and seeding one construction does not disturb unrelated global random state where the library promises to restore it.",
  ["inputs","schedules"],"all seeds in a bounded range, all outcomes of a controlled random source, all orders of interleaving with other draws",
  "Tests use one seed per constructor.",
  [CC,AB,QQ],[("get_random_array, random constructors","qldpc/codes/common.py"),("random_symmetric_subset","qldpc/abstract.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    n=x["statement"].count(". ")+1
    if n>3 or len(x["title"])>80: print(x["id"],n,len(x["title"]))
