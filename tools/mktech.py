import json
B="static analysis (path-partitioned abstract interpretation over interned value-flow terms, no execution): "
T={
"C01":"ownership and escape analysis: lists and tuples the caller passes in are abstract objects owned by the client; no event on any path writes one, and none is reachable from the circuit afterwards",
"C02":"effect analysis and value numbering: every heap location of a circuit with an arbitrary symbolic history is the same term after every inspection and run; the results of two runs have equal value numbers",
"C03":"effect analysis: every write event of every operation is classified by the owner of its target; class attributes, module variables, defaults and memo tables shared by circuits must not be written or must be keyed completely; two circuits interleaved are compared with each alone",
"C05":"value numbering of the layer list after each operation on a circuit with an arbitrary symbolic history against a reference client program; product order of symbolic layers in the evaluation loop",
"C06":"pointwise comparison of the segments of each new layer (before, between, after the operands) with those of a reference client program, for a symbolic number of registers and symbolic operands",
"C07":"typestate over path conditions: unmeasured histories have only raising paths of run, measured ones have only refusing paths of every adding operation and no write events",
"C08":"frame conditions by value numbering: on every raising or refusing path all locations of the circuit are the terms they were; the returned value is compared with whether the gate list changed",
"C09":"path-condition entailment: every accepting path of every operation implies that the registers are in range and distinct, and no rejecting path is consistent with legal registers",
"C10":"path-condition entailment on accepting and raising paths of the constructor, and value flow of levels and dimensions into the initial state vectors",
"C11":"value numbering: circuits built from (n, d) and from the list of n times d are compared location by location, for symbolic n and d",
"C12":"value flow: every operation on states and matrices has the selected backend as its receiver, over symbolic histories, all small circuits and parsed texts; each backend class in turn",
"C13":"each backend operation reduced to the normal form of a matrix expression and compared between backends; method sets compared",
"C14":"module-import evaluation under a machine model in which the GPU library does not import; raising on every selecting path",
"C15":"dominance: every path yielding a custom matrix passes the unitarity and size tests, whose normal forms are compared with U times its conjugate transpose",
"C16":"matrix denotation: symbolic entry functions with mixed-radix digit tables, compared by congruence normal forms",
"C17":"matrix denotation: symbolic entry functions in congruence normal form",
"C18":"matrix denotation: entries in root-of-unity normal form",
"C19":"symbolic sparse columns pushed through the output stage; polynomial normal forms of reported values against the amplitudes",
"C20":"symbolic sparse columns at mixed-radix positions pushed through the output stage; reported digits compared with those the position was built of",
"C21":"symbolic texts parsed abstractly; the trace of gate calls compared with the lines",
"C22":"symbolic texts parsed abstractly; operand roles of every gate call compared with the written numbers",
"C23":"symbolic texts parsed abstractly; dimension vectors compared element by element",
"C24":"census of all small circuits (every operation on every register, depth two and long) over symbolic dimensions compared with the operations made",
"C25":"drawings of all small circuits in a symbolic-text domain compared, column by column, with the operations made",
"C26":"effect analysis over a file-system model: opening, writing, renaming and removing are events of a path; exit statuses compared with the header of each file",
"C27":"fault analysis over a file-system model: parsing, running and recording are recorders that raise in chosen files; event order and value-flow of results on every path",
"C04":"effect and dependence analysis: no value of a result and no branch condition depends on a source of nondeterminism, no iteration follows the order of a set",
}
json.dump({k:{"technique":B+v} for k,v in T.items()},open('/tmp/gen/tech.json','w'),indent=1)
