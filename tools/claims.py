C["P10"] = ("resolved call graph with class-hierarchy edges; cycle and reachability rules", "other",
  "Sound over the call graph of every monomorphic instance reachable from parse, print and all library callbacks at opaque user types; trusts the compiler's resolution and that delegation to a wrapped inner value is bounded by Rust type nesting.")
C["P30"] = ("type-level query over every cast in the compiler's generic intermediate representation", "other",
  "Every pointer cast, .cast() and transmute in library, macro and derived code, for all type parameters; trusts Rust's documented layout guarantees. Derived code is represented by the witness shapes.")
C["P31"] = ("inventory of statics, manual Send/Sync impls and process-wide effects over the compiler's representation", "other",
  "Complete inventory of miniserde, itoa, ryu and generated code; the compiler's own mutability verdict per static; trusts core/alloc/std.")
C["P32"] = ("two-configuration comparison of the compiler's crate graph, items and function bodies", "other",
  "Compares every function body, static and impl between the two configurations and inspects the no-std crate graph; complete for both feature configurations.")
C["P33"] = ("compile-fail witnesses with compiling twins, and a lint of result lifetimes in every nameable signature", "other",
  "137 pairs over every public borrow-carrying API and every library and derived target type; the borrow checker decides each; every function a user can name is also inspected: a result whose lifetime no argument bounds may not come from unsafe code.")
C["P34"] = ("compile-fail witnesses with compiling twins over the enumerated shapes and attributes", "other",
  "160 pairs enumerating the unsupported shapes and attribute forms for both derives; the compiler's expansion decides each.")
C["P17"] = ("abstract interpretation of the compiler's intermediate representation: interval and tag domain, every integer target times every delivered value", "other",
  'Every fixed-width integer target, all delivered integers as one interval each; acceptance set and stored value are compared with the exact range. Trusts the models of core/alloc functions.')
C["P18"] = ("abstract interpretation of the compiler's intermediate representation: tag and interval domain, every scalar target times every JSON kind", "other",
  'Every library scalar target against all eleven callbacks, fresh and filled slot; payloads are abstract. Trusts the models of core/alloc functions.')
C["P19"] = ("abstract interpretation of the compiler's intermediate representation: lock-step simulation of wrapper and inner visitor, opaque inner type", "other",
  'Every callback forwarded through Box and Option to an opaque inner target, every fragment kind through &T, Box, Cow and Option; generic inner type stands for all.')
C["P20"] = ("abstract interpretation of the compiler's intermediate representation: history typestate of sequence builders to a fixpoint, opaque elements", "other",
  'Every history of element success, refusal, panic and drop; vector-like targets by an inductive summary of stored elements, arrays at lengths 0, 1, 2, 3, 5, 9, 17 and 40.')
C["P21"] = ("abstract interpretation of the compiler's intermediate representation: one typestate per element slot, all histories including unwinding", "other",
  'Array lengths 0, 1, 2, 3, 5, 9, 17 and 40 stand for every length (the code is generic in N and compares only with it); every panic and drop point.')
C["P22"] = ("abstract interpretation of the compiler's intermediate representation: history typestate of map builders to a fixpoint, opaque keys and values", "other",
  'Every history of keys (known, repeated, unparsable), values and drops against an abstract map; the map collection is a trusted model.')
C["P23"] = ("abstract interpretation of the compiler's intermediate representation: variant-per-callback and fragment-per-variant tables", "other",
  'Each JSON kind into the value tree and back, both directions over abstract payloads.')
C["P24"] = ("abstract interpretation of the compiler's intermediate representation: effect analysis of the ignoring target over all callback histories", "other",
  'Every callback, sequence and map history of the ignoring target; result must be success and the effect set empty.')
C["P25"] = ("abstract interpretation of the compiler's intermediate representation: history typestate of the derive's expansion, opaque field types", "other",
  'Struct shapes from empty to 300 fields (79 unusual field names, generic, optional, zero-sized fields) stand for every derived struct; every key history (large shapes along chosen key orders).')
C["P26"] = ("abstract interpretation of the compiler's intermediate representation: stream typestate of the derive's expansion, opaque field types", "other",
  'Fourteen struct shapes (up to 300 fields, 79 unusual names) stand for every derived struct; names are compared with what deserialization looks for.')
C["P27"] = ("abstract interpretation of the compiler's intermediate representation: decision table of the derive's expansion over name partitions", "other",
  'Six enum shapes (up to 300 variants, 79 unusual names) stand for every derived enum; names, non-names and all other kinds.')
C["P28"] = ("abstract interpretation of the compiler's intermediate representation: stream typestate to a fixpoint over an abstract container", "other",
  'Slices, vectors, arrays, pairs, maps, JSON containers; iterators of the standard collections are trusted models.')
C["P29"] = ("abstract interpretation of the compiler's intermediate representation: ownership typestate over every history including unwinding", "other",
  'into_iter of arrays and objects, boxed and optional builders, heap cells, and the cells of the open builders in the parser, with a panic possible in every user call and drop.')
C["P12"] = ("abstract interpretation of the compiler's intermediate representation: printed text in lock-step with the fragments owed", "other",
  "Every finite stream of fragments from hand-written sources, any nesting depth (summary of the open layers); text written is matched against text owed. Trusts models of String, Vec, Box and the itoa/ryu contracts.")
C["P13"] = ("abstract interpretation of the compiler's intermediate representation: symbolic bytes and escape obligations", "other",
  "Every string as value or key: symbolic bytes, the text written must be the quoted original with exactly the bytes that need it escaped. Trusts models of String and slices.")
C["P14"] = ("abstract interpretation of the compiler's intermediate representation: scalar-to-literal table", "other",
  "Every library scalar type to its fragment and every scalar fragment to its text; digits of numbers are itoa's and ryu's contract.")
C["P15"] = ("abstract interpretation of the compiler's intermediate representation: infeasibility of every panic edge", "other",
  "Every panic, bounds check, character boundary check and overflow check in the printer and the library's sources must be infeasible, for every fragment stream and string below 2^61 bytes.")
C["P16"] = ("abstract interpretation of the compiler's intermediate representation: stream lifetime typestate", "other",
  "Every fragment stream with a panic possible in every user call; streams carry a lifetime typestate, any nesting depth by summary.")
C['P01'] = ("abstract interpretation of the compiler's intermediate representation: reference RFC 8259 automaton in lock-step with the parser over a symbolic text", "other",
  'Acceptance and rejection of every text are compared with the reference automaton. Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.')
C['P02'] = ("abstract interpretation of the compiler's intermediate representation: symbolic decoded text in lock-step with a reference decoder", "other",
  'The pieces given to string() and key() are compared with those of the reference decoder. Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.')
C['P03'] = ("abstract interpretation of the compiler's intermediate representation: provenance of string bytes (raw stretches between character boundaries, encoded characters)", "other",
  'Also for texts that turn out not to be JSON. Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.')
C['P04'] = ("abstract interpretation of the compiler's intermediate representation: symbolic integer value of the literal in lock-step with the parser's accumulator", "other",
  "Digits of any count; value and kind delivered must be the literal's. Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.")
C['P05'] = ("abstract interpretation of the compiler's intermediate representation: symbolic significand and decimal exponent in lock-step with the parser", "other",
  'Scaling is tracked as significand times a power of ten; rounding of the arithmetic and of the power table is outside (P35). Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.')
C['P06'] = ("abstract interpretation of the compiler's intermediate representation: lexicographic progress measures over the graph of loop states", "other",
  'Each cycle of loop states must decrease unread text, open builders or a bounded integer. Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.')
C['P07'] = ("abstract interpretation of the compiler's intermediate representation: infeasibility of every panic edge and out-of-range access", "other",
  'Every overflow check, index, slice and panic reached. Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.')
C['P08'] = ("abstract interpretation of the compiler's intermediate representation: callbacks due per reference automaton, builder protocol typestate", "other",
  'Each callback may fail or panic anywhere. Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.')
C['P09'] = ("abstract interpretation of the compiler's intermediate representation: builder lifetime typestate on every exit including unwinding", "other",
  "Each callback and each builder's drop may panic. Every text up to 1 GiB and every outcome of every callback; loops by joins, open builders by a summary of any depth. Trusts the models of core/alloc functions.")
C['P11'] = ("abstract interpretation of the compiler's intermediate representation: call chains over arbitrary trees, reachability of owned memory", "other",
  'Trees of any shape and depth by summaries of arbitrary nodes; dropped whole or after taking any number of entries out of an owning iterator. A function on the stack a fourth time counts as unbounded recursion. Trusts models of Vec and BTreeMap.')
C['P37'] = ("abstract interpretation of the compiler's intermediate representation: element correspondence between source and result, ownership of memory", 'other',
  'Containers with any number of arbitrary elements known by their place; unknown iterators; every operation compared with the specification. Trusts models of Vec, BTreeMap and String; memory of copies must be their own.')
N = {}
N["P35"] = "numeric error bound of decimal scaling over all 2^64 doubles: a runtime quantity no sound static argument in reach can bound (the scale and sign clauses are P05)"
N["P36"] = "asymptotic time and memory cost is a runtime quantity; the termination clause is P06 and the stack clause P10/P11"
