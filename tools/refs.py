# How each property is decided: what the contracts say, and the reference the bounded stand-in compares with.
REFS = {
'C01': "Read's loop invariant ties the traces read so far to the rows read so far (a ghost sequence of rows, advanced at each `csv.Reader.Read`); parseRow's postcondition gives name, prefix and forbidden event by position from the cells' text through Event.UnmarshalText's contract. Tests sample a few files; the contract covers every number of rows and cells. Assumed: encoding/csv splits text into rows. Bounded reference: an independent CSV writer and parser, files with quotes, blanks, colons and malformed cells at any position.",
'C02': "Name's postconditions (distinct names, every trace under exactly one, own name kept if free) are proved with ghost injection/inverse functions from positions to names; synthesiseName's postcondition says which names it can make. Bounded reference: a re-implementation by exhaustive search over short lists with clashing names.",
'C03': "Forbidden.Expand is proved by its loop invariant over `chain(node, t, i, name)`, a recursive logic predicate; validity of the tree follows from `chain`. ExpandAll is proved with TryOverMapValues/OverMap inlined. Bounded: structural comparison on all traces up to length 4.",
'C04': "`chainOf(r, k)` says, on the real node objects, that r is a chain of k inconclusive, one passing and one failing node. Collapse accepts iff some k exists and returns that chain's events (loop invariant over position p in the chain, `down(r, p)`); CollapseAll by its map loop; lemma CollapseExpand calls Expand and Collapse through their contracts and concludes the round trip, by lemma ExpansionDown (induction). Bounded: random trees, mutated chains.",
'C05': "`okTree(n, root)` is the recursive meaning of well-formedness. Full's postcondition `err == nil <==> okTree(root, root)` is proved through Walk's loops (inlined, with the visitor closure) with invariants about the stack of pending nodes: root is well formed iff all pending nodes are. FullSuite by its map loop. Crash freedom: all safety obligations on the way. Bounded: random trees with every single-field mutation.",
'C06': "Ghost `visited` is the list of nodes given to the visitor so far; ghost `pending` says for each height of the stack what pre-order remains below it; `preorder(n)` is the recursive definition. Walk's invariant: visited + rest = preorder(root). No call happens after an error (`at function`). The visitor is an arbitrary function of the node (so is its error) that leaves alone what Walk reads; visitors that change continuations are outside the property. MarkAll (Walk and the closure inlined): ghost set of visited nodes, which contains the root, is closed under continuations, and whose members are all marked. Bounded: every tree shape up to 7 nodes, random trees, visitors failing at every position; reference: recursive pre-order.",
'C07': "BuildMany and BuildSuite state each of these for every machine, with the maps of one machine carried over the building of the next (machines do not share storage). `order(root)` is the recursive definition of the live nodes in the order in which the builder visits them; Builder.Build's certificate says that the states are those of nodes whose letters make up `order(root)` (ghost `nodeOf`, `upto`; ghost `pending` per height of the stack). Further contracts on the same function (aspects): each state's transition sets have distinct channels, and ghost maps between continuations and positions in the sets are inverse of one another, with values and targets; different states have different nodes and, for a tree without identifiers, different identifiers, and every live continuation has a state. Callee contracts: buildState, ensureNodeID, AddToSets. Bounded: builds machines from enumerated and random valid trees (also twice in one go) and compares with a recursive reading of the tree.",
'C08': "Ghost `who` gives for each state and test name the last continuation naming it (or none); the verdict has exactly the names with one, with its outcome; ghost `wit` gives for each name of the machine's tests a state with such a continuation, and no name outside has one. Proved for Builder.Build by its loop invariants over buildState's contract. Verdict's queries return exactly the matching names. Bounded: as C07, verdicts recomputed from the tree.",
'C09': "Unify is proved to be the least upper bound of its arguments in the stated order (so the result of folding is order-independent: lemmas of commutativity, associativity, idempotence). `covers(t, v)` says what a type covers and `attains` that it is no larger than its values need. Builder.Build (aspect types): a channel is in the type map iff a live continuation's event has it, its type covers every value on it, and a witness attains it; it fails only if some channel carries unrelated values. BuildMany and BuildSuite: the same for each machine and, through unifyTypes, for the suite. Bounded: random suites, types recomputed by brute force over all orders of tests.",
'C10': "All text forms are proved against one definition each, and round trips are lemmas over the contracts of Marshal and Unmarshal. Bounded: enumerated keywords in all letter cases, random texts, real strconv and strings.",
'C11': "Exact postconditions of Equals functions; IsPrefixOf's loop invariant. Bounded: all pairs from a pool.",
'C12': "Proved with ghost maps between (state, position in the machine) and (aggregate, position in the view), inverse of one another; first use by a ghost order; populateFilters' and makeTransitions' loops by invariants over the aggregates done so far. The precondition goodMachine (distinct state names, distinct channels in each state) is what Builder.Build guarantees; for other machines the view is only checked by the bounded harness: random machines, per state multisets.",
'C13': "Not expressible as a contract on Go code: the property speaks of the behaviour of the C++ text that templates produce; no contract language here relates template text to C++ semantics. Bounded only: random machines of the stated class are generated, compiled with g++ against a small ROS stub, driven with random event sequences and compared with an interpreter of the machine.",
'C14': "ChannelMap: last entry per channel (loop invariant with a ghost index); Process: exact maps and flags. Bounded: random configurations.",
'C15': "Field by field postconditions of Autofill and Expand, idempotence as a lemma, and generateTest's assertion `at` the encoder's call that metadata is the expansion of the configuration for that very test. Bounded: random packages, suites with several tests.",
'C16': "Bounded: random suites, variants and pre-existing obstacles in a scratch directory; the set of files written is compared with the list the property gives; unwritable targets must give errors. All inside a scratch directory, with the output directory deep enough that '..' stays within it.",
'C17': "Exact postconditions over strings as sequences of characters; injectivity where claimed. Assumed: unicode.IsUpper/IsLower/ToUpper/ToLower as functions. Bounded: random identifiers including non-ASCII.",
'C18': "Trace.Equals and the direction predicates are proved; grouping is bounded: random trace sets, reference by definition.",
'C19': "Argument handling and -clean's safety are proved: ParseFileArgument, OpenFileOrStdin, HandleError, parseArgs of each tool; checkClean/maybeClean: `at os.RemoveAll` the directory is neither the working directory nor an ancestor of it (file system as uninterpreted functions of paths). Bounded: the real binaries with every argument shape, scratch directories, unprivileged user.",
'C20': "Bounded: random suites written and read back by the real encoders; mutated JSON must be rejected. encoding/json's reflection is outside the verifier.",
'C21': "Generic contracts over an abstract element type; the stack's storage is part of the contract so that a caller's frame can be proved. Bounded: random operation sequences against a slice and a map.",
}
CATCH = {}
