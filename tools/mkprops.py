#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant},
      "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})

KERN = ["bkernel.go", "hkernel.go", "buddy.go", "hudd.go"]

prop("C01", "Binary operations compute their documented truth table",
 "For every two nodes of a BDD and each of the ten binary operators, Apply returns a node that denotes the pointwise combination of the two functions by the operator's documented truth table; And, Or, Imp and Equiv agree with it, And and Or for any number of operands. This holds whatever the operation caches and the node table contain from earlier operations.",
 ["inputs", "histories"], "all operand functions, all ten operators, all reachable node tables and cache contents",
 "Existing tests evaluate a few dozen concrete formulas, mostly with and/or/imp; a wrong OPdiff table entry leaves all of them passing. Operand pairs x operators x cache contents is not a space a test samples usefully.",
 ["operations.go", "operator.go", "bdd.go", "cache.go"],
 [("terminal cases per operator", "operations.go:(*BDD).apply"), ("truth table opres", "operator.go"), ("memoisation by (left,right,op)", "cache.go:matchapply/setapply")],
 observe=["value of the returned Node on every assignment"])
prop("C02", "Negation and if-then-else are exact",
 "Not(n) denotes the complement of n, and Ite(f,g,h) denotes (f and g) or (not f and h), for all nodes f, g, h of the BDD. This holds whatever the operation caches and the node table contain from earlier operations.",
 ["inputs", "histories"], "all operand functions and triples, all reachable tables and cache contents",
 "TestIte checks one identity on one triple; Not is only used on variables by the tests.",
 ["operations.go", "cache.go"],
 [("recursion on the smallest of three levels", "operations.go:(*BDD).ite, iteLow, iteHigh, min3"), ("shared apply cache for negation", "cache.go:matchnot/setnot")])
prop("C03", "Existential quantification is exact",
 "Exist(n, s) denotes the existential quantification of n over exactly the variables in s, for every node n and every variable set s built by Makeset, the empty set included (where the result is n). It does not depend on which quantifications were done before, nor on how many.",
 ["inputs", "histories"], "all functions, all variable sets, any number of earlier quantifications (including the wrap-around of internal counters)",
 "The Milner test quantifies over one fixed set of variables; no test uses the empty set or reaches a counter wrap-around at 2^31.",
 ["operations.go", "cache.go"],
 [("stop after the last quantified level", "operations.go:(*BDD).quant"), ("variable-set stamps", "cache.go:quantset2cache"), ("memoisation by (n,varset,id)", "cache.go:matchquant/setquant")],
 state=[("quantset/quantsetID/quantlast", "which variables are being quantified", "cache.go:quantcache")])
prop("C04", "AppEx and AndExist equal apply-then-quantify",
 "AppEx(a, b, op, s), for op among and, xor, or, nand, denotes the existential quantification over s of (a op b), for all nodes a, b and all sets s built by Makeset, the empty set included; AndExist is the case op = and. Unsupported operators give a nil node and set the error status.",
 ["inputs", "histories"], "all operand pairs, four operators, all variable sets, all cache contents left by earlier Apply, Exist and AppEx calls",
 "The tests use AndExist only, with one variable set per BDD; xor, or and nand, and mixing operators on one BDD, are never exercised.",
 ["operations.go", "cache.go"],
 [("terminal cases and switch to apply below the last quantified level", "operations.go:(*BDD).appquant"), ("cache ids combining varset and operator", "operations.go:(*BDD).AppEx, cache.go:matchappex/setappex")])
prop("C05", "Replace substitutes variables exactly, or refuses",
 "Replace(n, r), for r made by NewReplacer(old, new), denotes n with every variable old[k] substituted by new[k] simultaneously, including when this changes the order of variables. Only if some old[k] and its new[k] both occur in n may the call instead be refused, with a nil result and the error status set; it never panics and never returns a node for another function.",
 ["inputs", "histories"], "all functions, all replacers over the variables, several replacers used on one BDD",
 "The Milner test uses a single order-preserving replacer; order-changing renamings, clashes and alternating replacers are not tested.",
 ["operations.go", "replace.go", "cache.go"],
 [("re-establish the variable order", "operations.go:(*BDD).correctify"), ("renaming of one level", "replace.go:(*replacer).Replace"), ("memoisation by (n, replacer id)", "cache.go:matchreplace/setreplace")])
prop("C06", "Canonical form: equal functions are equal nodes",
 "At all times two live nodes of one BDD denote the same Boolean function if and only if they are the same node: every node has distinct branches, its variable comes strictly before those of its branches, and no two nodes have the same variable and branches. Creating a node, garbage collection and growth of the table preserve this in both implementations.",
 ["histories", "configurations"], "all reachable node tables, both build configurations, node creation with and without collection or growth",
 "Tests compare a few final results; a duplicate or unordered node appears only after particular collections, hash collisions or table growths.",
 KERN + ["bdd.go"],
 [("unique-table lookup before creation", "bkernel.go/hkernel.go:makenode"), ("rehash on collection and growth", "bkernel.go:gbc,noderesize; hkernel.go:gbc,noderesize"), ("distinct keys for distinct nodes", "hudd.go:huddhash; buddy.go:nodehash,ptrhash")],
 state=[("unique / hash chains", "unicity table", "hudd.go, buddy.go:tables")])
prop("C07", "Node creation yields exactly the requested node",
 "Makenode(level, low, high) returns low when low equals high, and otherwise a node whose variable, low branch and high branch are exactly those given; it returns an existing node if there is one and never one with different contents, for every index the machine integer can hold. Nodes that existed before and are still in use keep their contents.",
 ["inputs", "histories"], "all levels and 64-bit branch indices, all table states",
 "Key truncation or a lost field shows only for indices far above any test's table size, or for particular hash collisions.",
 KERN + ["bdd.go", "cache.go"],
 [("key encoding", "hudd.go:huddhash"), ("chain comparison", "bkernel.go:makenode"), ("free-list allocation", "hudd.go:setnode; bkernel.go:makenode")])
prop("C08", "Garbage collection keeps every node in use",
 "A garbage collection never reclaims or alters a node that is reachable from a live Node handle, from one of the variables or their negations, from the two constants, or from a node protected by an operation in progress. The functions denoted by all live handles are unchanged by collection and table growth.",
 ["histories", "schedules"], "all node tables, all sets of live handles and protected nodes, both implementations",
 "Whether a collection destroys something in use depends on the shape of the table and where the collection falls; tests fix both.",
 KERN,
 [("mark from handles and the reference stack", "bkernel.go/hkernel.go:gbc,markrec"), ("reference counts", "bkernel.go/hkernel.go:Retnode")],
 state=[("refcou", "external references of a node", "buddynode, huddnode"), ("refstack", "nodes protected by the running operation", "bdd.go:BDD")])
prop("C09", "Garbage collection reclaims exactly the unused nodes",
 "After a collection every node not in use is free, the free slots are each listed once and counted exactly, and a free slot handed out is never a slot in use. Slots of the node table are neither lost nor duplicated by collection, creation or growth, so a bounded working set never exhausts the table.",
 ["histories"], "all node tables with any mixture of live, dead and free nodes, both implementations",
 "Lost slots or marks left behind by earlier calls only slow a test down or show after very long runs; no test looks at the free list.",
 KERN,
 [("sweep and rebuild of the free list", "bkernel.go/hkernel.go:gbc"), ("unmarking after traversal", "bkernel.go/hkernel.go:unmarknode,unmarkall"), ("free-list rebuild on growth", "bkernel.go/hkernel.go:noderesize")],
 state=[("freepos/freenum", "head and length of the free list", "hudd.go, buddy.go:tables")])
prop("C10", "The node table grows as configured",
 "When a collection leaves at most the configured percentage of free nodes, the table is enlarged: doubled, but by no more than Maxnodeincrease nodes and to no more than Maxnodesize nodes when these are set. Growth keeps every node and its index, and the table is never enlarged beyond the limits.",
 ["configurations", "histories"], "all combinations of sizes and limits within stated bounds, all table contents",
 "The tests never set Maxnodesize, Minfreenodes or (outside benchmarks) Maxnodeincrease.",
 KERN + ["config.go"],
 [("growth policy", "bkernel.go/hkernel.go:noderesize"), ("threshold test", "bkernel.go/hkernel.go:makenode"), ("options", "config.go")])
prop("C11", "Running out of nodes is an error, never a wrong result",
 "An operation that would need more nodes than Maxnodesize allows (or than can be allocated) returns a nil node and sets the error status; it does not panic and no call ever returns a node denoting a wrong function because of it. Nodes held by the user stay valid, and an operation is not refused while a free slot is available for each node it creates.",
 ["fault_sequences", "histories"], "failure of any node creation inside any operation",
 "No test ever reaches a limit; the failing allocation can be any of those inside a recursive operation.",
 KERN + ["bdd.go", "operations.go", "config.go"],
 [("failure propagation", "bdd.go:Makenode; operations.go"), ("limit check", "bkernel.go/hkernel.go:noderesize")])
prop("C12", "Operations survive a collection at every allocation",
 "For every operation and every node creation inside it, the operation gives the same result if a garbage collection or a table growth happens at that point. No intermediate result of an operation is lost or replaced, and no result from before the collection that may have become invalid is used after it.",
 ["schedules", "inputs"], "all operations, collection at any subset of the node creations in it",
 "Collections fall where the table happens to fill up; a missing protection shows only for particular sizes and operands.",
 ["operations.go", "bdd.go"] + KERN,
 [("reference stack discipline", "bdd.go:Initref,Pushref,Popref; operations.go"), ("cache invalidation on collection and growth", "bdd.go:Makenode")],
 state=[("refstack", "nodes protected by the running operation", "bdd.go:BDD")])
prop("C13", "Operation caches never change a result",
 "A cached result is reused only for the same operation with the same arguments, and never after a collection or growth that could have invalidated it. Operations of different kinds, operators, variable sets or replacers never see each other's cached results, for every cache size, cache ratio and node index.",
 ["histories", "configurations"], "all cache sizes, all pairs of stores and lookups, all node indices, collections and growth in between",
 "A key missing one component or a stale entry shows only when two particular calls collide in one cache slot.",
 ["cache.go", "bdd.go"],
 [("full-key comparison", "cache.go:match*/set*"), ("reset and resize", "cache.go:cachereset,cacheresize; bdd.go:Makenode"), ("hash into table", "cache.go:_TRIPLE,_PAIR")])
prop("C14", "A node lives as long as a handle to it does",
 "A node stays protected from collection while at least one Node handle for it is live, for any number of handles created (thousands included) and any order in which they are created and dropped. Once all its handles are dropped, a node that never had more than a thousand handles at once becomes reclaimable, and the reference count of a node is never negative.",
 ["histories"], "any sequence of handle creations and finalisations, any counter value up to saturation",
 "The counter saturates at 1023; no test creates that many handles of one node and then drops some.",
 ["bkernel.go", "hkernel.go", "buddy.go", "hudd.go", "kernel.go"],
 [("count and finalizer", "bkernel.go/hkernel.go:Retnode; nodefinalizer in buddy.go/hudd.go")])
prop("C15", "Finalizers running concurrently do not corrupt the BDD",
 "Handles are released by the Go runtime in another goroutine at arbitrary moments: for every interleaving with the creation of handles and with growth of the table, no reference is lost and none is counted twice. Internal locks are released on every path and never block an operation forever.",
 ["schedules"], "all interleavings of one handle release with handle creation, node creation, collection and growth",
 "The release runs at the whim of the Go runtime; a lost update needs a preemption between two machine instructions.",
 ["bkernel.go", "hkernel.go", "buddy.go", "hudd.go"],
 [("locking of the reference counts", "hudd.go:nodefinalizer, hkernel.go:Retnode; buddy.go, bkernel.go")])
prop("C16", "Satcount counts satisfying assignments exactly",
 "Satcount(n) is the number of assignments of all Varnum variables that satisfy n, for every node n, including constants, nodes that skip variables, and numbers of variables for which the result exceeds machine integers. The count changes neither the BDD nor later counts.",
 ["inputs"], "all node shapes within stated bounds, all level gaps",
 "Tests count a handful of formulas; sharing combined with skipped levels is not sampled systematically.",
 ["operations.go"], [("weights 2^(level gap) and memoisation", "operations.go:satcount")])
prop("C17", "Allsat enumerates exactly the satisfying assignments",
 "Allsat calls its function with a sequence of assignments (0, 1 or don't care per variable) that are pairwise disjoint and together cover exactly the assignments satisfying the node, each slice having length Varnum. If the function returns an error the enumeration stops at once and Allsat returns that error.",
 ["inputs", "fault_sequences"], "all node shapes, a callback failing at any call",
 "TestOperations discards the result of its own Allsat check, and no test returns an error from the callback.",
 ["operations.go"], [("profile and don't-care reset", "operations.go:allsat")])
prop("C18", "Allnodes visits each accessible node exactly once",
 "Allnodes(f, roots...) calls f exactly once for every non-constant node reachable from the roots, with its id, level and branches, and for no other; without roots it calls f once for every active node, constants included. If f returns an error the traversal stops and returns it, and in all cases the BDD is left as it was before.",
 ["inputs", "fault_sequences"], "all tables, all sets of roots, a callback failing at any call",
 "The example counts nodes of one BDD; leftovers of an aborted traversal show only in a later collection or traversal.",
 KERN + ["operations.go"], [("mark, visit, unmark", "hudd.go/buddy.go:allnodes,allnodesfrom; markrec, unmarkall")])
prop("C19", "Invalid arguments give nil and an error, never a panic",
 "Every operation given a nil Node or a node index that does not designate a live node returns nil (a zero count, an error value, or -1 where the result is not a node) and sets the error status, without panicking and without changing any node. The error status, once set, stays set and is reported by Error and Errored, while operations on valid nodes keep working.",
 ["inputs"], "all operations, each operand position, nil and any out-of-range or freed index",
 "No test passes an invalid operand.",
 ["bdd.go", "operations.go", "errors.go"], [("operand validation", "bdd.go:checkptr"), ("error recording", "errors.go:seterror")])
prop("C20", "Variables, constants and accessors are faithful",
 "Ithvar(i) and NIthvar(i) denote variable i and its negation for 0 <= i < Varnum and give nil with the error status set for every other integer; True, False and From are the constants. For every non-constant node n, Label, Low and High give the variable and the two branches of n, so that n equals Ite(Ithvar(Label(n)), High(n), Low(n)); Equal(a, b) is true exactly when a and b are the same node.",
 ["inputs"], "all machine integers, all nodes",
 "Tests use in-range indices only; conversions to smaller integer types misbehave only for huge arguments.",
 ["bdd.go"], [("range checks", "bdd.go:Ithvar,NIthvar"), ("accessors", "bdd.go:Label,Low,High,Equal")])
prop("C21", "Makeset, Makecube and Scanset are faithful",
 "Makeset(s) denotes the conjunction of the variables in s for every slice of valid variables, in any order and with repetitions, and Scanset(Makeset(s)) is the sorted list of the variables in s; Makecube denotes the conjunction of literals with the given polarities for increasing s, and over all the variables when s is empty. A variable outside [0..Varnum), or lengths that differ, gives an error status and no conjunction (False from Makeset, nil from Makecube).",
 ["inputs"], "all slices up to a stated length over all machine integers, all polarities",
 "Tests use a few sorted in-range sets; Makecube is not tested at all.",
 ["operations.go"], [("bottom-up construction", "operations.go:Makeset,Makecube"), ("high-branch walk", "operations.go:Scanset")])
prop("C22", "NewReplacer accepts exactly the well-formed renamings",
 "NewReplacer(old, new) succeeds if and only if the slices have the same length, all values are in [0..Varnum), neither slice has a repetition, and no variable of new is also in old (unless renamed to itself); otherwise it returns an error without panicking. A replacer maps old[k] to new[k] and any other variable to itself, and different replacers never have the same identifier.",
 ["inputs"], "all pairs of slices up to a stated length over all machine integers",
 "Tests build one valid replacer.",
 ["replace.go"], [("validation", "replace.go:NewReplacer"), ("lookup", "replace.go:(*replacer).Replace")])
prop("C23", "A new BDD is well formed for every configuration",
 "New(varnum, options...) succeeds for every 1 <= varnum <= 2^21-1 and rejects every other integer with an error; the result has Varnum variables, whose positive and negative nodes are permanently protected, and a consistent node table of at least the requested size. The options (node size, cache size, cache ratio, free-node ratio, size and growth limits) take effect as documented and never change the result of an operation.",
 ["configurations"], "all integers for the number of variables (rejection), all combinations of options within stated bounds",
 "Tests create BDDs with a dozen fixed configurations.",
 ["config.go", "hudd.go", "buddy.go", "cache.go", "primes.go"], [("initialisation", "hudd.go/buddy.go:New"), ("options", "config.go"), ("table sizes", "primes.go")])
prop("C24", "Print and Dot describe exactly the nodes of the BDD",
 "Dot writes one vertex for every non-constant node reachable from its arguments (all active nodes if there are none), labelled with its variable, and one edge for each branch that is not False, dotted for low and solid for high; Print writes one row per such node, in increasing order of ids, with its level and branches, or True or False for a constant. An error status or an invalid node is reported instead of a description.",
 ["inputs"], "all tables within stated bounds, all sets of roots",
 "No test looks at the output of Print or Dot.",
 ["stdio.go"], [("row sorting", "stdio.go:Print,printSet"), ("edges", "stdio.go:Dot")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
