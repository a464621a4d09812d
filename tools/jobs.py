"""The solver jobs of each property."""

BOTH = ("hudd", "buddy")


def C(fn, tags=BOTH, ops=None, params=None, **kw):
    """modular job: one call from an arbitrary state; counterexamples are confirmed by histories"""
    return [dict(fn=fn, tag=t, kind="modular", ops=ops, params=dict(params or {}), **kw) for t in tags]


def D(fn, tags=BOTH, params=None, ops=None, **kw):
    """direct job: counterexamples are inputs, replayed as they are"""
    return [dict(fn=fn, tag=t, kind="direct", params=dict(params or {}), ops=ops, **kw) for t in tags]


PROPS = {}


def prop(id, jobs, bounds, assumptions=()):
    if any(j["fn"].startswith("V_S_") for j in jobs) and SEQ_TEXT not in bounds:
        bounds += SEQ_TEXT
    PROPS[id] = dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions))


def S(op, hudd=(), buddy=(), fn="V_S_op", **kw):
    """sequences of public calls from a new BDD, with collections between them"""
    js = []
    for tag, ps in (("hudd", hudd), ("buddy", buddy)):
        for p in ps:
            q = dict(p)
            c = q.pop("cost", 8)
            th = q.pop("thorough", None)
            if op is not None:
                q["op"] = op
            js += D(fn, [tag], q, cost=c, wall=300, **(dict(thorough=True) if th else {}))
    return js


SEQ_TEXT = (" Sequences of 2 or 3 public calls from a new BDD with 2 or 3 variables and a table with 1 to 5 spare slots, the last call on any "
            "functions of two levels, with the collections (and growth) that these cause.")
S_APPLY = S(1, [{"V": 2, "N": 8}, {"V": 2, "N": 8, "op0": 0}, {"V": 2, "N": 8, "minfree": 100}, {"V": 2, "N": 9, "operator": 1, "K": 3},
                {"V": 3, "N": 11, "operator": 1, "thorough": 1, "cost": 30}], [{"V": 2, "N": 11, "fill": 3}])
S_NOT = (S(0, [{"V": 2, "N": 8}, {"V": 2, "N": 8, "op0": 1}, {"V": 2, "N": 8, "minfree": 100}], [{"V": 2, "N": 11, "fill": 3}]) +
         S(2, [{"V": 2, "N": 8, "cost": 12}], [{"V": 2, "N": 11, "fill": 3, "cost": 25, "thorough": 1}]))
S_EXIST = S(3, [{"V": 2, "N": 8}, {"V": 3, "N": 10, "sets": 1}, {"V": 3, "N": 10, "sets": 1, "op0": 4, "cost": 13}, {"V": 3, "N": 11, "sets": 1, "K": 3, "op1": 4, "cost": 13},
                {"V": 3, "N": 11, "sets": 1, "K": 3, "set1": 1, "cost": 29}], [{"V": 3, "N": 11, "sets": 1, "fill": 1, "cost": 34}])
S_APPEX = S(4, [{"V": 2, "N": 8, "cost": 16}, {"V": 2, "N": 8, "op0": 3, "cost": 10}, {"V": 2, "N": 9, "operator": 1, "cost": 14}],
            [{"V": 2, "N": 11, "fill": 3, "cost": 22}])
S_REPLACE = S(6, [{"V": 3, "N": 10}, {"V": 3, "N": 10, "rep0": 1}, {"V": 3, "N": 10, "minfree": 100}], [{"V": 3, "N": 11, "fill": 1, "cost": 12}])
S_COUNT = S(7, [{"V": 2, "N": 7}, {"V": 3, "N": 9}], [{"V": 2, "N": 7}])
S_SAT = S(8, [{"V": 2, "N": 7}, {"V": 3, "N": 9}], [{"V": 2, "N": 7}])
S_NODES = S(9, [{"V": 2, "N": 7}, {"V": 3, "N": 9}], [{"V": 2, "N": 7}])
S_MAKE = S(None, [{"V": 2, "N": 7, "K": 4}, {"V": 2, "N": 8, "K": 4, "keep": 1}, {"V": 3, "N": 10, "K": 4, "keep": 1}],
           [{"V": 2, "N": 7, "K": 4}, {"V": 3, "N": 11, "K": 4, "fill": 1, "cost": 9}], fn="V_S_make")


STEP = ("One recursion step of the real function from an arbitrary state: node table of any size below 2^31, 4 levels, any "
        "contents of the operation caches that satisfies the cache invariant, any set of protected nodes; at every allocation the "
        "table may be collected, enlarged or full.")
STEP_ASSUME = [
    "recursive calls and Makenode are replaced by their contracts (Makenode's contract is decided by C06-C11)",
    "hash functions return any index of the table (their range is checked by C13)",
    "Boolean functions are represented by their value at one arbitrary valuation; quantification by an uninterpreted predicate with its defining facts",
]

A = ["apply", "dup"]
prop("C01", S_APPLY +
     C("V_C_apply", ops=A, cost=15) + C("V_C_applyfail", ops=A) + C("V_C_applybad", ops=A) +
     C("V_W_apply", ops=A) + C("V_W_applybad", ops=A) + C("V_W_imp", ops=["imp"]) + C("V_W_equiv", ops=["equiv"]) +
     sum([C("V_W_nary", ops=["and", "or"], params={"n": n, "or": o}) for n in range(5) for o in (0, 1)], []),
     STEP + " And/Or with up to 4 operands.", STEP_ASSUME)
prop("C02", S_NOT +
     C("V_C_not", ops=["not"]) + C("V_C_ite", ops=["ite"], cost=40, timeout=120, wall=200) + C("V_W_not", ops=["not"]) + C("V_W_ite", ops=["ite"]),
     STEP, STEP_ASSUME)
prop("C03", S_EXIST + C("V_C_quant", ops=["exist"], cost=10) + C("V_W_exist", ops=["exist"]) + C("V_C_apply", ops=["exist"], cost=15), STEP, STEP_ASSUME)
prop("C04", S_APPEX +
     C("V_C_appquant", ops=["appex", "andexist"], cost=20) + C("V_C_appquantbad", ops=["appex"]) + C("V_W_appex", ops=["appex"]) +
     C("V_W_andexist", ops=["andexist"]) + C("V_W_appexbad", ops=["appex"]) +
     C("V_C_quant", ops=["appex", "andexist"], cost=10) + C("V_C_apply", ops=["appex", "andexist"], cost=15), STEP, STEP_ASSUME)
prop("C05", S_REPLACE + C("V_C_replace", ops=["replace"]) + C("V_C_correctify", ops=["replace"], cost=10) + C("V_W_replace", ops=["replace"]), STEP, STEP_ASSUME)


TABLE_OPS = ["apply", "not", "ite", "exist", "and", "or"]


def B(level=1):
    """creation of a node in an arbitrary well-formed table"""
    js = D("V_B_makenode", ["hudd"], {"V": 2, "N": 9}, cost=6)
    js += D("V_B_makenode", ["hudd"], {"V": 2, "N": 8, "minfree": 100, "maxinc": 3}, cost=5)
    js += D("V_B_makenode", ["buddy"], {"V": 2, "N": 7}, cost=6)
    js += D("V_B_makenode", ["buddy"], {"V": 2, "N": 7, "full": 1}, cost=6)
    js += C("V_B_makenode", ["buddy"], TABLE_OPS, {"V": 2, "N": 11, "hash": 1, "buckets": 4, "full": 1}, cost=60, wall=300)
    js += C("V_B_makenode", ["buddy"], TABLE_OPS, {"V": 2, "N": 11, "hash": 1, "buckets": 4}, cost=70, wall=300)
    js += D("V_B_makenode", ["hudd"], {"V": 3, "N": 11}, cost=50, wall=300)
    js += D("V_B_makenode", ["hudd"], {"V": 3, "N": 13}, cost=200, wall=1200, timeout=300, thorough=True)
    js += C("V_B_makenode", ["buddy"], TABLE_OPS, {"V": 3, "N": 11, "hash": 1, "buckets": 4}, cost=80, wall=1200, timeout=300, thorough=True)
    js += C("V_B_makenode", ["buddy"], TABLE_OPS, {"V": 2, "N": 11, "hash": 1, "buckets": 4, "full": 1, "desc": 1}, cost=70, wall=1200, timeout=300, thorough=True)
    return js


FAILB = (D("V_B_makenode", ["hudd"], {"V": 2, "N": 9, "maxsize": 9}, cost=6) +
         D("V_B_makenode", ["buddy"], {"V": 2, "N": 7, "full": 1, "maxsize": 7}, cost=6))
GROW = (D("V_E_grow", ["hudd"], {"N": 10}) + D("V_E_grow", ["hudd"], {"N": 11, "ratio": 50}) + D("V_E_grow", ["hudd"], {"N": 13}, cost=10) +
        D("V_E_grow", ["buddy"], {"N": 11}, cost=85, wall=400) +
        D("V_E_grow", ["hudd"], {"N": 16}, cost=60, wall=1500, timeout=300, thorough=True) +
        D("V_E_grow", ["buddy"], {"N": 11, "ratio": 50}, cost=85, wall=1500, timeout=300, thorough=True) +
        D("V_E_grow", ["buddy"], {"N": 13}, cost=150, wall=1500, timeout=300, thorough=True))
WIDE = (D("V_B_wide", ["hudd"], {"N": 7}) + C("V_B_wide", ["buddy"], TABLE_OPS, {"N": 7, "hash": 1}) +
        sum([D("V_B_wide", ["buddy"], {"N": 7, "shift": s, "which": k}) for s, k in
             ((16, 0), (32, 0), (8, 1), (24, 1), (32, 1), (8, 2), (16, 2))], []))
TABLE = ("Arbitrary well-formed node tables (any contents, any protected nodes, any free list, any hash chains): hudd up to 3 variables and "
         "11 slots (13 in the thorough tier), buddy 2 variables and 11 slots (thorough: 3 variables) with an arbitrary hash function onto 4 "
         "buckets, and its real hash on 7 slots; one node creation with any collection and growth inside it.")
TABLE_ASSUME = ["the representation invariant of the table holds before the call (it is shown to hold after New and after every call)"]
EQUAL = D("V_D_equal", params={"V": 3, "N": 11}) + D("V_D_equal", params={"V": 4, "N": 17}, cost=60, wall=1500, timeout=600, thorough=True)

MARK = D("V_H_mark", ["hudd"], {"few": 0}) + D("V_H_mark", ["buddy"], {"few": 1}, cost=9) + D("V_H_mark", ["buddy"], {"few": 1, "pol": 1}, cost=9, thorough=True)
prop("C06", S_MAKE + B() + EQUAL, TABLE, TABLE_ASSUME)
prop("C07", S_MAKE + B() + WIDE, TABLE + " Pairs of creations with any 32-bit levels and 64-bit branches in an otherwise empty table.", TABLE_ASSUME)
prop("C08", S_MAKE + B() + GROW + MARK, TABLE, TABLE_ASSUME)
prop("C09", B() + FAILB, TABLE, TABLE_ASSUME)
prop("C10", GROW + D("V_B_makenode", ["hudd"], {"V": 2, "N": 8, "minfree": 100, "maxinc": 3}, cost=5) + D("V_B_makenode", ["hudd"], {"V": 2, "N": 9}, cost=6) +
     D("V_B_makenode", ["buddy"], {"V": 2, "N": 7, "full": 1}, cost=6),
     "3 variables; a full table of 10, 11 or 13 slots (buddy 11), any subset of its nodes in use, any Minfreenodes up to 100 and any non-negative "
     "Maxnodesize and Maxnodeincrease of machine integers; and node creation in arbitrary tables of 7 to 9 slots.", TABLE_ASSUME)
ALLOPS = ["apply", "not", "ite", "exist", "appex", "andexist", "replace", "and", "or", "makeset", "makecube"]
STEPS = (C("V_C_apply", ops=["apply"], cost=15) + C("V_C_not", ops=["not"]) + C("V_C_ite", ops=["ite"], cost=40, timeout=120, wall=300) +
         C("V_C_quant", ops=["exist"], cost=10) + C("V_C_appquant", ops=["appex", "andexist"], cost=20) + C("V_C_replace", ops=["replace"]) +
         C("V_C_correctify", ops=["replace"], cost=10))
TOPS = (C("V_W_apply", ops=["apply"]) + C("V_W_not", ops=["not"]) + C("V_W_ite", ops=["ite"]) + C("V_W_exist", ops=["exist"]) +
        C("V_W_appex", ops=["appex"]) + C("V_W_andexist", ops=["andexist"]) + C("V_W_replace", ops=["replace"]) +
        sum([C("V_W_nary", ops=["and", "or"], params={"n": n, "or": o}) for n in (2, 3) for o in (0, 1)], []))
MAKE = (sum([C("V_W_makeset", ops=["makeset"], params={"n": n}) for n in (0, 1, 2, 3)], []) +
        sum([C("V_W_makecube", ops=["makecube"], params={"n": n, "m": m}) for n, m in ((0, 4), (0, 2), (1, 1), (2, 2), (3, 3), (2, 1), (1, 2), (2, 3))], []))
prop("C11", C("V_C_applyfail", ops=["apply"]) + STEPS + TOPS + MAKE + FAILB + D("V_E_grow", ["hudd"], {"N": 10}), STEP + " " + TABLE, STEP_ASSUME + TABLE_ASSUME)
FLUSH = (D("V_B_makenode", ["hudd"], {"V": 2, "N": 9}, cost=6) + D("V_B_makenode", ["buddy"], {"V": 2, "N": 7}, cost=6) +
         D("V_B_makenode", ["hudd"], {"V": 2, "N": 8, "minfree": 100, "maxinc": 3, "ratio": 28}, cost=5) +
         D("V_B_makenode", ["buddy"], {"V": 2, "N": 7, "full": 1, "minfree": 100, "maxinc": 4, "ratio": 28}, cost=6))
prop("C12", S_APPLY + S_NOT + S_EXIST + S_APPEX + S_REPLACE + STEPS + TOPS + MAKE + FLUSH, STEP + " " + TABLE, STEP_ASSUME + TABLE_ASSUME)
prop("C13", S_APPLY + S_NOT + S_EXIST[:2] + S_APPEX[:1] + S_REPLACE + STEPS + TOPS + D("V_F_hash") + FLUSH + D("V_E_grow", ["hudd"], {"N": 11, "ratio": 50, "cs": 11}) +
     D("V_E_grow", ["hudd"], {"N": 11, "ratio": 50}) + D("V_E_grow", ["buddy"], {"N": 11, "ratio": 50}, cost=85, wall=1500, timeout=300, thorough=True),
     STEP + " Hash functions: any arguments, any table size below 2^40.", STEP_ASSUME)
prop("C14", sum([D("V_D_retnode", params={"V": 2, "N": n, "K": k}) for n, k in ((7, 1), (7, 2), (7, 3))], []) +
     D("V_D_retnode", ["hudd"], {"V": 3, "N": 11, "K": 4}) + D("V_D_retnode", params={"V": 2, "N": 7, "K": 5}, cost=20, thorough=True, wall=900) +
     D("V_B_makenode", ["hudd"], {"V": 2, "N": 9}, cost=6) + D("V_B_makenode", ["buddy"], {"V": 2, "N": 7}, cost=6),
     "Arbitrary tables of 7 to 11 slots with any reference counts up to saturation, up to 4 new handles, any of them released.", TABLE_ASSUME)
def R(tags, params, **kw):
    return D("V_I_release", tags, params, race=True, **kw)


prop("C15", R(BOTH, {"V": 2, "N": 7, "call": 0}) + R(["hudd"], {"V": 2, "N": 9, "call": 0}) + R(BOTH, {"V": 2, "N": 7, "call": 1}, cost=12) +
     R(["hudd"], {"V": 2, "N": 8, "call": 1, "maxsize": 8}, cost=20) + R(["hudd"], {"V": 2, "N": 8, "call": 1, "full": 1}, cost=40, wall=300) +
     sum([R(BOTH, {"V": 2, "N": 7, "call": c}) for c in (2, 3, 4, 5, 6, 7, 8)], []) + R(["hudd"], {"V": 2, "N": 8, "call": 2}, cost=14),
     "One release at any moment of one call (Retnode, Makenode with collection and growth, Allnodes, Satcount, accessors, Not of a constant) in "
     "arbitrary tables of 7 to 9 slots, at the granularity of single memory accesses; the release itself is shown to be excluded by locks from every conflicting store.",
     TABLE_ASSUME + ["sequentially consistent memory", "sync mutexes are correct", "one handle is released; the mutator is one goroutine"])
prop("C16", S_COUNT + D("V_D_satcount", params={"V": 2, "N": 7}) + D("V_D_satcount", params={"V": 3, "N": 11}, cost=15) +
     D("V_D_satcount", params={"V": 2, "N": 7, "twice": 1}) +
     D("V_D_satbig", params={"V": 70, "big": 1}, cost=12) + D("V_D_satbig", ["hudd"], {"V": 70, "l0": 63, "l1": 66, "l2": 69, "big": 1}, cost=12) +
     D("V_D_satbig", params={"V": 66, "l0": 0, "l1": 64, "l2": 65, "big": 1}, cost=90, wall=900, thorough=True) +
     D("V_D_satcount", ["hudd"], {"V": 3, "N": 13}, cost=60, wall=1500, timeout=400, thorough=True),
     "Arbitrary tables: 3 variables, 11 slots; and BDDs with 70 variables and up to 3 non-literal levels (0, 1, 69 or 63, 66, 69).", TABLE_ASSUME)
prop("C17", S_SAT + D("V_D_allsat", params={"V": 3, "N": 11}) + D("V_D_allsat", params={"V": 4, "N": 13}, cost=20) + D("V_D_allsat", ["hudd"], {"V": 5, "N": 16}, cost=99, wall=1500, timeout=600, thorough=True) + D("V_D_allsaterr", params={"V": 3, "N": 11}),
     "Arbitrary tables: 3 variables and 11 slots, 4 variables and 13 slots; callback failing at any call.", TABLE_ASSUME)
prop("C18", S_NODES + MARK + D("V_D_allnodes", ["hudd"], {"V": 3, "N": 11, "roots": 0}) + D("V_D_allnodes", ["buddy"], {"V": 3, "N": 11, "roots": 0}) +
     D("V_D_allnodes", ["hudd"], {"V": 3, "N": 11, "roots": 1}, cost=20) + D("V_D_allnodes", ["buddy"], {"V": 2, "N": 7, "roots": 2}, cost=10) +
     D("V_D_allnodes", ["buddy"], {"V": 3, "N": 11, "roots": 1}, cost=40) + D("V_D_allnodes", ["hudd"], {"V": 3, "N": 11, "roots": 2}, cost=40) +
     D("V_D_allnodes", ["buddy"], {"V": 3, "N": 11, "roots": 2}, cost=90, wall=900, thorough=True),
     "Arbitrary tables: 3 variables, 11 slots; up to 2 roots; callback failing at any call.", TABLE_ASSUME)
prop("C19", sum([D("V_D_invalid", ["hudd"], params={"V": 2, "N": 9, "call": c}) + D("V_D_invalid", ["buddy"], params={"V": 2, "N": 11 if c in (0, 7, 14) else 7, "call": c}) +
              D("V_D_invalid", params={"V": 2, "N": 7, "call": c, "nil": 1}) for c in range(27)], []) +
     D("V_D_sticky", params={"V": 2, "N": 7}) + C("V_W_applybad", ops=["apply"]) + C("V_W_appexbad", ops=["appex"]),
     "Arbitrary tables of 7 slots; every operation and operand position with nil and with any 64-bit index that is not a live node.", TABLE_ASSUME)
prop("C20", D("V_D_access", params={"V": 3, "N": 11}) + EQUAL + MARK, "Levels up to 2^21-2 for Label. Arbitrary tables: 3 variables, 11 slots; any machine integer as variable.", TABLE_ASSUME)
prop("C21", sum([D("V_D_setscan", params={"V": 3, "n": n}) for n in (0, 1, 2, 3)], []) + D("V_D_setscan", params={"V": 4, "n": 4}, thorough=True, cost=20, wall=900) + MAKE,
     "Slices of up to 3 machine integers (Makecube: literals of increasing variables).", STEP_ASSUME)
prop("C22", sum([D("V_D_newreplacer", params={"V": 3, "p": p, "q": q}) for p, q in ((0, 0), (1, 1), (2, 2), (1, 2), (2, 0), (3, 3))], []) + C("V_W_replace", ops=["replace"]),
     "Pairs of slices of up to 3 machine integers, 3 variables.", [])

prop("C23", D("V_H_reject", novalidate=True) + D("V_H_accept", novalidate=True) + sum([D("V_H_default", params={"V": v}, cost=3) for v in (1, 2, 5)], []) +
     D("V_H_new", params={"V": 1}, cost=10) + D("V_H_new", params={"V": 2}, cost=12) + D("V_H_new", ["hudd"], {"V": 3, "extra": 6}, cost=12) +
     D("V_H_new", ["buddy"], {"V": 2, "order": 1}, cost=12) + D("V_H_new", ["hudd"], {"V": 2, "order": 1}, cost=5) +
     D("V_H_new", ["buddy"], {"V": 3, "extra": 8, "maxcache": 12}, cost=30, thorough=True, wall=900, timeout=300) + MARK + GROW,
     "Numbers of variables: every machine integer for the validation; 1 to 3 variables with any node size up to 6 above the minimum, cache size 1 to 6 "
     "and any integers for the other options; defaults with 1, 2 and 5 variables; growth under any limits in full tables of 10 to 13 slots.", [])

prop("C24",
     D("V_J_dot", params={"V": 3, "N": 11, "roots": 0}) + D("V_J_dot", ["hudd"], {"V": 3, "N": 13, "roots": 0}) + D("V_J_dot", params={"V": 3, "N": 11, "roots": 1}, cost=8) +
     D("V_J_dot", params={"V": 2, "N": 7, "roots": 2}) + D("V_J_dot", ["hudd"], {"V": 3, "N": 11, "roots": 2}, cost=9) + D("V_J_dot", ["buddy"], {"V": 3, "N": 11, "roots": 2}, cost=25, thorough=True, wall=900) +
     D("V_J_print", params={"V": 3, "N": 11, "roots": 0}) + D("V_J_print", ["hudd"], {"V": 3, "N": 13, "roots": 0}) + D("V_J_print", ["buddy"], {"V": 3, "N": 11, "roots": 1}, cost=8) + D("V_J_print", ["hudd"], {"V": 3, "N": 10, "roots": 1}, cost=12) +
     D("V_J_print", params={"V": 2, "N": 7, "roots": 2}) + D("V_J_print", ["hudd"], {"V": 2, "N": 10, "roots": 2}, cost=14) +
     sum([D("V_J_bad", params={"V": 2, "N": 7, "dot": d}) for d in (0, 1)], []),
     "Arbitrary tables: 3 variables, 11 slots (13 without roots); up to 2 roots, 2 variables and 10 slots for Print with 2 roots. The text is kept as statements "
     "with symbolic numbers; spaces are not compared. Error messages: any text.", TABLE_ASSUME)

NOT_APPLICABLE = {}
