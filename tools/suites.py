"""Which model runs and recordings exist, and which property they decide."""

SUITES = {}
PROPS = {}


def mc(name, module, bin, consts, **kw):
    SUITES[name] = dict(kind="mc", module=module, bin=bin, consts=consts, **kw)


def trace(name, module, bin, consts=None, **kw):
    SUITES[name] = dict(kind="trace", module=module, bin=bin, consts=consts or {}, **kw)


# basic arena
_A = dict(Design="TRUE", PreludeN=4, SimDepth=0)
mc("arena", "MCArena", "arena", dict(_A, MaxCap=4, Pairs="FALSE"), thorough=dict(MaxCap=6, PreludeN=6))
mc("arena_pairs", "MCArena", "arena", dict(_A, MaxCap=2, Pairs="TRUE"), thorough=dict(MaxCap=4))
mc("arena_sim", "MCArena", "arena", dict(_A, MaxCap=10, Pairs="FALSE"), sim=(300, 40),
   sim_thorough=(5000, 60))
mc("arena_pair", "MCPairArena", "arena", dict(Design="TRUE", MaxCap=2, SimDepth=0), thorough=dict(MaxCap=3),
   args=["--pair", "1"])
mc("arena_pair_sim", "MCPairArena", "arena", dict(Design="TRUE", MaxCap=9, SimDepth=0), sim=(200, 40),
   sim_thorough=(3000, 60), args=["--pair", "1"])
trace("arena_trace", "TraceArena", "arena", dict(Design="FALSE"))

# chain arenas
mc("chain", "MCChain", "chain", dict(Design="TRUE", MaxCap=4, PreludeN=4, Pairs="FALSE", SimDepth=0), thorough=dict(MaxCap=5, PreludeN=5))
mc("chain_sim", "MCChain", "chain", dict(Design="TRUE", MaxCap=9, PreludeN=3, Pairs="FALSE", SimDepth=0), sim=(200, 40),
   sim_thorough=(4000, 60))
mc("chain_pair", "MCPairChain", "chain", dict(Design="TRUE", MaxCap=2, SimDepth=0), args=["--pair", "1"])
mc("chain_pair_sim", "MCPairChain", "chain", dict(Design="TRUE", MaxCap=8, SimDepth=0), sim=(200, 40),
   sim_thorough=(3000, 60), args=["--pair", "1"])
trace("chain_trace", "TraceChain", "chain", dict(Design="FALSE"))

# surjection arenas
mc("surject", "MCSurject", "surject", dict(Design="TRUE", MaxCap=4, PreludeN=4, Pairs="FALSE", SimDepth=0),
   thorough=dict(MaxCap=5, PreludeN=5))
mc("surject_sim", "MCSurject", "surject", dict(Design="TRUE", MaxCap=9, PreludeN=3, Pairs="FALSE", SimDepth=0),
   sim=(200, 40), sim_thorough=(4000, 60))
mc("surject_pair", "MCPairSurject", "surject", dict(Design="TRUE", MaxCap=2, SimDepth=0), args=["--pair", "1"])
mc("surject_pair_sim", "MCPairSurject", "surject", dict(Design="TRUE", MaxCap=8, SimDepth=0), sim=(200, 40),
   sim_thorough=(3000, 60), args=["--pair", "1"])
trace("surject_trace", "TraceSurject", "surject", dict(Design="FALSE"))

# ordered arenas
_O = dict(Design="TRUE", MaxCap=8, MaxLen=5, MaxDup=1, PreludeN=4, SimDepth=0)
mc("ord", "MCOrd", "ord", dict(_O), thorough=dict(MaxLen=7, MaxDup=2))
mc("ord_tree", "MCOrdTree", "ord", dict(Design="TRUE", MaxLen=11, SimDepth=0), thorough=dict(MaxLen=14))
mc("ord_sim", "MCOrd", "ord", dict(_O, MaxCap=16, MaxLen=14, MaxDup=4), sim=(150, 50), sim_thorough=(3000, 70))
mc("ord_pair", "MCPairOrd", "ord", dict(Design="TRUE", MaxCap=2, MaxLen=2, MaxDup=1, SimDepth=0), args=["--pair", "1"])
mc("ord_pair_sim", "MCPairOrd", "ord", dict(Design="TRUE", MaxCap=8, MaxLen=8, MaxDup=2, SimDepth=0), sim=(200, 40),
   sim_thorough=(3000, 60), args=["--pair", "1"])
trace("ord_trace", "TraceOrd", "ord", dict(Design="FALSE"))
trace("ord_balance", "TraceBalance", "ord", args=["--balance", "1"])
# keys that do not agree on an order
trace("ord_wild", "TraceWild", "wild")
mc("ord_any", "MCOrdTree", "ord", dict(Design="TRUE", MaxLen=6, SimDepth=0), thorough=dict(MaxLen=7), args=["--wild", "1"])

# loops that modify what they advance through
_L = dict(Design="TRUE", MaxCap=4, Again="FALSE", SimDepth=0)
_LS = dict(_L, MaxCap=9, MaxMut=1000, Again="TRUE")
mc("arena_loop", "MCAdvArena", "arena", dict(_L, MaxMut=4), thorough=dict(MaxCap=5, MaxMut=5), emit="EmitLoop", args=["--loop", "1"])
mc("chain_loop", "MCAdvChain", "chain", dict(_L, MaxMut=1, Free="FALSE"), thorough=dict(MaxMut=2), emit="EmitLoop", args=["--loop", "1"])
mc("surject_loop", "MCAdvSurject", "surject", dict(_L, MaxMut=1, Free="FALSE"), thorough=dict(MaxMut=2), emit="EmitLoop", args=["--loop", "1"])
# loops over a chain or a set that is changed, which is not supported, but they end
mc("chain_free", "MCAdvChain", "chain", dict(_L, MaxMut=1, Free="TRUE"), thorough=dict(MaxMut=2), emit="EmitLoop", args=["--loop", "1"])
mc("surject_free", "MCAdvSurject", "surject", dict(_L, MaxMut=1, Free="TRUE"), thorough=dict(MaxMut=2), emit="EmitLoop", args=["--loop", "1"])
mc("ord_loop", "MCAdvOrd", "ord", dict(_L, MaxCap=8, MaxLen=5, MaxMut=2), thorough=dict(MaxLen=6, MaxMut=3), emit="EmitLoop", args=["--loop", "1"])
mc("arena_loop_sim", "MCAdvArena", "arena", dict(_LS), sim=(200, 60), sim_thorough=(4000, 80), args=["--loop", "1"])
mc("chain_loop_sim", "MCAdvChain", "chain", dict(_LS, Free="FALSE"), sim=(100, 60), sim_thorough=(4000, 80), args=["--loop", "1"])
mc("surject_loop_sim", "MCAdvSurject", "surject", dict(_LS, Free="FALSE"), sim=(200, 60), sim_thorough=(4000, 80), args=["--loop", "1"])
mc("ord_loop_sim", "MCAdvOrd", "ord", dict(_LS, MaxCap=16, MaxLen=12), sim=(150, 60), sim_thorough=(3000, 80), args=["--loop", "1"])

# limits of the index type and of the counter
_X = dict(Points="{0, 1, 127, 128, 129, 254, 255}", GenPoints="{128, 253, 254, 255, 256}", MaxInx=255, MaxGen=255,
          Pairs="TRUE", SimDepth=0)
_W = {
    "both": dict(_X),
    "inx": dict(_X, MaxGen=1000000, GenPoints="{260}"),
    "nogen": dict(_X, MaxGen=1000000, GenPoints="{260}"),
    "gen": dict(_X, MaxInx=0, Points="{0, 1, 40, 300}"),
    "both16": dict(_X, MaxInx=65535, MaxGen=65535, Pairs="FALSE", Points="{0, 32768, 65535}", GenPoints="{65534, 65535, 65536}"),
}
_K = {
    "arena": dict(Entries="{0, 1, 2, 3}", OneEntry=9, Wipe=2, Drain=1),
    "chain": dict(Entries="{0, 1, 2, 3, 4, 5}", OneEntry=4, Wipe=1, Drain=1),
    "surject": dict(Entries="{0, 1, 2, 3}", OneEntry=2, Wipe=1, Drain=0),
    "ord": dict(Entries="{0, 1, 2, 3, 4}", OneEntry=9, Wipe=0, Drain=2),
}
LIMITS, LIMITS16 = [], []
for _k in _K:
    for _w in _W:
        _n = f"limits_{_k}_{_w}"
        mc(_n, "MCLimits", "limits", dict(_W[_w], **_K[_k]),
           args=["--kind", _k, "--width", _w])
        (LIMITS16 if _w == "both16" else LIMITS).append(_n)

# deserialization of arbitrary input
_D = dict(Design="TRUE", SimDepth=0)
mc("arena_de", "MCSerArena", "arena", dict(_D, MaxI=4, MaxN=4), thorough=dict(MaxI=5, MaxN=5), args=["--de", "1"])
mc("chain_de", "MCSerChain", "chain", dict(_D, Big="FALSE"), thorough=dict(Big="TRUE"), args=["--de", "1"])
mc("surject_de", "MCSerSurject", "surject", dict(_D, Big="FALSE"), thorough=dict(Big="TRUE"), args=["--de", "1"])
mc("ord_de", "MCSerOrd", "ord", dict(_D, MaxN=6, MaxLen=20), thorough=dict(MaxN=8, MaxLen=40), args=["--de", "1"])
DES = ["arena_de", "chain_de", "surject_de", "ord_de"]

# the generic interface
_T = dict(Design="TRUE", SimDepth=0, MaxCap=4)
TRAITS = []
for _k, _c, _t in (("arena", {}, dict(MaxCap=6)), ("chain", {}, {}), ("surject", {}, {}),
                   ("ord", dict(MaxCap=8, MaxLen=5), dict(MaxLen=7))):
    mc(f"{_k}_trait", "MCTrait" + _k.capitalize(), "generic", dict(_T, **_c), thorough=_t, args=["--kind", _k])
    mc(f"{_k}_trait_sim", "MCTrait" + _k.capitalize(), "generic",
       dict(_T, MaxCap=8 if _k == "arena" else 16, **({"MaxLen": 14} if _k == "ord" else {})),
       sim=(100, 40), sim_thorough=(3000, 60), args=["--kind", _k])
    TRAITS += [f"{_k}_trait", f"{_k}_trait_sim"]

# the storage
_V = dict(MaxLen=6, MaxCap=8, MinCap=1, SimDepth=0)
mc("vec", "MCVec", "vec", dict(_V, MaxLen=9, MaxCap=16), thorough=dict(MaxLen=17, MaxCap=32))
mc("vec_plain", "MCVec", "vec", dict(_V, MaxCap=9, MinCap=5), thorough=dict(MaxLen=12, MaxCap=17))
mc("vec_sim", "MCVec", "vec", dict(_V, MaxLen=70, MaxCap=200), sim=(200, 90), sim_thorough=(3000, 200))
VEC = ["vec", "vec_plain", "vec_sim"]

# the pointers
_P = dict(HasGen="TRUE", Ser="TRUE", SimDepth=0)
for _n, _c, _b in (("ptr", {}, "ptr"), ("ptr_plain", dict(Ser="FALSE"), "plain/ptr"),
                   ("ptr_nogen", dict(HasGen="FALSE"), "ptr"),
                   ("ptr_nogen_plain", dict(HasGen="FALSE", Ser="FALSE"), "plain/ptr")):
    mc(_n, "MCPtr", _b, dict(_P, **_c), args=["--gen", "0" if "nogen" in _n else "1"])
mc("ptr_sim", "MCPtr", "ptr", dict(_P), sim=(200, 40), sim_thorough=(5000, 60), args=["--gen", "1"])
PTR = ["ptr", "ptr_plain", "ptr_nogen", "ptr_nogen_plain", "ptr_sim"]

# the renderer
_R = dict(MaxNodes=3, MaxEdges=3, MaxRem=1, SimDepth=0)
mc("render", "MCRender", "render", dict(_R), thorough=dict(MaxEdges=4))
mc("render_two", "MCRender", "render", dict(_R, MaxNodes=2, MaxEdges=5, MaxRem=0))
mc("render_four", "MCRender", "render", dict(_R, MaxNodes=4, MaxRem=0), thorough=dict(MaxRem=1))
mc("render_sim", "MCRender", "render", dict(_R, MaxNodes=9, MaxEdges=22, MaxRem=2), sim=(1500, 30), sim_thorough=(5000, 40))
mc("render_wide", "MCRender", "render", dict(_R, MaxNodes=30, MaxEdges=80, MaxRem=0), sim=(100, 85), sim_thorough=(1500, 85),
   args=["--wide", "1"])

# without serialization support, which has a pointer type of its own
mc("plain_arena", "MCArena", "plain/arena", dict(_A, MaxCap=3, Pairs="FALSE"), thorough=dict(MaxCap=5))
mc("plain_pair", "MCPairArena", "plain/arena", dict(Design="TRUE", MaxCap=9, SimDepth=0), sim=(100, 40),
   sim_thorough=(3000, 60), args=["--pair", "1"])
mc("plain_chain", "MCChain", "plain/chain", dict(Design="TRUE", MaxCap=3, PreludeN=4, Pairs="FALSE", SimDepth=0))
mc("plain_surject", "MCSurject", "plain/surject", dict(Design="TRUE", MaxCap=3, PreludeN=4, Pairs="FALSE", SimDepth=0))
mc("plain_ord", "MCOrd", "plain/ord", dict(_O, MaxLen=3))
PLAIN_LIMITS = []
for _w in ("both", "inx", "nogen", "gen"):
    mc(f"plain_limits_{_w}", "MCLimits", "plain/limits", dict(_W[_w], **_K["arena"]), args=["--kind", "arena", "--width", _w])
    PLAIN_LIMITS.append(f"plain_limits_{_w}")
PLAIN = ["plain_arena", "plain_chain", "plain_surject", "plain_ord"]

ARENA = ["arena", "arena_pairs", "arena_sim", "arena_trace"]
CHAIN = ["chain", "chain_sim", "chain_trace"]
SURJECT = ["surject", "surject_sim", "surject_trace"]
ORD = ["ord", "ord_tree", "ord_sim", "ord_trace"]
PAIRS = ["arena_pair", "arena_pair_sim", "chain_pair", "chain_pair_sim", "surject_pair", "surject_pair_sim",
         "ord_pair", "ord_pair_sim"]
MAIN = ["arena", "chain", "surject", "ord"]
LOOPS = ["arena_loop", "chain_loop", "surject_loop", "ord_loop",
         "chain_free", "surject_free",
         "arena_loop_sim", "chain_loop_sim", "surject_loop_sim", "ord_loop_sim"]
TRACES = ["arena_trace", "chain_trace", "surject_trace"]
ALL = ARENA + CHAIN + SURJECT + ORD


def prop(id, suites, classes=(), ops=None, extra=None, level="model_checking", **kw):
    """`classes` of divergence break the property; if `ops` is given, any
    divergence after one of these operations does as well, and a panic, hang
    or crash counts for every property of the suite. `extra` sees the operation
    with a trailing "!" if the specification says that it fails."""
    def match(suite, cl, op):
        base = op.rstrip("!").split(".")[-1]
        if cl in ("panic", "hang", "crash"):
            return True
        if cl in classes:
            return True
        if ops and base in ops:
            return True
        return bool(extra and extra(suite, cl, op))
    PROPS[id] = dict(suites=suites, match=match, level=level, **kw)


def beyond(*narrow):
    """Everything the specification says about the suite, except what only the
    listed narrow classes of divergence show."""
    return lambda s, c, o: c not in narrow


PAIR_SIMS = [n for n in PAIRS if n.endswith("_sim")]
CHAIN2 = CHAIN + ["plain_chain", "chain_pair_sim", "chain_trait_sim"]
SURJECT2 = SURJECT + ["plain_surject", "surject_pair_sim", "surject_trait_sim"]
ORD2 = ORD + ["plain_ord", "ord_pair", "ord_pair_sim", "ord_trait_sim"]

prop("A01", ALL + PLAIN + PAIR_SIMS, {"stale", "fresh", "gen", "accept"})
prop("A02", ALL + PLAIN, {"valid", "ret", "len", "set"}, ops={"set", "seta", "res"})
prop("A03", ALL + PLAIN, {"stale", "accept"}, extra=lambda s, c, o: o.endswith("!"))
prop("A04", ALL + PAIR_SIMS, {"len", "cap", "free", "inv"}, ops={"res", "clear", "cshr"})
prop("A05", LIMITS + PLAIN_LIMITS + ["arena", "surject", "ord_sim", "chain_trace", "arena_trace"], {"limit", "gen"},
     extra=lambda s, c, o: "limits" in s, thorough_suites=LIMITS16)
prop("A06", ALL + PAIRS, {"drops"})
prop("A07", ALL + ["plain_arena"], {"iter", "walk", "order"}, ops={"drain", "into"})
prop("A08", LOOPS + TRACES + MAIN, {"adv"}, extra=lambda s, c, o: "loop" in s)
prop("A09", ALL, {"rmby", "stale"}, ops={"rmby", "rmbx", "clear", "cshr"})
prop("C01", CHAIN2, extra=beyond("text", "cap", "free", "drops", "eq", "get2", "adv", "gen"))
prop("C02", CHAIN2, extra=beyond("text", "cap", "free", "drops", "eq", "serde", "clone", "adv", "gen"))
prop("S01", SURJECT2, extra=beyond("text", "cap", "free", "drops", "eq", "get2", "adv", "gen"))
prop("S02", SURJECT + ["plain_surject"], {"ret", "set"}, ops={"union", "remk", "rems"})
prop("O01", ORD2, extra=beyond("text", "cap", "free", "drops", "eq", "get2", "gen", "balance"))
prop("O02", ORD + ["plain_ord"], {"find", "ret", "len", "valid", "order"}, ops={"oins", "oeq", "oman", "oemp"})
prop("O03", ORD + ["plain_ord", "ord_balance", "ord_pair_sim", "ord_de"], {"balance", "inv", "find"})
prop("O04", ["ord_wild", "ord_any"], {"wild"}, extra=lambda s, c, o: s == "ord_wild")
prop("X01", ALL + ["arena_trait", "ord_trait"], {"get2"}, ops={"get2", "swap", "g2k", "g2v", "g2kv", "swapk", "swapv"})
prop("X02", MAIN + ["arena_sim", "chain_sim", "surject_sim", "arena_trace"] + [n for n in LIMITS if n.endswith("_both")],
     {"undo"}, ops={"insx", "cinx", "cnex", "sinx", "skex", "oinx", "full"})
prop("M01", PAIRS + MAIN + ["plain_pair"], {"clone"}, extra=lambda s, c, o: "pair" in s)
prop("M02", PAIRS + MAIN, {"eq"})
prop("M03", ALL + PLAIN, {"comp"}, ops={"comp"})
prop("F01", MAIN + ["surject_sim", "ord_sim", "chain_sim"], {"text"})
prop("D01", MAIN + DES, {"serde"}, extra=lambda s, c, o: s in DES)
prop("D02", DES, extra=lambda s, c, o: True)
prop("T01", TRAITS, extra=lambda s, c, o: True)
prop("B01", VEC, extra=lambda s, c, o: True)
prop("P01", PTR, extra=lambda s, c, o: True)
prop("R01", ["render", "render_two", "render_four", "render_sim", "render_wide"], extra=lambda s, c, o: True)
