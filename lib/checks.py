"""What each property's check runs; see driver.py for the meaning of the fields."""
CHECKS = {}


def inv(*names, consts=""):
    s = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    if consts:
        s += "CONSTANTS " + consts + "\n"
    for n in names:
        s += "INVARIANT %s\n" % n
    return s


def check(pid, **kw):
    CHECKS[pid] = kw


check("C01",
      models=[dict(module="GFModel",
                   cfg=inv("TablesInverse", "TableArithmetic", "FieldAxioms", consts="MAXM = 4"),
                   cfg_thorough=inv("TablesInverse", "TableArithmetic", "FieldAxioms", consts="MAXM = 6"),
                   min_states=40)],
      harnesses=[dict(src="gf.cc", module="GFTrace")])



def rs_model(M, P, NR, FCR, LEN, MAXD, BIN="FALSE", **kw):
    return dict(module="RSModel", cfg=inv("Corrects", "NeverWrong", "RegisterLength", "FarSame",
                consts="M = %d P = %d NR = %d FCR = %d LEN = %d MAXDAMAGE = %d BINARY = %s" % (M, P, NR, FCR, LEN, MAXD, BIN)),
                min_states=50, **kw)


RSTAB = [dict(name="rstab", module="RSGen")]


def rs_h(mode, *parts):
    return [dict(src="rs.cc", module="RSTrace", args=[mode], defs=["-DPART=%d" % p]) for p in parts]


def syn_model(M, P, NR, FCR, LEN, **kw):
    return dict(module="SyndromeModel", cfg=inv("Values", "Agree", "Divisible", "Apart", consts="M = %d P = %d NR = %d FCR = %d LEN = %d" % (M, P, NR, FCR, LEN)), min_states=50, **kw)


check("C11", models=[rs_model(2, 7, 2, 1, 3, 1), syn_model(3, 11, 3, 1, 4)], harnesses=rs_h("enc", 0, 1, 4, 5, 8))
check("C31", models=[syn_model(3, 11, 2, 0, 4), syn_model(2, 7, 2, 1, 5), syn_model(3, 13, 3, 6, 5, tier="thorough"), syn_model(4, 19, 2, 1, 4, tier="thorough")],
      harnesses=rs_h("syn", *range(10)))
def st_model(M, P, NR, FCR, **kw):
    return dict(module="StagesModel", cfg=inv("Shortest", "Halves", "Count", "Even", "Closed", "Locator", "AsWord", consts="M = %d P = %d NR = %d FCR = %d" % (M, P, NR, FCR)), min_states=50, **kw)


check("C32", models=[st_model(2, 7, 4, 1), st_model(3, 11, 3, 0), st_model(3, 13, 4, 2, tier="thorough"), st_model(4, 19, 3, 1, tier="thorough")],
      harnesses=[dict(src="stages.cc", module="StagesTrace", defs=["-DPART=%d" % p],
                      fallbacks=[["-DNO_SEARCH"], ["-DNO_FINDER"], ["-DNO_SHORTEST"], ["-DNO_SEARCH", "-DNO_FINDER"],
                                 ["-DNO_SEARCH", "-DNO_FINDER", "-DNO_SHORTEST"]]) for p in range(3)])
check("C12", models=[rs_model(3, 11, 3, 1, 5, 3), rs_model(3, 13, 4, 0, 7, 4, tier="thorough")],
      harnesses=rs_h("dec", 0, 1, 4, 5, 8))
check("C13", models=[rs_model(3, 11, 2, 0, 5, 3), rs_model(3, 11, 4, 2, 6, 5, tier="thorough")],
      generators=RSTAB, harnesses=rs_h("bey", *range(10)))
check("C14", models=[rs_model(4, 19, 4, 1, 15, 3, "TRUE"), rs_model(4, 19, 5, 0, 15, 5, "TRUE", tier="thorough")],
      harnesses=rs_h("dec", 2, 3, 6, 7, 9) + rs_h("enc", 2, 3, 6, 7, 9))

ALLF = ("avx2", "sse4", "gen")
NEONF = ALLF + ("neon", "neon64")
check("C02", models=[dict(module="PFModel", cfg=inv("LoopInvariant", "Result", "Fermat", consts="PRIMES = {2, 3, 5, 7, 11}"),
                          cfg_thorough=inv("LoopInvariant", "Result", "Fermat", consts="PRIMES = {2, 3, 5, 7, 11, 13, 17, 19, 23}"), min_states=100)],
      harnesses=[dict(src="pf.cc", module="PFTrace")])
check("C03", models=[dict(module="CRCModel", cfg=inv("Agree", "Linear", "SelfCheck", consts="W = 4 S = 2 DEPTH = 2"),
                          cfg_thorough=inv("Agree", "Linear", "SelfCheck", consts="W = 5 S = 4 DEPTH = 3"), min_states=100)],
      harnesses=[dict(src="crc.cc", module="CRCTrace")])
check("C04", models=[dict(module="XorshiftModel", cfg=inv("Range", "NeverDies", "Bijective", consts="W = 6 A = 3 B = 4 C = 1"), min_states=60)],
      harnesses=[dict(src="xorshift.cc", module="XorshiftTrace")])
check("C05", models=[dict(module="MLSModel", cfg=inv("InRange", "Verdict", "SameAsMaximal", consts="MAXDEG = 4"),
                          cfg_thorough=inv("InRange", "Verdict", "SameAsMaximal", consts="MAXDEG = 6"), min_states=100)],
      harnesses=[dict(src="mls.cc", module="MLSTrace")])
check("C06", models=[dict(module="BitstreamModel", cfg=inv("Same", "Reads", consts="W = 2 BYTES = 3 DEPTH = 3"),
                          cfg_thorough=inv("Same", "Reads", consts="W = 3 BYTES = 3 DEPTH = 4"), min_states=100)],
      harnesses=[dict(src="bitstream.cc", module="BitstreamTrace")])
check("C07", models=[dict(module="BitmanModel", cfg=inv("Same", consts="W = 3 BYTES = 2"), min_states=60)],
      harnesses=[dict(src="bitman.cc", module="BitmanTrace")])
check("C08", models=[dict(module="PermuteModel", cfg=inv("AlwaysPermutation", "Restored", "Reversal", "Interleaving", consts="MAXN = 6"),
                          cfg_thorough=inv("AlwaysPermutation", "Restored", "Reversal", "Interleaving", consts="MAXN = 8"), min_states=100)],
      harnesses=[dict(src="permute.cc", module="PermuteTrace")])
check("C09", models=[dict(module="SortModel", cfg=inv("Permutation", "StableSorted", consts="MAXN = 6 KEYS = 3 M = 2"),
                          cfg_thorough=inv("Permutation", "StableSorted", consts="MAXN = 8 KEYS = 3 M = 2"), min_states=100)],
      harnesses=[dict(src="sort.cc", module="SortTrace", flavours=NEONF)])
check("C10", models=[dict(module="ReduceModel", cfg=inv("AllButOne", "NoRepeat", consts="MAXN = 9"), min_states=50)],
      harnesses=[dict(src="reduce.cc", module="ReduceTrace")])
check("C29", models=[dict(module="RotateModel", cfg=inv("Rotated", consts="H = 4"),
                          cfg_thorough=inv("Rotated", consts="H = 16"), min_states=50)],
      harnesses=[dict(src="rotate.cc", module="RotateTrace", flavours=NEONF)])


def cauchy(kind, m, p, kmax, ln, **kw):
    return dict(module="CauchyModel", cfg=inv("Restored", "FitsSymbol", consts='KIND = "%s" FM = %d FP = %d KMAX = %d LEN = %d' % (kind, m, p, kmax, ln)), min_states=200, **kw)


check("C15", models=[cauchy("gf", 3, 11, 2, 1), cauchy("gf", 3, 13, 3, 1, tier="thorough"), cauchy("gf", 2, 7, 2, 2)],
      harnesses=[dict(src="crs.cc", module="CRSTrace", flavours=NEONF)])
check("C16", models=[cauchy("pf", 0, 11, 2, 1), cauchy("pf", 0, 13, 3, 1, tier="thorough"), cauchy("pf", 0, 7, 1, 2)],
      harnesses=[dict(src="cpf.cc", module="CPFTrace")])
check("C19", models=[dict(module="HadamardModel", cfg=inv("MaximumLikelihood", consts="MAXK = 3 AMP = 1"),
                          cfg_thorough=inv("MaximumLikelihood", consts="MAXK = 3 AMP = 2"), min_states=1000)],
      harnesses=[dict(src="hadamard.cc", module="HadamardTrace")])


def sbch(n, k, g, t, **kw):
    return dict(module="ShortBCHModel", cfg=inv("Nearest", "Systematic", consts="MN = %d MK = %d MG = %d MT = %d" % (n, k, g, t)), min_states=100, **kw)


SBT = [dict(name="shortbch", module="ShortBCHGen")]
check("C17", models=[sbch(7, 4, 0b1011, 1), sbch(5, 1, 0b11111, 2, tier="thorough"), sbch(9, 1, 0b111111111, 3, tier="thorough")],
      generators=SBT, harnesses=[dict(src="shortbch.cc", module="ShortBCHTrace", args=["hard"])])
check("C18", models=[dict(module="ChaseModel", cfg=inv("LeastReliable", "UniqueBest", consts="N = 4 L = 2 MAXMAG = 2 CANDS = 3"),
                          cfg_thorough=inv("LeastReliable", "UniqueBest", consts="N = 5 L = 3 MAXMAG = 3 CANDS = 3"), min_states=1000)],
      harnesses=[dict(src="shortbch.cc", module="ShortBCHTrace", args=["soft"])])


def osd_model(**kw):
    return dict(module="OSDModel", cfg=inv("MostReliable", "Spans", "Best", consts="N = 4 K = 2 O = 1 MAXMAG = 1"),
                cfg_thorough=inv("MostReliable", "Spans", "Best", consts="N = 4 K = 2 O = 1 MAXMAG = 2"), min_states=100, **kw)


check("C26", models=[osd_model()], harnesses=[dict(src="osd.cc", module="OSDTrace", args=["hard"])])
check("C27", models=[dict(module="OSLDModel", cfg=inv("TopL", "Ranks", consts="L = 2 M = 4 V = 2"), cfg_thorough=inv("TopL", "Ranks", consts="L = 3 M = 5 V = 2"), min_states=100)], harnesses=[dict(src="osd.cc", module="OSDTrace", args=["list"])])

NA = {}


def ldpc_h(mode):
    return [dict(src="ldpc.cc", module="LDPCTrace", args=[mode], defs=["-DPART=%d" % p], flavours=ALLF + ("neon",) if mode == "dec" else ALLF) for p in range(4)]


def ldpc_model(which, vals, **kw):
    return dict(module="LDPCModel", cfg=inv("Consistent", "OneWriter", "Links", "Settled", "SameFar", consts="WHICH = %d AMPS = %d BETA = %d TRIALS = 3" % (which, vals, which % 2)),
                min_states=100, **kw)


check("C20", models=[dict(module="LDPCModel", cfg=inv("Links", consts="WHICH = 2 AMPS = 1 BETA = 0 TRIALS = 1"), min_states=1)], harnesses=ldpc_h("enc"))
check("C21", models=[ldpc_model(1, 2), ldpc_model(3, 3), ldpc_model(1, 4, tier="thorough"), ldpc_model(2, 2, tier="thorough"), ldpc_model(3, 5, tier="thorough")], harnesses=ldpc_h("dec"))


def pe_model(maxl, maxfirst, **kw):
    return dict(module="PolarEncModel", cfg=inv("PlainRight", "Systematic", "Sufficient", "Needed", "ParityRight", "Runs", "Recursion", "Prefix",
                consts="MAXL = %d MAXFIRST = %d" % (maxl, maxfirst)), min_states=100, **kw)


def pd_model(level, vals, lists, parity, *names, **kw):
    return dict(module="PolarDecModel", cfg=inv(*names, consts="LEVEL = %d VALS = %d LISTS = %d PARITY = %d" % (level, vals, lists, parity)), min_states=1000, **kw)


SCI = ("Textbook", "Shortcut", "Noiseless", "Embedded")
LDI = ("Ordered", "Distinct", "Metric", "InSet", "Complete", "Best", "Single", "Noiseless", "Recursive", "Embedded")
check("C22", models=[pe_model(2, 2), pe_model(3, 1, tier="thorough")], harnesses=[dict(src="polar.cc", module="PolarTrace", args=["enc"])])
check("C23", models=[pd_model(2, 3, 0, 0, *SCI), pd_model(2, 5, 0, 0, *SCI, tier="thorough"), pd_model(3, 2, 0, 0, *SCI, tier="thorough"), pd_model(2, 6, 0, 0, *SCI)],
      harnesses=[dict(src="polar.cc", module="PolarTrace", args=["sc"], flavours=NEONF)])
check("C24", models=[pd_model(2, 3, 1, 0, *LDI), pd_model(2, 2, 2, 2, *LDI), pd_model(2, 5, 1, 0, *LDI, tier="thorough"), pd_model(2, 7, 2, 2, *LDI, tier="thorough")],
      harnesses=[dict(src="polar.cc", module="PolarTrace", args=["list"], flavours=NEONF),
                 dict(src="polar.cc", module="PolarTrace", args=["huge"])])
def pc_model(den, maxl, **kw):
    return dict(module="PolarCodeModel", cfg=inv("Conserved", "Same", "Recursion", "OrderExact", "Dominance", "UpSets", "Possible", "Thresholds", "Sequences",
                consts="DEN = %d MAXL = %d" % (den, maxl)), min_states=20, **kw)


check("C25", models=[pc_model(3, 3), pc_model(6, 2), pc_model(1, 4, tier="thorough")], harnesses=[dict(src="freezer.cc", module="PolarCodeTrace", flavours=("avx2", "gen"))])
check("C28", models=[dict(module="SimdModel", cfg=inv("UnaryRight", "BinaryRight", "WideRight", "Shuffle", consts="STEP = 17"),
                          cfg_thorough=inv("UnaryRight", "BinaryRight", "WideRight", "Shuffle", consts="STEP = 1"), min_states=256)],
      generators=[dict(name="simd", module="SimdGen")],
      harnesses=[dict(src="simd.cc", module="SimdTrace" if p > 1 else None, defs=["-DPART=%d" % p], flavours=NEONF) for p in range(7)])


def hist_model(s, i, **kw):
    return dict(module="HistoryModel", cfg=inv("NoFalseAlarm", "Enough", consts="S = %d I = %d O = 2" % (s, i)), min_states=100, **kw)


check("C30", models=[hist_model(2, 2), hist_model(3, 1), hist_model(2, 3, tier="thorough"), hist_model(3, 2, tier="thorough")],
      harnesses=[dict(src="history.cc", module="HistoryTrace", defs=["-DPART=%d" % p], flavours=("avx2", "gen")) for p in range(4)])
