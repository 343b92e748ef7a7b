"""Which stages decide which property (see check.py)."""

THOROUGH_SEEDS = 3


def gen(module, domain, consts, suite, what="", **kw):
    return dict(kind="gen", module=module, domain=domain, consts=consts, suite=suite, what=what, **kw)


def mc(module, consts, what="", **kw):
    return dict(kind="mc", module=module, consts=consts, what=what, **kw)


def trace(module, domain, consts, suite, count, what="", **kw):
    return dict(kind="trace", module=module, domain=domain, consts=consts, suite=suite, count=count, what=what, **kw)


# ------------------------------------------------------------------ matrices
MAT_INV = ["Refines", "ReadsAgree", "ProductsAgree", "AdjugateInverts"]


def mat(suite, tier, seed):
    q = tier == "quick"
    base = dict(SEED=seed % 1000, SUITE=suite)
    out = []
    out.append(mc("MatMachine", dict(base, MODE="mc", NHIST=1, DEPTH=4 if q else 5, NFIX=3), "all call sequences over small sets, 3x3",
                  inv=["Refines", "ReadsAgree", "ProductsAgree"], props=["LayoutKept"]))
    if not q:
        out.append(mc("MatMachine", dict(base, MODE="mc", NHIST=1, DEPTH=4, NFIX=4), "all call sequences over small sets, 4x4",
                      inv=["Refines", "ReadsAgree", "ProductsAgree"], props=["LayoutKept"]))
    out.append(gen("MatMachine", "mat", dict(base, MODE="rand", NHIST=300 if q else 4000, DEPTH=16 if q else 24, NFIX=0), suite,
                   "random call histories", inv=MAT_INV))
    enum = {"A02": [(3, 162), (4, 512)], "A03": [(3, 162), (4, 512)], "A04": [(3, 3000)], "A05": [(3, 36), (4, 64)]}
    if not q:
        enum["A04"] = [(3, 19683), (4, 65536)]
    if suite == "A04" and q:
        enum["A04"] = [(3, 19683)]
    for n, cnt in enum[suite]:
        out.append(gen("MatMachine", "mat", dict(base, MODE="enum", NHIST=cnt, DEPTH=99, NFIX=n), suite,
                       "systematic enumeration, %dx%d" % (n, n), inv=["Refines"]))
    for n, cnt in ((3, 400), (4, 680)):
        out.append(gen("MatMachine", "mat", dict(base, MODE="form", NHIST=cnt if q else 8 * cnt, DEPTH=99, NFIX=n), suite,
                       "matrices of special form, whole and with each entry changed, %dx%d" % (n, n), inv=["Refines"]))
    out.append(trace("MatTrace", "mat", dict(base, MODE="trace", NHIST=1, DEPTH=1000000, NFIX=0), suite, 1500 if q else 12000,
                     "recorded histories", inv=["Refines"]))
    return out


# ------------------------------------------------------------------ vectors
def vec(prop, tier, seed):
    q = tier == "quick"
    inv = ["CrossLaws", "SumLaws", "Laws"]
    base = dict(SEED=seed % 1000)
    out = [mc("VecMachine", dict(base, MODE="mc", NHIST=1, DEPTH=3, NFIX=3), "every binary call on all pairs of 3-vectors over -2..2", inv=inv),
           gen("VecMachine", "vec", dict(base, MODE="rand", NHIST=600 if q else 6000, DEPTH=18 if q else 24, NFIX=0), prop,
               "random call histories", inv=inv)]
    for n in (2, 3, 4):
        out.append(gen("VecMachine", "vec", dict(base, MODE="enum", NHIST=2 * n * n * 14, DEPTH=99, NFIX=n), prop,
                       "systematic: unit vectors, labelled components, near relatives, length %d" % n, inv=inv))
    out.append(trace("VecTrace", "vec", dict(base, MODE="trace", NHIST=1, DEPTH=1000000, NFIX=0), prop, 3000 if q else 20000,
                     "recorded histories", inv=["Laws"]))
    return out


def cmp(prop, tier, seed):
    q = tier == "quick"
    inv = ["CodedIsMeant", "Symmetric", "NanNeverEqual", "NegativeNever", "Monotone", "VicSane", "VicCoded"]
    base = dict(SEED=seed % 1000)
    return [mc("CmpMachine", dict(base, MODE="mc", NHIST=1, DEPTH=1, BOUND=2 if q else 3), "all pairs of values and tolerances", inv=inv, view="NoTime"),
            gen("CmpMachine", "cmp", dict(base, MODE="rand", NHIST=600 if q else 6000, DEPTH=20 if q else 30, BOUND=3), prop,
                "random edits and proximity tests", inv=inv),
            gen("CmpMachine", "cmp", dict(base, MODE="enum", NHIST=128 if q else 384, DEPTH=30, BOUND=3), prop,
                "every component of every kind around the tolerance", inv=inv),
            trace("CmpTrace", "cmp", dict(base, MODE="trace", NHIST=1, DEPTH=1000000, BOUND=3), prop, 3000 if q else 20000,
                  "recorded comparisons and proximity tests", inv=["CodedIsMeant", "NanNeverEqual"])]


# ------------------------------------------------------------------ quaternions
def quat(prop, tier, seed):
    q = tier == "quick"
    inv = ["NormLaw", "UnitLaw", "PairLaws", "ProductLaw"]
    base = dict(SEED=seed % 1000, SUITE=prop)
    out = [mc("QuatMachine", dict(base, MODE="mc", NHIST=1, DEPTH=3 if q else 4), "all pairs of quaternions over {-1,0,1}",
              inv=inv + ["RotLaws"])]
    out.append(gen("QuatMachine", "quat", dict(base, MODE="rand", NHIST=500 if q else 6000, DEPTH=18 if q else 24), prop,
                   "random call histories", inv=["NormLaw", "UnitLaw"]))
    out.append(gen("QuatMachine", "quat", dict(base, MODE="enum", NHIST=64 + 208 if prop == "Q01" else 81, DEPTH=99), prop,
                   "systematic: quaternions over {-1,0,1}", inv=["NormLaw"]))
    out.append(trace("QuatTrace", "quat", dict(base, MODE="trace", NHIST=1, DEPTH=1000000), prop, 2500 if q else 20000,
                     "recorded histories", inv=["NormLaw"]))
    return out


def turn(prop, tier, seed):
    q = tier == "quick"
    inv = ["TurnLaws", "PolarLaws"]
    base = dict(SEED=seed % 1000, SUITE=prop)
    out = [mc("TurnMachine", dict(base, MODE="mc", NHIST=1, DEPTH=3), "pairs of quaternions at multiples of ten degrees",
              inv=inv + ["PowLaws", "SlerpLaws"]),
           gen("TurnMachine", "turn", dict(base, MODE="rand", NHIST=900 if q else 9000, DEPTH=16 if q else 24), prop,
               "random call histories", inv=inv),
           gen("TurnMachine", "turn", dict(base, MODE="enum", NHIST=360 if q else 720, DEPTH=99), prop,
               "systematic: every degree", inv=inv),
           trace("TurnTrace", "turn", dict(base, MODE="trace", NHIST=1, DEPTH=1000000), prop, 2500 if q else 20000,
                 "recorded histories", inv=inv)]
    return out


def box(prop, tier, seed):
    q = tier == "quick"
    base = dict(SEED=seed % 1000)
    return [mc("BoxMachine", dict(base, MODE="mc", NHIST=1, DEPTH=3), "pairs of boxes with sides among -inf, -1, 0, 1, inf",
               inv=["MeetShares", "MeetSymmetric", "UnionLeast", "UnionMonotone", "LongestSane", "Ordered"]),
            gen("BoxMachine", "box", dict(base, MODE="rand", NHIST=900 if q else 9000, DEPTH=24 if q else 40), prop,
                "random call histories", inv=["Ordered", "LongestSane"]),
            gen("BoxMachine", "box", dict(base, MODE="enum", NHIST=588, DEPTH=99), prop, "every relative position of two intervals", inv=["Ordered"]),
            trace("BoxTrace", "box", dict(base, MODE="trace", NHIST=1, DEPTH=1000000), prop, 3000 if q else 25000, "recorded histories", inv=["Ordered"])]


# ------------------------------------------------------------------ shapes
SCENE_LAWS = ["Witnessed", "NoneMissed", "Symmetric", "FilterSound", "BoundsHold", "SupportReach", "GjkAgrees"]


def scene(prop, tier, seed):
    q = tier == "quick"
    base = dict(SEED=seed % 1000, SUITE=prop)
    laws = SCENE_LAWS + ([] if q else ["HalfMissed"])
    return [mc("SceneMachine", dict(base, MODE="mc", NHIST=1, DEPTH=2), "every pair of small shapes, against lattice points", inv=laws),
            gen("SceneMachine", "scene", dict(base, MODE="rand", NHIST=900 if q else 9000, DEPTH=20 if q else 30), prop,
                "random scenes around the delicate cases", props=["Pure"]),
            gen("SceneMachine", "scene", dict(base, MODE="enum", NHIST=300 if q else 2500, DEPTH=99), prop, "systematic families"),
            trace("SceneTrace", "scene", dict(base, MODE="trace", NHIST=1, DEPTH=1000000), prop, 3000 if q else 20000, "recorded scenes")]


def stages(prop, tier, seed):
    if prop in ("A02", "A03", "A04", "A05"):
        return mat(prop, tier, seed)
    if prop == "A01":
        return vec(prop, tier, seed)
    if prop in ("Q01", "Q02", "Q06", "Q07", "Q08"):
        return quat(prop, tier, seed)
    if prop in ("Q03", "Q04", "Q05"):
        return turn(prop, tier, seed)
    if prop == "A06":
        return cmp(prop, tier, seed)
    if prop == "B02":
        return box(prop, tier, seed)
    if prop in SCENES:
        return scene(prop, tier, seed)
    raise SystemExit("unknown property " + prop)


SCENES = ("B01", "G01", "G02", "G03", "G04", "G05", "G06", "G07", "G08", "G09", "G10", "G11")
_T = "TLA+ state machine checked by TLC; its behaviours replayed on the code, recorded histories validated by a trace spec"
_N = ("Exhaustive on the specification within the stated bounds; on the code, every generated and recorded call is judged, "
      "so inputs outside the generated families are covered only by the algebraic structure of the operation. ")
PROPS = {p: dict(technique=_T, note=_N) for p in ("A01", "A02", "A03", "A04", "A05", "A06", "Q01", "Q02", "Q03", "Q04", "Q05", "Q06", "Q07", "Q08", "B02") + SCENES}
