"""Jobs per property. A job is (IR variant, harness, parameters); the bounds text is what the evidence file states.

Variants: "small" compiles the crate with 8 entries per node (hook verif_small_nodes), "big" with the shipped 64;
the "_r" variants compile it without debug assertions and with wrapping arithmetic, as a release build has it.
Parameters: 0 shape, 1 size, 2 operation list, 3 run length, 4/5 key window, 6/7 harness specific.
"""

import zlib

COMMON_ASSUMPTIONS = [
    "rustc 1.99.1's LLVM bitcode (opt-level 0, then only sroa/early-cse/inlining of forced functions) is taken as the meaning of the source",
    "heap allocation succeeds; addresses are abstract and symbolic-pointer comparisons across allocations are not modelled",
    "tree sizes, construction shapes, operation counts and key widths beyond the stated ones are outside the bound",
]


def ops(*k):
    """operation list -> parameter 2"""
    r = 1
    for x in k:
        r = r * 16 + x
    return r


GET, INS, REM, GETM, DELA, DELD, INSA, INSD, GETP, OWN, ALLA, ALLD, ALLM, FILL, OVER, REINS = range(16)
OPN = "lookup, insert, remove, mutable lookup, ascending/descending removal run, ascending/descending insertion run, lookup+write of a present entry, lookup by owned key, overwrite, remove+reinsert"
SHAPES = "insertion ascending, descending, zigzag, strided; bulk-loaded; bulk-loaded and thinned to minimal leaves (all or every other); random with half removed; stretches removed; descending with the front third removed"


def job(v, h, shape, n, o=1, run=0, lo=0, hi=0, a=0, b=0):
    return (v, h, [shape, n, o, run, lo, hi, a, b])


def rnd(seed):
    return 7 + 256 * seed


def pick(tier, q, t):
    return q if tier == "quick" else t


ALL = [0, 1, 2, 3, 4, 5, 6, 6 + 256, rnd(0), rnd(1), 8, 8 + 256, 9]
GROWN = [0, 1, 2, 3, rnd(0), rnd(1), 8, 8 + 256, 9]


def keywindow(n, at, width):
    """keys around entry number `at` of n"""
    return max(1, 4 * at + 10 - 4 * width), 4 * at + 10 + 4 * width


def c01(tier):
    J = []
    t = tier == "thorough"
    kinds = [GET, INS, REM, GETM, DELA, DELD, INSA, INSD, OWN]
    # every pair (thorough: also triples) of operations on a tree of a few leaves, every key symbolic
    for sh, n in pick(tier, [(0, 20), (rnd(0), 40)], [(0, 20), (1, 24), (rnd(0), 40), (5, 40), (8, 30), (4, 17)]):
        for a in kinds:
            for b in kinds:
                J.append(job("small", "h_c01_map", sh, n, ops(a, b), 9))
    tri = [INS, REM, DELA, INSA]
    for a in tri:
        for b in tri:
            for c in tri:
                J.append(job("small", "h_c01_tree", rnd(2), pick(tier, 8, 18), ops(a, b, c), 6))
    # one operation or run on larger trees of every shape
    for sh in ALL:
        for n in pick(tier, [9, 60, 150, 250], [8, 9, 17, 30, 60, 73, 100, 150, 250, 400, 700]):
            for k, run in [(INS, 0), (REM, 0), (GETM, 0), (DELA, 12), (DELD, 12), (DELA, 60), (DELD, 60), (INSA, 20), (INSD, 20), (OVER, 0), (REINS, 0)]:
                if run >= n:
                    continue
                J.append(job("small", "h_c01_map", sh, n, ops(k), run, a=0 if n <= 150 else 40))
        for n in pick(tier, (30, 90), (30, 90, 200)):
            J.append(job("small", "h_c01_tree", sh, n, ops(ALLA, FILL, REM), n))
            J.append(job("small", "h_c01_tree", sh, n, ops(ALLD, FILL, INS), n))
            J.append(job("small", "h_c01_tree", sh, n, ops(ALLM, FILL, DELA), n))
        # runs followed by a single operation at another place
        for n in pick(tier, [28], [40, 80, 120]):
            for k in (DELA, DELD, INSA, INSD):
                for m in (GET, INS, REM):
                    J.append(job("small", "h_c01_tree", sh, n, ops(k, m), 14, a=12))
    # shipped capacity: two levels in full, three levels in windows
    for sh in pick(tier, [0, 5, rnd(0)], ALL):
        for k, run in [(INS, 0), (REM, 0), (DELA, 50), (DELD, 50), (INSA, 60), (INSD, 60)]:
            J.append(job("big", "h_c01_map", sh, 200, ops(k), run))
    for sh in pick(tier, [4, 5], [0, 1, 4, 5, 6, rnd(0), 9]):
        for at in (0, 1008, 2080, 4150):
            for k, run in [(INS, 0), (REM, 0), (DELA, 70), (DELD, 70), (INSA, 70)]:
                lo, hi = keywindow(4200, at, pick(tier, 30, 70))
                J.append(job("big", "h_c01_map", sh, 4200, ops(k), run, lo, hi, 80))
    # entries that own memory, and values with padding
    for h in ("h_c01_heap", "h_c01_wide"):
        for sh in pick(tier, [0, 5, rnd(1)], ALL):
            for k, run in [(INS, 0), (REM, 0), (DELA, 20), (DELD, 20), (INSA, 20), (OVER, 0)]:
                J.append(job("small", h, sh, 80, ops(k), run))
    return J


def c02(tier):
    J = []
    t = tier == "thorough"
    # every schedule of front and back steps
    for sh, n in pick(tier, [(0, 12), (4, 13), (1, 9), (5, 20), (0, 0), (0, 1), (0, 8)], [(0, 15), (4, 16), (1, 13), (5, 24), (0, 0), (0, 1), (0, 2), (0, 8), (0, 9), (rnd(0), 26)]):
        for h in ("h_c02_tree", "h_c02_map", "h_c02_heap"):
            J.append(job("small", h, sh, n))
    for sh, n in [(0, 11), (4, 12)]:
        J.append(job("small", "h_c02_set", sh, n))
    # a from the front, b from the back, then alternating, after symbolic modifications
    for sh in ALL:
        for n in pick(tier, [40, 90], [40, 75, 90, 150]):
            J.append(job("small", "h_c02_tree", sh, n, a=1))
            J.append(job("small", "h_c02_map", sh, n, a=1))
    for sh in pick(tier, [0, 5, rnd(0)], ALL):
        for k, run in [(INS, 0), (REM, 0), (DELA, 20), (DELD, 20), (INSA, 12)]:
            J.append(job("small", "h_c02_map", sh, pick(tier, 22, 30), ops(k), run, a=1))
        J.append(job("small", "h_c02_heap", sh, 40, a=1))
        J.append(job("small", "h_c02_clone", sh, pick(tier, 12, 20), a=1))
    for sh, n in [(3, 60), (4, 60)]:
        J.append(job("small", "h_c02_set", sh, n, a=1))
        J.append(job("small", "h_c02_set", sh, 24, ops(DELA), 9, a=1))
    # the methods an iterator inherits
    for m in range(12):
        for sh, n in pick(tier, [(0, 12), (rnd(0), 30)], [(0, 12), (1, 20), (4, 17), (5, 40), (rnd(0), 60), (0, 0), (0, 8)]):
            for h in ("h_c02_tree", "h_c02_map", "h_c02_heap"):
                J.append(job("small", h, sh, n, a=3, b=m))
        for sh, n in pick(tier, [(4, 20)], [(3, 20), (4, 40)]):
            J.append(job("small", "h_c02_set", sh, n, a=3, b=m))
    for b in range(24):
        for sh, n in pick(tier, [(4, 14)], [(4, 14), (0, 30), (3, 50), (0, 1), (0, 0)]):
            J.append(job("small", "h_c02_ord", sh, n, b=b))
        J.append(job("big", "h_c02_ord", 4, pick(tier, 66, 140), b=b))
    # shipped capacity
    for sh, n in pick(tier, [(0, 130), (4, 140)], [(0, 130), (1, 200), (4, 140), (rnd(0), 300)]):
        J.append(job("big", "h_c02_map", sh, n, a=1))
        for m in (0, 1, 4, 5):
            J.append(job("big", "h_c02_map", sh, n // 2, a=3, b=m))
    return J


def c03(tier):
    J = []
    for sh, n in pick(tier, [(0, 11), (4, 12), (1, 9), (5, 20), (0, 0), (0, 1), (0, 8)], [(0, 15), (4, 16), (1, 13), (5, 24), (0, 0), (0, 1), (0, 2), (0, 8), (0, 9), (rnd(0), 26)]):
        for h in ("h_c03_tree", "h_c03_plain"):
            J.append(job("small", h, sh, n))
    for sh, n in [(3, 11), (4, 12)]:
        J.append(job("small", "h_c03_set", sh, n))
    # abandoned after a from the front and b from the back
    for sh in ALL:
        for n in pick(tier, [40, 90], [40, 75, 90, 150]):
            J.append(job("small", "h_c03_tree", sh, n, a=2))
            J.append(job("small", "h_c03_plain", sh, n, a=1))
    for sh in pick(tier, [0, 5, rnd(0)], ALL):
        for k, run in [(INS, 0), (REM, 0), (DELA, 20), (DELD, 20), (INSA, 12), (ALLM, 0)]:
            J.append(job("small", "h_c03_tree", sh, pick(tier, 22, 30), ops(k), run, a=2))
    for sh, n in [(3, 60), (4, 60)]:
        J.append(job("small", "h_c03_set", sh, n, a=2))
        J.append(job("small", "h_c03_set", sh, 24, ops(DELA), 9, a=2))
    for n in (0, 1, 8, 9, 40, 90):
        J.append(job("small", "h_c03_zst", 0, n))
    # the methods an iterator inherits
    for m in range(12):
        for sh, n in pick(tier, [(0, 12), (rnd(0), 30)], [(0, 12), (1, 20), (4, 17), (5, 40), (rnd(0), 60), (0, 0), (0, 8)]):
            for h in ("h_c03_tree", "h_c03_plain"):
                J.append(job("small", h, sh, n, a=3, b=m))
        for sh, n in pick(tier, [(4, 20)], [(3, 20), (4, 40)]):
            J.append(job("small", "h_c03_set", sh, n, a=3, b=m))
    for b in range(24):
        for sh, n in pick(tier, [(4, 14)], [(4, 14), (0, 30), (3, 50), (0, 1), (0, 0)]):
            J.append(job("small", "h_c03_ord", sh, n, b=b))
        J.append(job("big", "h_c03_ord", 4, pick(tier, 66, 140), b=b))
    for sh, n in pick(tier, [(0, 130), (4, 140)], [(0, 130), (1, 200), (4, 140), (rnd(0), 300)]):
        J.append(job("big", "h_c03_tree", sh, n, a=2))
    return J


def c04(tier):
    J = []
    kinds = [(INS, 0), (REM, 0), (OVER, 0), (REINS, 0), (DELA, 12), (DELD, 12), (INSA, 12), (INSD, 12)]
    for sh, n in pick(tier, [(0, 20), (5, 40)], [(0, 20), (1, 24), (5, 40), (rnd(0), 40), (8, 30)]):
        for a, r in kinds:
            for b, r2 in kinds:
                J.append(job("small", "h_c04_tree", sh, n, ops(a, b), max(r, r2)))
    for sh in ALL:
        for n in pick(tier, [30, 100], [9, 30, 73, 100, 200, 300]):
            for k, run in kinds + [(DELA, 60), (DELD, 60)]:
                J.append(job("small", "h_c04_map", sh, n, ops(k), run))
                J.append(job("small", "h_c04_tree", sh, n, ops(k), run))
        for end in (1, 2, 3, 4, 5, 6):
            J.append(job("small", "h_c04_tree", sh, 40, ops(DELA), 9, a=end))
            J.append(job("small", "h_c04_tree", sh, 90, a=end))
        for k in (ALLA, ALLD, ALLM):
            for end in (0, 1, 2, 3, 4, 6):
                J.append(job("small", "h_c04_tree", sh, 80, ops(k), a=end))
    for end in range(7):
        for n in (0, 1, 8, 9):
            J.append(job("small", "h_c04_tree", 0, n, a=end))
    for b in range(8):
        for a in (0, 1):
            for sh, n in pick(tier, [(0, 20), (5, 100)], [(0, 20), (5, 100), (rnd(0), 60), (1, 90)]):
                for k, run in [(REM, 0), (INS, 0), (DELA, 20)]:
                    J.append(job("small", "h_c04_mixed", sh, n, ops(k), run, a=a, b=b))
            J.append(job("big", "h_c04_mixed", 5, 300, ops(DELA), 30, *keywindow(300, 100, 20), a=a, b=b))
    for n in pick(tier, [9, 30, 80], [9, 30, 80, 150]):
        for run in (1, 9, 30):
            J.append(job("small", "h_c04_zst", 0, n, 1, run))
    for n, at, m in pick(tier, [(6, 1, 3), (20, 6, 3), (80, 71, 2)], [(6, 1, 4), (20, 6, 3), (80, 71, 2), (90, 30, 2), (660, 647, 1)]):
        J.append(job("small", "h_c04_bulk", 0, n, at, m))
    for sh in pick(tier, [5, rnd(0)], ALL):
        for k, run in [(INS, 0), (REM, 0), (DELA, 60), (DELD, 60), (INSA, 60)]:
            J.append(job("big", "h_c04_tree", sh, 300, ops(k), run))
            # release semantics: no debug assertion stops a bad access before it happens
            J.append(job("small_r", "h_c04_tree", sh, 100, ops(k), run))
    return J


def c05(tier):
    J = []

    def bj(v, h, n, at=0, m=0, after=0, order=0, lo=0, hi=0):
        J.append((v, h, [0, n, at, m, lo, hi, after, order]))

    # every sequence of a few entries, duplicates and all
    for n in range(0, pick(tier, 6, 7)):
        bj("small", "h_c05_map", n, 0, n, 1)
        bj("small", "h_c05_set", n, 0, n)
        bj("small", "h_c05_tree", n, 0, n, 1)
        bj("small", "h_c05_seq", n, 0, n, 0)
    # a few symbolic entries among concrete ones, at leaf and inner boundaries; 0 ascending, 1 descending, 2 shuffled
    for n in pick(tier, [7, 8, 9, 16, 17, 72, 73, 80, 81], [7, 8, 9, 10, 15, 16, 17, 24, 25, 64, 65, 71, 72, 73, 74, 80, 81, 82, 144, 145, 152, 153, 160, 161, 162]):
        for at in {0, max(0, n // 2), max(0, n - 1)}:
            for order in (0, 1, 2):
                if n % 37 == 0 and order == 2:
                    continue
                bj("small", "h_c05_map", n, at, 1, 1, order)
            bj("small", "h_c05_tree", n, at, 1, 1)
            if n < 30 or (at == n // 2 and (n == 73 or tier == "thorough")):
                bj("small", "h_c05_set", n, at, 1)
            bj("small", "h_c05_seq", n, at, 1, 0)
        if n < 30 or tier == "thorough":
            bj("small", "h_c05_map", n, max(0, n - 2), 2, 0, 2)
        bj("small", "h_c05_tree", n, max(0, n - 2), 2, 0)
    # later operations
    for n in pick(tier, [8, 9, 30, 72, 73, 74, 80, 81, 82, 145, 154, 162, 648, 649, 660, 730], list(range(1, 100)) + [145, 146, 153, 154, 155, 161, 162, 163, 300, 576, 577, 584, 585, 640, 648, 649, 650, 656, 657, 660, 720, 721, 729, 730, 731, 738]):
        w = (0, 0)
        if n > 200:
            w = keywindow(n, n - 5, 20)
        for after in pick(tier, [2, 3, 4, 5, 6, 7, 8, 9], [2, 3, 4, 5, 6, 7, 8, 9]):
            bj("small", "h_c05_map", n, 0, 0, after, 0, *w)
            if n <= 200:
                bj("small", "h_c05_seq", n, 0, 0, after)
        if n < 200:
            for after in (10, 11, 12):
                bj("small", "h_c05_tree", n, 0, 0, after)
        elif n > 640:
            for after in (3, 4, 5, 6, 8, 9):
                bj("small", "h_c05_map", n, 0, 0, after, 0, *keywindow(n, 0, 10))
                bj("small", "h_c05_map", n, 0, 0, after, 0, *keywindow(n, 576, 10))
    # shipped capacity
    for n in (64, 65, 128, 129, 4160, 4161, 4224, 4225) if tier == "quick" else (63, 64, 65, 127, 128, 129, 191, 193, 4096, 4159, 4160, 4161, 4224, 4225, 4288, 4289, 8320, 8321):
        w = (0, 0)
        if n > 200:
            w = keywindow(n, n - 5, pick(tier, 12, 40))
        for after in (3, 4, 8, 9):
            bj("big", "h_c05_map", n, 0, 0, after, 0, *w)
    return J


def c06(tier):
    J = []
    kinds = [(INS, 0), (REM, 0), (OVER, 0), (DELA, 9), (DELD, 9), (INSA, 9), (INSD, 9)]
    for sh, n in pick(tier, [(0, 18), (5, 30)], [(0, 18), (1, 24), (5, 40), (rnd(0), 40), (8, 30)]):
        for k, run in kinds:
            for q in (1, 2, 3, 4, 5, 6, 7, 0x13, 0x43):
                J.append(job("small", "h_c06_map" if q != 4 else "h_c06_tree", sh, n, ops(k), run, a=q))
    for sh in ALL:
        for n in pick(tier, [100, 300], [30, 73, 100, 200, 300, 700]):
            for q in (1, 2, 3, 4, 5, 6, 7):
                J.append(job("small", "h_c06_tree" if q % 2 else "h_c06_map", sh, n, 1, 30, a=q))
    for n in (0, 1, 8, 9):
        for q in (1, 2, 3, 4, 0x33, 0x333):
            J.append(job("small", "h_c06_tree", 0, n, 1, 30, a=q))
    for sh, n in pick(tier, [(rnd(0), 200), (5, 600)], [(0, 200), (rnd(0), 200), (5, 600), (4, 700), (9, 400)]):
        for q in (1, 3, 4, 5, 7):
            J.append(job("big", "h_c06_map", sh, n, 1, 60, a=q))
    # inner nodes of the shipped capacity with more than half of their children, and three levels
    for sh, n in pick(tier, [(4, 2600), (0, 2600)], [(4, 2600), (0, 2600), (4, 4300)]):
        for q in pick(tier, (1, 3), (1, 3, 4, 5)):
            J.append(job("big", "h_c06_map", sh, n, 1, 60, a=q))
    return J


def c07(tier):
    J = []
    for n in pick(tier, [1, 2, 5, 9, 10, 12], [1, 2, 3, 5, 8, 9, 10, 12, 14, 17, 18]):
        for build in (0, 1, 4):
            for q in (1, 3, 4, 5, 6) if n <= 10 else (4, 6):
                J.append(("small", "h_c07_free", [build, n, 0, 0, 0, 0, q, 0]))
    kinds = [(INS, 0), (REM, 0), (DELA, 9), (DELD, 9), (INSA, 6)]
    for gs in (1, 3, 8, 20, 1000):
        for sh, n in pick(tier, [(0, 24), (rnd(0), 44)], [(0, 24), (1, 30), (rnd(0), 60), (5, 50), (8, 40)]):
            for k, run in kinds:
                for q in (1, 3, 4, 5, 6):
                    J.append(job("small", "h_c07_map" if q % 2 else "h_c07_tree", sh, n, ops(k), run, a=q, b=gs))
    for gs in (1, 2, 5, 30, 90, 1000):
        for sh in pick(tier, [0, 4, 5, rnd(1), 8], ALL):
            for q in (1, 2, 3, 4, 5, 6):
                for n in pick(tier, [90, 200], [60, 90, 160, 250, 500]):
                    J.append(job("small", "h_c07_tree" if q % 2 else "h_c07_map", sh, n, a=q, b=gs))
    for gs, sh, n in pick(tier, [(7, rnd(0), 300), (100, 5, 600)], [(1, 0, 200), (7, rnd(0), 300), (100, 5, 600), (200, 4, 700)]):
        for q in (1, 3, 4, 5, 6):
            J.append(job("big", "h_c07_map", sh, n, a=q, b=gs))
    for gs, sh, n in pick(tier, [(300, 4, 2600), (1000, 0, 2600)], [(300, 4, 2600), (1000, 0, 2600), (7, 4, 2600), (64, 0, 2600)]):
        for q in (1, 3, 4, 5, 6):
            J.append(job("big", "h_c07_map", sh, n, a=q, b=gs))
    return J


def c08(tier):
    J = []
    kinds = [INS, REM, DELA, DELD, INSA, INSD, OVER, REINS]
    for sh, n in pick(tier, [(0, 20), (rnd(0), 40)], [(0, 20), (1, 24), (rnd(0), 40), (5, 40), (8, 30), (4, 18)]):
        for a in kinds:
            for b in kinds:
                J.append(job("small", "h_c08", sh, n, ops(a, b), 9))
    for sh in ALL:
        for n in pick(tier, [60, 130], [30, 60, 73, 100, 130, 250]):
            for k, run in [(INS, 0), (REM, 0), (OVER, 0), (DELA, 20), (DELD, 20), (INSA, 20), (INSD, 20)]:
                J.append(job("small", "h_c08", sh, n, ops(k), run))
            J.append(job("small", "h_c08", sh, n, a=1))
        J.append(job("small", "h_c08", sh, 90, ops(DELA), 12, a=2))
        J.append(job("small", "h_c08", sh, 90, ops(DELD), 12, a=3))
        J.append(job("small", "h_c08", sh, 60, ops(ALLM, FILL), 60, a=1))
    for n in (0, 1, 8, 9):
        for a in (0, 1, 2, 3):
            J.append(job("small", "h_c08", 0, n, a=a))
    for sh, n in pick(tier, [(0, 200), (5, 300)], [(0, 200), (1, 200), (5, 600), (rnd(0), 300), (4, 600)]):
        for k, run in [(INS, 0), (REM, 0), (DELA, 60), (DELD, 60), (INSA, 60)]:
            J.append(job("big", "h_c08", sh, n, ops(k), run))
    for sh, n in pick(tier, [(4, 1300)], [(4, 1300), (0, 2600)]):
        for k in (INS, REM, OVER):
            J.append(job("big", "h_c08", sh, n, ops(k), 0, *keywindow(n, n - 70, 4)))
    return J


def c09(tier):
    J = []
    kinds = [(INS, 0), (REM, 0), (DELA, 12), (DELD, 12), (INSA, 12), (INSD, 12), (ALLA, 0), (ALLM, 0)]
    # cursor at any key, then any modification, then used at every one of its places
    for sh, n in pick(tier, [(0, 18), (5, 30)], [(0, 20), (1, 24), (rnd(0), 40), (5, 40)]):
        for k, run in kinds:
            J.append(job("small", "h_c09", sh, n, ops(k), run))
    two = [(INS, REM), (REM, INS), (DELA, INSA), (DELD, INSD), (DELA, DELD), (INSA, DELD), (ALLA, FILL), (ALLM, INS), (ALLD, FILL)]
    for sh, n in pick(tier, [(0, 20), (rnd(0), 44)], [(0, 20), (1, 24), (rnd(0), 44), (5, 40), (8, 40)]):
        for a, b in two:
            for made, at in ((1, 0), (2, 0), (3, 0), (3, 9), (4, 14)):
                J.append(job("small", "h_c09", sh, n, ops(a, b), 9, a=made, b=at))
    for sh in ALL:
        for n in pick(tier, [60, 120], [30, 60, 90, 120, 250]):
            for k, run in kinds:
                for made, at in ((3, 0), (3, n // 4), (4, n // 3), (1, 0), (2, 0)):
                    if at >= n // 2:
                        continue
                    J.append(job("small", "h_c09", sh, n, ops(k), max(run, 12), a=made, b=at))
        for k, run in [(INS, 0), (REM, 0), (DELA, 20), (INSD, 20)]:
            J.append(job("small", "h_c09_walk", sh, 80, ops(k), run))
    for n in (0, 1, 8, 9):
        J.append(job("small", "h_c09_walk", 0, n))
        J.append(job("small", "h_c09", 0, n, ops(INS)))
        J.append(job("small", "h_c09", 0, n, ops(REM)))
    for sh, n in pick(tier, [(0, 150), (5, 300)], [(0, 150), (5, 300), (rnd(0), 300)]):
        for k, run in [(INS, 0), (REM, 0), (DELA, 60), (INSA, 60)]:
            J.append(job("big", "h_c09", sh, n, ops(k), run, a=3, b=20))
            J.append(job("big", "h_c09_walk", sh, n, ops(k), run))
    for sh, n in ((4, 2600), (0, 2600)):
        for k, run in [(INS, 0), (REM, 0), (DELA, 70)]:
            J.append(job("big", "h_c09", sh, n, ops(k), run, *keywindow(n, 2080, 12), a=3, b=20))
    return J


def c10(tier):
    J = []
    # the second reader runs while any comparison of the first is in progress
    for sh, n in pick(tier, [(0, 14)], [(0, 17), (1, 20), (2, 24)]):
        for a in range(5):
            for b in range(5):
                for pre in pick(tier, (2,) if a or b else (0, 1, 2), (0, 1, 2)):
                    J.append(("small", "h_c10_inter", [sh, n, 0, 0, 0, 0, a | b << 4 | pre << 8, 0]))
    for sh, n in pick(tier, [(2, 80)], [(0, 100), (2, 300)]):
        for a, b in pick(tier, ((0, 0), (0, 2)), ((0, 0), (0, 1), (0, 4), (1, 0), (3, 0), (4, 0))):
            J.append(("small", "h_c10_inter", [sh, n, *keywindow(n, n // 2, 3), 0, 0, a | b << 4 | 2 << 8, 0]))
    for a, b in ((0, 0), (3, 0)):
        J.append(("big", "h_c10_inter", [2, 200, *keywindow(200, 64, 2), *keywindow(200, 128, 2), a | b << 4 | 2 << 8, 0]))
    for sh, n in pick(tier, [(0, 20), (rnd(0), 30)], [(0, 20), (rnd(0), 40), (5, 60), (4, 30)]):
        for a in range(5):
            for b in range(a, 5):
                J.append(job("small", "h_c10", sh, n, a=a | b << 4))
    for sh, n in pick(tier, [(0, 11)], [(0, 14), (1, 12), (rnd(0), 24)]):
        for k in pick(tier, (GET, REM, INSA), (GET, INS, REM, DELA, INSA)):
            for a, b in pick(tier, ((0, 0), (0, 1)), ((0, 0), (0, 1), (1, 1))):
                J.append(job("small", "h_c10", sh, n, ops(k), 9, a=a | b << 4))
    for sh in ALL:
        for n in pick(tier, [30], [40, 80]):
            for a in (0, 1):
                J.append(job("small", "h_c10", sh, n, a=a | 0 << 4))
    for sh, n in pick(tier, [(0, 40), (rnd(0), 60)], [(0, 40), (rnd(0), 60), (5, 80), (9, 60)]):
        for a in range(6):
            for b in range(6):
                J.append(job("small", "h_c10_seq", sh, n, a=2 | a << 4 | b << 8))
    for a, b, c in ((0, 0, 0), (0, 1, 0), (1, 0, 1), (2, 0, 0)):
        J.append(job("small", "h_c10_seq", 0, pick(tier, 13, 24), a=3 | a << 4 | b << 8 | c << 12))
    for sh, n in pick(tier, [(0, 130)], [(0, 130), (rnd(0), 200)]):
        for a, b in ((0, 0), (0, 1), (2, 0)):
            J.append(job("big", "h_c10_seq", sh, n, 1, 0, *keywindow(n, 64, pick(tier, 25, 60)), a=2 | a << 4 | b << 8))
    for a, b in ((0, 0), (0, 1)):
        J.append(job("big", "h_c10", 0, 80, 1, 0, *keywindow(80, 32, pick(tier, 12, 40)), a=a | b << 4))
        J.append(job("big", "h_c10", 0, 2600, 1, 0, *keywindow(2600, 2048, pick(tier, 4, 12)), a=a | b << 4))
    return J


def c11(tier):
    J = []
    kinds = [INS, REM, GETM, DELA, DELD, INSA, INSD, OVER, REINS, ALLA, ALLM]
    for h in ("h_c11_plain", "h_c11_heap"):
        for sh, n in pick(tier, [(0, 20), (5, 40), (rnd(0), 120)], [(s, n) for s in ALL for n in (20, 75, 150)]):
            for k in kinds:
                for how in range(8):
                    # both trees operated on: quadratic, so the keys of larger trees are limited to a window
                    w = keywindow(n, n // 2, 3 if h == "h_c11_heap" else 6) if how == 4 and n > 20 else (0, 0)
                    J.append(job("small", h, sh, n, 1, 12, *w, a=k, b=how))
        for sh, n in pick(tier, [(0, 17), (5, 24)], [(0, 20), (5, 30), (rnd(0), 40)]):
            for a in (INS, REM, DELA, GET):
                for k in (INS, REM, DELD, GETM):
                    for how in (0, 1, 4):
                        w = keywindow(n, n // 2, 3) if how == 4 else (0, 0)
                        J.append(job("small", h, sh, n, ops(a), 9, *w, a=k, b=how))
        for n in (0, 1, 8, 9):
            for how in range(8):
                J.append(job("small", h, 0, n, 1, 9, a=INS, b=how))
    for sh, n in pick(tier, [(0, 200)], [(0, 200), (5, 600), (rnd(0), 300)]):
        for k in (INS, REM, DELA):
            for how in (0, 1, 3, 5, 7):
                J.append(job("big", "h_c11_plain", sh, n, 1, 60, a=k, b=how))
            J.append(job("big", "h_c11_plain", sh, n, 1, 60, *keywindow(n, 64, pick(tier, 12, 30)), a=k, b=4))
    for k in (INS, REM, DELA):
        J.append(job("big", "h_c11_plain", 0, 2600, 1, 60, *keywindow(2600, 2048, 8), a=k, b=0))
    return J


def c12(tier):
    J = []
    kinds = [0, 1, 2, 4, 5, 6, 8]
    for h in ("h_c12_set", "h_c12_heap"):
        for sh, n in pick(tier, [(0, 18), (4, 30)], [(0, 18), (1, 20), (3, 30), (4, 30)]):
            for a in kinds:
                for b in kinds:
                    J.append(job("small", h, sh, n, ops(a, b), 6))
        for sh in (0, 1, 3, 4):
            for n in pick(tier, [9, 90], [8, 9, 73, 90, 200]):
                for a in kinds:
                    J.append(job("small", h, sh, n, ops(a), 20))
    m = pick(tier, 6, 7)
    for a in range(0, m + 1):
        for b in range(0, m + 1):
            for build in (0, 4):
                J.append(("small", "h_c12_union_free", [0, a, b, build, 0, 0, 1 if a + b <= pick(tier, 9, 11) else 0, 0]))
    if tier == "thorough":
        J.append(("small", "h_c12_union_free", [0, 9, 6, 0, 0, 0, 0, 0]))
        J.append(("small", "h_c12_union_free", [0, 5, 10, 0, 0, 0, 0, 0]))
    for sh in (0, 1, 3, 4):
        for n, k in pick(tier, [(20, 20), (40, 10), (0, 20), (60, 60)], [(20, 20), (40, 10), (0, 20), (60, 60), (100, 40), (40, 100)]):
            for pat in range(4):
                J.append(("small", "h_c12_union", [sh, n, k, 1, 1 if n < 30 else 0, pat, 0, 0]))
                J.append(("small", "h_c12_union", [sh, n, k, 0, 1, pat, 1 if n < 30 else 0, 0]))
    J.append(("big", "h_c12_union", [0, 130, 130, 1, 0, 2, 0, 0]))
    J.append(("big", "h_c12_union", [4, 130, 70, 0, 1, 0, 0, 0]))
    J.append(("big", "h_c12_union", [4, 2600, 300, 0, 0, 2, 0, 0]))
    for k in (INS, REM, DELA, INSA):
        J.append(("big", "h_c12_set", [3, 200, ops(k), 70, 0, 0, 0, 0]))
    return J


def c13(tier):
    J = []
    for sh in ALL:
        for n in pick(tier, [30, 100], [9, 30, 73, 100, 200]):
            for k, run in [(INS, 0), (REM, 0), (DELA, 20), (DELD, 20), (INSA, 12), (INSD, 12)]:
                J.append(job("small", "h_c13", sh, n, ops(k), run, a=0))
        for n in pick(tier, [60], [30, 60, 100]):
            for how in (1, 2, 3, 4, 5):
                J.append(job("small", "h_c13", sh, n, a=how, b=40))
        for n in pick(tier, [30], [30, 50]):
            J.append(job("small", "h_c13", sh, n, a=6, b=12))
        for how in (1, 3, 4, 5):
            J.append(job("small", "h_c13", sh, 20, ops(REM), a=how, b=pick(tier, 4, 9)))
    for n in (0, 1, 2, 8, 9, 17):
        for how in range(7):
            J.append(job("small", "h_c13", 0, n, a=how, b=20))
        for a in (0, 1):
            J.append(job("small", "h_c13_set", 0, n, a=a))
    for n in pick(tier, [40, 100], [40, 73, 100, 200]):
        for a in (0, 1):
            J.append(job("small", "h_c13_set", 0, n, a=a))
    for sh in pick(tier, [0, 5], [0, 1, 5, rnd(0)]):
        for how in (1, 2, 3, 4, 5):
            J.append(job("big", "h_c13", sh, 300, a=how, b=70))
            if sh == 0:
                J.append(job("big", "h_c13", 4, 2600, a=how, b=70))
        for k, run in [(INS, 0), (REM, 0), (DELA, 80), (DELD, 80)]:
            J.append(job("big", "h_c13", sh, 200, ops(k), run, a=0))
    return J


def c14(tier):
    J = []
    for sh in ALL:
        for n in pick(tier, [40, 100, 300], [9, 40, 73, 100, 200, 300, 700]):
            for mode in (0, 1, 2):
                J.append(job("small", "h_c14_tree" if sh % 2 else "h_c14_map", sh, n, a=mode))
        for k, run in [(INS, 0), (REM, 0), (DELA, 20), (DELD, 20), (INSA, 20)]:
            for mode in (0, 1, 2):
                J.append(job("small", "h_c14_map" if sh % 2 else "h_c14_tree", sh, pick(tier, 24, 40), ops(k), run, a=mode))
    for n in (0, 1, 8, 9):
        for mode in (0, 1, 2):
            J.append(job("small", "h_c14_tree", 0, n, a=mode))
            J.append(job("small", "h_c14_map", 0, n, ops(ALLA), a=mode))
    for sh, n in pick(tier, [(0, 200), (4, 4200)], [(0, 200), (4, 4200), (5, 600), (rnd(0), 300)]):
        for mode in (0, 1, 2):
            J.append(job("big", "h_c14_tree", sh, n, a=mode))
            J.append(job("big_r" if tier != "quick" else "small_r", "h_c14_tree", sh, n if n < 400 else 400, a=mode))
    return J


def c15(tier):
    J = []
    kinds = [(INS, 0), (REM, 0), (DELA, 12), (DELD, 12), (INSA, 12), (INSD, 12)]
    for sh, n in pick(tier, [(0, 20), (rnd(0), 44)], [(0, 20), (1, 24), (rnd(0), 60), (8, 40), (9, 40)]):
        for a, r in kinds:
            for b, r2 in kinds:
                J.append(job("small", "h_c15", sh, n, ops(a, b), 9))
    for sh in GROWN:
        for n in pick(tier, [100, 300, 700], [30, 73, 100, 150, 200, 300, 500, 700]):
            for k, run in kinds + [(DELA, 80), (DELD, 80), (INSA, 80)]:
                w = (0, 0) if n <= 300 else keywindow(n, n // 3, 40)
                J.append(job("small", "h_c15", sh, n, ops(k), run, *w))
        for n in pick(tier, [120], [60, 120, 250]):
            for run in (20, 60):
                J.append(job("small", "h_c15_churn", sh, n, 1, run))
    for sh in (0, 1, 2, 3):
        for b in pick(tier, [sh], range(4)):
            for at in (0, 50, 99):
                J.append(job("small", "h_c15_grow", sh, 100, at, a=pick(tier, 3, 1), b=b))
            J.append(job("big", "h_c15_grow", sh, 331, 150, 0, *keywindow(331, 200, 2), a=1, b=b))
            J.append(job("small", "h_c15_grow", sh, 1000, 700, 0, *keywindow(1000, 500, 2), a=17, b=b))
            J.append(job("big", "h_c15_grow", sh, 5000, 700, 0, *keywindow(5000, 500, 1), a=331, b=b))
    for n in range(0, pick(tier, 100, 200)):
        J.append(("small", "h_c15_bulk", [0, n, n // 2, 0, 0, 0, 0, 0]))
    for n in pick(tier, [145, 154, 162, 324, 584, 585, 640, 648, 649, 657, 658, 720, 729, 730, 731], list(range(576, 740)) + [1458, 1459]):
        J.append(("small", "h_c15_bulk", [0, n, n - 1, 0, 0, 0, 0, 0]))
    for n in (63, 64, 65, 128, 129, 4095, 4160, 4161, 4224, 4225):
        J.append(("big", "h_c15_bulk", [0, n, n - 1, 0, 0, 0, 0, 0]))
    for sh, n in pick(tier, [(0, 300), (rnd(0), 500)], [(0, 300), (1, 300), (rnd(0), 500), (8, 600), (9, 600), (0, 2500)]):
        for k, run in [(INS, 0), (REM, 0), (DELA, 100), (DELD, 100)]:
            w = (0, 0) if n <= 600 else keywindow(n, n // 3, 70)
            J.append(job("big", "h_c15", sh, n, ops(k), run, *w))
    return J


def c17(tier):
    J = []
    for h in ("h_c17_sum", "h_c17_max", "h_c17_floor", "h_c17_seq"):
        for sh, n in pick(tier, [(0, 18), (rnd(0), 60), (5, 120), (4, 150)], [(0, 18), (rnd(0), 60), (5, 120), (4, 300), (8, 90), (9, 90), (1, 200)]):
            for how in (0, 1, 2, 3):
                if how == 1 and h in ("h_c17_seq",):
                    continue
                J.append(job("small", h, sh, n, a=how))
        for sh, n in pick(tier, [(0, 18)], [(0, 18), (rnd(0), 30), (5, 30)]):
            for k, run in [(INS, 0), (REM, 0), (DELA, 9), (INSA, 9)]:
                for how in (0, 2):
                    J.append(job("small", h, sh, n, ops(k), run, a=how))
        for n in (1, 8, 9):
            for how in (0, 1, 2):
                J.append(job("small", h, 0, n, a=how))
        J.append(job("big", h, rnd(0), pick(tier, 140, 300), a=0))
        J.append(job("big", h, rnd(0), pick(tier, 140, 300), a=2))
        if h in ("h_c17_floor", "h_c17_seq"):
            J.append(job("big", h, 4, 2600, a=0))
            J.append(job("big", h, 0, 2600, a=0))
    # symbolic values
    for h in ("h_c17_sum", "h_c17_max"):
        for sh, n in pick(tier, [(0, 12)], [(0, 12), (rnd(0), 24)]):
            for m in (1, 2):
                for how in (0, 1, 2):
                    J.append(job("small", h, sh, n, a=how, b=m))
    return J


def c16(tier):
    J = []
    t = tier == "thorough"
    for v in ("small", "small_r"):
        # every answer of every comparison of one operation, then every use
        for sh, n in pick(tier, [(0, 20), (2, 60), (3, 200)] if v == "small" else [(0, 20), (3, 100)], [(0, 8), (0, 20), (1, 30), (2, 60), (2, 120), (3, 200), (3, 300)]):
            for k in range(16):
                deep = k in (6, 7, 8, 9, 14)
                for how in range(7):
                    sym = 40
                    if deep:
                        sym = pick(tier, 5, 8)
                    elif n >= 100:
                        sym = pick(tier, 5, 9)
                    elif n > 40:
                        sym = pick(tier, 7, 40)
                    if not t and how not in (1, 2, 6) and (sh != 0 or v != "small"):
                        continue
                    J.append((v, "h_c16", [sh, n, ops(k), sym, 0 if deep else 7 + k + how, 0, how, 0]))
        # two operations
        for a in (1, 2, 4, 13):
            for b in (1, 2, 4, 5):
                for how in pick(tier, (1, 6), (1, 2, 3, 6)):
                    J.append((v, "h_c16", [0, pick(tier, 12, 20), ops(a, b), pick(tier, 6, 9), 3 + a + b, 0, how, 0]))
    # the order of the tree is arbitrary before
    for seed in range(1, pick(tier, 7, 25)):
        for k in (1, 2, 4, 6, 10, 13):
            for how in pick(tier, (1, 3, 6), (1, 2, 3, 4, 5, 6)):
                J.append(("small", "h_c16", [seed % 4, 40, ops(k), pick(tier, 5, 7), seed, 40, how, 0]))
    for n in pick(tier, [0, 1, 5, 9, 20], [0, 1, 5, 8, 9, 20, 80]):
        for seed in (0, 5):
            for how in (1, 2, 6):
                J.append(("small", "h_c16_bulk", [0, n, 0, pick(tier, 8, 10), seed, 0, how, 0]))
    for n in pick(tier, [3, 6, 12], [1, 3, 6, 12, 40]):
        for seed in (0, 5):
            J.append(("small", "h_c16_union", [0, n, 0, pick(tier, 7, 9), seed, 0, 0, 0]))
    for sh, n in pick(tier, [(0, 130)], [(0, 130), (2, 4200), (3, 1000)]):
        for k in (0, 1, 2, 4, 5, 11):
            J.append(("big", "h_c16", [sh, n, ops(k), pick(tier, 4, 7) if k != 5 else 2, 3, 0, 1 + k % 2 * 5, 0]))
            J.append(("big_r", "h_c16", [sh, n, ops(k), pick(tier, 4, 7) if k != 5 else 2, 3, 0, 1 + k % 2 * 5, 0]))
    return J


def c18(tier):
    J = []
    hows = range(6)
    for v in ("small", "small_r"):
        # every callback of every operation, every key
        for sh, n in pick(tier, [(0, 20), (5, 40)] if v == "small" else [(1, 17)], [(0, 8), (0, 20), (1, 24), (2, 40), (5, 60), (6, 80)]):
            for k in range(16):
                for how in hows:
                    if not (tier == "thorough") and (k == 10 or v != "small") and how not in (1, 4):
                        continue
                    J.append((v, "h_c18", [sh, n, k, 10, 0, 0, how, 0]))
        # three levels: inner nodes split, rotate, merge
        for sh, n in pick(tier, [(0, 60), (1, 80), (5, 240)] if v == "small" else [(5, 160)], [(0, 60), (0, 100), (1, 80), (1, 150), (2, 100), (5, 160), (5, 240), (6, 160)]):
            for k in (1, 2, 7):
                for how in pick(tier, (1, 3, 4), hows):
                    lo, hi = (0, 0) if k == 2 and tier != "quick" else keywindow(n, n // 2, pick(tier, 8, 30))
                    J.append((v, "h_c18", [sh, n, k, 10, lo, hi, how, 4 if tier == "quick" and how == 4 else 0]))
            for k in (4, 5, 6):
                for how in pick(tier, (1, 3), hows):
                    for at in pick(tier, (2, n // 2), (2, n // 4, n // 2, n - 4)):
                        lo, hi = keywindow(n, at, 2)
                        J.append((v, "h_c18", [sh, n, k, pick(tier, 14, 30), lo, hi, how, 0]))
        for n in pick(tier, (0, 1, 8, 9, 40), (0, 1, 8, 9, 40, 100, 200)):
            J.append((v, "h_c18_drop", [0, n, 0, 0, 0, 0, 0, 0]))
            for k in (12, 13, 14):
                for how in (1, 2):
                    J.append((v, "h_c18", [0, n, k, n, 0, 0, how, 0]))
        for m in pick(tier, (1, 5, 16, 17, 40, 150), (1, 5, 16, 17, 40, 150, 330)):
            J.append((v, "h_c18", [0, 3, 15, m, 0, 0, 1, 0]))
    # shipped capacity
    for sh, n in pick(tier, [(0, 130)], [(0, 130), (5, 640), (5, 4800)]):
        for k in (1, 2, 7):
            for at in (n // 2, n - 2):
                for how in pick(tier, (1, 4), hows):
                    lo, hi = keywindow(n, at, 2)
                    J.append(("big", "h_c18", [sh, n, k, 10, lo, hi, how, 0]))
        for k in (4, 6):
            lo, hi = keywindow(n, n // 2, 1)
            J.append(("big", "h_c18", [sh, n, k, 80, lo, hi, 1, 4]))
    return J


B = {}
B["C01"] = "u16 keys and u32 values all symbolic; trees of 8-entry nodes: every pair of operations (" + OPN + ") at 20-40 entries, triples at 8-18, single operations and runs up to 60 at 9..250 (thorough 700) entries, up to 4 levels; shapes: " + SHAPES + "; shipped 64-entry nodes: 200 entries in full, 4200 entries (3 levels) with key windows; also heap-owning and padded entry types; trees of 70000 entries of 64-entry and 530000 of 8-entry nodes (more than 65536 entries and leaves) with key windows"
B["C02"] = "8-entry nodes: every front/back schedule for up to 13 (thorough 16) entries of tree, map and set; 'a from the front, b from the back, then alternating' with symbolic a, b for 40-150 entries of every shape, and after symbolic modifications for 22-30 entries; cloned iterators; after a front and b back steps each inherited method (nth and nth_back with a 64-bit symbolic count, last, count, fold, rfold, collect, rev, step_by, position, rfind, for_each, max) at 12-40 entries; 64-entry nodes with 130-300 entries; ordered-item methods (max, min, is_sorted, reduce, eq, partition) after symbolic prefixes; 70000 entries of 64-entry nodes with three symbolic steps"
B["C03"] = "8-entry nodes: every front/back schedule for up to 12 (thorough 16) entries; abandonment after a front and b back steps (symbolic) for 40-150 entries of every shape, and after symbolic modifications; the inherited methods as in C02; heap-owning keys, values and augmentation, destructor-counted zero-sized values; 64-entry nodes with 130-300 entries; ordered-item methods; 70000 entries with three symbolic steps, then consumed or abandoned"
B["C04"] = "heap-owning keys, values and augmentations; memory model: every access bounds-, liveness- and initialisation-checked, leak check at the end of every path; operations as in C01 (pairs at 20-40, runs up to 60 at 30-300 entries); clear, clone, replacement, cursors, removal by query; destructor-counted zero-sized values; bulk loads with symbolic duplicates; 64-entry nodes at 300 entries; also the release configuration (debug assertions off); eight combinations of owning and plain key, value and summary; 70000 entries consumed, cloned, dropped"
B["C05"] = "every sequence of up to 5 (thorough 6) symbolic entries including duplicates and any order; 1-2 symbolic entries in sequences of leaf/inner boundary sizes up to 162 in ascending, descending and shuffled order; later operations (lookups, inserts, removals, removal and insertion runs up to 40) on trees of boundary sizes up to 738 (8-entry nodes) and 4289/8321 (64-entry nodes, key windows); 70000 entries with one symbolic entry displaced; 10000 (thorough 40000) entries in pairs of equal keys at either parity with four symbolic keys among them"
B["C06"] = "64-bit symbolic index, 16-bit symbolic key; trees of 8-entry nodes up to 300 (thorough 700) entries of every shape, and after each symbolic operation or run at 18-40 entries; removal runs by index; 64-entry nodes at 200-700 entries; 2600 and 70000 entries of 64-entry nodes in windows"
B["C07"] = "keys (group, offset) of two symbolic 16-bit words, 64-bit symbolic offset; group layout itself symbolic for up to 12 (thorough 18) entries built ascending, descending and in bulk; concrete layouts with group sizes 1..1000 up to 200 (thorough 500) entries of every shape with symbolic queries, and after symbolic operations at 24-60 entries; 64-entry nodes at 200-700 entries; 2600 and 70000 entries, groups of up to 66000"
B["C08"] = "the free-monoid augmentation (the list of entries itself), through which every function of the ordered entries factors; pairs of symbolic operations at 20-40 entries, single operations and runs at 60-250 entries, every summary of every inner node compared; removal by query, clear, clone; 64-entry nodes at 200-600 entries; 2600 entries; at 70000 entries of 64-entry and 8-entry nodes a 64-bit sum, count and positional digest instead of the list"
B["C09"] = "cursors made by lookup at a symbolic key, first, last, and by walking forwards/backwards over 12 entries; then one or two symbolic operations or runs (also emptying and refilling); then value, exists, next, prev judged at the cursor and at both neighbours; 18-250 entries of 8-entry nodes, 150-300 of 64-entry nodes; one leaf removal does not renumber ids, so outdated hints to freed and reused leaves are included; 2600, 70000 and (8-entry nodes) 530000 entries in windows"
B["C10"] = "two readers with symbolic keys running lookup, cursor moves, index lookup and rank, ends, and iteration; every write of a reader to plain tree memory is a race; shared atomic words are havocked: each load returns the initial value or any value a reader stores (superset of all interleavings, relaxed memory included); 12-80 entries; sequential pairs and triples of reads; a complete other read at every comparison of a read, 14-80 entries"
B["C11"] = "clone then one symbolic operation or run on either or both, or dropping, clearing or half consuming the copy; before that, optional symbolic operation; plain and heap-owning entries and augmentations; 17-150 entries of 8-entry nodes, 200-600 of 64-entry nodes; assignment by clone_from to smaller and larger trees; 2600 and 70000 entries"
B["C12"] = "set operations: pairs at 18-30 and runs at 9-200 entries; union of sets with up to 6+6 (thorough 7+7, 9+6, 5+10) fully symbolic keys, and of sets of up to 100 entries with symbolic insertions and removals; copy of the union at a symbolic point; size estimate before every step; 2600 and 70000 entries in windows; max, min, eq, is_sorted, position of the union at a symbolic point"
B["C13"] = "ends after symbolic operations at 20-300 entries; emptied ascending, descending, from the middle, alternately, by index from a symbolic place, or cleared; then every query with symbolic arguments; then refilled and used; 2600 and 70000 entries"
B["C14"] = "all choices of valid and invalid children (64-bit symbolic index) at every level, cancel or completion at a symbolic level; 8-entry nodes up to 300 (thorough 700) entries of every shape and after symbolic operations; 64-entry nodes at 200-4200 entries; also with debug assertions off; 70000 entries"
B["C15"] = "every node visited through the public visitor after pairs of symbolic operations at 20-60 entries and single ones or runs up to 80 at 30-700 entries (up to 4 levels) of every grown shape, twofold removal and reinsertion of a symbolic stretch; bulk loads of every size below 100 (thorough 200) and around inner boundaries up to 731; 64-entry nodes at 300-2500 entries; grown and emptied step by step with the tree inspected at every (every third) step, 100 entries of 8-entry and 331 of 64-entry nodes, every 17th/331st step up to 5000; 70000 entries"
B["C17"] = "four searchable augmentations (prefix sum of values, maximum value, last key not above, index) with symbolic query; lookup, mutable lookup, removal, repeated removal; 1-2 symbolic values; after symbolic operations; 9-300 entries of 8-entry nodes, 140-300 of 64-entry nodes; 2600 and 70000 entries (prefix sum)"
B["C16"] = "one operation (or two) during which up to 40 comparisons answer anything (all answers symbolic; 8-entry trees of up to 20 entries: every comparison of the operation), every position returned by the user's search (64-bit symbolic) and every child chosen by a visitor; before and afterwards pseudo-random or honest answers; then the tree is iterated, walked, emptied, refilled, cloned, consumed or dropped; 8..300 entries of 8-entry nodes, 130-4200 of 64-entry nodes, with and without debug assertions; bulk load and union with arbitrary equality and order"
B["C18"] = "one panic per history, at any (symbolic) invocation of key comparison, key/value/augmentation clone, summary, search, rank, visitor or destructor, during one operation with a symbolic key or a run of up to 14 (thorough 30) removals or insertions, clone, clear, bulk load of up to 330, iteration, drop; then the tree is used in six ways and dropped; 0-80 entries in full, up to 240 (three levels) in key windows, of 8-entry nodes; 130 (thorough 4800) of 64-entry nodes; with and without debug assertions"

def many(p, tier):
    """trees of more than 65536 entries (four levels of 64-entry nodes) and of more than 65536 leaves (8-entry nodes)"""
    t = tier == "thorough"
    J = []
    N, C = 70000, 65536
    shapes = pick(tier, [4], [0, 4, 5])

    def add(h, o=1, run=0, at=C, width=2, a=0, b=0, sh=None, n=N, v="big"):
        for s in shapes if sh is None else [sh]:
            lo, hi = keywindow(n, at, width)
            J.append(job(v, h, s, n, o, run, lo, hi, a, b))

    if p == "C01":
        for k in (INS, REM, GETM):
            add("h_huge_map", ops(k), at=69998 if k == REM else C)
        add("h_huge_map", ops(INS), sh=0)
        add("h_huge_map", ops(DELA), 300, at=16384, sh=5)
        add("h_huge_map", ops(INSD), 300, at=40000)
        add("h_huge_map", ops(REM, INS), n=530000, v="small", at=524288, sh=4, width=1)
        if t:
            for sh in (0, 1, 5, rnd(0), 9):
                for n in (36000, 70000):
                    for k in (DELA, DELD, INSA):
                        add("h_huge_map", ops(k), 1000, at=n // 2, sh=sh, n=n)
    if p == "C02":
        for a in (0, 1):
            add("h_huge_iter", ops(REM), at=40, a=a, width=1)
        add("h_huge_iter", sh=0, a=0)
    if p == "C03":
        for a in (0, 1):
            add("h_huge_into", ops(INS), at=C, a=a, width=1)
    if p == "C04":
        add("h_huge_into", ops(REM), at=100, a=0)
        add("h_huge_clone", ops(REM), a=2, b=C)
    if p == "C05":
        add("h_huge_bulk", o=65538, run=65538)
        add("h_huge_bulk", o=65538, run=65530)
        add("h_huge_bulk", o=69990, run=70000)
        # (at, start, kind): pairs throughout
        for at, s, k in pick(tier, [(1022, 0, 0), (1023, 1, 1), (4094, 1, 2)], [(a, s, k) for a in (62, 1022, 4094, 9000) for s in (0, 1) for k in (0, 1, 2)]):
            for v in ("big", "small"):
                J.append((v, "h_huge_pairs", [4, pick(tier, 10000, 40000), at, s, 0, 0, k, 0]))
        if t:
            add("h_huge_bulk", o=2, run=70000)
            J.append(job("big", "h_huge_bulk", 4, 270500, 262144, 262144))
    if p == "C06":
        for o in (1, ops(INS), ops(REM)):
            add("h_huge_count", o, a=C)
        add("h_huge_count", a=69999, at=69999)
        add("h_huge_count", a=34000, at=34000, sh=0)
    if p == "C07":
        for gs, at in [(66000, C), (66000, 66000), (1, 65538), (300, C)]:
            add("h_huge_group", a=at, b=gs)
    if p == "C08":
        for k in (INSA, REM, REINS):
            add("h_huge_digest", ops(k), 1, at=C)
        add("h_huge_digest", ops(DELA), 100, at=30000)
        add("h_huge_digest", ops(INSA, REM), 1, at=30000, v="small")
    if p == "C09":
        for k in (REM, DELA, INS):
            add("h_huge_cursor", ops(k), 70, width=1)
        add("h_huge_cursor", ops(REM), n=530000, v="small", at=524288, sh=4, width=1)
    if p == "C10":
        add("h_huge_map", ops(GET, GET), width=2)
        add("h_huge_map", ops(GET, GET), n=530000, v="small", at=524288, sh=4, width=1)
    if p == "C11":
        for a in (0, 1, 2):
            add("h_huge_clone", ops(pick(tier, INS, REM)), a=a, b=C)
    if p == "C12":
        for b in (0, 1):
            add("h_huge_set", a=C, b=b, width=1, sh=4)
    if p == "C13":
        add("h_huge_empty", a=0, sh=4)
        add("h_huge_empty", ops(ALLD), a=1, sh=4)
        add("h_huge_empty", ops(INS), a=1, sh=4, at=69999)
    if p in ("C14", "C15"):
        for a in (0, 1, 2):
            add("h_huge_visit", ops(pick(tier, INS, REM)), a=a, at=C, width=1)
        add("h_huge_visit", ops(DELA), 200, at=30000, a=1, sh=5, width=1)
        add("h_huge_visit", ops(DELA), 200, at=30000, a=0, sh=0, width=1)
        if t:
            add("h_huge_visit", a=2, sh=4, n=280000)
    if p == "C17":
        for a in (C, 30000):
            add("h_huge_sum", ops(INSA), 1, at=a, a=a, width=1)
        add("h_huge_sum", a=69999, at=69999)
    return J


def twins(p, f):
    """some of the jobs also without debug assertions and overflow checks, as a release build has it"""
    def g(tier):
        J = many(p, tier) + f(tier)
        if sum(j[0] == "small_r" for j in J) * 12 < len(J):
            J = J + [("small_r", j[1], j[2]) for j in J if j[0] == "small" and zlib.crc32(repr(j).encode()) % 8 == 0]
        return J
    return g


PROPS = {k: {"jobs": twins(k, f), "bounds": B[k] + "; one in eight of the 8-entry jobs also without debug assertions and overflow checks"} for k, f in dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18).items()}
# not a property: the engine against the native build on the parts of std a changed tree may come to use
PROPS["SELF"] = {"jobs": lambda tier: [("small", "h_selftest", [i, 5, 0, 0, 0, 0, 0, 0]) for i in range(24)], "bounds": "-"}
