"""What each check explores.  A check = model-checking runs of the specification, executions of the real code
(directed and generated by TLC from the specification), and validation of every event of those executions."""
import concurrent.futures as cf
import json
import os
import random
import time

from . import driver, gen, plans as P

TOY = ("q13", "q257", "q40961")
ODD = [2, 3, 5, 6, 7, 9, 10, 11, 12, 13]          # chunk sizes that do not divide the field size, on the production curve
CH = P.CHUNK_VIAS


def c01(rnd, big):
    out = [P.single(rnd, "q13", b, nvec=8) for b in (1, 2, 3, 4)]
    out += [P.single(rnd, "q257", b, nvec=10) for b in (1, 2, 3, 4, 5, 8)]
    out += [P.single(rnd, "q40961", b, nvec=6) for b in (1, 2, 4, 8)]
    out += [P.single(rnd, "q40961", 16, nvec=2, vias=["chunks", "chunks-prep"], cap=2000)]
    out += [P.single(rnd, "bls", 4, "small", nvec=4, setup=False)]
    out += [P.single(rnd, "bls", 8, "small", nvec=2)]
    out += [P.single_msg(rnd, 4, nmsg=6, vk=True), P.single_msg(rnd, 4, nmsg=6), P.single_msg(rnd, 8, nmsg=5, vk=True)]
    out += [P.single_msg(rnd, 16, nmsg=1, powers=False)]
    out += [P.single(rnd, "bls", b, "opaque", nvec=2, cap=500, vias=CH if b < 10 else CH[:2]) for b in rnd.sample(ODD, 6 if big else 2)]
    out += sweeps(rnd, big, ["chunks", "chunks-pow"], False, True)
    return out


def sweeps(rnd, big, vias, re, bls16=False):
    """All chunk values up to 8 bits, structured ones beyond."""
    out = []
    for e, b in (("q257", 5), ("q257", 8), ("q40961", 6), ("q40961", 8)):
        out.append(P.sweep(rnd, e, b, range(2 ** b), vias=vias, re=re))
    for b in (10, 13):
        out.append(P.sweep(rnd, "q40961", b, P.corner_values(rnd, b, 60 if big else 10), vias=vias, re=re))
    for b in (4, 8):
        out.append(P.sweep(rnd, "bls", b, range(2 ** b), "opaque", vias=vias, re=re))
    v16 = [v for v in P.corner_values(rnd, 16, 400 if big else 10) if v < 40961]
    if big:
        v16 = sorted(set(v16) | set(range(0, 40961, 7)))
    step = 600 if big else 40
    rnd.shuffle(v16)
    for i in range(0, len(v16), step):
        out.append(P.sweep(rnd, "q40961", 16, v16[i:i + step], vias=[v for v in vias if "pow" not in v], re=re))
    if bls16:
        vals = [v for v in P.corner_values(rnd, 16, 0)]
        rnd.shuffle(vals)
        vals = vals[:len(vals) if big else 32]
        for i in range(0, len(vals), 16):
            out.append(P.sweep(rnd, "bls", 16, vals[i:i + 16], "opaque", vias=[v for v in vias if "pow" not in v], re=re))
    return out


def c02(rnd, big):
    out = []
    for e, b in (("q13", 1), ("q13", 2), ("q13", 4), ("q257", 1), ("q257", 3), ("q257", 8), ("q40961", 4), ("q40961", 8)):
        for k in (1, 2, 3, 4, 5):
            out.append(P.keygen(rnd, e, b, k=k, norders=6 if k == 3 else 3))
    out += [P.keygen(rnd, "bls", 4, "small", k=2, norders=2), P.keygen(rnd, "bls", 8, "small", k=3, norders=2),
            P.keygen(rnd, "bls", 16, "small", k=3, norders=2, use=False), P.keygen(rnd, "bls", 4, "opaque", k=3, norders=3),
            P.keygen(rnd, "bls", 8, "opaque", k=5, norders=3), P.keygen(rnd, "q257", 2, k=9), P.keygen(rnd, "q40961", 1, k=12)]
    out += [P.keygen(rnd, e, b, k=k, norders=2, use=k < 20) for e, b, k in (("q13", 2, 17), ("q257", 4, 33), ("q257", 8, 65), ("q40961", 8, 16))]
    out += [P.keygen(rnd, "bls", 16, "opaque", k=18, norders=2, use=False)]
    if big:
        out += [P.keygen(rnd, "q257", 8, k=k, norders=2) for k in (34, 66, 129, 257)]
    return out


def c03(rnd, big):
    out = []
    for e, b in (("q13", 1), ("q13", 4), ("q257", 2), ("q257", 3), ("q257", 8), ("q40961", 4), ("q40961", 8)):
        for k in (1, 2, 3, 4):
            out.append(P.reenc(rnd, e, b, k=k, nvec=4, ntrees=3))
    out += [P.reenc(rnd, "q40961", 1, k=3), P.reenc(rnd, "q40961", 16, k=2, nvec=2, cap=2000, ntrees=1), P.reenc(rnd, "q257", 4, k=7)]
    out += [P.reenc(rnd, "bls", 4, "small", k=2, nvec=2, ntrees=2), P.reenc(rnd, "bls", 8, "small", k=3, nvec=2, ntrees=1),
            P.reenc(rnd, "bls", 4, "opaque", k=3, nvec=4), P.reenc(rnd, "bls", 8, "opaque", k=2, nvec=3),
            P.reenc(rnd, "bls", 16, "opaque", k=2, nvec=2, ntrees=1)]
    out += [P.reenc(rnd, e, b, k=k, nvec=2) for e, b, k in (("q13", 2, 9), ("q257", 8, 17), ("q40961", 8, 33), ("q257", 4, 10))]
    out += [P.reenc(rnd, "bls", b, "opaque", k=2, nvec=2, ntrees=1, cap=500) for b in rnd.sample(ODD, 6 if big else 2)]
    out += sweeps(rnd, big, [], True, True)
    return out


def c04(rnd, big):
    out = []
    for e, b in (("q13", 1), ("q13", 2), ("q257", 2), ("q257", 4), ("q40961", 4), ("q40961", 8)):
        for k in (1, 2, 3):
            out.append(P.reenc_neg(rnd, e, b, k=k))
    out += [P.reenc_neg(rnd, "bls", 4, "opaque", k=k) for k in (1, 2, 3)]
    out += [P.reenc_neg(rnd, "bls", 8, "opaque", k=2), P.reenc_neg(rnd, "bls", 4, "opaque", k=4)]
    out += [P.reenc_neg(rnd, "bls", 16, "opaque", k=2, full=False, cap=50, few=True)]
    out += [P.reenc_many(rnd, e, b, k=k) for e, b, k in (("q13", 2, 9), ("q257", 4, 17), ("q40961", 8, 17), ("q257", 8, 33))]
    out += [P.reenc_many(rnd, "bls", 4, "opaque", k=5)]
    if big:
        out += [P.reenc_many(rnd, e, b, k=k) for e, b, k in (("q257", 4, 65), ("q40961", 8, 129))]
    return out


def c05(rnd, big):
    out = []
    for e, b in (("q13", 1), ("q13", 2), ("q257", 2), ("q257", 3), ("q257", 4), ("q40961", 4), ("q40961", 8), ("q40961", 1)):
        for t in (2, 3, 5):
            out.append(P.sums(rnd, e, b, k=rnd.choice([1, 2, 3]), terms=t))
    out += [P.sums(rnd, "bls", 4, "small", terms=2), P.sums(rnd, "bls", 4, "opaque", terms=5), P.sums(rnd, "bls", 8, "opaque", terms=3, k=3)]
    out += [P.sums_wide(rnd, "bls", 16), P.sums_wide(rnd, "q40961", 16, "full")]
    out += [P.many_sums(rnd, e, b, terms=t) for e, b, t in (("q257", 2, 9), ("q257", 1, 17), ("q40961", 2, 33), ("q40961", 4, 70), ("q13", 1, 12))]
    out += [P.many_sums(rnd, "q40961", b, terms=3, wide=w) for b, w in ((8, (9, 12, 13)), (4, (5, 7, 11, 14)), (1, (2, 10, 15)))]
    out += [P.many_sums(rnd, "bls", 8, "opaque", terms=20), P.many_sums(rnd, "bls", 4, "opaque", terms=17, wide=(9, 10))]
    return out


def c06(rnd, big):
    out = [P.verc(rnd, e, b) for e, b in (("q13", 1), ("q13", 2), ("q257", 1), ("q257", 2), ("q257", 4), ("q40961", 4), ("q40961", 8), ("q40961", 2))]
    out += [P.verc(rnd, "bls", 4, "opaque", npos=6), P.verc(rnd, "bls", 8, "opaque", npos=6), P.verc(rnd, "bls", 16, "opaque", npos=6),
            P.verc(rnd, "bls", 8, "small", npos=4, kinds=["add", "swap"])]
    out += [P.verc(rnd, "bls", b, "opaque", npos=4, kinds=["add", "from"]) for b in rnd.sample(ODD, len(ODD) if big else 2)]
    return out


def c07(rnd, big):
    out = [P.proofs(rnd, e, b, nct=3) for e, b in (("q257", 2), ("q257", 4), ("q257", 8), ("q40961", 1), ("q40961", 4), ("q40961", 8), ("q40961", 2))]
    out += [P.proofs(rnd, "bls", 4, "opaque", setup=True, nct=2), P.proofs(rnd, "bls", 8, "opaque", nct=2, msg=True),
            P.proofs(rnd, "bls", 16, "opaque", nct=2)]
    return out


def c09(rnd, big):
    out = [P.batch(rnd, e, b, sizes=(1, 2, 3, 5)) for e, b in (("q257", 1), ("q257", 4), ("q40961", 4), ("q40961", 8), ("q40961", 2), ("q13", 2))]
    out += [P.batch(rnd, "bls", 4, "opaque", sizes=(1, 2, 4)), P.batch(rnd, "bls", 8, "opaque", sizes=(1, 3, 8), npos=2),
            P.batch(rnd, "bls", 16, "opaque", sizes=(1, 2), npos=6), P.batch(rnd, "bls", 8, "small", sizes=(2,), npos=2)]
    out += [P.many_batch(rnd, e, b, size=z) for e, b, z in (("q257", 2, 9), ("q40961", 8, 17), ("q257", 8, 33), ("q257", 4, 65), ("q40961", 8, 100))]
    out += [P.many_batch(rnd, "bls", 16, "opaque", size=z) for z in ((19, 33, 67, 129) if big else (19,))]
    return out


def c13(rnd, big):
    return [P.fresh(rnd, 4, nsrs=0), P.fresh(rnd, 8, k=3, nsrs=0), P.fresh(rnd, 16, nsrs=1),
            P.single(rnd, "q257", 4), P.single(rnd, "q40961", 4)]


def c14(rnd, big):
    out = [P.wire(rnd, "q257", 4, damage=True), P.wire(rnd, "q40961", 8, damage=True),
           P.wire(rnd, "q257", 2), P.wire(rnd, "q40961", 4, srs=True)]
    out += [P.wire(rnd, "bls", 16, "opaque", damage=True, encs=[e]) for e in P.ENCS]
    out += [P.wire(rnd, "bls", 8, "opaque", encs=P.ENCS)]
    out += [P.wire_srs(rnd, 16, e) for e in P.ENCS]
    return out


def c16(rnd, big):
    out = [P.craft(rnd, e, b, nct=12) for e, b in (("q13", 1), ("q13", 2), ("q257", 1), ("q257", 2), ("q257", 4), ("q257", 8), ("q40961", 4), ("q40961", 8))]
    out += [P.craft(rnd, "bls", 4, "opaque", nct=4), P.craft(rnd, "bls", 8, "opaque", nct=4), P.craft_msg(rnd, 4), P.craft_msg(rnd, 8),
            P.craft(rnd, "bls", 4, "small", nct=2)]
    out += sweeps(rnd, big, ["chunks", "chunks-prep"], True, True)
    return out


def c10f(rnd, big):
    n = 200 if big else 30
    out = [P.fn_chunks(rnd, f, "count") for f in ("fr", "fq")]
    out += [P.fn_chunks(rnd, "fr", "dec", (b,), n) for b in (4, 8, 16)]
    out += [P.fn_chunks(rnd, "fr", "comp", (b,), n) for b in (4, 8, 16)]
    out += [P.fn_chunks(rnd, "fq", "dec", (b,), n, every=5) for b in (4, 8, 16)]
    out += [P.fn_chunks(rnd, "fq", "comp", (b,), n) for b in (4, 8, 16)]
    return out


def c11f(rnd, big):
    out = [P.fn_comm(rnd, e, gens=g) for e in TOY for g in ("rng", "label")]
    out += [P.fn_comm(rnd, "bls", g, w, (b,), 12 if big else 6) for g, w in (("g1", "rng"), ("g1", "label"), ("g2", "rng")) for b in (4, 8, 16)]
    out += [P.fn_comm(rnd, "bls", "g1", "same", (8,), 3)]
    return out


def c14f(rnd, big):
    return [P.fn_cwire(rnd, b) for b in (4, 8, 16)] + [P.fn_window(rnd, e, 20 if big else 6) for e in TOY + ("bls",)]


def c15f(rnd, big):
    return [P.fn_gens(rnd, 30 if big else 20, (d,)) for d in ("blake2b", "blake2s")]


def c15(rnd, big):
    out = [P.setups(rnd, e, b) for e in ("q257", "q40961") for b in (1, 2, 4, 8) if (e, b) != ("q257", 1)]
    out += [P.setups(rnd, "bls", b, "opaque") for b in (4, 8, 16)]
    return out


def c12f(rnd, big):
    return [P.fn_comm(rnd, "bls", bits=(b,), nmsg=2) for b in (4, 8, 16)]


def c12(rnd, big):
    out = [P.misfit(rnd, e, b) for e, b in (("q13", 1), ("q257", 2), ("q257", 4), ("q40961", 4))]
    out += [P.misfit(rnd, "bls", b, "opaque") for b in (4, 8, 16)]
    return out


def c08(rnd, big):
    out = []
    for b in range(0, 5):
        out.append(P.range_mats("q13", [(b, n, p) for n in ((1, 2, 3) if not big else (1, 2, 3, 4)) for p in (True, False)]))
        out.append(P.range_mats("q13", [(b, 0, True), (b, None, True)] if b > (0 if big else 1) else [(b, 0, True)]))
    for b in range(0, 10):
        out.append(P.range_mats("q257", [(b, 1, True), (b, 1, False)]))
        if big:
            out.append(P.range_mats("q257", [(b, 2, True)]))
        if b in (5, 8) or big and b > 4:
            out.append(P.range_mats("q257", [(b, None, True)]))
    for b in (range(0, 17) if big else ()):
        out.append(P.range_mats("q40961", [(b, 1, True)]))
    bs = list(range(256)) if big else [0, 1, 2, 254, 255] + rnd.sample(range(3, 254), 7)
    for k in range(8):
        out.append(P.range_mats("bls", [(b, 1, True) for b in bs[k::8]]))
    for b in (4, 8, 16):
        out.append(P.range_mats("bls", [(b, 1, True), (b, 3, True), (b, 2, False)]))
        out.append(P.range_mats("bls", [(b, None, True)]))
        out.append(P.range_mats("bls", [(b, None, False)]))
    m = 4 if big else 1
    for e in TOY:
        for b in range(0, P.BITS[e] + 1):
            for n in (1, 2) + ((None,) if b > (1 if e == "q257" else 3 if e == "q40961" else 0) else ()):
                out.append(P.range_probes(rnd, e, b, n, 24 * m, flips=4, public=rnd.random() < 0.7))
    for b in [4, 8, 16] + rnd.sample(range(1, 250), 3 * m):
        out.append(P.range_probes(rnd, "bls", b, 1, 300, flips=3 * m))
        out.append(P.range_probes(rnd, "bls", b, 3, 40 * m, flips=1, public=False))
    for b in (4, 8, 16):
        for _ in range(4):
            out.append(P.range_probes(rnd, "bls", b, None, 6 * m, flips=0))
    return out


def c17(rnd, big):
    out = []
    for w in ("sums", "keys", "shares"):
        for k in (1, 2, 3):
            out.append(P.secrecy(rnd, 16, k, 3, w, pairing=2 if big or k < 3 else 1))
            out.append(P.secrecy(rnd, 8, k, 2, w, full=False if k > 1 else True, pairing=2 if big else 1))
    return out


FN_PLANS = {"C12": c12f, "C10": c10f, "C11": c11f, "C14": c14f, "C15": c15f}
PLANS = {"C12": c12, "C17": c17, "C15": c15, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C09": c09,
         "C13": c13, "C14": c14, "C16": c16}
# what TLC generates for a check: focus of the behaviours, how many, how long, parties (quick, thorough)
GENERATED = {"C01": [("decrypt", 16, 24, 1)], "C02": [("keys", 24, 24, 3)], "C03": [("reenc", 24, 40, 2)], "C04": [("reenc", 24, 40, 2)],
             "C05": [("sums", 24, 30, 2)], "C06": [("verify", 24, 24, 2)], "C07": [("proofs", 20, 24, 2)], "C09": [("verify", 24, 24, 2)],
             "C13": [("all", 8, 40, 2)], "C14": [("wire", 16, 30, 2)], "C16": [("decrypt", 16, 24, 2), ("reenc", 12, 40, 2)]}


def generated(r, prop, rnd, big):
    out = []
    for focus, num, length, k in GENERATED.get(prop, []):
        if big:
            out += gen.plans(r, rnd, focus, num * 8, length, k, nprod=num, ids=prop == "C13")
            out += gen.plans(r, rnd, focus, num * 4, length * 2, k + 1, nprod=num // 2, ids=prop == "C13")
        else:
            out += gen.plans(r, rnd, focus, num, length, k, ids=prop == "C13")
    return out


def models(r, prop, big):
    """Exhaustive exploration of the specification within bounds; parameters and secrets vary with the seed."""
    sd = 1 + r.seed % 50
    m = {
        "keys": [("MCKeygen", {"Seed_": sd})] if not big else
                [("MCKeygen", {"Seed_": sd, "N_": 3, "B_": 1}), ("MCKeygen", {"Seed_": sd, "LC_": 4, "LP_": 3}), ("MCKeygen", {"Seed_": sd, "LP_": 4})],
        "reenc": [("MCReenc", {"Seed_": sd})] if not big else
                 [("MCReenc", {"Seed_": sd, "N_": 3, "B_": 1}), ("MCReenc", {"Seed_": sd, "L_": 5}), ("MCReenc", {"Seed_": sd, "K_": 3})],
        "ct": [("MCCt", {"Seed_": sd})] if not big else
              [("MCCt", {"Seed_": sd, "Alter2": "TRUE"}), ("MCCt", {"Seed_": sd, "N_": 3}), ("MCCt", {"Seed_": sd, "B_": 1})],
        "secrecy": [("MCSecrecy", {"Seed_": sd}), ("MCPairings", {"Seed_": sd, "T_": 2})] if not big else
                   [("MCPairings", {"Seed_": sd, "T_": 2, "N_": 3}), ("MCPairings", {"Seed_": sd, "T_": 2, "K_": 2}), ("MCSecrecy", {"Seed_": sd, "T_": 4}), ("MCSecrecy", {"Seed_": sd, "K_": 2}), ("MCSecrecy", {"Seed_": sd, "C_": 2})],
        "chunks": [("MCChunks", {"Lo": r.seed % 163}), ("MCChunks/MCChunksLong", {})] if not big else
                  [("MCChunks/MCChunksAll", {}), ("MCChunks/MCChunksLong", {"Step": 99991})],
    }
    return m.get(MODELS.get(prop), [])


MODELS = {"C02": "keys", "C03": "reenc", "C04": "reenc", "C01": "ct", "C05": "ct", "C06": "ct", "C07": "ct", "C09": "ct", "C16": "ct",
          "C17": "secrecy", "C10": "chunks"}


def shape_plans(r, rnd, big):
    """Calls enumerated by TLC (MCShapes), spread over several plans."""
    out = []
    for cfg, engine, b, parts in (("Small", "q257", 5, 6), ("Big", "bls", 16, 8)) + ((("Wide", "q40961", 6, 8), ("Small", "bls", 128, 2)) if big else ()):
        f = os.path.join(r.work, "items-%s.ndjson" % cfg)
        r.model("MCShapes", "MCShapes%s.cfg" % cfg, workers=1, env={"DVE_OUT": f})
        its = [json.loads(x) for x in open(f)]
        rnd.shuffle(its)
        for k in range(parts):
            out.append({"kind": "shape", "tag": "shape " + cfg, "engine": engine, "b": b, "seed": rnd.randrange(1 << 40), "items": its[k::parts]})
    return out


BUDGET = float(os.environ.get("DVE_BUDGET", "560"))      # seconds after which a thorough check starts no further round


def plans_for(r, prop, rnd, big, made):
    plans = made + [dict(p, module="DVETrace") for p in PLANS.get(prop, lambda *a: [])(rnd, big)]
    plans += [dict(p, module="FnTrace") for p in FN_PLANS.get(prop, lambda *a: [])(rnd, big)]
    if prop == "C08":
        plans += [dict(p, module="RangeTrace") for p in c08(rnd, big)]
    if prop == "C12":
        plans += [dict(p, module="FnTrace") for p in shape_plans(r, rnd, big)]
    return plans


def carry_out(r, plans):
    groups = r.execute(plans)
    jobs = [(m, [g for g in groups if g[0]["module"] == m]) for m in ("DVETrace", "FnTrace", "RangeTrace")]
    jobs = [(m, g) for m, g in jobs if g]
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda j: r.validate(j[1], j[0], jvms=8 if len(jobs) == 1 else 5), jobs))


def run(prop, tier, seed):
    r = driver.Run(prop, tier, seed)
    big = tier == "thorough"

    def made(i, big):
        return [dict(p, module="DVETrace") for p in generated(r, prop, random.Random("generated-%s-%d-%d" % (prop, seed, i)), big)]

    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(r.build)]
        for m, k in models(r, prop, big):
            mod, cfg = (m.split("/") + [m])[:2]
            fs.append(ex.submit(r.model, mod, cfg + ".cfg", workers=3, **k))
        fg = ex.submit(made, 0, big)
        for f in fs:
            f.result()
        plans = fg.result()
    carry_out(r, plans_for(r, prop, random.Random("%s-%d" % (prop, seed)), big, plans))
    # a thorough check goes on with other random choices while there is time
    i = 1
    while big and not r.fails and time.time() - r.t0 < BUDGET:
        carry_out(r, plans_for(r, prop, random.Random("%s-%d-%d" % (prop, seed, i)), False, made(i, False)))
        i += 1
    if big:
        r.notes["rounds"] = i
    return r.finish()
