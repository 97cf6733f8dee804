"""Behaviours picked by TLC (spec/Gen.tla, -simulate) turned into sessions for the harness.  Gen decides which
operations happen on which artefacts and what is observed at the end; here the values it leaves open are chosen:
plaintexts, positions, amounts, ways of calling the same operation."""
import json
import re

from . import plans as P

WAYS = {"verc": ["free", "prep", "method", "method-prep"], "verp": ["both", "prep", "proof"]}
KEEP = ("decd", "verp", "dec")


def behaviours(r, focus, num, length, srs, parties, seed):
    """num behaviours, each a list of operations and a list of possible observations."""
    rc, out, g, d = r.tlc("Gen", "Gen.cfg", env={"GEN_FOCUS": focus, "GEN_LEN": str(length), "GEN_SRS": str(srs), "GEN_PARTIES": str(parties)},
                          args=["-simulate", "num=%d" % num, "-depth", str(length + 3), "-seed", str(seed)])
    res = []
    for m in re.finditer(r'^"DVEGEN (.*)"$', out, re.M):
        ops = json.loads(json.loads('"' + m.group(1) + '"'))
        res.append((ops[:length], ops[length:]))
    if not res:
        print(out[-3000:])
        from .driver import ToolError
        raise ToolError("no behaviours generated for %s (exit %d)" % (focus, rc))
    return res


def session(rnd, ops, obs, engine, b, mode="full", nsrs=0, ids=False, maxobs=40, tag=""):
    s = P.Sess(rnd, engine, b, mode, nsrs=nsrs, ids=ids, tag="generated " + tag)
    n = s.n
    pos = [0, 1, n, n + 1]
    big = engine == "bls"
    xs = {"max+1": s.max + 1, "max": s.max, "neg": -1, "wide": 65536 + rnd.randrange(3), "twice": 2 * s.max + 1}
    terms = {}

    def emit(o):
        o = dict(o)
        op = o["op"]
        if op == "enc":
            terms[o["out"]] = 1
            o["m"] = s.vec({"first": (0, s.vmax), "last": (n - 1, s.vmax)}.get(o["m"], o["m"]))
        elif op == "craft":
            terms[o["out"]] = 2
            x = [rnd.randrange(min(s.max, 3) + 1) for _ in range(n)]
            x[rnd.choice([0, n - 1, rnd.randrange(n)])] = xs[o["x"]]
            o["x"] = x
        elif op == "add":
            terms[o["out"]] = terms[o["a"]] + terms[o["b"]]
        elif op == "tamper":
            terms[o["out"]] = terms[o["ct"]]
            k = o["k"]
            if k == "setm":
                o["i"] = rnd.choice([1, n])
            elif "i" in o:
                o["i"] = pos[o["i"]] if o["i"] < 3 else rnd.choice([n + 1, rnd.randrange(n + 2)])
            if k in ("swap", "shift"):
                o["j"] = rnd.choice([x for x in range(n + 2) if x != o["i"]])
            if k == "rot" and n < 2:
                o["k"] = "neg"
            if "d" in o:
                o["d"] = rnd.randrange(1, 5)
            if k not in ("swap", "shift"):
                o.pop("j", None)
        elif op == "tproof":
            if not o["k"].endswith("from"):
                o.pop("other", None)
            if not o["k"].endswith("+"):
                o.pop("d", None)
        elif op == "decd" or op == "dec":
            need = max(1, terms.get(o["ct"], 4))
            w = rnd.choice([b, b, b + (need - 1).bit_length(), b + 1])
            o["bits"] = min(w, max(b, 10)) if big or b > 9 else w
            if op == "dec":
                o["via"] = rnd.choice(P.CHUNK_VIAS if b <= 8 else ["chunks", "chunks-prep"])
        elif op == "batch":
            if rnd.random() < .3:
                o["coef"] = [rnd.choice([1, 2, 3, -1, 5]) for _ in o["cts"]]
            else:
                o["via"] = rnd.choice(["plain", "prep"])
        elif op in WAYS:
            o["via"] = rnd.choice(WAYS[op])
        s.p["steps"].append(o)

    for o in ops:
        emit(o)
        if o["op"] == "apply":
            terms[o["out"]] = terms[o["ct"]]
    first = [o for o in obs if o["op"] in KEEP]
    rest = [o for o in obs if o["op"] not in KEEP]
    rnd.shuffle(first)
    rnd.shuffle(rest)
    for o in first[:maxobs * 2 // 3] + rest[:maxobs - min(len(first), maxobs * 2 // 3)]:
        emit(o)
    return s.p


# focus -> engines, chunk sizes and modes its behaviours are carried out on
TOYS = [("q13", 2), ("q257", 4), ("q40961", 8), ("q13", 4), ("q257", 3), ("q40961", 4), ("q257", 8), ("q13", 1)]
NOSNARK13 = [("q257", 4), ("q40961", 8), ("q40961", 4), ("q257", 2), ("q257", 8), ("q40961", 2)]
PRODUCTION = [("bls", 4), ("bls", 8)]


def plans(r, rnd, focus, num, length, parties=3, nprod=None, ids=False):
    """Generated sessions: the same behaviours on small fields (every exponent readable) and on the production curve."""
    srs = 2 if focus in ("proofs", "all") else 1 if focus == "wire" else 0
    bs = behaviours(r, focus, num, length, srs, parties, rnd.randrange(1 << 30))
    out = []
    engines = NOSNARK13 if srs else TOYS
    nprod = num // 4 if nprod is None else nprod
    for i, (ops, obs) in enumerate(bs):
        if not ids:
            e, b = engines[i % len(engines)]
            out.append(session(rnd, ops, obs, e, b, nsrs=srs, tag=focus))
        if i < nprod or ids:
            e, b = PRODUCTION[i % 2]
            out.append(session(rnd, ops, obs, e, b, "opaque", nsrs=srs, ids=ids, maxobs=16, tag=focus))
    return out
