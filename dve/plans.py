"""Directed protocol sessions (inputs for the harness).  One builder per kind of behaviour; every builder
returns session plans.  Which sessions a check runs, and how deep, is decided in checks.py."""
import itertools
import random

BITS = {"q13": 4, "q257": 9, "q40961": 16, "bls": 255}
ORDER = {"q13": 13, "q257": 257, "q40961": 40961}
CHUNK_VIAS = ["chunks", "chunks-prep", "chunks-pow", "chunks-pow-prep"]
MSG_VIAS = ["msg", "msg-pow", "ct", "ct-pow"]
VK_VIAS = ["msg-vk", "msg-vk-pow", "ct-vk", "ct-vk-pow"]
R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001


def count(engine, b):
    return -(-BITS[engine] // b)


def rmax(b):
    return min(2 ** b - 1, 65535)


class Sess:
    """A session under construction."""
    nid = itertools.count(1)

    def __init__(self, rnd, engine, b, mode="full", k=3, nsrs=0, ids=False, setup=False, tag="", extra_g=0):
        # mode: full (toy engines: every exponent readable), small (bls, small secrets, readable),
        #       opaque (bls, full randomness, not readable)
        self.rnd, self.engine, self.b, self.n = rnd, engine, b, count(engine, b)
        self.max = rmax(b)
        self.vmax = self.max
        self.p = {"id": next(Sess.nid), "engine": engine, "b": b, "seed": rnd.randrange(1 << 40),
                  "exact": mode != "opaque", "mode": "small" if mode == "small" else "full", "k": k,
                  "nsrs": nsrs, "ids": ids, "setup": setup, "tag": tag, "extra_g": extra_g, "steps": []}
        self.c = itertools.count()

    def name(self, p):
        return "%s%d" % (p, next(self.c))

    def op(self, op, **kw):
        d = {"op": op}
        d.update(kw)
        self.p["steps"].append(d)
        return kw.get("out")

    # -- composite steps ---------------------------------------------------------------------
    def auth(self):
        return self.op("auth", out=self.name("A"))

    def dest(self):
        return self.op("dest", out=self.name("D"))

    def parties(self, k):
        return [self.op("party", out=self.name("P")) for _ in range(k)]

    def group(self, ps, corder=None, porder=None, nested=False):
        """Group key of parties ps; order of combination of the partial keys and of the contributions."""
        corder = corder or ps
        porder = porder or ps
        k = self.op("comb", of=list(corder), out=self.name("K"))
        sh = [self.op("p1", cek=k, party=p, out=self.name("q")) for p in porder]
        if nested and len(sh) > 2:
            acc = sh[0]
            for x in sh[1:]:
                acc = self.op("p1c", of=[acc, x], out=self.name("q"))
            q = acc
        else:
            q = self.op("p1c", of=sh, out=self.name("q"))
        return self.op("final", cek=k, p1=q, out=self.name("G"))

    def enc(self, ek, m):
        return self.op("enc", ek=ek, m=list(m), out=self.name("c"))

    def encmsg(self, ek, msg, via="msg"):
        o = self.name("c")
        d = {"ek": ek, "via": via, "msg": list(msg), "out": o}
        if via == "proof":
            d["pout"] = "pi" + o
        self.op("enc", **d)
        return o

    def add(self, a, b):
        return self.op("add", a=a, b=b, out=self.name("c"))

    def share(self, ct, d, p):
        return self.op("share", ct=ct, dest=d, party=p, out=self.name("w"))

    def tree(self, shares, how="left"):
        """Pairwise combination of shares: left fold, right fold or balanced."""
        xs = list(shares)
        if how == "right":
            xs = xs[::-1]
            acc = xs[0]
            for x in xs[1:]:
                acc = self.op("cshare", a=x, b=acc, out=self.name("w"))
            return acc
        if how == "bal":
            while len(xs) > 1:
                ys = [self.op("cshare", a=xs[i], b=xs[i + 1], out=self.name("w")) for i in range(0, len(xs) - 1, 2)]
                xs = ys + ([xs[-1]] if len(xs) % 2 else [])
            return xs[0]
        acc = xs[0]
        for x in xs[1:]:
            acc = self.op("cshare", a=acc, b=x, out=self.name("w"))
        return acc

    def apply(self, ct, w):
        return self.op("apply", ct=ct, share=w, out=self.name("r"))

    def decd(self, r, d, bits=None):
        self.op("decd", ct=r, dest=d, bits=self.b if bits is None else bits)

    def reenc(self, ct, d, ps, how="left", bits=None):
        w = self.tree([self.share(ct, d, p) for p in ps], how)
        r = self.apply(ct, w)
        self.decd(r, d, bits)
        return r

    def dec(self, ct, a, via="chunks", bits=None, dk=None, **kw):
        self.op("dec", ct=ct, sk=a, dk=dk or a, bits=self.b if bits is None else bits, via=via, **kw)

    def verc(self, ct, ek, via="free"):
        self.op("verc", ct=ct, ek=ek, via=via)

    def tamper(self, ct, k, **kw):
        return self.op("tamper", ct=ct, k=k, out=self.name("t"), **kw)

    # -- plaintexts ------------------------------------------------------------------------------
    def vec(self, kind):
        n, mx, r = self.n, self.vmax, self.rnd
        if kind == "zero":
            return [0] * n
        if kind == "max":
            return [mx] * n
        if kind == "one":
            return [1 if mx >= 1 else 0] * n
        if kind == "ramp":
            return [(i + 1) % (mx + 1) for i in range(n)]
        if kind == "mix":
            return [r.choice([0, 1, 2, mx - 1, mx, r.randrange(mx + 1)]) if mx > 1 else r.randrange(mx + 1)
                    for _ in range(n)]
        if isinstance(kind, tuple):          # (index, value): one-hot
            return [kind[1] if i == kind[0] % n else 0 for i in range(n)]
        return [r.randrange(mx + 1) for _ in range(n)]


def be(x, l=32):
    return list(x.to_bytes(l, "big"))


def messages(rnd, k):
    fixed = [0, 1, R - 1, R - 2, 2 ** 254, 2 ** 248 + 1, 255, 256, 65535, 65536, 15, 16, R >> 1,
             int("0f" * 31, 16), int("f0" * 31, 16), int("00ff" * 15, 16), 2 ** 255 - 19, R >> 8]
    out = [be(x % R) for x in fixed]
    out += [be(rnd.randrange(R)) for _ in range(8)]
    rnd.shuffle(out)
    base = [be(0), be(R - 1), be(1)]
    return (base + out)[:k]


# ------------------------------------------------------------------------------------------------
# C01: single authority
# ------------------------------------------------------------------------------------------------
def single(rnd, engine, b, mode="full", nvec=6, vias=None, setup=False, cap=None, wide=True):
    s = Sess(rnd, engine, b, mode, setup=setup, nsrs=1 if setup else 0, tag="single",
             extra_g=rnd.choice([0, 0, 2]) if not setup else 0)
    if cap is not None:
        s.vmax = min(s.max, cap)
    a = "A0" if setup else s.auth()
    kinds = ["max", "zero", "mix", (0, s.vmax), (s.n - 1, s.vmax), "ramp", "rand", "one"]
    kinds += [(i, 1 + rnd.randrange(s.vmax)) for i in range(1, s.n - 1)]
    vias = vias or CHUNK_VIAS
    vi = itertools.cycle(vias)
    first = True
    for kd in kinds[:nvec]:
        c = s.enc(a, s.vec(kd))
        s.verc(c, a)
        if first:
            for v in vias:
                s.dec(c, a, v)
            first = False
        else:
            s.dec(c, a, next(vi))
            s.dec(c, a, next(vi))
        if wide and engine != "bls" and b < 8:
            s.dec(c, a, "chunks", bits=b + 1 + rnd.randrange(2))
            s.dec(c, a, "chunks-pow", bits=b, pbits=b + 1)
    return s.p


def sweep(rnd, engine, b, values, mode="full", vias=("chunks",), re=True, per=1):
    """Every one of the given chunk values is encrypted and found again by every search."""
    s = Sess(rnd, engine, b, mode, tag="sweep")
    a = s.auth()
    g = d = None
    if re:
        ps = s.parties(2)
        g, d = s.group(ps), s.dest()
    vals = list(values)
    rnd.shuffle(vals)
    for i in range(0, len(vals), s.n):
        m = vals[i:i + s.n]
        m += [rnd.choice(vals) if engine != "bls" or b < 16 else 0 for _ in range(s.n - len(m))]
        if vias:
            c = s.enc(a, m)
            for v in vias:
                s.dec(c, a, v)
        if re:
            s.reenc(s.enc(g, m), d, ps)
    return s.p


def corner_values(rnd, b, extra=8):
    """Values at which a faster search than the linear one may go wrong: around powers of two, multiples of
    powers of two, squares, the ends of the range."""
    mx = rmax(b)
    out = {0, 1, 2, 3, mx, mx - 1, mx - 2, mx // 2, mx // 3}
    for k in range(b):
        p = 2 ** k
        q = mx // p
        out |= {p, p - 1, p + 1, mx - p, mx + 1 - p, p * rnd.randrange(1, q + 1), p * rnd.randrange(1, q + 1) - 1,
                p * rnd.randrange(1, q + 1) + 1, p * max(1, q - rnd.randrange(3))}
    r = int(mx ** .5)
    out |= {r * r, r * (r + 1), (r + 1) * rnd.randrange(1, r), r * rnd.randrange(1, r)}
    out |= {rnd.randrange(mx + 1) for _ in range(extra)}
    return sorted(v for v in out if 0 <= v <= mx)


def single_msg(rnd, b, mode="opaque", nmsg=3, vk=False, powers=True):
    """Message level, production curve."""
    s = Sess(rnd, "bls", b, mode, setup=vk, nsrs=1 if vk else 0, tag="single_msg")
    a = "A0" if vk else s.auth()
    ev = itertools.cycle(["msg", "vk", "proof"] if vk else ["msg"])
    allv = MSG_VIAS + (VK_VIAS if vk else [])
    if not powers:
        allv = [v for v in allv if "pow" not in v]
    dv = itertools.cycle(allv)
    for i, m in enumerate(messages(rnd, nmsg)):
        via = next(ev)
        c = s.encmsg(a, m, via)
        s.verc(c, a, rnd.choice(["free", "prep", "method", "method-prep"]))
        if via == "proof":
            s.op("verp", ct=c, proof="pi" + c, via="both", ek=a)
        for _ in range(len(allv) if i == 0 else 2):
            s.dec(c, a, next(dv))
    return s.p


# ------------------------------------------------------------------------------------------------
# C02: distributed key generation
# ------------------------------------------------------------------------------------------------
def keygen(rnd, engine, b, mode="full", k=2, norders=3, use=True):
    s = Sess(rnd, engine, b, mode, tag="keygen")
    ps = s.parties(k)
    if k <= 3:
        orders = list(itertools.permutations(ps))
        rnd.shuffle(orders)
        orders = [tuple(ps)] + [o for o in orders if o != tuple(ps)]
    else:
        orders = [tuple(ps), tuple(ps[::-1])] + [tuple(rnd.sample(ps, k)) for _ in range(norders)]
    gs = []
    for i, o in enumerate(orders[:norders]):
        po = rnd.sample(ps, k)
        gs.append(s.group(ps, o, po, nested=i % 2 == 1))
    if use:
        c = s.enc(gs[0], s.vec("mix"))
        s.verc(c, gs[-1])
        d = s.dest()
        s.reenc(c, d, ps)
    if k > 1:
        # a key for fewer parties, and single-party keys
        g1 = s.group(ps[:1])
        g2 = s.group(ps[:-1])
        if use:
            for g, q in ((g1, ps[:1]), (g2, ps[:-1])):
                c = s.enc(g, s.vec("rand"))
                s.verc(c, g)
    if engine != "bls" and k > 1:
        # unsound contributions are what they are: exactly their sum
        kk = s.op("comb", of=ps, out=s.name("K"))
        q = [s.op("p1", cek=kk, party=p, out=s.name("q")) for p in ps]
        q2 = s.op("p1c", of=q[:-1], out=s.name("q"))
        s.op("final", cek=kk, p1=q2, out=s.name("G"))
        q3 = s.op("p1c", of=q + q[:1], out=s.name("q"))
        s.op("final", cek=kk, p1=q3, out=s.name("G"))
    return s.p


# ------------------------------------------------------------------------------------------------
# C03 / C04: re-encryption
# ------------------------------------------------------------------------------------------------
def reenc(rnd, engine, b, mode="full", k=2, nvec=3, ntrees=2, cap=None, bits=None):
    s = Sess(rnd, engine, b, mode, tag="reenc")
    if cap is not None:
        s.vmax = min(s.max, cap)
    ps = s.parties(k)
    g = s.group(ps, rnd.sample(ps, k), rnd.sample(ps, k))
    d = s.dest()
    d2 = s.dest()
    trees = ["left", "right", "bal"]
    kinds = ["max", (s.n - 1, s.vmax), "mix", "zero", (0, s.vmax), "rand", "ramp"]
    for i, kd in enumerate(kinds[:nvec]):
        c = s.enc(g, s.vec(kd))
        for t in range(ntrees):
            o = rnd.sample(ps, k)
            s.reenc(c, d if t % 2 == 0 else d2, o, trees[(i + t) % 3], bits)
    return s.p


def reenc_neg(rnd, engine, b, mode="full", k=2, cap=None, bits=None, full=True, few=False):
    """Missing, repeated, foreign shares; foreign destinations and secret keys."""
    s = Sess(rnd, engine, b, mode, tag="reenc_neg")
    if cap is not None:
        s.vmax = min(s.max, cap)
    ps = s.parties(k)
    x = s.op("party", out=s.name("P"))
    g = s.group(ps)
    d, e = s.dest(), s.dest()
    m1, m2 = s.vec("mix"), s.vec("rand")
    c1, c2 = s.enc(g, m1), s.enc(g, m2)
    c3 = s.enc(g, m1)                              # same plaintext, other randomness
    bb = {"bits": bits} if bits else {}
    sh = {p: s.share(c1, d, p) for p in ps}
    # every strict subset that is not empty (limited), every duplication
    subsets = [z for r in range(1, k) for z in itertools.combinations(ps, r)]
    rnd.shuffle(subsets)
    for z in subsets[:6 if full else 2]:
        r = s.apply(c1, s.tree([sh[p] for p in z]))
        s.decd(r, d, **bb)
    for p in ps[:3]:
        for o, how in (([sh[q] for q in ps] + [sh[p]], "left"),
                       ([sh[p], sh[p]] + [sh[q] for q in ps if q != p], rnd.choice(["left", "bal"]))):
            r = s.apply(c1, s.tree(o, how))
            s.decd(r, d, **bb)
        # contributed twice afresh, another missing
        if k > 1:
            q = [y for y in ps if y != p]
            r = s.apply(c1, s.tree([s.share(c1, d, p), sh[p]] + [sh[y] for y in q[1:]]))
            s.decd(r, d, **bb)
        # for a different ciphertext / destination / by a stranger
        if few:
            break
        for alt in (s.share(c2, d, p), s.share(c3, d, p), s.share(c1, e, p), s.share(c1, d, x)):
            r = s.apply(c1, s.tree([sh[q] for q in ps if q != p] + [alt]))
            s.decd(r, d, **bb)
        if not full:
            break
    # all shares for another ciphertext applied to this one
    w = s.tree([sh[q] for q in ps])
    r = s.apply(c2, w)
    s.decd(r, d, **bb)
    r = s.apply(c3, w)
    s.decd(r, d, **bb)
    # the right result, opened by the wrong destination
    r = s.apply(c1, w)
    s.decd(r, d, **bb)
    s.decd(r, e, **bb)
    # extra share of a stranger
    r = s.apply(c1, s.tree([sh[q] for q in ps] + [s.share(c1, d, x)]))
    s.decd(r, d, **bb)
    return s.p


def reenc_many(rnd, engine, b, mode="full", k=17, cap=None):
    """Many parties: everybody's share, one missing, one twice, one of a stranger instead."""
    s = Sess(rnd, engine, b, mode, tag="reenc_many")
    if cap is not None:
        s.vmax = min(s.max, cap)
    ps = s.parties(k)
    x = s.op("party", out=s.name("P"))
    g = s.group(ps)
    d = s.dest()
    c = s.enc(g, s.vec("mix"))
    sh = [s.share(c, d, p) for p in ps]
    for how in ("left", "bal"):
        s.decd(s.apply(c, s.tree(rnd.sample(sh, k), how)), d)
    for p in sorted({0, k - 1, rnd.randrange(k)}):
        rest = sh[:p] + sh[p + 1:]
        s.decd(s.apply(c, s.tree(rest)), d)
        s.decd(s.apply(c, s.tree(rest + [rest[0]], "bal")), d)
        s.decd(s.apply(c, s.tree(sh + [sh[p]])), d)
    s.decd(s.apply(c, s.tree(sh[1:] + [s.share(c, d, x)])), d)
    return s.p


# ------------------------------------------------------------------------------------------------
# C05: sums
# ------------------------------------------------------------------------------------------------
def sums(rnd, engine, b, mode="full", k=2, terms=3, single_too=True, cap=None, bits=None):
    s = Sess(rnd, engine, b, mode, tag="sums")
    if cap is not None:
        s.vmax = min(s.max, cap)
    ps = s.parties(k)
    g = s.group(ps)
    d = s.dest()
    keys = [(g, None)]
    if single_too:
        a = s.auth()
        keys.append((a, a))
    extra = max(1, (terms - 1).bit_length())
    for ek, au in keys:
        cs = [s.enc(ek, s.vec(kd)) for kd in (["max", "mix", "rand", (s.n - 1, s.vmax), "ramp"] * 3)[:terms]]
        left = cs[0]
        for y in cs[1:]:
            left = s.add(left, y)
        right = cs[-1]
        for y in cs[-2::-1]:
            right = s.add(y, right)
        dbl = s.add(cs[0], cs[0])
        quad = s.add(dbl, dbl)
        for z in (left, right, dbl, quad):
            s.verc(z, ek, rnd.choice(["free", "prep", "method"]))
            widths = [b, b + extra, b + extra + 1] if bits is None else bits
            for w in widths:
                if au:
                    s.dec(z, au, "chunks", bits=w)
                else:
                    s.reenc(z, d, ps, "left", w)
    return s.p


def many_sums(rnd, engine, b, mode="full", terms=20, wide=()):
    """A long sum, and sums that fill a wider search range."""
    s = Sess(rnd, engine, b, mode, tag="many_sums")
    ps = s.parties(2)
    g, d, a = s.group(ps), s.dest(), s.auth()
    q = ORDER.get(engine, 1 << 60)
    for ek in (g, a):
        def out(c, w):
            if ek == a:
                s.dec(c, a, "chunks", bits=w)
            else:
                s.reenc(c, d, ps, "left", w)
        cs = [s.enc(ek, [rnd.randrange(min(s.max, (q - 1) // terms) + 1) for _ in range(s.n)]) for _ in range(terms)]
        acc = cs[0]
        for i, y in enumerate(cs[1:]):
            acc = s.add(acc, y) if i % 2 else s.add(y, acc)
        s.verc(acc, ek, rnd.choice(FORMS))
        w = b + (terms - 1).bit_length()
        out(acc, min(w, 16))
        for w in wide:
            # doublings and additions up to the end of the range of w bits, and one beyond it
            x, y = [(2 ** b - 1 if w > b else 1) if i == 0 else 1 for i in range(s.n)], None
            c, val = s.enc(ek, x), x[0]
            one = s.enc(ek, [1] * s.n)
            while 2 * val < 2 ** w and 2 * val < q:
                c, val = s.add(c, c), 2 * val
                if val + 1 < 2 ** w and val + 1 < q and rnd.random() < .8:
                    c, val = s.add(c, one), val + 1
            s.verc(c, ek, rnd.choice(FORMS))
            out(c, w)
            out(c, min(16, w + 1))
            out(c, w - 1)
    return s.p


def sums_wide(rnd, engine, b, mode="opaque"):
    """Sums around the width of the chunk type."""
    s = Sess(rnd, engine, b, mode, tag="sums_wide")
    ps = s.parties(1)
    g = s.group(ps)
    d = s.dest()
    n = s.n
    hi = s.max
    c1 = s.enc(g, [hi if i == 0 else (1 if i == n - 1 else 0) for i in range(n)])
    z1 = s.enc(g, [1 if i == 0 else 0 for i in range(n)])
    z2 = s.enc(g, [0 if i < n - 1 else 1 for i in range(n)])
    over = s.add(c1, z1)          # hi + 1 at position 0
    same = s.add(c1, z2)          # hi, 2
    for c in (same, over):
        w = s.share(c, d, ps[0])
        r = s.apply(c, w)
        for bits in rnd.sample([16, 17, 20, 24, 31, 32, 40, 255], 2):
            s.decd(r, d, bits)
    return s.p


# ------------------------------------------------------------------------------------------------
# C06: commitment verification
# ------------------------------------------------------------------------------------------------
FORMS = ["free", "prep", "method", "method-prep"]


def verc(rnd, engine, b, mode="full", group=True, npos=None, kinds=None):
    s = Sess(rnd, engine, b, mode, tag="verc")
    ps = s.parties(2)
    a, a2 = s.auth(), s.auth()
    keys = [a]
    if group:
        keys.append(s.group(ps))
    fi = itertools.cycle(FORMS)
    n = s.n
    for ek in keys:
        c1, c2 = s.enc(ek, s.vec("mix")), s.enc(ek, s.vec("rand"))
        z = s.enc(ek, s.vec("zero"))
        mx = s.enc(ek, s.vec("max"))
        su = s.add(c1, c2)
        su2 = s.add(su, mx)
        for c in (c1, z, mx, su, su2):
            for f in FORMS:
                s.verc(c, ek, f)
        other = a2 if ek == a else a
        s.verc(c1, other, next(fi))
        s.verc(su, other, next(fi))
        pos = list(range(n + 2))
        if npos and npos < len(pos):
            mid = rnd.sample(pos[2:-2], max(0, npos - 4)) if len(pos) > 4 else []
            pos = [0, 1, n, n + 1] + mid
        for i in sorted(set(pos)):
            ks = kinds or ["add", "neg", "zero", "double", "from", "swap", "shift"]
            for k in ks:
                kw = {"i": i}
                if k in ("add", "shift"):
                    kw["d"] = rnd.randrange(1, 4)
                if k == "from":
                    kw["other"] = c2
                if k in ("swap", "shift"):
                    j = rnd.choice([x for x in range(n + 2) if x != i])
                    kw["j"] = j
                t = s.tamper(c1, k, **kw)
                s.verc(t, ek, next(fi))
        for k in ("rot", "pop", "push", "pushzero"):
            if k == "rot" and n < 2:
                continue
            t = s.tamper(c1, k)
            s.verc(t, ek, next(fi))
        t = s.tamper(c1, "setm", i=1 + rnd.randrange(n), d=1, ek=ek)       # consistent again
        s.verc(t, ek, next(fi))
        t = s.tamper(c1, "rerand", d=2, ek=ek)
        s.verc(t, ek, next(fi))
    return s.p


# ------------------------------------------------------------------------------------------------
# C09: batches
# ------------------------------------------------------------------------------------------------
def batch(rnd, engine, b, mode="full", sizes=(1, 2, 3), npos=3, coefs=True):
    s = Sess(rnd, engine, b, mode, tag="batch")
    a = s.auth()
    ps = s.parties(2)
    g = s.group(ps)
    via = itertools.cycle(["plain", "prep"])
    for ek in (a, g):
        mx = max(sizes)
        cs = [s.enc(ek, s.vec(rnd.choice(["mix", "rand", "zero", "max"]))) for _ in range(mx)]
        su = s.add(cs[0], cs[-1])
        for sz in sizes:
            good = cs[:sz]
            s.op("batch", cts=good, ek=ek, via=next(via))
            s.op("batch", cts=(good[:-1] + [su]), ek=ek, via=next(via))
            s.op("batch", cts=[good[0]] * sz, ek=ek, via=next(via))
            comps = [0, s.n + 1, 1, s.n] + [rnd.randrange(1, s.n + 1) for _ in range(4)]
            for p in range(sz):
                for comp in (comps[:npos] if sz < 4 else rnd.sample(comps, min(2, npos))):
                    t = s.tamper(cs[p], "add", i=comp, d=rnd.randrange(1, 4))
                    x = list(good)
                    x[p] = t
                    s.op("batch", cts=x, ek=ek, via=next(via))
            # cancelling faults: individually bad
            if sz >= 2:
                i = rnd.randrange(s.n + 2)
                t1 = s.tamper(cs[0], "add", i=i, d=1)
                t2 = s.tamper(cs[1], "neg", i=rnd.randrange(s.n + 2))
                x = [t1, t2] + good[2:]
                s.op("batch", cts=x, ek=ek, via=next(via))
                co = [2, 3, 5, 7, 11, 13, 17, 19][:sz] + list(range(23, 15 + sz))
                u, v = sorted(rnd.sample(range(sz), 2))
                i = rnd.randrange(s.n + 2)
                for du, dv, cc in ((1, -1, None), (1, -1, co), (co[u], -co[v], co), (co[v], -co[u], co), (2, -1, co)):
                    # ... that cancel under equal, exchanged, the given, or geometric coefficients
                    x = list(good)
                    x[u], x[v] = s.tamper(cs[u], "add", i=i, d=du), s.tamper(cs[v], "add", i=i, d=dv)
                    s.op("batch", cts=x, ek=ek, via=next(via), **({"coef": cc} if cc else {}))
                sw = s.tamper(cs[0], "from", i=rnd.randrange(s.n + 2), other=cs[1])
                s.op("batch", cts=[sw] + good[1:], ek=ek, via=next(via))
            if coefs:
                s.op("batch", cts=good, ek=ek, coef=[1] * sz)
                s.op("batch", cts=good, ek=ek, coef=list(range(2, 2 + sz)))
                s.op("batch", cts=good, ek=ek, coef=[-1] * sz)
                t = s.tamper(cs[0], "add", i=0, d=1)
                s.op("batch", cts=[t] + good[1:], ek=ek, coef=[1] * sz)
                s.op("batch", cts=[t] + good[1:], ek=ek, coef=[0] + [1] * (sz - 1))
                s.op("batch", cts=good, ek=ek, coef=[1] * (sz + 1))
                if sz > 1:
                    s.op("batch", cts=good, ek=ek, coef=[1] * (sz - 1))
        s.op("batch", cts=[], ek=ek, coef=[])
        other = g if ek == a else a
        s.op("batch", cts=cs[:2], ek=other)
        if s.n > 1:
            t = s.tamper(cs[0], "pop")
            s.op("batch", cts=[cs[0], t][:2], ek=ek)
            s.op("batch", cts=[t], ek=ek)
    return s.p


def many_batch(rnd, engine, b, mode="full", size=33, npos=6):
    """One large batch: honest, with a fault at the first, last and random positions, with cancelling faults."""
    s = Sess(rnd, engine, b, mode, tag="many_batch")
    via = itertools.cycle(["plain", "prep"])
    a = s.auth()
    cs = [s.enc(a, s.vec(rnd.choice(["mix", "rand"]))) for _ in range(size)]
    s.op("batch", cts=cs, ek=a, via="plain")
    s.op("batch", cts=cs, ek=a, via="prep")
    s.op("batch", cts=[cs[0]] * size, ek=a, via=next(via))
    s.op("batch", cts=cs, ek=a, coef=[1] * size)
    comp = itertools.cycle([s.n + 1, 0, 1, s.n])
    for p in sorted({0, 1, size - 1, size - 2, *[rnd.randrange(size) for _ in range(npos - 4)]}):
        for v in ("plain", "prep"):
            x = list(cs)
            x[p] = s.tamper(cs[p], "add", i=next(comp), d=rnd.randrange(1, 4))
            s.op("batch", cts=x, ek=a, via=v)
    for _ in range(3):
        u, v = sorted(rnd.sample(range(size), 2))
        i = rnd.randrange(s.n + 2)
        x = list(cs)
        x[u], x[v] = s.tamper(cs[u], "add", i=i, d=1), s.tamper(cs[v], "add", i=i, d=-1)
        s.op("batch", cts=x, ek=a, via=next(via))
        s.op("batch", cts=x, ek=a, coef=[1] * size)
        s.op("batch", cts=x, ek=a, coef=list(range(1, size + 1)))
    s.op("batch", cts=cs, ek=a, coef=[1] * (size + 1))
    s.op("batch", cts=cs, ek=a, coef=[1] * (size - 1))
    return s.p


# ------------------------------------------------------------------------------------------------
# C07: proofs
# ------------------------------------------------------------------------------------------------
def proofs(rnd, engine, b, mode="full", group=True, nct=2, nsrs=2, npos=3, msg=False, setup=False, over=True):
    s = Sess(rnd, engine, b, mode, nsrs=nsrs, setup=setup, tag="proofs")
    a = "A0" if setup else s.auth()
    keys = [a]
    ps = []
    if group:
        ps = s.parties(2)
        keys.append(s.group(ps))
    other = s.auth()
    vv = itertools.cycle(["both", "prep", "proof"])

    def check(c, p, ek, srs=0, via=None):
        s.op("verp", ct=c, proof=p, ek=ek, srs=srs, via=via or next(vv))

    n = s.n
    for ek in keys:
        kinds = ["max", "mix", "zero", "rand", (n - 1, s.vmax)][:nct]
        cs, prs = [], []
        for kd in kinds:
            c = s.enc(ek, s.vec(kd))
            p = s.op("prove", ct=c, ek=ek, out=s.name("p"))
            cs.append(c)
            prs.append(p)
            for v in ("both", "prep", "proof"):
                check(c, p, ek, via=v)
        if msg:
            c = s.encmsg(ek, messages(rnd, 6)[rnd.randrange(6)], "proof")
            cs.append(c)
            prs.append("pi" + c)
            for v in ("both", "prep", "proof"):
                check(c, "pi" + c, ek, via=v)
        c, p = cs[0], prs[0]
        # proof of another ciphertext, under another key, another SNARK key
        check(cs[1], p, ek)
        check(c, prs[1], ek)
        check(c, p, other, via="both")
        po = s.op("prove", ct=c, ek=other, out=s.name("p"))
        check(c, po, ek)
        if nsrs > 1:
            check(c, p, ek, srs=1)
            p1 = s.op("prove", ct=c, ek=ek, srs=1, out=s.name("p"))
            check(c, p1, ek, srs=0)
        # proof of another statement than the one encrypted
        m2 = s.vec("mix")
        m2[rnd.randrange(n)] ^= 1
        p2 = s.op("prove", ct=c, ek=ek, m=m2, out=s.name("p"))
        check(c, p2, ek)
        # same plaintext, other randomness
        c3 = s.enc(ek, s.vec(kinds[0])) if kinds[0] in ("max", "zero") else None
        if c3:
            check(c3, p, ek)
        # altered proofs
        for k in ["a+", "b+", "c+", "a-", "b-", "c-", "a0", "b0", "c0", "ac", "afrom", "bfrom", "cfrom", "noP2"]:
            kw = {"d": rnd.randrange(1, 4)} if k[1:] == "+" else {}
            if k.endswith("from"):
                kw["other"] = prs[1]
            if k == "noP2":
                kw = {"ek": ek, "ct": c}
            t = s.op("tproof", proof=p, k=k, out=s.name("u"), **kw)
            check(c, t, ek)
        t = s.op("tproof", proof=p, k="ab-", out=s.name("u"))
        check(c, t, ek)
        # altered ciphertexts
        pos = sorted(set([0, 1, n, n + 1] + [rnd.randrange(n + 2) for _ in range(npos)]))
        for i in pos:
            t = s.tamper(c, "add", i=i, d=1)
            check(t, p, ek, via="both")
            check(t, p, ek, via="proof")
            t = s.tamper(c, "from", i=i, other=cs[1])
            check(t, p, ek, via=rnd.choice(["both", "prep"]))
        if n > 1:
            t = s.tamper(c, "shift", i=1, j=n, d=1)         # same sum
            check(t, p, ek, via="both")
            check(t, p, ek, via="prep")
            t = s.tamper(c, "swap", i=1, j=n)
            check(t, p, ek, via="both")
        t = s.tamper(c, "shift", i=0, j=1, d=1)
        check(t, p, ek, via="both")
        t = s.tamper(c, "setm", i=1 + rnd.randrange(n), d=1, ek=ek)
        check(t, p, ek, via="both")
        t = s.tamper(c, "rerand", d=2, ek=ek)
        check(t, p, ek, via="both")
        for k in ("pop", "push", "pushzero"):
            t = s.tamper(c, k)
            check(t, p, ek, via="both")
            check(t, p, ek, via="proof")
        # sum of two proved ciphertexts: neither proof is for it
        su = s.add(cs[0], cs[1])
        check(su, p, ek, via="both")
        # out of range chunk
        if over and b < 16:
            for i in sorted({0, n - 1}):
                m = [1] * n
                m[i] = s.max + 1
                c4 = s.enc(ek, m)
                s.verc(c4, ek)
                p4 = s.op("prove", ct=c4, ek=ek, out=s.name("p"))
                check(c4, p4, ek)
                check(c4, p4, ek, via="proof")
    return s.p


def setups(rnd, engine, b, mode="full"):
    """Several SNARK set-ups, one of them with keys of its own; the keys are used."""
    s = Sess(rnd, engine, b, mode, nsrs=3 if engine != "bls" else 2, setup=True, tag="setups")
    c = s.enc("A0", s.vec("mix"))
    s.verc(c, "A0")
    p = s.op("prove", ct=c, ek="A0", out=s.name("p"))
    s.op("verp", ct=c, proof=p, ek="A0", via="both")
    if b < 16:
        s.dec(c, "A0", "chunks")
    return s.p


# ------------------------------------------------------------------------------------------------
# C16: dishonest ciphertexts and keys
# ------------------------------------------------------------------------------------------------
def craft(rnd, engine, b, mode="full", nct=4, powers=True, widths=None, group=True):
    s = Sess(rnd, engine, b, mode, tag="craft")
    a, a2 = s.auth(), s.auth()
    n, mx = s.n, s.max
    ps = s.parties(2)
    g = s.group(ps) if group else None
    d = s.dest()
    cand = [mx, mx + 1, mx - 1, 0, 1, -1, 2, 65535, 65536, 65537, 2 * mx + 1, mx + 2]
    widths = widths or [b]
    vias = CHUNK_VIAS if powers else ["chunks", "chunks-prep"]
    vi = itertools.cycle(vias)
    for k in range(nct):
        base = [rnd.randrange(min(mx, 3) + 1) for _ in range(n)]
        x = list(base)
        x[[0, n - 1, rnd.randrange(n)][k % 3]] = cand[k % len(cand)]
        c = s.op("craft", ek=a, x=x, out=s.name("x"))
        for w in widths:
            for _ in range(2):
                s.dec(c, a, next(vi), bits=w)
        s.dec(c, a, "chunks", dk=a2)
        s.dec(c, a2, "chunks-prep", dk=a)
        s.dec(c, a2, "chunks")
        if g:
            cg = s.op("craft", ek=g, x=x, out=s.name("x"))
            for w in widths:
                s.reenc(cg, d, ps, "left", w)
    c = s.enc(a, s.vec("mix"))
    for i in sorted({0, 1, n, rnd.randrange(1, n + 1)}):
        t = s.tamper(c, "add", i=i, d=1)
        s.dec(t, a, next(vi))
    if n > 1:
        s.dec(s.tamper(c, "swap", i=1, j=n), a, next(vi))
    s.dec(s.tamper(c, "zero", i=0), a, next(vi))
    s.dec(s.tamper(c, "zero", i=1), a, next(vi))
    # tables for a wider, narrower range
    if powers and b > 1 and b <= 8:
        s.dec(c, a, "chunks-pow", bits=b, pbits=b - 1)
        s.dec(c, a, "chunks-pow-prep", bits=b, pbits=b + 1)
        s.dec(c, a, "chunks-pow", bits=b - 1, pbits=b)
        s.dec(c, a, "chunks", bits=b - 1)
        s.dec(c, a, "chunks", bits=0)
        z = s.enc(a, s.vec("one"))
        s.dec(z, a, "chunks", bits=0)
        s.dec(z, a, "chunks", bits=1)
    return s.p


def craft_msg(rnd, b, mode="small", n=2):
    """Message-level decryption of ciphertexts whose chunks do not denote a message of this chunk size."""
    s = Sess(rnd, "bls", b, mode, tag="craft_msg")
    a = s.auth()
    vi = itertools.cycle(MSG_VIAS if b < 16 else ["msg", "ct"])
    for k in range(n):
        x = [rnd.randrange(4) for _ in range(s.n)]
        x[rnd.randrange(s.n)] = [s.max + 1, s.max][k % 2]
        c = s.op("craft", ek=a, x=x, out=s.name("x"))
        s.dec(c, a, next(vi))
        s.dec(c, a, next(vi))
    return s.p


# ------------------------------------------------------------------------------------------------
# C12: lengths that do not fit
# ------------------------------------------------------------------------------------------------
def misfit(rnd, engine, b, mode="full", snark=None):
    """Ciphertexts of every wrong length (none, one less, one more, two more) in every operation of the protocol."""
    snark = engine != "q13" if snark is None else snark
    s = Sess(rnd, engine, b, mode, nsrs=1 if snark else 0, tag="misfit")
    a = s.auth()
    ps = s.parties(2)
    g = s.group(ps)
    d = s.dest()
    vi = itertools.cycle(CHUNK_VIAS if b < 16 else ["chunks", "chunks-prep"])
    fi = itertools.cycle(FORMS)
    pv = itertools.cycle(["both", "prep", "proof"])
    for ek in (a, g):
        c, c2 = s.enc(ek, s.vec("one")), s.enc(ek, s.vec("zero"))
        bad = [s.tamper(c, "pop"), s.tamper(c, "push"), s.tamper(c, "pushzero")]
        bad.append(s.tamper(bad[1], "pushzero"))
        none = c
        for _ in range(min(s.n, 70)):
            none = s.tamper(none, "pop")
            if rnd.random() < 3 / s.n:
                bad.append(none)
        if none not in bad:
            bad.append(none)
        pr = s.op("prove", ct=c, ek=ek, out=s.name("p")) if snark else None
        for x in bad:
            s.add(c, x)
            s.add(x, c2)
            s.add(x, x)
            s.verc(x, ek, next(fi))
            s.op("batch", cts=[x], ek=ek, via=rnd.choice(["plain", "prep"]))
            s.op("batch", cts=[c, x], ek=ek, via=rnd.choice(["plain", "prep"]))
            s.op("batch", cts=[x, c], ek=ek, via=rnd.choice(["plain", "prep"]))
            s.op("batch", cts=[c, x, c2], ek=ek)
            if pr:
                s.op("verp", ct=x, proof=pr, ek=ek, srs=0, via=next(pv))
            if ek == a:
                s.dec(x, a, next(vi))
            else:
                sh = s.share(x, d, ps[0])
                ok = s.share(c, d, ps[0])
                ok2 = s.share(c, d, ps[1])
                w = s.op("cshare", a=ok, b=ok2, out=s.name("w"))
                s.apply(x, w)
        # one coefficient too many, too few
        for k in (0, 1, 3):
            s.op("batch", cts=[c, c2], ek=ek, coef=[1] * k)
        s.verc(c, ek, next(fi))
        s.op("batch", cts=[c, c2], ek=ek)
    return s.p

# ------------------------------------------------------------------------------------------------
# C14: export and import in the middle of the protocol
# ------------------------------------------------------------------------------------------------
ENCS = ("c", "u", "json", "bin")


def wire_srs(rnd, b, enc, slots=2):
    """The proving key, and keys built on it."""
    s = Sess(rnd, "bls", b, "opaque", nsrs=1, setup=True, tag="wire_srs")
    s.op("wire", kind="srs", name="0", enc=enc, damage=True, slots=slots)
    s.op("wire", kind="ek", name="A0", enc=enc)
    for kd in ("mix", "max"):
        c = s.enc("A0", s.vec(kd))
        p = s.op("prove", ct=c, ek="A0", out=s.name("p"))
        s.op("verp", ct=c, proof=p, ek="A0", via="both")
        s.op("wire", kind="ct", name=c, enc=enc)
        s.op("verp", ct=c, proof=p, ek="A0", via="prep")
    return s.p


def wire(rnd, engine, b, mode="full", encs=ENCS, damage=False, srs=False, slots=4):
    s = Sess(rnd, engine, b, mode, nsrs=1 if srs else 0, setup=srs, tag="wire")
    ei = itertools.cycle(encs)

    def w(kind, name):
        s.op("wire", kind=kind, name=name, enc=next(ei), damage=damage, slots=slots)

    for e in encs:
        s.op("wire", kind="gens", name="", enc=e, damage=damage, slots=slots)
    if srs:
        for e in encs:
            s.op("wire", kind="srs", name="0", enc=e, damage=damage, slots=slots)
    a = "A0" if srs else s.auth()
    for e in encs:
        for kind in ("ek", "dk", "sk"):
            s.op("wire", kind=kind, name=a, enc=e, damage=damage, slots=slots)
    ps = s.parties(2)
    for e in encs:
        for p in ps:
            s.op("wire", kind="party", name=p, enc=e, damage=damage)
            s.op("wire", kind="pek", name=p, enc=e, damage=damage, slots=slots)
    k = s.op("comb", of=ps, out=s.name("K"))
    for e in encs:
        s.op("wire", kind="cek", name=k, enc=e, damage=damage, slots=slots)
    q = [s.op("p1", cek=k, party=p, out=s.name("q")) for p in ps]
    for e in encs:
        s.op("wire", kind="p1", name=q[0], enc=e, damage=damage, slots=slots)
    qq = s.op("p1c", of=q, out=s.name("q"))
    w("p1", qq)
    g = s.op("final", cek=k, p1=qq, out=s.name("G"))
    d = s.dest()
    for e in encs:
        s.op("wire", kind="ek", name=g, enc=e, damage=damage, slots=slots)
        s.op("wire", kind="destpk", name=d, enc=e, damage=damage, slots=slots)
        s.op("wire", kind="destsk", name=d, enc=e, damage=damage)
    for ek in (a, g):
        c = s.enc(ek, s.vec("mix"))
        z = s.enc(ek, s.vec("zero"))
        # identity elements inside
        t = s.tamper(c, "zero", i=1)
        t0 = s.tamper(c, "zero", i=0)
        for x in (c, z, t, t0):
            for e in (encs if x == c else [next(ei)]):
                s.op("wire", kind="ct", name=x, enc=e, damage=damage, slots=slots)
        s.verc(c, ek, "prep")
        s.verc(z, ek, "method")
        s.verc(t, ek, "free")
        if ek == a:
            if b <= 8:
                s.dec(c, a, "chunks-prep")
        else:
            s.reenc(c, d, ps)
        if srs:
            p = s.op("prove", ct=c, ek=ek, out=s.name("p"))
            s.op("verp", ct=c, proof=p, ek=ek, via="both")
    return s.p


# ------------------------------------------------------------------------------------------------
# C13: freshness
# ------------------------------------------------------------------------------------------------
def fresh(rnd, b, k=2, nsrs=1, engine="bls", mode="opaque"):
    s = Sess(rnd, engine, b, mode, nsrs=nsrs, ids=True, tag="fresh")
    a, a2 = s.auth(), s.auth()
    ps = s.parties(k)
    g = s.group(ps)
    d, e = s.dest(), s.dest()
    prs = []
    for ek in (a, g):
        for kd in ("zero", "zero", "one", "one", "max", "mix", "mix"):
            m = s.vec(kd)
            c = s.enc(ek, m)
            if kd == "one":
                c2 = s.enc(ek, m)
            if nsrs and kd in ("zero", "one"):
                prs.append(s.op("prove", ct=c, ek=ek, out=s.name("p")))
                prs.append(s.op("prove", ct=c, ek=ek, out=s.name("p")))
        if engine == "bls":
            for via in ("msg", "msg") + (("vk", "vk", "proof", "proof") if nsrs else ()):
                s.encmsg(ek, be(0), via)
                s.encmsg(ek, be(R - 1), via)
    for _ in range(2):
        for p in ps:
            s.share(c, d, p)
            s.share(c, e, p)
            s.share(c2, d, p)
    if nsrs:
        for x, y in zip(prs[0::2], prs[1::2]):
            s.op("prel", a=x, b=y)
    for what in ("enc", "auth", "party", "dest", "share") + (("prove", "srs") if nsrs else ()):
        s.op("det", what=what, ek=a, ct=c, dest=d, party=ps[0])
    return s.p


# ------------------------------------------------------------------------------------------------
# Functions outside sessions
# ------------------------------------------------------------------------------------------------
Q381 = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab


def fn_chunks(rnd, field="fr", part="dec", bits=(4, 8, 16), nrand=30, every=1):
    mod, l = (R, 32) if field == "fr" else (Q381, 48)
    it = []

    def dec(b, x, raw=None):
        it.append({"op": "dec", "field": field, "b": b, "x": raw if raw is not None else list(x.to_bytes(l, "big"))})

    def comp(b, c):
        it.append({"op": "comp", "field": field, "b": b, "c": list(c)})

    if part == "count":
        for b in range(1, 256):
            it.append({"op": "count", "field": field, "b": b})
        for b in range(0, 256):
            if b not in (4, 8, 16):
                dec(b, rnd.randrange(mod))
                comp(b, [rnd.randrange(2) for _ in range(rnd.choice([0, 1, 2, 64]))])
    if part == "dec":
        for b in bits:
            xs = [0, 1, mod - 1, mod - 2, mod >> 1, (mod >> 1) + 1]
            xs += [2 ** k % mod for k in range(0, mod.bit_length(), every)]
            xs += [(2 ** k - 1) % mod for k in range(0, mod.bit_length(), every)]
            xs += [(mod - 2 ** k) % mod for k in range(0, mod.bit_length(), 3 * every)]
            xs += [0x0f << (8 * k) for k in range(l - 1)] + [0xf0 << (8 * k) for k in range(l - 1)]
            xs += [0xff00 << (16 * k) for k in range(l // 2 - 1)] + [rnd.randrange(mod) for _ in range(nrand)]
            xs += [rnd.randrange(1 << (8 * k)) for k in range(1, l)]
            for x in xs:
                dec(b, x)
            for ln in (0, 1, 5, l - 1, l, l + 1, 2 * l):
                dec(b, 0, [rnd.randrange(256) for _ in range(ln)])
                dec(b, 0, [255] * ln)
    if part == "comp":
        for b in bits:
            mx = 2 ** b - 1
            full = 8 * l // b
            for ln in sorted(set(list(range(0, 10)) + [full - 2, full - 1, full, full + 1, full + 2, 2 * full])):
                comp(b, [rnd.randrange(mx + 1) for _ in range(ln)])
                comp(b, [mx] * ln)
                comp(b, [0] * ln)
                if ln:
                    comp(b, [1 if k == ln - 1 else 0 for k in range(ln)])
                    comp(b, [mx if k == 0 else 0 for k in range(ln)])
            for pos in range(full):
                c = [0] * full
                c[pos] = mx
                comp(b, c)
                if b < 16:
                    for v in rnd.sample([mx + 1, 2 * mx + 1, 2 * mx + 2, 256, 65535, 32768, 4096, 511], 2):
                        if v > mx:
                            c[pos] = v
                            comp(b, c)
                            comp(b, c[pos:] if (full - pos) % 2 == 0 or b != 4 else c)
            for _ in range(nrand):
                ln = rnd.randrange(0, full + 3)
                comp(b, [rnd.choice([0, mx, rnd.randrange(mx + 1), min(65535, mx + 1)] if b < 16 else [0, mx, rnd.randrange(mx + 1)])
                         for _ in range(ln)])
    return {"kind": "chunks", "tag": "chunks " + part, "items": it}


def fn_comm(rnd, engine, group="g1", gens="rng", bits=(4, 8, 16), nmsg=4):
    it = [{"op": "ck", "b": b} for b in range(1, 17)]
    if engine == "bls":
        for b in bits:
            ms = messages(rnd, nmsg)
            bl = [be(0), be(R - 1), be(1)] + [be(rnd.randrange(R)) for _ in range(nmsg)]
            for i, m in enumerate(ms):
                it.append({"op": "commit", "b": b, "msg": m, "bl": bl[(i + b) % len(bl)]})
            it.append({"op": "commit", "b": b, "msg": be(0), "bl": be(0)})
        for b in rnd.sample([1, 2, 3, 5, 6, 7, 9, 10, 12, 15], 4):
            it.append({"op": "commit", "b": b, "msg": be(5), "bl": be(7)})
    return {"kind": "comm", "tag": "comm", "engine": engine, "group": group, "gens": gens, "seed": rnd.randrange(1 << 40), "items": it}


def fn_gens(rnd, nlab=12, digests=("blake2b", "blake2s"), fresh=3):
    fixed = [[], [0], [0, 0], list(b" : G"), list(b" : H"), list(b"x"), list(b"x : G"), list(b"x : H"), [1, 2, 3], [1, 2], [255] * 64,
             [97] * 129, [97] * 128, [97] * 65, [97] * 64 + [98], [97] * 63 + [98, 97], [97] * 256 + [1], [97] * 256 + [2],
             list(b"x "), list(b"x\n"), list(b" x"), list(b"X"), [120, 0], [0, 120], list(b"-attempt-"), list(b"a-attempt-\x01\0\0\0\0\0\0\0")]
    labs = fixed[:nlab] if nlab < len(fixed) else fixed + [[rnd.randrange(256) for _ in range(rnd.randrange(1, 200))] for _ in range(nlab - len(fixed))]
    again = rnd.sample(labs, min(5, len(labs)))
    return {"kind": "gens", "tag": "gens", "labels": labs + again, "digests": list(digests), "fresh": fresh, "seed": rnd.randrange(1 << 40)}


def fn_window(rnd, engine, n=6):
    it = []
    q = ORDER.get(engine)
    for k in range(n):
        g = rnd.choice([0, 1, -1, 3, q - 1 if q else 7])
        es = [0, 1, 2, -1, (q - 1) if q else 1000, (q // 2) if q else 4000] + [rnd.randrange(q) if q else rnd.randrange(1000) for _ in range(6)]
        if not q:
            es += [-rnd.randrange(1000) for _ in range(3)]
        rnd.shuffle(es)
        it.append({"g": g, "es": es[:rnd.choice([0, 1, 5, 12])], "num": rnd.choice([1, 5, 40, 1000])})
    return {"kind": "window", "tag": "window", "engine": engine, "seed": rnd.randrange(1 << 40), "items": it}


def fn_cwire(rnd, b):
    return {"kind": "cwire", "tag": "cwire", "b": b, "seed": rnd.randrange(1 << 40)}


# ------------------------------------------------------------------------------------------------
# C08: the range circuit
# ------------------------------------------------------------------------------------------------
def range_mats(engine, items):
    return {"kind": "r1cs", "tag": "r1cs " + engine, "engine": engine,
            "items": [{"op": "mat", "b": b, "nv": nv, "public": pub} for b, nv, pub in items]}


def range_probes(rnd, engine, b, n=None, count=30, flips=2, public=True, powers=True):
    """Values around the bound, at every position, alone and together with in-range ones."""
    q = ORDER.get(engine, R)
    lim = min(2 ** b, q)
    nn = n if n is not None else count_of(engine, b)
    cand = [0, 1, lim - 1, lim, lim + 1, q - 1, q - 2, (q - 1) // 2, (q + 1) // 2, 2 * lim - 1, 2 * lim, 65535, 65536, q - lim]
    if powers:
        cand += [2 ** k for k in range(b, BITS[engine])] + [2 ** k + 1 for k in range(b, BITS[engine], 7)]
    cand = [c % q for c in cand] + [rnd.randrange(q) for _ in range(8)]
    items = []
    fl = 0

    def enc(x):
        return x if x < 2 ** 31 else be(x)

    for k in range(count):
        v = [rnd.choice([0, lim - 1, rnd.randrange(lim)]) for _ in range(nn)]
        x = cand[k % len(cand)]
        if nn:
            v[k % nn if k % 3 else rnd.randrange(nn)] = x
        it = {"op": "probe", "b": b, "nv": n, "vals": [enc(y) for y in v], "public": public}
        if x >= lim and fl < flips:
            it["flip"] = True
            fl += 1
        items.append(it)
    # every position
    for p in range(nn if nn <= 64 else 0):
        v = [lim - 1] * nn
        if lim < q:
            v[p] = lim
        items.append({"op": "probe", "b": b, "nv": n, "vals": [enc(y) for y in v], "public": public})
    items.append({"op": "probe", "b": b, "nv": n, "vals": [enc(lim - 1)] * nn, "public": public})
    return {"kind": "r1cs", "tag": "r1cs probe " + engine, "engine": engine, "items": items}


def count_of(engine, b):
    return count(engine, b)


# ------------------------------------------------------------------------------------------------
# C17: what an outsider can compare
# ------------------------------------------------------------------------------------------------
def secrecy(rnd, b, k=2, npos=3, what="all", full=True, mode="opaque", pairs=True, kmax=2, pairing=2):
    """One protocol run with small and equal plaintexts, and every relation an outsider can find in it."""
    s = Sess(rnd, "bls", b, mode, tag="secrecy " + what)
    n = s.n
    pos = sorted(rnd.sample(range(1, n + 1), min(npos, n)))
    s.vmax = min(s.max, kmax)
    ps = s.parties(k)
    g = s.group(ps)
    d = s.dest()

    def m():
        return [rnd.randrange(s.vmax + 1) for _ in range(n)]
    m1 = m()
    c1, c2, c3 = s.enc(g, m1), s.enc(g, m1), s.enc(g, [0] * n)
    if what in ("all", "keys"):
        a = s.auth()
        c4 = s.enc(a, m1)
        c5 = s.enc(a, m1)
    if what in ("all", "sums"):
        s.add(c1, c2)
        s.add(c1, c1)
        s.add(c1, c3)
    if what in ("all", "shares"):
        sh = [s.share(c1, d, p) for p in (ps if full else ps[:-1])]
        s.share(c1, d, ps[0])
        s.share(c2, d, ps[0])
        if len(sh) > 1:
            w = s.tree(sh)
        else:
            w = sh[0]
        s.apply(c1, w)
    s.op("rel", pos=pos, k=kmax, pairs=pairs)
    if pairing:
        s.op("rel", pos=pos[:pairing], k=kmax, pairing=True)
    return s.p
