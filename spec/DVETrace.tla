------------------------------ MODULE DVETrace ------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real code against DVE.          *)
(*                                                                          *)
(* Trace is a sequence of events, one per public operation.  Every event is *)
(* consumed by the corresponding action of DVE with the value the code      *)
(* produced (exact sessions) or with the value the specification computes   *)
(* (opaque sessions, where exponents of the production curve cannot be      *)
(* read), and the set of properties it contradicts is computed: bad.        *)
(***************************************************************************)
EXTENDS Secrecy, Faults, Chunks, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.DVE_TRACE)

VARIABLES l,      \* next event
          fresh,  \* identities of random values seen in this session
          bad     \* labels "Cxx:what" of the properties the last event contradicts
tvars == <<dvars, l, fresh, bad>>

Fail(cond, labels) == IF cond THEN {} ELSE labels
Exact == sys.exact
V(x) == N(x)
Val(logged, computed) == IF Exact THEN logged ELSE computed

\* logged composite values
EKof(v) == [X0 |-> V(v.X0), X |-> Ns(v.X), Y |-> Ns(v.Y), Z |-> Ns(v.Z), P1 |-> V(v.P1), P2 |-> V(v.P2)]
PEKof(v) == [X0 |-> V(v.X0), X |-> Ns(v.X), Y |-> Ns(v.Y), Z |-> Ns(v.Z), P2 |-> V(v.P2)]
DKof(v) == [V0 |-> V(v.V0), V1 |-> Ns(v.V1), V2 |-> Ns(v.V2)]
CTof(v) == [c0 |-> V(v.c0), c |-> Ns(v.c), psi |-> V(v.psi)]
SHof(v) == [w |-> Ns(v.w), gr |-> V(v.gr)]
RCof(v) == [c0 |-> V(v.c0), c |-> Ns(v.c)]
PRof(v) == [a |-> V(v.a), b |-> V(v.b), c |-> V(v.c)]

ShapeEK(v)  == Len(v.X) = sys.n /\ Len(v.Y) = sys.n /\ Len(v.Z) = sys.n + 1

(***************************************************************************)
(* Session start                                                            *)
(***************************************************************************)
ModBits == [q13 |-> 4, q257 |-> 9, q40961 |-> 16, bls |-> 255]
Mods(q) == IF q = 0 THEN <<46337, 46327, 46309>> ELSE <<q>>

SessSys(e) ==
    LET m     == Mods(e.q)
        R(x)  == [k \in DOMAIN m |-> x % m[k]]
        Rs(s) == [i \in DOMAIN s |-> R(s[i])]
        mul(a, b) == [k \in DOMAIN m |-> (a[k] * b[k]) % m[k]]
        inv(a) == [k \in DOMAIN m |-> PowMod(a[k], m[k] - 2, m[k])]
        neg(a) == [k \in DOMAIN m |-> (0 - a[k]) % m[k]]
        G == R(e.par.G)  H == R(e.par.H)
        srs(i) == LET s == e.srs[i] IN
            [ alpha |-> R(s.alpha), beta |-> R(s.beta), gamma |-> R(s.gamma), delta |-> R(s.delta),
              g0 |-> R(s.g0), g |-> Rs(s.g),
              D |-> IF e.exact THEN R(s.D) ELSE mul(G, mul(R(s.delta), inv(H))),
              C |-> IF e.exact THEN R(s.C) ELSE neg(mul(G, mul(R(s.gamma), inv(H)))) ]
        has == Len(e.srs) > 0
    IN  [ mods |-> m, q |-> e.q, id |-> e.id, engine |-> e.engine, exact |-> e.exact, ids |-> e.ids,
          n |-> e.n, b |-> e.b, G |-> G, H |-> H,
          D |-> IF has THEN srs(1).D ELSE R(e.par.D),
          C |-> IF has THEN srs(1).C ELSE R(e.par.C),
          g |-> IF has THEN srs(1).g ELSE Rs(e.par.g),
          srs |-> [i \in DOMAIN e.srs |-> srs(i)] ]

\* the parameters of the SNARK share one trapdoor with the encryption keys
SrsFails(e) ==
    UNION { LET s == e.srs[i]  t == sys'.srs[i] IN
            Fail(s.okC /\ s.okD /\ s.okB, {"C15:srs.trapdoor", "C07:srs.trapdoor"})
            \cup Fail(s.nz, {"C15:srs.zero"})
            \cup Fail(s.ng = sys'.n, {"C15:srs.count"})
            \cup Fail(s.gs, {"C15:srs.gens", "C07:srs.gens"})
          : i \in DOMAIN e.srs }

Session(e) ==
    /\ sys' = SessSys(e)
    /\ heap' = EmptyHeap
    /\ fresh' = {}
    /\ bad' = Fail(e.n = Ceil(ModBits[e.engine], e.b), {"C10:chunks_count", "C01:chunks_count"})
              \cup Fail("setup" \notin DOMAIN e, {"C15:setup", "C01:setup", "C07:setup"})
              \cup SrsFails(e)

(***************************************************************************)
(* Randomness                                                               *)
(***************************************************************************)
\* ids of values drawn by one operation: all new, none zero, all different
Fresh(ids, what) ==
    IF ~sys.ids THEN {}
    ELSE Fail(/\ \A i \in DOMAIN ids : ids[i] # 0 /\ ids[i] \notin fresh
              /\ Distinct(ids), {"C13:" \o what})
AddFresh(ids) == fresh' = IF sys.ids THEN fresh \cup Range(ids) ELSE fresh
Skip == UNCHANGED <<dvars, fresh>> /\ bad' = {}
\* an operation that should have worked
NotOk(e, labels) == UNCHANGED <<dvars, fresh>> /\ bad' = labels

(***************************************************************************)
(* Key generation                                                           *)
(***************************************************************************)
AuthEv(e) ==
    IF e.res # "ok" THEN NotOk(e, {"C01:keygen.fails"})
    ELSE IF ~(ShapeEK(e.ek) /\ Len(e.dk.V1) = sys.n /\ Len(e.dk.V2) = sys.n)
    THEN NotOk(e, {"C01:keygen.shape", "C12:keygen.shape"})
    ELSE
    LET rho == V(e.sk)
        lek == EKof(e.ek)
        ldk == DKof(e.dk)
        s   == IF Exact THEN [i \in 1..sys.n |-> lek.X[i] // sys.D] ELSE Ns(e.sec.s)
        t   == IF Exact THEN [i \in 1..(sys.n + 1) |-> lek.Z[i] // sys.H] ELSE Ns(e.sec.t)
        rz  == ~Invertible(rho)
        v   == IF Exact THEN [i \in 1..sys.n |-> IF rz THEN Zero ELSE ldk.V2[i] // (sys.H ** rho)]
                        ELSE Ns(e.sec.v)
        ek  == SingleEK(s, t)
        dk  == DecKey(rho, s, v)
    IN  /\ DoAuth(e.out, rho, s, Val(lek, ek), Val(ldk, dk))
        /\ AddFresh(e.ids)
        /\ bad' = Fail(e.count[1] = sys.n /\ e.count[2] = sys.n, {"C01:keygen.count", "C12:keygen.count"})
                  \cup Fail(e.prep, {"C06:keygen.prepared", "C01:keygen.prepared"})
                  \cup Fresh(e.ids, "keygen")
                  \cup IF ~Exact THEN {} ELSE
                       Fail(lek.X0 = ek.X0, {"C01:keygen.X0"})
                       \cup Fail(lek.Y = ek.Y /\ lek.P1 = ek.P1, {"C06:keygen.YP1", "C02:single.YP1"})
                       \cup Fail(lek.P2 = ek.P2, {"C07:keygen.P2", "C02:single.P2"})
                       \cup Fail(Ns(e.ck) = CommitmentKey(ek), {"C06:keygen.commitment_key"})
                       \cup Fail(ldk.V0 = dk.V0 /\ (rz \/ ldk = dk), {"C01:keygen.dk"})

PartyEv(e) ==
    IF e.res # "ok" THEN NotOk(e, {"C02:partial.fails"})
    ELSE IF ~(ShapeEK(e.pek) /\ Len(e.sk.s) = sys.n /\ Len(e.sk.t) = sys.n + 1)
    THEN NotOk(e, {"C02:partial.shape", "C12:partial.shape"})
    ELSE
    LET s == Ns(e.sk.s)
        t == Ns(e.sk.t)
        k == PartialEK(s, t)
    IN  /\ DoParty(e.out, s, t, Val(PEKof(e.pek), k))
        /\ AddFresh(e.ids)
        /\ bad' = Fresh(e.ids, "partial")
                  \cup Fail(~Exact \/ PEKof(e.pek) = k, {"C02:partial"})

CombEv(e) ==
    IF ~(\A i \in DOMAIN e.of : Has("party", e.of[i])) THEN Skip
    ELSE IF e.res # "ok" THEN NotOk(e, {"C02:combine.fails"})
    ELSE IF ~ShapeEK(e.val) THEN NotOk(e, {"C02:combine.shape", "C12:combine.shape"})
    ELSE
    LET k == CombineEK([i \in DOMAIN e.of |-> heap.party[e.of[i]].val])
        same == {c \in DOMAIN heap.cek : SameBag(heap.cek[c].parties, e.of)}
    IN  /\ heap' = [heap EXCEPT !.cek = (e.out :> [val |-> Val(PEKof(e.val), k), parties |-> e.of, id |-> e.id]) @@ @]
        /\ UNCHANGED <<sys, fresh>>
        /\ bad' = Fail(~Exact \/ PEKof(e.val) = k, {"C02:combine"})
                  \cup Fail(\A c \in same : heap.cek[c].id = e.id, {"C02:combine.order"})

P1Ev(e) ==
    IF ~(Has("cek", e.cek) /\ Has("party", e.party)) THEN Skip
    ELSE IF e.res # "ok" THEN NotOk(e, {"C02:p1.fails"})
    ELSE
    LET x == P1Share(heap.cek[e.cek].val, heap.party[e.party].t)
    IN  /\ DoP1(e.out, e.cek, e.party, Val(V(e.val), x))
        /\ UNCHANGED fresh
        /\ bad' = Fail(~Exact \/ V(e.val) = x, {"C02:p1"})

P1cEv(e) ==
    IF ~(\A i \in DOMAIN e.of : Has("p1", e.of[i])) THEN Skip
    ELSE IF e.res # "ok" THEN NotOk(e, {"C02:p1c.fails"})
    ELSE
    LET x == Sum([i \in DOMAIN e.of |-> heap.p1[e.of[i]].val])
    IN  /\ DoP1c(e.out, e.of, Val(V(e.val), x))
        /\ UNCHANGED fresh
        /\ bad' = Fail(~Exact \/ V(e.val) = x, {"C02:p1c"})

FinalEv(e) ==
    IF ~(Has("cek", e.cek) /\ Has("p1", e.p1)) THEN Skip
    ELSE IF e.res # "ok" THEN NotOk(e, {"C02:final.fails"})
    ELSE IF ~ShapeEK(e.val) THEN NotOk(e, {"C02:final.shape", "C12:final.shape"})
    ELSE
    LET k  == FinalEK(heap.cek[e.cek].val, heap.p1[e.p1].val)
        lv == EKof(e.val)
        ps == heap.cek[e.cek].parties
        sound == /\ heap.p1[e.p1].pure /\ heap.p1[e.p1].cek = e.cek
                 /\ SameBag(heap.p1[e.p1].parties, ps) /\ Distinct(ps)
        \* the key a single authority would have generated from the summed secrets
        single == SingleEK(SumV([i \in DOMAIN ps |-> heap.party[ps[i]].s]),
                           SumV([i \in DOMAIN ps |-> heap.party[ps[i]].t]))
        same == {c \in DOMAIN heap.ek : heap.ek[c].kind = "group" /\ heap.ek[c].sound /\ SameBag(heap.ek[c].parties, ps)}
    IN  /\ heap' = [heap EXCEPT !.ek = (e.out :>
               [val |-> Val(lv, k), kind |-> "group", owner |-> e.cek, parties |-> ps, sound |-> sound, id |-> e.id]) @@ @]
        /\ UNCHANGED <<sys, fresh>>
        /\ bad' = Fail(~Exact \/ lv = k, {"C02:final"})
                  \cup Fail(~Exact \/ ~sound \/ lv = single, {"C02:final.sum"})
                  \cup Fail(~sound \/ \A c \in same : heap.ek[c].id = e.id, {"C02:final.order"})
                  \cup Fail(e.count = sys.n, {"C02:final.count", "C12:final.count"})
                  \cup Fail(~Exact \/ Ns(e.ck) = CommitmentKey(lv), {"C02:final.ck", "C06:final.ck"})

DestEv(e) ==
    IF e.res # "ok" THEN NotOk(e, {"C03:dest.fails"})
    ELSE LET sk == V(e.sk)  pk == sys.G ** sk IN
        /\ DoDest(e.out, sk, Val(V(e.pk), pk))
        /\ AddFresh(e.ids)
        /\ bad' = Fresh(e.ids, "dest")
                  \cup Fail(e.okpk /\ (~Exact \/ V(e.pk) = pk), {"C03:dest.pk"})

(***************************************************************************)
(* Encryption, addition, alteration                                         *)
(***************************************************************************)
MsgChunks(e) == IF e.via = "chunks" THEN e.m ELSE Decompose(ModR(e.msg), sys.b)

EncEv(e) ==
    IF ~Has("ek", e.ek) THEN Skip
    ELSE IF e.res # "ok" THEN NotOk(e, {"C01:encrypt.fails"})
    ELSE IF e.nc # sys.n THEN NotOk(e, {"C01:encrypt.shape", "C12:encrypt.shape"})
    ELSE
    LET m  == MsgChunks(e)
        r  == V(e.r)
        ek == heap.ek[e.ek].val
        cv == EncVal(ek, m, r)
        lv == CTof(e.val)
        withProof == e.via = "proof"
        a  == V(IF withProof THEN e.pval.a ELSE 0)
        b  == V(IF withProof THEN e.pval.b ELSE 0)
        srs == IF withProof THEN sys.srs[1] ELSE [none |-> 0]
        pc == IF withProof THEN ProofC(srs, ek, m, r, a, b) ELSE Zero
        pids == IF withProof THEN e.pids ELSE <<>>
        ids == <<e.rid>> \o <<e.ids[1]>> \o pids
    IN  /\ heap' = [heap EXCEPT
              !.ct = (e.out :> [val |-> Val(lv, cv), ek |-> e.ek, m |-> m, r |-> r, pure |-> TRUE, of |-> <<e.out>>]) @@ @,
              !.proof = IF withProof
                        THEN (e.pout :> [val |-> Val(PRof(e.pval), [a |-> a, b |-> b, c |-> pc]),
                                         srs |-> 0, ek |-> e.ek, m |-> m, r |-> r]) @@ @
                        ELSE @]
        /\ UNCHANGED sys
        /\ AddFresh(ids)
        /\ bad' = Fresh(ids, "encrypt")
                  \cup Fail(e.opens, {"C13:encrypt.opens", "C01:encrypt.opens"})
                  \cup IF ~Exact THEN {} ELSE
                       Fail(lv.c0 = cv.c0 /\ lv.c = cv.c, {"C01:encrypt.value", "C13:encrypt.value"})
                       \cup Fail(lv.psi = cv.psi, {"C06:encrypt.psi", "C13:encrypt.psi"})
                       \cup Fail(~withProof \/ V(e.pval.c) = pc, {"C07:encrypt.proof"})

AddEv(e) ==
    IF ~(Has("ct", e.a) /\ Has("ct", e.b)) THEN Skip
    ELSE
    LET x == heap.ct[e.a].val  y == heap.ct[e.b].val
        fits == Len(x.c) = Len(y.c)
    IN  IF ~fits THEN
            /\ UNCHANGED <<dvars, fresh>>
            /\ bad' = Fail(e.res = "err", {"C12:add"})
        ELSE IF e.res # "ok" THEN NotOk(e, {"C05:add.fails"})
        ELSE IF e.len # Len(x.c) + 2 THEN NotOk(e, {"C05:add.shape", "C12:add.shape"})
        ELSE LET v == AddCt(x, y)  lv == CTof(e.val) IN
            /\ DoAdd(e.out, e.a, e.b, Val(lv, v))
            /\ UNCHANGED fresh
            /\ bad' = Fail(~Exact \/ lv = v, {"C05:add"})

TamperEv(e) ==
    IF ~Has("ct", e.ct) \/ ("other" \in DOMAIN e /\ ~Has("ct", e.other))
       \/ ("ek" \in DOMAIN e /\ ~Has("ek", e.ek)) THEN Skip
    ELSE LET oth == IF "other" \in DOMAIN e THEN heap.ct[e.other].val ELSE heap.ct[e.ct].val IN
        /\ DoTamper(e.out, e.ct, IF Exact THEN CTof(e.val) ELSE TamperVal(e, heap.ct[e.ct].val, oth))
        /\ UNCHANGED fresh
        /\ bad' = {}

CraftEv(e) ==
    IF ~Has("ek", e.ek) THEN Skip
    ELSE LET r == V(e.r) IN
        /\ DoCraft(e.out, e.ek, e.x, r, IF Exact THEN CTof(e.val) ELSE EncVal(heap.ek[e.ek].val, e.x, r))
        /\ UNCHANGED fresh
        /\ bad' = {}

(***************************************************************************)
(* Re-encryption                                                            *)
(***************************************************************************)
ShareEv(e) ==
    IF ~(Has("ct", e.ct) /\ Has("dest", e.dest) /\ Has("party", e.party)) THEN Skip
    ELSE
    LET ct == heap.ct[e.ct].val
        p  == heap.party[e.party]
        fits == Len(ct.c) = Len(p.s)
    IN  IF ~fits THEN UNCHANGED <<dvars, fresh>> /\ bad' = Fail(e.res = "err", {"C12:share"})
        ELSE IF e.res # "ok" THEN NotOk(e, {"C03:share.fails"})
        ELSE IF e.len # Len(ct.c) THEN NotOk(e, {"C03:share.shape", "C12:share.shape"})
        ELSE
        LET lv  == SHof(e.val)
            rho == IF Exact THEN lv.gr // sys.G ELSE V(e.rho)
            v   == ShareVal(ct, heap.dest[e.dest].pk, p.s, rho)
        IN  /\ DoShare(e.out, e.ct, e.dest, e.party, rho, Val(lv, v))
            /\ AddFresh(<<e.grid>>)
            /\ bad' = Fresh(<<e.grid>>, "share")
                      \cup Fail(~Exact \/ lv = v, {"C03:share"})

CShareEv(e) ==
    IF ~(Has("share", e.a) /\ Has("share", e.b)) THEN Skip
    ELSE
    LET x == heap.share[e.a].val  y == heap.share[e.b].val
        fits == Len(x.w) = Len(y.w)
    IN  IF ~fits THEN UNCHANGED <<dvars, fresh>> /\ bad' = Fail(e.res = "err", {"C12:cshare"})
        ELSE IF e.res # "ok" THEN NotOk(e, {"C03:cshare.fails"})
        ELSE IF e.len # Len(x.w) THEN NotOk(e, {"C03:cshare.shape", "C12:cshare.shape"})
        ELSE LET v == AddShare(x, y)  lv == SHof(e.val) IN
            /\ DoCShare(e.out, e.a, e.b, Val(lv, v))
            /\ UNCHANGED fresh
            /\ bad' = Fail(~Exact \/ lv = v, {"C03:cshare"})

ApplyEv(e) ==
    IF ~(Has("ct", e.ct) /\ Has("share", e.share)) THEN Skip
    ELSE
    LET ct == heap.ct[e.ct].val  sh == heap.share[e.share].val
        fits == Len(ct.c) = Len(sh.w)
    IN  IF ~fits THEN UNCHANGED <<dvars, fresh>> /\ bad' = Fail(e.res = "err", {"C12:apply"})
        ELSE IF e.res # "ok" THEN NotOk(e, {"C03:apply.fails"})
        ELSE IF e.len # Len(ct.c) + 1 THEN NotOk(e, {"C03:apply.shape", "C12:apply.shape"})
        ELSE LET v == ApplyVal(ct, sh)  lv == RCof(e.val) IN
            /\ DoApply(e.out, e.ct, e.share, Val(lv, v))
            /\ UNCHANGED fresh
            /\ bad' = Fail(~Exact \/ lv = v, {"C03:apply"})

(***************************************************************************)
(* Decryption                                                               *)
(***************************************************************************)
\* outcome against the ideal plaintext m (honest history): rest_i = base_i * m_i
IdealRest(m, base) == [i \in DOMAIN base |-> N(m[i]) ** base[i]]
\* labels for a chunk-level outcome; tgood when it should have worked, tbad when it should have failed
Outcome(res, val, rest, base, max, tgood, tbad) ==
    IF Decodable(rest, base, max)
    THEN Fail(res = "ok", tgood) \cup (IF res = "ok" THEN Fail(ValOK(val, rest, base, max), tgood) ELSE {})
    ELSE Fail(res = "err", IF res = "ok" THEN tbad ELSE tbad \cup {"C16:dec.panic"})

DecDEv(e) ==
    IF ~(Has("rct", e.ct) /\ Has("dest", e.dest)) THEN Skip
    ELSE
    LET r    == heap.rct[e.ct]
        c    == heap.ct[r.ct]
        max  == RangeMax(e.bits)
        rest == RestDest(r.val, heap.dest[e.dest].sk)
        base == BaseDest(r.val)
        val  == IF e.res = "ok" THEN e.val ELSE <<>>
        full == FullQuorum(e.ct, e.dest)
        sumtag(x) == IF Len(c.of) > 1 THEN {x} ELSE {}
    IN  /\ UNCHANGED <<dvars, fresh>>
        /\ bad' = Outcome(e.res, val, rest, base, max,
                          {"C16:decd"} \cup (IF full THEN {"C03:decd"} \cup sumtag("C05:decd") ELSE {"C04:decd"}),
                          {"C16:decd.range"} \cup (IF full THEN sumtag("C05:decd.range") ELSE {"C04:decd.leak"}))
                  \cup (IF full
                        THEN Outcome(e.res, val, IdealRest(c.m, base), base, max,
                                     {"C03:decd.plain"} \cup sumtag("C05:decd.plain"),
                                     {"C16:decd.plain.range"} \cup sumtag("C05:decd.plain.range"))
                        ELSE {})

MsgVia(v) == v \notin {"chunks", "chunks-prep", "chunks-pow", "chunks-pow-prep"}

DecEv(e) ==
    IF ~(Has("ct", e.ct) /\ Has("auth", e.sk) /\ Has("auth", e.dk)) THEN Skip
    ELSE
    LET c    == heap.ct[e.ct]
        dk   == heap.auth[e.dk].dk
        rho  == heap.auth[e.sk].rho
        max  == IF "powlen" \in DOMAIN e THEN Min2(RangeMax(e.bits), RangeMax(e.pbits)) ELSE RangeMax(e.bits)
        fits == Len(c.val.c) = Len(dk.V1)
        match == c.pure /\ heap.ek[c.ek].kind = "single" /\ c.ek = e.sk /\ c.ek = e.dk
        powOK == "powlen" \notin DOMAIN e
                 \/ /\ e.powstep
                    /\ \A i \in DOMAIN e.powlen : e.powlen[i] = RangeMax(e.pbits)
                    /\ Len(e.powlen) = Len(dk.V1)
                    /\ ("pow" \notin DOMAIN e
                        \/ \A i \in DOMAIN e.pow : \A j \in DOMAIN e.pow[i] :
                              V(e.pow[i][j]) = N(j) ** (sys.g[i] ** dk.V2[i]))
        sumtag(x) == IF Len(c.of) > 1 THEN {x} ELSE {}
        good == {"C16:dec"} \cup (IF match THEN {"C01:dec"} \cup sumtag("C05:dec") ELSE {})
        range == {"C16:dec.range"} \cup (IF match THEN sumtag("C05:dec.range") ELSE {})
    IN  /\ UNCHANGED <<dvars, fresh>>
        /\ bad' =
             IF ~fits THEN Fail(e.res = "err", {"C12:dec"})
             ELSE
             LET rest == RestSingle(c.val, rho, dk)
                 base == BaseSingle(dk)
                 ideal == IdealRest(c.m, base)
                 msg  == MsgVia(e.via)
                 \* message-level results: the unique chunks, composed
                 sols == [i \in DOMAIN rest |-> Solve(rest[i], base[i], max)]
                 uniq == \A i \in DOMAIN sols : Cardinality(sols[i]) = 1
                 ch   == [i \in DOMAIN sols |-> CHOOSE x \in sols[i] : TRUE]
                 canCompose == Composable(ch, e.bits)
                 cb   == ComposeBytes(ch, e.bits)
                 sameMsg == IF sys.q = 0 THEN ModR(cb) = e.bytes
                            ELSE BytesMod(cb, sys.q) = BytesMod(e.bytes, sys.q)
             IN  Fail(powOK, {"C01:dec.powers", "C16:dec.powers"})
                 \cup (IF e.res = "ok"
                       THEN Fail(e.nuok /\ (~Exact \/ V(e.nu) = rho ** c.val.c0), {"C01:dec.nu"})
                       ELSE {})
                 \cup (IF ~msg
                       THEN LET val == IF e.res = "ok" THEN e.val ELSE <<>> IN
                            Outcome(e.res, val, rest, base, max, good, range)
                            \cup (IF match THEN Outcome(e.res, val, ideal, base, max, good, range) ELSE {})
                       ELSE IF Decodable(rest, base, max)
                       THEN (IF ~uniq THEN Fail(e.res \in {"ok", "err"}, {"C16:dec.panic"})
                             ELSE IF canCompose
                             THEN Fail(e.res = "ok", good) \cup (IF e.res = "ok" THEN Fail(sameMsg, good) ELSE {})
                             ELSE Fail(e.res = "err", {"C16:dec.compose", "C10:dec.compose"}))
                       ELSE Fail(e.res = "err", range)
                            \cup (IF match /\ Decodable(ideal, base, max) THEN good ELSE {}))

(***************************************************************************)
(* Verification                                                             *)
(***************************************************************************)
VerCEv(e) ==
    IF ~(Has("ct", e.ct) /\ Has("ek", e.ek)) THEN Skip
    ELSE
    LET c == heap.ct[e.ct]
        k == heap.ek[e.ek]
        fits == Len(c.val.c) = Len(k.val.X)
        ok == CommitOK(c.val, k.val)
        honest == c.pure /\ c.ek = e.ek /\ k.sound
        sumtag == IF Len(c.of) > 1 THEN {"C05:verc.honest"} ELSE {}
    IN  /\ UNCHANGED <<dvars, fresh>>
        /\ bad' = IF ~fits THEN Fail(e.res = "err", {"C12:verc", "C06:verc.length"})
                  ELSE Fail(e.res = (IF ok THEN "ok" ELSE "err"), {"C06:verc"})
                       \cup (IF honest THEN Fail(e.res = "ok", {"C06:verc.honest"} \cup sumtag) ELSE {})

BatchEv(e) ==
    IF ~(\A i \in DOMAIN e.cts : Has("ct", e.cts[i])) \/ ~Has("ek", e.ek) THEN Skip
    ELSE
    LET cts  == [i \in DOMAIN e.cts |-> heap.ct[e.cts[i]].val]
        k    == heap.ek[e.ek].val
        fits == /\ \A i \in DOMAIN cts : Len(cts[i].c) = Len(k.X)
                /\ Len(e.coef) = Len(e.cts)
                /\ Len(e.cts) > 0
        coef == Ns(e.coef)
        each == \A i \in DOMAIN cts : CommitOK(cts[i], k)
    IN  /\ UNCHANGED <<dvars, fresh>>
        /\ bad' = IF ~fits THEN Fail(e.res = "err", {"C12:batch"})
                  ELSE Fail(e.res = (IF BatchOK(cts, coef, k) THEN "ok" ELSE "err"), {"C09:batch"})
                       \cup (IF each THEN Fail(e.res = "ok", {"C09:batch.each"}) ELSE {})
                       \cup (IF ~each /\ e.generic /\ sys.q = 0 THEN Fail(e.res = "err", {"C09:batch.one"}) ELSE {})

(***************************************************************************)
(* Proofs                                                                   *)
(***************************************************************************)
ProveEv(e) ==
    IF ~(Has("ct", e.ct) /\ Has("ek", e.ek)) THEN Skip
    ELSE
    LET c   == heap.ct[e.ct]
        k   == heap.ek[e.ek]
        srs == sys.srs[e.srs + 1]
        sat == Len(e.m) = sys.n /\ InRange(e.m, sys.b)
    IN  IF e.res # "ok"
        THEN UNCHANGED <<dvars, fresh>> /\ bad' = Fail(~sat, {"C07:prove.fails"})
        ELSE
        LET a == V(e.val.a)  b == V(e.val.b)
            x == IF sat THEN ProofC(srs, k.val, e.m, c.r, a, b) ELSE V(e.val.c)
        IN  /\ DoProve(e.out, e.srs, e.ek, e.m, c.r, [a |-> a, b |-> b, c |-> Val(V(e.val.c), x)])
            /\ AddFresh(e.ids)
            /\ bad' = Fresh(e.ids, "prove")
                      \cup Fail(~Exact \/ ~sat \/ V(e.val.c) = x, {"C07:prove"})

TProofEv(e) ==
    IF ~Has("proof", e.proof) \/ ("other" \in DOMAIN e /\ ~Has("proof", e.other)) THEN Skip
    ELSE LET o == IF "other" \in DOMAIN e THEN heap.proof[e.other].val ELSE heap.proof[e.proof].val IN
        /\ DoTProof(e.out, e.proof, IF Exact THEN PRof(e.val) ELSE TProofVal(e, heap.proof[e.proof].val, o))
        /\ UNCHANGED fresh
        /\ bad' = {}

VerPEv(e) ==
    IF ~(Has("ct", e.ct) /\ Has("proof", e.proof)) \/ ("ek" \in DOMAIN e /\ ~Has("ek", e.ek)) THEN Skip
    ELSE
    LET c    == heap.ct[e.ct]
        p    == heap.proof[e.proof]
        srs  == sys.srs[e.srs + 1]
        both == e.via # "proof"
        pok  == ProofOK(srs, p.val, c.val)
        fits == Len(c.val.c) = Len(srs.g)
        cok  == ~both \/ CommitOK(c.val, heap.ek[e.ek].val)
        honest == /\ c.pure /\ heap.ek[c.ek].sound /\ p.srs = e.srs /\ e.srs = 0 /\ p.ek = c.ek
                  /\ p.m = c.m /\ p.r = c.r /\ InRange(c.m, sys.b)
                  /\ (both => e.ek = c.ek)
        sumtag == {}
    IN  /\ UNCHANGED <<dvars, fresh>>
        /\ bad' = IF ~fits THEN Fail(e.res = "err", {"C12:verp", "C07:verp.length"})
                  ELSE Fail(e.res = (IF pok /\ cok THEN "ok" ELSE "err"), {"C07:verp"})
                       \cup (IF honest THEN Fail(e.res = "ok", {"C07:verp.honest"}) ELSE {})

(***************************************************************************)
(* Export and import                                                        *)
(***************************************************************************)
WireEv(e) ==
    /\ UNCHANGED <<dvars, fresh>>
    /\ bad' = Fail(e.res = "ok" /\ e.eq /\ e.same, {"C14:roundtrip"})
              \cup Fail(\A i \in DOMAIN e.dam : e.dam[i].res = "err", {"C14:damaged"})

(***************************************************************************)
(* Relations between outputs (any engine)                                   *)
(***************************************************************************)
\* two proofs are related as proofs made with the two masks exchanged or shared are
PRelEv(e) ==
    /\ UNCHANGED <<dvars, fresh>>
    /\ bad' = Fail(~e.rel, {"C13:prove.masks"})
\* the same operation with the generator in the same state
DetEv(e) ==
    /\ UNCHANGED <<dvars, fresh>>
    /\ bad' = Fail(e.same, {"C13:" \o e.what \o ".entropy"}) \cup Fail(e.moved, {"C13:" \o e.what \o ".state"})
\* relations among published elements found on the code: each must follow from how the elements are made, and none may
\* depend on what is encrypted
RelEv(e) ==
    /\ UNCHANGED <<dvars, fresh>>
    /\ bad' = UNION {Verdict(Ref(e.rels[i])) : i \in DOMAIN e.rels}

(***************************************************************************)
(* The trace specification                                                  *)
(***************************************************************************)
IsEvent(n) == Trace[l].ev = n

Step(e) ==
    CASE e.ev = "Session" -> Session(e)
      [] e.ev = "Auth" -> AuthEv(e)
      [] e.ev = "Party" -> PartyEv(e)
      [] e.ev = "Comb" -> CombEv(e)
      [] e.ev = "P1" -> P1Ev(e)
      [] e.ev = "P1c" -> P1cEv(e)
      [] e.ev = "Final" -> FinalEv(e)
      [] e.ev = "Dest" -> DestEv(e)
      [] e.ev = "Enc" -> EncEv(e)
      [] e.ev = "Add" -> AddEv(e)
      [] e.ev = "Tamper" -> TamperEv(e)
      [] e.ev = "Craft" -> CraftEv(e)
      [] e.ev = "Share" -> ShareEv(e)
      [] e.ev = "CShare" -> CShareEv(e)
      [] e.ev = "Apply" -> ApplyEv(e)
      [] e.ev = "DecD" -> DecDEv(e)
      [] e.ev = "Dec" -> DecEv(e)
      [] e.ev = "VerC" -> VerCEv(e)
      [] e.ev = "Batch" -> BatchEv(e)
      [] e.ev = "Prove" -> ProveEv(e)
      [] e.ev = "TProof" -> TProofEv(e)
      [] e.ev = "VerP" -> VerPEv(e)
      [] e.ev = "Wire" -> WireEv(e)
      [] e.ev = "Rel" -> RelEv(e)
      [] e.ev = "PRel" -> PRelEv(e)
      [] e.ev = "Det" -> DetEv(e)
      \* the session could not be carried on: the code produced something without the promised shape
      [] e.ev = "Stuck" -> NotOk(e, {"*:stuck"})

TraceInit ==
    /\ sys = [mods |-> <<2>>]
    /\ heap = EmptyHeap
    /\ l = 1
    /\ fresh = {}
    /\ bad = {}

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ Step(Trace[l])
    /\ bad' # {} => PrintT("DVEFAIL " \o ToJson([l |-> l, bad |-> bad']))

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* every event was consumed
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
