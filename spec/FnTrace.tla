------------------------------ MODULE FnTrace ------------------------------
(***************************************************************************)
(* Validation of recorded calls of the functions outside protocol sessions: *)
(* chunking, chunked commitments, generators, window tables.  The only      *)
(* state is what generators were seen for which label.                      *)
(***************************************************************************)
EXTENDS Chunks, Shapes, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.DVE_TRACE)

VARIABLES l,     \* next event
          seen,  \* generators derived so far: records [pid, grp, role, label, id]
          bad
tvars == <<l, seen, bad>>

Fail(cond, labels) == IF cond THEN {} ELSE labels
Skip == seen' = seen

(***************************************************************************)
(* Chunking                                                                 *)
(***************************************************************************)
FieldBits(f) == IF f = "fq" THEN 381 ELSE 255
Modulus(f) == IF f = "fq" THEN BlsQ ELSE BlsR

CountEv(e) ==
    LET n == Ceil(FieldBits(e.field), e.b) IN      \* the count is one byte wide
    Skip /\ bad' = Fail(n > 255 \/ (e.res = "ok" /\ e.n = n), {"C10:count"})

DecEv(e) ==
    /\ Skip
    /\ bad' = IF e.b \in Supported
              THEN Fail(e.res = "ok" /\ e.c = Decompose(ModM(e.x, Modulus(e.field)), e.b), {"C10:decompose"})
                   \cup Fail(Len(e.c) = e.n, {"C10:decompose.count"})
                   \cup Fail(e.back, {"C10:roundtrip"})
              ELSE Fail(e.res = "err", {"C10:decompose.unsupported"})

CompEv(e) ==
    /\ Skip
    /\ bad' = IF Composable(e.c, e.b)
              THEN Fail(e.res = "ok" /\ e.x = ModM(ComposeBytes(e.c, e.b), Modulus(e.field)), {"C10:compose"})
              ELSE Fail(e.res = "err", {"C10:compose.refuse"})

(***************************************************************************)
(* Chunked commitments.  Small engines: exponents; production curve: only   *)
(* whether a difference vanishes (0) is known.                              *)
(***************************************************************************)
EngBits == [q13 |-> 4, q257 |-> 9, q40961 |-> 16, bls |-> 255]
EngMod  == [q13 |-> 13, q257 |-> 257, q40961 |-> 40961, bls |-> 0]
RECURSIVE PowMod(_, _, _)
PowMod(x, e, q) ==
    IF e = 0 THEN 1
    ELSE LET h == PowMod((x * x) % q, e \div 2, q)
         IN  IF e % 2 = 1 THEN (x * h) % q ELSE h

\* radix^(n-1) G, ..., radix G, G, H
CommKey(G, H, b, n, q) ==
    [i \in 1..(n + 1) |-> IF i > n THEN H ELSE (G * PowMod(PowMod(2, b, q), n - i, q)) % q]

CommKeyEv(e) ==
    LET n == Ceil(EngBits[e.engine], e.b)
        q == EngMod[e.engine]
    IN  /\ Skip
        /\ bad' = Fail(e.res = "ok" /\ e.len = n + 1, {"C11:key.length"})
                  \cup Fail(\A i \in DOMAIN e.resid : e.resid[i] = 0, {"C11:key"})
                  \cup Fail(q = 0 \/ e.ck = CommKey(e.G, e.H, e.b, n, q), {"C11:key.value"})

\* supported exactly where the message can be decomposed; BLS only (small fields do not fill their bytes)
CommitEv(e) ==
    LET sup == e.b \in Supported  n == Ceil(EngBits[e.engine], e.b) IN
    /\ Skip
    /\ bad' = IF sup
              THEN Fail(e.res = "ok" /\ e.diff = 0, {"C11:commit"})
                   \cup Fail(e.same, {"C11:commit.key"})
                   \cup Fail(e.given.res = "ok" /\ e.given.diff = 0, {"C11:commit.given"})
                   \cup Fail(\A i \in DOMAIN e.misfit : e.misfit[i].len = n + 1 \/ e.misfit[i].res = "err",
                             {"C12:commit.misfit", "C11:commit.misfit"})
              ELSE Fail(e.res = "err" /\ e.given.res = "err", {"C11:commit.unsupported", "C10:commit.unsupported"})

(***************************************************************************)
(* Generators                                                               *)
(***************************************************************************)
\* same label and role in one family: same element; anything else in the family: another element
GensEv(e) ==
    LET new == { [pid |-> e.pid, grp |-> <<e.digest, e.kind>>, role |-> "G", label |-> e.label, id |-> e.G] }
               \cup (IF e.kind = "field" THEN {}
                     ELSE { [pid |-> e.pid, grp |-> <<e.digest, e.kind>>, role |-> "H", label |-> e.label, id |-> e.H] })
        old == { r \in seen : r.pid = e.pid /\ r.grp = <<e.digest, e.kind>> }
        all == old \cup new
    IN  IF e.res # "ok" THEN Skip /\ bad' = {"C15:gens.fails"}
        ELSE /\ seen' = seen \cup new
             /\ bad' = Fail(e.ok, {"C15:gens.valid"})
                       \cup Fail(\A a \in new : \A b \in all :
                                    (a.role = b.role /\ a.label = b.label) => a.id = b.id, {"C15:gens.deterministic"})
                       \cup Fail(\A a \in new : \A b \in all :
                                    a.id = b.id => (a.role = b.role /\ a.label = b.label), {"C15:gens.distinct"})

\* freshly drawn generators
GensRngEv(e) ==
    LET new == { [pid |-> e.pid, grp |-> <<"rng", e.kind>>, role |-> "R", label |-> <<>>, id |-> x] : x \in {e.G, e.H} }
        old == { r.id : r \in { x \in seen : x.pid = e.pid /\ x.grp = <<"rng", e.kind>> } }
    IN  IF e.res # "ok" THEN Skip /\ bad' = {"C15:gens.fails"}
        ELSE /\ seen' = seen \cup new
             /\ bad' = Fail(e.ok, {"C15:gens.valid"})
                       \cup Fail(e.same /\ e.moved /\ e.G # e.H /\ e.G \notin old /\ e.H \notin old,
                                 {"C15:gens.fresh", "C13:gens.fresh"})

(***************************************************************************)
(* Window tables                                                            *)
(***************************************************************************)
Mul(e) == LET q == EngMod[e.engine] IN
          [i \in DOMAIN e.es |-> IF q = 0 THEN e.g * e.es[i] ELSE (e.g * (e.es[i] % q)) % q]
WindowEv(e) ==
    /\ Skip
    /\ bad' = IF e.res # "ok" THEN {"C14:window", "C11:window"}
              ELSE Fail(e.one = Mul(e), {"C01:window.one", "C14:window.one"})
                   \cup Fail(e.many = Mul(e) /\ e.func = Mul(e), {"C01:window.many", "C14:window.many"})
                   \cup Fail(\A i \in DOMAIN e.wires :
                                LET w == e.wires[i] IN w.res = "ok" /\ w.eq /\ w.same /\ w.many = Mul(e),
                             {"C14:window.roundtrip"})
                   \cup Fail(\A i \in DOMAIN e.wires : \A k \in DOMAIN e.wires[i].dam : e.wires[i].dam[k].res = "err",
                             {"C14:window.damaged"})
WireEv(e) ==
    /\ Skip
    /\ bad' = Fail(e.res = "ok" /\ e.eq /\ e.same, {"C14:roundtrip"})
              \cup Fail(\A i \in DOMAIN e.dam : e.dam[i].res = "err", {"C14:damaged"})

(***************************************************************************)
(* Calls with arbitrary lengths                                             *)
(***************************************************************************)
\* related property of each operation
Also == [ keygen |-> "C01", enc |-> "C01", dec |-> "C01", partial |-> "C02", combine |-> "C02", p1 |-> "C02", p1c |-> "C02",
          share |-> "C03", cshare |-> "C03", apply |-> "C03", decd |-> "C03", add |-> "C05", verc |-> "C06", ekcount |-> "C06",
          calcd |-> "C07", batch |-> "C09", pow |-> "C16", dkcount |-> "C16" ]
ShapeEv(e) ==
    /\ Skip
    /\ bad' = IF e.res = "skip" THEN {}
              ELSE Fail(e.res \in Expect(e.it, e.n), {"C12:" \o e.it.op})
                   \cup Fail(e.res = "ok" => e.out = Out(e.it, e.n) /\ e.same, {"C12:" \o e.it.op \o ".out"})
                   \cup Fail(e.res = "ok" \/ Expect(e.it, e.n) # {"ok"}, {Also[e.it.op] \o ":shape." \o e.it.op})

Step(e) ==
    CASE e.ev = "Count" -> CountEv(e)
      [] e.ev = "Dec" -> DecEv(e)
      [] e.ev = "Comp" -> CompEv(e)
      [] e.ev = "CommKey" -> CommKeyEv(e)
      [] e.ev = "Commit" -> CommitEv(e)
      [] e.ev = "Gens" -> GensEv(e)
      [] e.ev = "GensRng" -> GensRngEv(e)
      [] e.ev = "Window" -> WindowEv(e)
      [] e.ev = "Wire" -> WireEv(e)
      [] e.ev = "Shape" -> ShapeEv(e)
      [] e.ev = "Stuck" -> Skip /\ bad' = {"*:stuck"}

TraceInit == l = 1 /\ seen = {} /\ bad = {}
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ Step(Trace[l])
    /\ bad' # {} => PrintT("DVEFAIL " \o ToJson([l |-> l, bad |-> bad']))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
