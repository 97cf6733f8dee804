------------------------------- MODULE Secrecy -------------------------------
(***************************************************************************)
(* What an outsider can compare (C17).                                      *)
(*                                                                          *)
(* An outsider sees the published group elements and can test equalities    *)
(* between their combinations and products of their pairings.  Secrecy is a property of two runs: the same *)
(* history, keys and masks with other plaintexts must satisfy exactly the   *)
(* same relations.  A world is one such variant of the history recorded in  *)
(* heap:                                                                    *)
(*   shift: every encryption carries another plaintext                      *)
(*   own:   every chunk of a re-encryption share has a mask of its own      *)
(* A relation that holds in the actual world and fails in the shifted one   *)
(* tells something about plaintexts; if with masks of their own it does not *)
(* hold in the first place, the shared mask of the shares is what gives it  *)
(* away.                                                                    *)
(***************************************************************************)
EXTENDS DVE

Actual  == [shift |-> FALSE, own |-> FALSE]
Shifted == [shift |-> TRUE,  own |-> FALSE]
Own     == [shift |-> FALSE, own |-> TRUE]
OwnShifted == [shift |-> TRUE, own |-> TRUE]

\* the other plaintext of encryption e at position i: a function of its randomness
Other(e, i) == (heap.ct[e].r ++ N(7919 * i)) ** (heap.ct[e].r ++ N(31 * i * i + 5))

PlainW(w, c) ==
    LET x == heap.ct[c] IN
    [i \in DOMAIN x.m |-> IF ~w.shift THEN N(x.m[i])
                          ELSE N(x.m[i]) ++ Sum([k \in DOMAIN x.of |-> Other(x.of[k], i)])]
CtW(w, c) ==
    LET x == heap.ct[c]  k == heap.ek[x.ek].val  mm == PlainW(w, c) IN
    [ c0 |-> k.X0 ** x.r,
      c |-> [i \in DOMAIN k.X |-> (k.X[i] ** x.r) ++ (sys.g[i] ** mm[i])],
      psi |-> Dot(k.Y, mm) ++ (k.P1 ** x.r) ]
MaskW(w, rho, i) == IF w.own THEN (rho ++ N(i)) ** (rho ++ N(101 * i)) ELSE rho
PartW(w, p) ==
    LET c == CtW(w, p.ct) IN
    [ w |-> [i \in DOMAIN c.c |-> (heap.dest[p.dest].pk ** MaskW(w, p.rho, i)) -- (c.c0 ** heap.party[p.party].s[i])],
      gr |-> sys.G ** p.rho ]
PartsW(w, ps) == FoldLeft(LAMBDA acc, p : AddShare(acc, PartW(w, p)), PartW(w, ps[1]), Tail(ps))
RctW(w, r) == ApplyVal(CtW(w, heap.rct[r].ct), PartsW(w, heap.rct[r].parts))

(***************************************************************************)
(* Published elements: <<kind, name, index>>                                *)
(***************************************************************************)
Known(t) ==
    CASE t.k \in {"G", "D", "C", "g"} -> TRUE
      [] t.k = "pek" -> Has("party", t.n)
      [] OTHER -> Has(t.k, t.n)
KeyCol(k, i) ==
    CASE i = 0 -> k.X0
      [] i \in 1..sys.n -> k.X[i]
      [] i \in (sys.n + 1)..(2 * sys.n) -> k.Y[i - sys.n]
      [] i = 2 * sys.n + 1 -> k.P1
      [] i = 2 * sys.n + 2 -> k.P2
Elem(w, t) ==
    CASE t.k = "G" -> sys.G
      [] t.k = "D" -> sys.D
      [] t.k = "C" -> sys.C
      [] t.k = "g" -> sys.g[t.i]
      [] t.k = "ct" -> LET c == CtW(w, t.n) IN IF t.i = 0 THEN c.c0 ELSE IF t.i > sys.n THEN c.psi ELSE c.c[t.i]
      [] t.k = "share" -> LET s == PartsW(w, heap.share[t.n].parts) IN IF t.i = 0 THEN s.gr ELSE s.w[t.i]
      [] t.k = "rct" -> LET r == RctW(w, t.n) IN IF t.i = 0 THEN r.c0 ELSE r.c[t.i]
      [] t.k = "ek" -> KeyCol(heap.ek[t.n].val, t.i)
      [] t.k = "pek" -> KeyCol(heap.party[t.n].val, t.i)
      [] t.k = "p1" -> heap.p1[t.n].val
      [] t.k = "dest" -> heap.dest[t.n].pk

\* published elements of the second group (exponents to its generator); they carry no plaintext
Known2(t) ==
    CASE t.k2 = "H" -> TRUE
      [] t.k2 = "ekZ" -> Has("ek", t.n2)
      [] t.k2 = "pekZ" -> Has("party", t.n2)
      [] t.k2 = "dk" -> Has("auth", t.n2)
Elem2(t) ==
    CASE t.k2 = "H" -> sys.H
      [] t.k2 = "ekZ" -> heap.ek[t.n2].val.Z[t.i2 + 1]
      [] t.k2 = "pekZ" -> heap.party[t.n2].val.Z[t.i2 + 1]
      [] t.k2 = "dk" -> LET k == heap.auth[t.n2].dk IN
                        IF t.i2 = 0 THEN k.V0 ELSE IF t.i2 <= sys.n THEN k.V1[t.i2] ELSE k.V2[t.i2 - sys.n]

\* a relation is a sequence of terms [k, n, i, c]: sum of c * element = 0; or, with pairings, of terms
\* [k, n, i, c, k2, n2, i2]: sum of c * e(element, element2) = 0
Paired(t) == "k2" \in DOMAIN t
Ref(r) == [j \in DOMAIN r |->
             IF Len(r[j]) = 4 THEN [k |-> r[j][1], n |-> r[j][2], i |-> r[j][3], c |-> r[j][4]]
             ELSE [k |-> r[j][1], n |-> r[j][2], i |-> r[j][3], c |-> r[j][4], k2 |-> r[j][5], n2 |-> r[j][6], i2 |-> r[j][7]]]
Term(w, t) == N(t.c) ** (IF Paired(t) THEN Elem(w, t) ** Elem2(t) ELSE Elem(w, t))
Holds(w, r) == Sum([j \in DOMAIN r |-> Term(w, r[j])]) = Zero

Tells(r) == Holds(Actual, r) /\ ~Holds(Shifted, r)
\* ... and would not, had every chunk a mask of its own
BySharedMask(r) == Tells(r) /\ ~(Holds(Own, r) /\ ~Holds(OwnShifted, r))

Verdict(r) ==
    IF \E j \in DOMAIN r : ~Known(r[j]) \/ (Paired(r[j]) /\ ~Known2(r[j])) THEN {"C17:unknown"}
    ELSE IF ~Holds(Actual, r) THEN {"C17:relation"}
    ELSE IF ~Tells(r) THEN {}
    ELSE IF BySharedMask(r) THEN {"C17:plaintext.shared-mask"}
    ELSE {"C17:plaintext"}
=============================================================================
