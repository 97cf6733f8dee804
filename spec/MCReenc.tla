------------------------------- MODULE MCReenc -------------------------------
(***************************************************************************)
(* Re-encryption (C03, C04, C05): shares of any parties for any ciphertext  *)
(* and destination, combined in any multiset, applied to any ciphertext,    *)
(* opened by anyone.                                                        *)
(***************************************************************************)
EXTENDS Sample

CONSTANTS K_, L_            \* parties; most shares combined

Nm(i) == ToString(i)
Ps == [i \in 1..K_ |-> "P" \o Nm(i)]
GroupKey(ps) == SingleEK(SumV([i \in DOMAIN ps |-> SecS(i)]), SumV([i \in DOMAIN ps |-> SecT(i)]))
PartyRec(i) == [s |-> SecS(i), t |-> SecT(i), val |-> PartialEK(SecS(i), SecT(i))]
Max_ == RangeMax(B_)
M1 == [i \in 1..N_ |-> IF i % 2 = 1 THEN Max_ ELSE 0]
M2 == [i \in 1..N_ |-> IF i % 2 = 1 THEN 1 ELSE Max_]
EkRec(ps) == [val |-> GroupKey(ps), kind |-> "group", owner |-> "K", parties |-> ps, sound |-> TRUE]
CtRec(nm, ek, m, r) == [val |-> EncVal(ek, m, r), ek |-> "G", m |-> m, r |-> r, pure |-> TRUE, of |-> <<nm>>]

Init ==
    /\ sys = SampleSys
    /\ LET g == GroupKey(Ps)
           sub == SubSeq(Ps, 1, K_ - 1)
           h == IF K_ > 1 THEN GroupKey(sub) ELSE g
       IN heap = [EmptyHeap EXCEPT
            !.party = [p \in Range(Ps) |-> PartyRec(CHOOSE i \in 1..K_ : Ps[i] = p)],
            !.ek = [k \in {"G", "S"} |-> IF k = "G" THEN EkRec(Ps) ELSE EkRec(IF K_ > 1 THEN sub ELSE Ps)],
            !.dest = [d \in {"D1", "D2"} |-> LET x == Rnd(IF d = "D1" THEN 70 ELSE 71) IN [sk |-> x, pk |-> sys.G ** x]],
            !.ct = [c \in {"c1", "c2", "c3"} |->
                CASE c = "c1" -> CtRec(c, g, M1, Rnd(80))
                  [] c = "c2" -> CtRec(c, g, M2, Rnd(81))
                  [] c = "c3" -> [CtRec(c, h, M1, Rnd(82)) EXCEPT !.ek = "S"]]]

Add == /\ ~Has("ct", "c1+c2")
       /\ DoAdd("c1+c2", "c1", "c2", AddCt(heap.ct["c1"].val, heap.ct["c2"].val))

\* the share being built: sequence of what it is made of, in non-decreasing order (shares commute: Commutes)
Cts == <<"c1", "c1+c2", "c2", "c3">>
Pos(p) == (100 * CHOOSE i \in 1..K_ : Ps[i] = p.party) + (10 * CHOOSE i \in DOMAIN Cts : Cts[i] = p.ct) + (IF p.dest = "D1" THEN 0 ELSE 1)
Acc == IF Has("share", "W") THEN heap.share["W"].parts ELSE <<>>
\* a mask of its own for every position in the combination
MaskOf(c, d, p) == Rnd((1000 * (Len(Acc) + 1)) + Pos([party |-> p, ct |-> c, dest |-> d]))
Share ==
    /\ Has("ct", "c1+c2")
    /\ Len(Acc) < L_ /\ DOMAIN heap.rct = {}
    /\ \E i \in DOMAIN Cts, d \in DOMAIN heap.dest, p \in DOMAIN heap.party :
         LET c  == Cts[i]
             pt == [party |-> p, ct |-> c, dest |-> d]
             rho == MaskOf(c, d, p)
             v  == ShareVal(heap.ct[c].val, heap.dest[d].pk, heap.party[p].s, rho)
             part == <<[party |-> p, ct |-> c, dest |-> d, rho |-> rho]>>
         IN  IF Acc = <<>> THEN DoShare("W", c, d, p, rho, v)
             ELSE /\ Pos(pt) >= Pos(Acc[Len(Acc)])
                  /\ Put("share", "W", [val |-> AddShare(heap.share["W"].val, v), parts |-> Acc \o part])
                  /\ UNCHANGED sys
Apply ==
    /\ Acc # <<>> /\ DOMAIN heap.rct = {}
    /\ \E i \in DOMAIN Cts : DoApply("R", Cts[i], "W", ApplyVal(heap.ct[Cts[i]].val, heap.share["W"].val))
Next == Add \/ Share \/ Apply
Spec == Init /\ [][Next]_dvars

(***************************************************************************)
(* Exactly a full quorum opens, to exactly the plaintext; anything else     *)
(* opens nowhere, at no position, within the widest search there is.        *)
(***************************************************************************)
Opened(d) == LET r == heap.rct["R"].val IN
    [i \in 1..N_ |-> LET rest == RestDest(r, heap.dest[d].sk) IN
        \* decided on the plaintexts that could come out: sums of up to four encryptions
        {x \in 0..(4 * Max_) : IsSol(x, rest[i], sys.g[i])}]
Outcome ==
    Has("rct", "R") =>
        \A d \in DOMAIN heap.dest :
            IF FullQuorum("R", d)
            THEN \A i \in 1..N_ : Opened(d)[i] = {heap.ct[heap.rct["R"].ct].m[i]}
            ELSE \A i \in 1..N_ : Opened(d)[i] = {}

\* the sum is an encryption of the sum, with the sum of the randomness
SumIsEnc ==
    Has("ct", "c1+c2") => LET c == heap.ct["c1+c2"] IN
        c.val = EncVal(heap.ek[c.ek].val, c.m, c.r) /\ CommitOK(c.val, heap.ek[c.ek].val)

\* combining is commutative and associative
ShareVals == {ShareVal(heap.ct[c].val, heap.dest[d].pk, heap.party[p].s, Rnd(500 + Len(Acc))) :
              c \in {"c1", "c2"}, d \in {"D1"}, p \in DOMAIN heap.party}
Commutes == Len(Acc) = 1 =>
    \A x, y \in ShareVals :
        /\ AddShare(x, y) = AddShare(y, x)
        /\ AddShare(heap.share["W"].val, AddShare(x, y)) = AddShare(AddShare(heap.share["W"].val, x), y)
=============================================================================
