------------------------------ MODULE MCSecrecy ------------------------------
(***************************************************************************)
(* All relations with few terms and small coefficients among the published  *)
(* elements of one protocol run (C17).  In the system as specified the only *)
(* relations that tell something about plaintexts are those between the     *)
(* chunks of one re-encryption share (which carry one mask); with a mask    *)
(* for every chunk there are none.                                          *)
(***************************************************************************)
EXTENDS Sample

CONSTANTS K_, T_, C_        \* parties, terms, largest coefficient

VARIABLE rel
mvars == <<dvars, rel>>

Nm(i) == ToString(i)
Ps == [i \in 1..K_ |-> "P" \o Nm(i)]
G_ == SingleEK(SumV([i \in DOMAIN Ps |-> SecS(i)]), SumV([i \in DOMAIN Ps |-> SecT(i)]))
\* a plaintext occurring twice, zero chunks, equal chunks
M1 == [i \in 1..N_ |-> IF i = N_ THEN 0 ELSE 1]
M2 == [i \in 1..N_ |-> 1]
CtRec(nm, m, r) == [val |-> EncVal(G_, m, r), ek |-> "G", m |-> m, r |-> r, pure |-> TRUE, of |-> <<nm>>]
SumRec == [val |-> AddCt(CtRec("c1", M1, Rnd(80)).val, CtRec("c2", M1, Rnd(81)).val), ek |-> "G",
           m |-> [i \in 1..N_ |-> 2 * M1[i]], r |-> Rnd(80) ++ Rnd(81), pure |-> TRUE, of |-> <<"c1", "c2">>]
Pk(d) == sys.G ** Rnd(d)
Part(p, c, d, rho) == [party |-> p, ct |-> c, dest |-> d, rho |-> rho]
ShareRec(c, d, i) ==
    [val |-> ShareVal(c, Pk(70), SecS(i), Rnd(90 + i)), parts |-> <<Part(Ps[i], d, "D1", Rnd(90 + i))>>]

Base == [EmptyHeap EXCEPT
    !.party = [p \in Range(Ps) |-> LET i == CHOOSE i \in 1..K_ : Ps[i] = p IN
                 [s |-> SecS(i), t |-> SecT(i), val |-> PartialEK(SecS(i), SecT(i))]],
    !.ek = [k \in {"G"} |-> [val |-> G_, kind |-> "group", owner |-> "K", parties |-> Ps, sound |-> TRUE]],
    !.dest = [d \in {"D1"} |-> [sk |-> Rnd(70), pk |-> Pk(70)]],
    !.ct = [c \in {"c1", "c2", "c3", "s"} |->
              CASE c = "c1" -> CtRec(c, M1, Rnd(80)) [] c = "c2" -> CtRec(c, M1, Rnd(81))
                [] c = "c3" -> CtRec(c, M2, Rnd(82)) [] c = "s" -> SumRec],
    !.share = [w \in {"w" \o Nm(i) : i \in 1..K_} |->
                 ShareRec(CtRec("c1", M1, Rnd(80)).val, "c1", CHOOSE i \in 1..K_ : w = "w" \o Nm(i))],
    !.rct = [r \in {"r"} |-> LET ps == [i \in 1..K_ |-> Part(Ps[i], "c1", "D1", Rnd(90 + i))] IN
               [val |-> <<>>, ct |-> "c1", parts |-> ps]]]

El(k, n, i) == [k |-> k, n |-> n, i |-> i]
Elems ==
    {El("G", "", 0), El("D", "", 0), El("C", "", 0)} \cup {El("g", "", i) : i \in 1..N_}
    \cup {El("ct", c, i) : c \in {"c1", "c2", "c3", "s"}, i \in 0..(N_ + 1)}
    \cup {El("share", "w" \o Nm(p), i) : p \in 1..K_, i \in 0..N_}
    \cup {El("rct", "r", i) : i \in 0..N_}
    \cup {El("ek", "G", i) : i \in 0..(2 * N_ + 2)}
    \cup {El("dest", "D1", 0)}
    \cup {El("pek", p, i) : p \in Range(Ps), i \in (1..(2 * N_)) \cup {2 * N_ + 2}}
ElSeq == SetToSeq(Elems)

Tm(j, c) == [k |-> ElSeq[j].k, n |-> ElSeq[j].n, i |-> ElSeq[j].i, c |-> c]
Coef == (0 - C_)..C_ \ {0}
\* a relation, term by term, positions increasing, first coefficient positive
Worlds == <<Actual, Shifted, Own, OwnShifted>>
Init == /\ sys = SampleSys /\ heap = Base /\ rel = <<>>
        \* the published elements in every world
        /\ TLCSet(1, [w \in 1..4 |-> [j \in DOMAIN ElSeq |-> Elem(Worlds[w], ElSeq[j])]])
Next ==
    /\ Len(rel) < T_
    /\ \E j \in DOMAIN ElSeq, c \in Coef :
          /\ rel = <<>> => c > 0
          /\ rel # <<>> => j > rel[Len(rel)][1]
          /\ rel' = Append(rel, <<j, c>>)
    /\ UNCHANGED dvars
Spec == Init /\ [][Next]_mvars

HoldsIn(w) == Sum([i \in DOMAIN rel |-> N(rel[i][2]) ** TLCGet(1)[w][rel[i][1]]]) = Zero
\* as Tells and BySharedMask
TellsHere == HoldsIn(1) /\ ~HoldsIn(2)
SharedHere == ~(HoldsIn(3) /\ ~HoldsIn(4))
OnlySharedMask == rel # <<>> /\ TellsHere => SharedHere
NoneWithOwnMasks == rel # <<>> => ~(HoldsIn(3) /\ ~HoldsIn(4))
AsInSecrecy ==
    rel # <<>> /\ HoldsIn(1) =>
        LET r == [i \in DOMAIN rel |-> Tm(rel[i][1], rel[i][2])] IN
        /\ TellsHere = Tells(r)
        /\ Verdict(r) \in {{}, {"C17:plaintext.shared-mask"}}
\* the shared mask does tell: not vacuous
KnownRel == << [k |-> "rct", n |-> "r", i |-> 1, c |-> 1], [k |-> "rct", n |-> "r", i |-> 2, c |-> -1], [k |-> "g", n |-> "", i |-> 1, c |-> -1] >>
SharedMaskTells == rel = <<>> => BySharedMask(KnownRel)
=============================================================================
