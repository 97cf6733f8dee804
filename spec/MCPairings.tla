------------------------------ MODULE MCPairings ------------------------------
(***************************************************************************)
(* Relations between pairings of published elements (C17): all sums of up   *)
(* to T_ + 1 terms +-e(A, B), A an element of the first group or a chunk    *)
(* component minus its guessed value, B one of the second.  None of them    *)
(* tells about plaintexts beyond what the relations within the first group  *)
(* do (MCSecrecy).                                                          *)
(*                                                                          *)
(* Tie_ = TRUE: the secrets of the second round are those of the first, as  *)
(* a key generation that saves randomness would have it.  Then they do.     *)
(***************************************************************************)
EXTENDS MCSecrecy

CONSTANT Tie_

\* the authority's key, with decryption key, and ciphertexts under it
AS == RndV(60, N_)
AT == IF Tie_ THEN <<Rnd(6200)>> \o AS ELSE RndV(61, N_ + 1)
AK == SingleEK(AS, AT)
AuthCt(nm, m, r) == [val |-> EncVal(AK, m, r), ek |-> "A", m |-> m, r |-> r, pure |-> TRUE, of |-> <<nm>>]
Base2 == [Base EXCEPT
    !.auth = [a \in {"A"} |-> [rho |-> Rnd(63), dk |-> DecKey(Rnd(63), AS, RndV(64, N_))]],
    !.ek = ("A" :> [val |-> AK, kind |-> "single", owner |-> "A", parties |-> <<>>, sound |-> TRUE]) @@ @,
    !.ct = ("a1" :> AuthCt("a1", M1, Rnd(83))) @@ ("a2" :> AuthCt("a2", M1, Rnd(84))) @@ @]

Elems2 == {[k2 |-> "H", n2 |-> "", i2 |-> 0]}
    \cup {[k2 |-> "ekZ", n2 |-> k, i2 |-> i] : k \in {"A", "G"}, i \in 0..N_}
    \cup {[k2 |-> "pekZ", n2 |-> p, i2 |-> i] : p \in Range(Ps), i \in 0..N_}
    \cup {[k2 |-> "dk", n2 |-> "A", i2 |-> i] : i \in 0..(2 * N_)}
Elems1 == Elems \cup {El("ct", c, i) : c \in {"a1", "a2"}, i \in 0..(N_ + 1)} \cup {El("ek", "A", i) : i \in 0..(2 * N_ + 2)}
\* with the guess that is right
Guess(t) == IF t.k \in {"ct", "rct"} /\ t.i \in 1..N_ THEN {0, PlainW(Actual, IF t.k = "ct" THEN t.n ELSE heap.rct[t.n].ct)[t.i][1]} ELSE {0}
TermSet == {<<t, u, a>> : t \in Elems1, u \in Elems2, a \in {0, 1, 2}}
TermSeq == SetToSeq({x \in TermSet : x[3] \in Guess(x[1])})

PairVal(w, x) == (Elem(w, x[1]) -- (N(x[3]) ** (IF x[3] = 0 THEN Zero ELSE sys.g[x[1].i]))) ** Elem2(x[2])

Init2 ==
    /\ sys = SampleSys /\ heap = Base2 /\ rel = <<>>
    /\ TLCSet(2, TermSeq)
    /\ TLCSet(1, [w \in 1..4 |-> [j \in DOMAIN TLCGet(2) |-> PairVal(Worlds[w], TLCGet(2)[j])]])
    \* the terms by their value in the actual world and in that with own masks
    /\ TLCSet(3, [w \in 1..4 |-> IF w % 2 = 0 THEN <<>>
                  ELSE [v \in Range(TLCGet(1)[w]) |-> {j \in DOMAIN TLCGet(2) : TLCGet(1)[w][j] = v}]])
Next2 ==
    /\ Len(rel) < T_
    /\ \E j \in DOMAIN TLCGet(2), c \in {1, -1} :
          /\ rel = <<>> => c = 1
          /\ rel # <<>> => j > rel[Len(rel)][1]
          /\ rel' = Append(rel, <<j, c>>)
    /\ UNCHANGED dvars
Spec2 == Init2 /\ [][Next2]_mvars

At(w) == Sum([i \in DOMAIN rel |-> N(rel[i][2]) ** TLCGet(1)[w][rel[i][1]]])
\* the single terms which equal the sum, or its negative, in world w
Equal(w, v) == IF v \in DOMAIN TLCGet(3)[w] THEN TLCGet(3)[w][v] ELSE {}
\* in one group, by the other: more than one second element is involved
Mixed(z) == \E i \in DOMAIN rel : Elem2(TLCGet(2)[rel[i][1]][2]) # Elem2(TLCGet(2)[z][2])
TellsIn(w, ws) ==
    {z \in Equal(w, At(w)) : At(ws) # TLCGet(1)[ws][z] /\ Mixed(z)}
    \cup {z \in Equal(w, Zero -- At(w)) : Zero -- At(ws) # TLCGet(1)[ws][z] /\ Mixed(z)}
Masked(j) == TLCGet(2)[j][1].k \in {"share", "rct"}
\* nothing tells with own masks; nothing without a masked element does anyway
NonePaired == rel # <<>> =>
    /\ TellsIn(3, 4) = {}
    /\ (\A i \in DOMAIN rel : ~Masked(rel[i][1])) => \A z \in TellsIn(1, 2) : Masked(z)
ZeroPaired == rel # <<>> => (At(3) = Zero => At(4) = Zero)

\* an example of the trace specification's form, to be found
Leak == << [k |-> "ct", n |-> "a1", i |-> 1, c |-> 1, k2 |-> "H", n2 |-> "", i2 |-> 0],
           [k |-> "g", n |-> "", i |-> 1, c |-> -1, k2 |-> "H", n2 |-> "", i2 |-> 0],
           [k |-> "ct", n |-> "a1", i |-> 0, c |-> -1, k2 |-> "ekZ", n2 |-> "A", i2 |-> 1] >>
LeakTells == rel = <<>> => (Tells(Leak) <=> Tie_)
=============================================================================
