------------------------------ MODULE MCKeygen ------------------------------
(***************************************************************************)
(* Distributed key generation (C02): any sequence of partial keys, then any *)
(* sequence of contributions to the last element, repeated, missing and     *)
(* foreign ones included.                                                   *)
(***************************************************************************)
EXTENDS Sample

CONSTANTS K_, LC_, LP_      \* parties; longest combination of partial keys, of contributions

Parties == 1..K_
Nm(i) == ToString(i)
PName(i) == "P" \o Nm(i)
SeqsOver(S, n) == UNION {[1..j -> S] : j \in 1..n}

Init ==
    /\ sys = SampleSys
    /\ heap = [EmptyHeap EXCEPT !.party =
          [p \in {PName(i) : i \in Parties} |->
             LET i == CHOOSE j \in Parties : PName(j) = p
             IN  [s |-> SecS(i), t |-> SecT(i), val |-> PartialEK(SecS(i), SecT(i))]]]

ValsOf(of) == [i \in DOMAIN of |-> heap.party[of[i]].val]
Comb ==
    /\ DOMAIN heap.cek = {}
    /\ \E of \in SeqsOver(DOMAIN heap.party, LC_) : DoComb("K1", of, CombineEK(ValsOf(of)))
\* another combination, of all parties, that contributions may be meant for
Comb2 ==
    /\ DOMAIN heap.cek = {"K1"}
    /\ LET of == [i \in Parties |-> PName(K_ + 1 - i)] IN DoComb("K2", of, CombineEK(ValsOf(of)))
P1 ==
    /\ DOMAIN heap.cek = {"K1", "K2"}
    /\ \E k \in {"K1", "K2"}, p \in DOMAIN heap.party :
          /\ k \o p \notin DOMAIN heap.p1
          \* they are independent of one another: one order is enough
          /\ \A q \in DOMAIN heap.party, j \in {"K1", "K2"} :
                (j = "K1" /\ k = "K2") \/ (j = k /\ \E a, b \in Parties : a < b /\ q = PName(a) /\ p = PName(b))
                => j \o q \in DOMAIN heap.p1
          /\ DoP1(k \o p, k, p, P1Share(heap.cek[k].val, heap.party[p].t))
P1c ==
    /\ Cardinality(DOMAIN heap.p1) = 2 * K_
    /\ \E of \in SeqsOver(DOMAIN heap.p1, LP_) : DoP1c("Q", of, Sum([i \in DOMAIN of |-> heap.p1[of[i]].val]))
Final ==
    /\ Has("p1", "Q")
    /\ DOMAIN heap.ek = {}
    /\ \E k \in {"K1", "K2"} : DoFinal("G", k, "Q", FinalEK(heap.cek[k].val, heap.p1["Q"].val))
Next == Comb \/ Comb2 \/ P1 \/ P1c \/ Final
Spec == Init /\ [][Next]_dvars

(***************************************************************************)
(* The key is the one of the summed secrets exactly if the contributions to *)
(* both rounds are the same; it is the group's key if each party is there   *)
(* once.  A ciphertext made under it verifies exactly then.                 *)
(***************************************************************************)
Bag(k, q) == SameBag(heap.cek[k].parties, heap.p1[q].parties)
SummedS(of) == SumV([i \in DOMAIN of |-> heap.party[of[i]].s])
SummedT(of) == SumV([i \in DOMAIN of |-> heap.party[of[i]].t])
HaveKey == Has("ek", "G")
Key == heap.ek["G"]
OfSum == HaveKey => LET of == heap.cek[Key.owner].parties IN
    /\ Bag(Key.owner, "Q")
    /\ \/ heap.p1["Q"].pure /\ heap.p1["Q"].cek = Key.owner
       \/ SameBag(heap.cek["K1"].parties, heap.cek["K2"].parties)      \* the same key, combined in another order
    <=> Key.val = SingleEK(SummedS(of), SummedT(of))
SoundIsOfSum == HaveKey /\ Key.sound => LET of == heap.cek[Key.owner].parties IN
    Key.val = SingleEK(SummedS(of), SummedT(of))
Verifies == HaveKey => LET of == heap.cek[Key.owner].parties
                           m == [i \in 1..N_ |-> i]
                           ct == EncVal(Key.val, m, Rnd(90)) IN
    CommitOK(ct, Key.val) <=> Key.val = SingleEK(SummedS(of), SummedT(of))
\* every share of the published values is determined by its party's own secrets
OwnSecrets == \A p, q \in DOMAIN heap.party : heap.party[p].val = heap.party[q].val => p = q
=============================================================================
