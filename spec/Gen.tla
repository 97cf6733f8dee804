-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of DVE to be carried out by the real code.  The actions are   *)
(* those of DVE; values are left out (they are what the code is asked for), *)
(* provenance is kept: it decides what an action may refer to and what is   *)
(* worth observing at the end.  TLC picks the actions at random             *)
(* (-simulate); a behaviour ends with the observation of every artefact in  *)
(* it and is written out as one session.                                    *)
(*                                                                          *)
(* Focus selects the part of the system: "keys", "reenc", "sums", "verify", *)
(* "proofs", "decrypt", "wire" or "all".                                    *)
(***************************************************************************)
EXTENDS Faults, Json, IOUtils

Focus == IOEnv.GEN_FOCUS
Len_  == atoi(IOEnv.GEN_LEN)
NSrs  == atoi(IOEnv.GEN_SRS)
MaxK  == atoi(IOEnv.GEN_PARTIES)

VARIABLES ops, cnt, done
gvars == <<dvars, ops, cnt, done>>

On(fs) == Focus = "all" \/ Focus \in fs
Nm(p) == p \o ToString(cnt)
\* one operation: what DVE does, and its description
Op(rec) == ops' = Append(ops, rec) /\ cnt' = cnt + 1 /\ done' = FALSE
Go == ~done /\ Len(ops) < Len_

Names(kind) == DOMAIN heap[kind]
Groups == {k \in Names("ek") : heap.ek[k].kind = "group"}
Singles == {k \in Names("ek") : heap.ek[k].kind = "single"}
Perms(S) == {s \in [1..Cardinality(S) -> S] : Cardinality(Range(s)) = Cardinality(S)}
Subs(S) == {T \in SUBSET S : T # {}}

Init == sys = [mods |-> <<>>] /\ heap = EmptyHeap /\ ops = <<>> /\ cnt = 0 /\ done = FALSE

(***************************************************************************)
(* Keys                                                                     *)
(***************************************************************************)
Auth == /\ Go /\ On({"sums", "verify", "proofs", "decrypt", "wire"}) /\ Cardinality(Names("auth")) < 2
        /\ DoAuth(Nm("A"), <<>>, <<>>, <<>>, <<>>) /\ Op([op |-> "auth", out |-> Nm("A")])
Party == /\ Go /\ Cardinality(Names("party")) < MaxK
         /\ DoParty(Nm("P"), <<>>, <<>>, <<>>) /\ Op([op |-> "party", out |-> Nm("P")])
Dest == /\ Go /\ On({"reenc", "sums", "wire"}) /\ Cardinality(Names("dest")) < 2
        /\ DoDest(Nm("D"), <<>>, <<>>) /\ Op([op |-> "dest", out |-> Nm("D")])
Comb == /\ Go /\ Cardinality(Names("cek")) < (IF Focus = "keys" THEN 4 ELSE IF Focus \in {"all", "sums"} THEN 2 ELSE 1)
        /\ \E of \in UNION {Perms(T) : T \in {T \in Subs(Names("party")) : Cardinality(T) >= Cardinality(Names("party")) - 1}} :
              DoComb(Nm("K"), of, <<>>) /\ Op([op |-> "comb", of |-> of, out |-> Nm("K")])
CombTwice == /\ Go /\ On({"keys"}) /\ Cardinality(Names("cek")) < 4
             /\ \E a, b \in Names("party") :
                  DoComb(Nm("K"), <<a, b, a>>, <<>>) /\ Op([op |-> "comb", of |-> <<a, b, a>>, out |-> Nm("K")])
Made(k) == {q \in Names("p1") : heap.p1[q].cek = k /\ Len(heap.p1[q].parties) = 1}
P1 == /\ Go
      /\ \E k \in Names("cek") : \E p \in Range(heap.cek[k].parties) \ {heap.p1[q].parties[1] : q \in Made(k)} :
           DoP1(Nm("q"), k, p, <<>>) /\ Op([op |-> "p1", cek |-> k, party |-> p, out |-> Nm("q")])
P1Any == /\ Go /\ On({"keys"})
         /\ \E k \in Names("cek"), p \in Names("party") :
              DoP1(Nm("q"), k, p, <<>>) /\ Op([op |-> "p1", cek |-> k, party |-> p, out |-> Nm("q")])
FullFor(k) == {q \in Names("p1") : heap.p1[q].pure /\ heap.p1[q].cek = k /\ SameBag(heap.p1[q].parties, heap.cek[k].parties)}
P1c == /\ Go
       /\ \E k \in {k \in Names("cek") : FullFor(k) = {} /\ Cardinality(Made(k)) >= Len(heap.cek[k].parties)} :
            \E of \in Perms(Made(k)) : DoP1c(Nm("q"), of, <<>>) /\ Op([op |-> "p1c", of |-> of, out |-> Nm("q")])
P1cAny == /\ Go /\ On({"keys"})
          /\ \E a, b \in Names("p1") :
               DoP1c(Nm("q"), <<a, b>>, <<>>) /\ Op([op |-> "p1c", of |-> <<a, b>>, out |-> Nm("q")])
Final == /\ Go
         /\ \E k \in Names("cek") : \E q \in FullFor(k) :
              /\ ~\E g \in Groups : heap.ek[g].owner = k
              /\ DoFinal(Nm("G"), k, q, <<>>) /\ Op([op |-> "final", cek |-> k, p1 |-> q, out |-> Nm("G")])
FinalAny == /\ Go /\ On({"keys"})
            /\ \E k \in Names("cek"), q \in Names("p1") :
                 DoFinal(Nm("G"), k, q, <<>>) /\ Op([op |-> "final", cek |-> k, p1 |-> q, out |-> Nm("G")])

(***************************************************************************)
(* Ciphertexts                                                              *)
(***************************************************************************)
Classes == {"zero", "max", "one", "ramp", "mix", "rand", "first", "last"}
Enc == /\ Go
       /\ \E k \in Names("ek"), m \in Classes :
            DoEnc(Nm("c"), k, <<>>, <<>>, <<>>) /\ Op([op |-> "enc", ek |-> k, m |-> m, out |-> Nm("c")])
Pure == {c \in Names("ct") : heap.ct[c].pure}
\* sums of a bounded number of terms, so that they stay within what is searched
Terms(c) == Len(heap.ct[c].of)
Add == /\ Go /\ On({"sums", "verify", "reenc", "decrypt", "wire"})
       /\ \E a, b \in Pure :
            /\ heap.ct[a].ek = heap.ct[b].ek /\ Terms(a) + Terms(b) <= 6
            /\ DoAdd(Nm("c"), a, b, <<>>) /\ Op([op |-> "add", a |-> a, b |-> b, out |-> Nm("c")])
AddAny == /\ Go /\ On({"verify"})
          /\ \E a, b \in Names("ct") :
               /\ Terms(a) + Terms(b) <= 6
               /\ DoAdd(Nm("c"), a, b, <<>>) /\ Op([op |-> "add", a |-> a, b |-> b, out |-> Nm("c")])
Craft == /\ Go /\ On({"decrypt", "reenc"})
         /\ \E k \in Names("ek"), x \in {"max+1", "max", "neg", "wide", "twice"} :
              DoCraft(Nm("c"), k, <<>>, <<>>, <<>>) /\ Op([op |-> "craft", ek |-> k, x |-> x, out |-> Nm("c")])
Tamper == /\ Go /\ On({"verify", "proofs", "decrypt"})
          /\ \E c \in Names("ct"), k \in CtKinds \ {"pop", "push", "pushzero", "from", "setm", "rerand"}, w \in 0..3, z \in 0..3 :
               /\ k \in {"shift", "swap"} => w # z
               /\ DoTamper(Nm("c"), c, <<>>)
               /\ Op([op |-> "tamper", ct |-> c, k |-> k, i |-> w, j |-> z, d |-> 1 + z, out |-> Nm("c")])
TamperFrom == /\ Go /\ On({"verify", "proofs"})
              /\ \E c, o \in Names("ct"), w \in 0..3 :
                   /\ DoTamper(Nm("c"), c, <<>>)
                   /\ Op([op |-> "tamper", ct |-> c, k |-> "from", i |-> w, d |-> 1, other |-> o, out |-> Nm("c")])
TamperKey == /\ Go /\ On({"verify", "proofs", "reenc"})
             /\ \E c \in Names("ct"), k \in Names("ek"), a \in {"setm", "rerand"}, w \in 1..2 :
                  /\ DoTamper(Nm("c"), c, <<>>)
                  /\ Op([op |-> "tamper", ct |-> c, k |-> a, i |-> w, d |-> w, ek |-> k, out |-> Nm("c")])

(***************************************************************************)
(* Re-encryption                                                            *)
(***************************************************************************)
GroupCt == {c \in Names("ct") : heap.ek[heap.ct[c].ek].kind = "group"}
SharesOf(c, d) == {w \in Names("share") : \E i \in DOMAIN heap.share[w].parts : heap.share[w].parts[i].ct = c /\ heap.share[w].parts[i].dest = d}
HasShare(c, d, p) == \E w \in SharesOf(c, d) : \E i \in DOMAIN heap.share[w].parts : heap.share[w].parts[i].party = p
Share == /\ Go /\ On({"reenc", "sums", "wire"})
         /\ \E c \in GroupCt, d \in Names("dest") : \E p \in Range(heap.ek[heap.ct[c].ek].parties) :
              /\ ~HasShare(c, d, p)
              \* stay with one ciphertext and destination for most of the time
              /\ DoShare(Nm("w"), c, d, p, <<>>, <<>>) /\ Op([op |-> "share", ct |-> c, dest |-> d, party |-> p, out |-> Nm("w")])
ShareNext == /\ Go /\ On({"reenc", "sums", "wire"})
             /\ \E c \in GroupCt, d \in Names("dest") :
                  /\ SharesOf(c, d) # {}
                  /\ \E p \in Range(heap.ek[heap.ct[c].ek].parties) :
                       ~HasShare(c, d, p) /\ DoShare(Nm("w"), c, d, p, <<>>, <<>>) /\ Op([op |-> "share", ct |-> c, dest |-> d, party |-> p, out |-> Nm("w")])
ShareAny == /\ Go /\ On({"reenc"})
            /\ \E c \in Names("ct"), d \in Names("dest"), p \in Names("party") :
                 DoShare(Nm("w"), c, d, p, <<>>, <<>>) /\ Op([op |-> "share", ct |-> c, dest |-> d, party |-> p, out |-> Nm("w")])
Bunch(w) == heap.share[w].parts
Fits(a, b) == /\ \A i \in DOMAIN Bunch(a), j \in DOMAIN Bunch(b) :
                    Bunch(a)[i].ct = Bunch(b)[j].ct /\ Bunch(a)[i].dest = Bunch(b)[j].dest /\ Bunch(a)[i].party # Bunch(b)[j].party
CShare == /\ Go
          /\ \E a, b \in Names("share") : Fits(a, b)
               /\ DoCShare(Nm("w"), a, b, <<>>) /\ Op([op |-> "cshare", a |-> a, b |-> b, out |-> Nm("w")])
CShareAny == /\ Go /\ On({"reenc"})
             /\ \E a, b \in Names("share") :
                  /\ Len(Bunch(a)) + Len(Bunch(b)) <= 6
                  /\ DoCShare(Nm("w"), a, b, <<>>) /\ Op([op |-> "cshare", a |-> a, b |-> b, out |-> Nm("w")])
Complete(w) == LET ps == Bunch(w) IN
    /\ \A i \in DOMAIN ps : ps[i].ct = ps[1].ct /\ ps[i].dest = ps[1].dest
    /\ SameBag([i \in DOMAIN ps |-> ps[i].party], heap.ek[heap.ct[ps[1].ct].ek].parties)
Apply == /\ Go
         /\ \E w \in {w \in Names("share") : Complete(w)} :
              /\ ~\E r \in Names("rct") : heap.rct[r].parts = Bunch(w)
              /\ LET c == Bunch(w)[1].ct IN DoApply(Nm("r"), c, w, <<>>) /\ Op([op |-> "apply", ct |-> c, share |-> w, out |-> Nm("r")])
ApplyAny == /\ Go /\ On({"reenc"})
            /\ \E w \in Names("share"), c \in Names("ct") :
                 DoApply(Nm("r"), c, w, <<>>) /\ Op([op |-> "apply", ct |-> c, share |-> w, out |-> Nm("r")])

(***************************************************************************)
(* Proofs                                                                   *)
(***************************************************************************)
Prove == /\ Go /\ NSrs > 0 /\ On({"proofs", "wire"})
         /\ \E c \in Pure : \E k \in Names("ek"), i \in 0..(NSrs - 1) :
              /\ DoProve(Nm("p"), i, k, <<>>, <<>>, <<>>)
              /\ Op([op |-> "prove", ct |-> c, ek |-> k, srs |-> i, out |-> Nm("p")])
ProveOwn == /\ Go /\ NSrs > 0 /\ On({"proofs", "wire"})
            /\ \E c \in Pure :
                 /\ DoProve(Nm("p"), 0, heap.ct[c].ek, <<>>, <<>>, <<>>)
                 /\ Op([op |-> "prove", ct |-> c, ek |-> heap.ct[c].ek, srs |-> 0, out |-> Nm("p")])
TProof == /\ Go /\ On({"proofs"})
          /\ \E p, o \in Names("proof"), k \in ProofKinds \ {"noP2"} :
               /\ DoTProof(Nm("p"), p, <<>>)
               /\ Op([op |-> "tproof", proof |-> p, k |-> k, d |-> 1, other |-> o, out |-> Nm("p")])

(***************************************************************************)
(* Export and import of what there is                                       *)
(***************************************************************************)
Wires == [ek |-> {"ek"}, auth |-> {"ek", "dk", "sk"}, party |-> {"party", "pek"}, cek |-> {"cek"}, ct |-> {"ct"},
          dest |-> {"destpk", "destsk"}, p1 |-> {"p1"}]
Wire == /\ Go /\ On({"wire"})
        /\ \E k \in DOMAIN Wires : \E n \in Names(k), w \in Wires[k], enc \in {"c", "u", "json", "bin"} :
             Op([op |-> "wire", kind |-> w, name |-> n, enc |-> enc]) /\ UNCHANGED dvars

(***************************************************************************)
(* Everything that can be observed in the end                               *)
(***************************************************************************)
Set2Seq(S) == SetToSeq(S)
MapS(S, f(_)) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> f(q[i])]
Observations ==
    MapS({<<c, k>> : c \in Names("ct"), k \in Names("ek")}, LAMBDA x : [op |-> "verc", ct |-> x[1], ek |-> x[2], via |-> "any"])
    \o MapS({<<r, d>> : r \in Names("rct"), d \in Names("dest")}, LAMBDA x : [op |-> "decd", ct |-> x[1], dest |-> x[2], bits |-> "any"])
    \o (IF On({"sums", "decrypt", "wire"})
        THEN MapS({<<c, a, b>> : c \in Names("ct"), a \in Names("auth"), b \in Names("auth")},
                  LAMBDA x : [op |-> "dec", ct |-> x[1], sk |-> x[2], dk |-> x[3], bits |-> "any", via |-> "any"])
        ELSE <<>>)
    \o (IF On({"verify"})
        THEN MapS({<<c, k>> : c \in Names("ct"), k \in Names("ek")}, LAMBDA x : [op |-> "batch", cts |-> <<x[1]>> \o SetToSeq({c \in Pure : heap.ct[c].ek = x[2] /\ c # x[1]}), ek |-> x[2]])
        ELSE <<>>)
    \o (IF On({"proofs", "wire"})
        THEN MapS({<<c, p>> : c \in Names("ct"), p \in Names("proof")},
                  LAMBDA x : [op |-> "verp", ct |-> x[1], proof |-> x[2], ek |-> heap.ct[x[1]].ek, srs |-> 0, via |-> "any"])
        ELSE <<>>)

Finish ==
    /\ ~done /\ Len(ops) = Len_
    /\ PrintT("DVEGEN " \o ToJson(ops \o Observations))
    /\ done' = TRUE /\ UNCHANGED <<dvars, ops, cnt>>

Next ==
    \/ Auth \/ Party \/ Dest \/ Comb \/ CombTwice \/ P1 \/ P1Any \/ P1c \/ P1cAny \/ Final \/ FinalAny
    \/ Enc \/ Add \/ AddAny \/ Craft \/ Tamper \/ TamperFrom \/ TamperKey
    \/ Share \/ ShareNext \/ ShareAny \/ CShare \/ CShareAny \/ Apply \/ ApplyAny
    \/ Prove \/ ProveOwn \/ TProof \/ Wire
    \/ Finish
Spec == Init /\ [][Next]_gvars
=============================================================================
