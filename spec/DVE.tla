-------------------------------- MODULE DVE --------------------------------
(***************************************************************************)
(* The system: participants generate keys, encrypt, add, re-encrypt and     *)
(* decrypt.  One action per public operation of the library.  heap holds    *)
(* every artefact produced so far, by name, with its value (exponents) and  *)
(* its provenance (who made it, from what); the properties are stated over  *)
(* provenance, the values are what the operations compute.                  *)
(*                                                                          *)
(* Actions take the value of what was produced as an argument; the          *)
(* model-checking modules pass the value prescribed by Saver.tla, the trace *)
(* specification passes the value the code produced.                        *)
(***************************************************************************)
EXTENDS Saver

VARIABLE heap
dvars == <<sys, heap>>

Empty == <<>>
EmptyHeap ==
    [ auth |-> Empty, ek |-> Empty, party |-> Empty, cek |-> Empty, p1 |-> Empty, dest |-> Empty,
      ct |-> Empty, share |-> Empty, rct |-> Empty, proof |-> Empty ]

Put(kind, name, rec) == heap' = [heap EXCEPT ![kind] = (name :> rec) @@ @]
Has(kind, name) == name \in DOMAIN heap[kind]

(***************************************************************************)
(* Actions                                                                  *)
(***************************************************************************)
\* a single authority; rho is the decryption secret
DoAuth(out, rho, s, ekv, dkv) ==
    /\ heap' = [heap EXCEPT
         !.auth = (out :> [rho |-> rho, dk |-> dkv]) @@ @,
         !.ek   = (out :> [val |-> ekv, kind |-> "single", owner |-> out, parties |-> <<>>, sound |-> TRUE]) @@ @]
    /\ UNCHANGED sys

DoParty(out, s, t, v) == Put("party", out, [s |-> s, t |-> t, val |-> v]) /\ UNCHANGED sys

DoComb(out, of, v) == Put("cek", out, [val |-> v, parties |-> of]) /\ UNCHANGED sys

DoP1(out, cek, party, v) == Put("p1", out, [val |-> v, cek |-> cek, parties |-> <<party>>, pure |-> TRUE]) /\ UNCHANGED sys

DoP1c(out, of, v) ==
    /\ Put("p1", out, [val |-> v, cek |-> heap.p1[of[1]].cek,
                       parties |-> FlattenSeq([i \in DOMAIN of |-> heap.p1[of[i]].parties]),
                       pure |-> \A i \in DOMAIN of : heap.p1[of[i]].pure /\ heap.p1[of[i]].cek = heap.p1[of[1]].cek])
    /\ UNCHANGED sys

SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A x \in Range(a) \cup Range(b) :
          Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
Distinct(a) == Cardinality(Range(a)) = Len(a)

\* a group key is sound if each of its parties contributed exactly once to both rounds
DoFinal(out, cek, p1, v) ==
    /\ Put("ek", out, [val |-> v, kind |-> "group", owner |-> cek, parties |-> heap.cek[cek].parties,
                       sound |-> /\ heap.p1[p1].pure /\ heap.p1[p1].cek = cek
                                 /\ SameBag(heap.p1[p1].parties, heap.cek[cek].parties)
                                 /\ Distinct(heap.cek[cek].parties)])
    /\ UNCHANGED sys

DoDest(out, sk, pk) == Put("dest", out, [sk |-> sk, pk |-> pk]) /\ UNCHANGED sys

DoEnc(out, ek, m, r, v) ==
    /\ Put("ct", out, [val |-> v, ek |-> ek, m |-> m, r |-> r, pure |-> TRUE, of |-> <<out>>])
    /\ UNCHANGED sys

DoAdd(out, a, b, v) ==
    LET x == heap.ct[a]  y == heap.ct[b] IN
    /\ Put("ct", out, [val |-> v, ek |-> x.ek,
                       m |-> [i \in DOMAIN x.m |-> x.m[i] + y.m[i]], r |-> x.r ++ y.r,
                       pure |-> x.pure /\ y.pure /\ x.ek = y.ek,
                       of |-> x.of \o y.of])
    /\ UNCHANGED sys

\* an altered ciphertext: no plaintext is attributed to it
DoTamper(out, src, v) ==
    /\ Put("ct", out, [heap.ct[src] EXCEPT !.val = v, !.pure = FALSE])
    /\ UNCHANGED sys

\* a dishonest encryptor: consistent under the key, but arbitrary chunk scalars
DoCraft(out, ek, x, r, v) ==
    /\ Put("ct", out, [val |-> v, ek |-> ek, m |-> x, r |-> r, pure |-> TRUE, of |-> <<out>>])
    /\ UNCHANGED sys

DoShare(out, ct, dest, party, rho, v) ==
    /\ Put("share", out, [val |-> v, parts |-> <<[party |-> party, ct |-> ct, dest |-> dest, rho |-> rho]>>])
    /\ UNCHANGED sys

DoCShare(out, a, b, v) ==
    /\ Put("share", out, [val |-> v, parts |-> heap.share[a].parts \o heap.share[b].parts])
    /\ UNCHANGED sys

DoApply(out, ct, share, v) ==
    /\ Put("rct", out, [val |-> v, ct |-> ct, parts |-> heap.share[share].parts])
    /\ UNCHANGED sys

DoProve(out, srs, ek, m, r, v) ==
    /\ Put("proof", out, [val |-> v, srs |-> srs, ek |-> ek, m |-> m, r |-> r])
    /\ UNCHANGED sys

DoTProof(out, src, v) ==
    /\ Put("proof", out, [heap.proof[src] EXCEPT !.val = v, !.srs = -1])
    /\ UNCHANGED sys

(***************************************************************************)
(* Provenance predicates                                                    *)
(***************************************************************************)
Concat(ss) == FlattenSeq(ss)
\* the ciphertext the shares were applied to, as a bag of encryptions, needs from every party of its key
\* one share for each of those encryptions; a share made for a sum is one for each of its terms
Needed(c) ==
    LET ps == heap.ek[heap.ct[c].ek].parties  of == heap.ct[c].of IN
    Concat([i \in DOMAIN ps |-> [j \in DOMAIN of |-> <<ps[i], of[j]>>]])
Given_(parts) ==
    Concat([i \in DOMAIN parts |->
        LET of == heap.ct[parts[i].ct].of IN [j \in DOMAIN of |-> <<parts[i].party, of[j]>>]])

\* every party of the ciphertext's key contributed exactly once, for this ciphertext and this destination
FullQuorum(rn, dest) ==
    LET r == heap.rct[rn]  c == heap.ct[r.ct]  k == heap.ek[c.ek] IN
    /\ c.pure /\ k.kind = "group" /\ k.sound
    /\ \A i \in DOMAIN r.parts : r.parts[i].dest = dest /\ heap.ct[r.parts[i].ct].pure /\ heap.ct[r.parts[i].ct].ek = c.ek
    /\ SameBag(Given_(r.parts), Needed(r.ct))

Owner(ctn) == heap.ek[heap.ct[ctn].ek].owner
=============================================================================
