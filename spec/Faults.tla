------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Alterations of ciphertexts and proofs by an adversary.  e is a record    *)
(* [k |-> kind, i |-> position, d |-> amount, ...].  The code is given the  *)
(* same alterations; where exponents cannot be read they are re-done here   *)
(* on the values of the specification.                                      *)
(***************************************************************************)
EXTENDS DVE

At(i, n) == Min2(i, n - 1) + 1
TamperVal(e, x, oth) ==
    LET v == <<x.c0>> \o x.c \o <<x.psi>>
        n == Len(v)
        d == N(IF "d" \in DOMAIN e THEN e.d ELSE 1)
        i == At(IF "i" \in DOMAIN e THEN e.i ELSE 0, n)
        j == At(IF "j" \in DOMAIN e THEN e.j ELSE 0, n)
        w == CASE e.k = "add" -> [v EXCEPT ![i] = @ ++ d]
               [] e.k = "shift" -> LET u == [v EXCEPT ![i] = @ ++ d] IN [u EXCEPT ![j] = @ -- d]
               [] e.k = "swap" -> [v EXCEPT ![i] = v[j], ![j] = v[i]]
               [] e.k = "neg" -> [v EXCEPT ![i] = Neg(@)]
               [] e.k = "zero" -> [v EXCEPT ![i] = Zero]
               [] e.k = "double" -> [v EXCEPT ![i] = @ ++ @]
               [] e.k = "from" -> LET o == <<oth.c0>> \o oth.c \o <<oth.psi>>
                                  IN  IF i <= Len(o) THEN [v EXCEPT ![i] = o[i]] ELSE v
               [] e.k = "setm" -> LET ii == IF e.i < 1 THEN 1 ELSE Min2(e.i, n - 2)
                                      ek == heap.ek[e.ek].val
                                      u == [v EXCEPT ![ii + 1] = @ ++ (sys.g[ii] ** d)]
                                  IN  [u EXCEPT ![n] = @ ++ (ek.Y[ii] ** d)]
               [] e.k = "rerand" -> LET ek == heap.ek[e.ek].val
                                        z == EncVal(ek, [k \in DOMAIN ek.X |-> 0], d)
                                        zz == <<z.c0>> \o z.c \o <<z.psi>>
                                    IN  AddV(v, zz)
               [] e.k = "pop" -> SubSeq(v, 1, n - 2) \o <<v[n]>>
               [] e.k = "push" -> SubSeq(v, 1, n - 1) \o <<d, v[n]>>
               [] e.k = "pushzero" -> SubSeq(v, 1, n - 1) \o <<Zero, v[n]>>
               [] e.k = "rot" -> <<v[1]>> \o SubSeq(v, 3, n - 1) \o <<v[2], v[n]>>
    IN  [c0 |-> w[1], c |-> SubSeq(w, 2, Len(w) - 1), psi |-> w[Len(w)]]

TProofVal(e, p, o) ==
    LET d == N(IF "d" \in DOMAIN e THEN e.d ELSE 1) IN
    CASE e.k = "a+" -> [p EXCEPT !.a = @ ++ d]
      [] e.k = "b+" -> [p EXCEPT !.b = @ ++ d]
      [] e.k = "c+" -> [p EXCEPT !.c = @ ++ d]
      [] e.k = "a-" -> [p EXCEPT !.a = Neg(@)]
      [] e.k = "b-" -> [p EXCEPT !.b = Neg(@)]
      [] e.k = "c-" -> [p EXCEPT !.c = Neg(@)]
      [] e.k = "a0" -> [p EXCEPT !.a = Zero]
      [] e.k = "b0" -> [p EXCEPT !.b = Zero]
      [] e.k = "c0" -> [p EXCEPT !.c = Zero]
      [] e.k = "ab-" -> [p EXCEPT !.a = Neg(@), !.b = Neg(@)]
      [] e.k = "ac" -> [p EXCEPT !.a = p.c, !.c = p.a]
      [] e.k = "afrom" -> [p EXCEPT !.a = o.a]
      [] e.k = "bfrom" -> [p EXCEPT !.b = o.b]
      [] e.k = "cfrom" -> [p EXCEPT !.c = o.c]
      [] e.k = "noP2" -> [p EXCEPT !.c = @ -- (heap.ek[e.ek].val.P2 ** heap.ct[e.ct].r)]


CtKinds == {"add", "shift", "swap", "neg", "zero", "double", "from", "setm", "rerand", "pop", "push", "pushzero", "rot"}
ProofKinds == {"a+", "b+", "c+", "a-", "b-", "c-", "a0", "b0", "c0", "ab-", "ac", "afrom", "bfrom", "cfrom", "noP2"}
=============================================================================
