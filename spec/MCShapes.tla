------------------------------ MODULE MCShapes ------------------------------
(***************************************************************************)
(* All calls with lengths from Lens.  TLC checks the closed form of "fits"  *)
(* the code is supposed to implement against the position-wise definition,  *)
(* and writes the calls down for the real code to be called with.           *)
(***************************************************************************)
EXTENDS Shapes, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, Lens, Full

VARIABLES it
vars == <<it>>

K3 == { <<x, y, z>> : x \in Lens, y \in Lens, z \in Lens }
Odd == { <<N, N, N + 1>>, <<N - 1, N, N + 1>>, <<N, N - 1, N + 1>>, <<N, N, N>>, <<N - 1, N - 1, N>>, <<N + 1, N + 1, N + 2>>,
         <<N, N, N + 2>>, <<N, N + 1, N + 1>>, <<N + 1, N, N + 1>> }
\* in the small configuration all triples, in the large one the neighbourhood of the fitting one
Keys == IF Full THEN K3 ELSE Odd

Items ==
    { [op |-> "ekcount", x |-> k[1], y |-> k[2], z |-> k[3]] : k \in K3 \cup { <<255, 255, 256>>, <<256, 256, 257>>, <<256, 255, 256>>, <<512, 512, 513>> } }
    \cup { [op |-> "dkcount", v1 |-> a, v2 |-> b] : a \in Lens \cup {255, 256}, b \in Lens \cup {255, 256} }
    \cup { [op |-> o, g |-> a] : o \in {"keygen", "partial"}, a \in Lens \cup {0, N + 3} }
    \cup { [op |-> "pow", v1 |-> a, v2 |-> b, g |-> c] : a \in Lens, b \in Lens, c \in Lens }
    \cup { [op |-> "combine", ks |-> <<>>] }
    \cup { [op |-> "combine", ks |-> <<a>>] : a \in Keys }
    \cup { [op |-> "combine", ks |-> <<a, b>>] : a \in Odd, b \in Odd }
    \cup { [op |-> "combine", ks |-> <<a, b, c>>] : a \in { <<N, N, N + 1>>, <<N - 1, N - 1, N>> }, b \in Odd, c \in Odd }
    \cup { [op |-> "p1", x |-> a, t |-> b] : a \in Lens, b \in Lens \cup { N + 2 } }
    \cup { [op |-> "p1c", k |-> a] : a \in 0..4 }
    \cup { [op |-> "enc", m |-> m, x |-> k[1], y |-> k[2], z |-> k[3], g |-> g] : m \in Lens, k \in Keys, g \in Lens }
    \cup { [op |-> "dec", c |-> c, v1 |-> a, v2 |-> b, g |-> g, pw |-> p] : c \in Lens, a \in Lens, b \in Lens, g \in Lens, p \in Lens \cup {0} }
    \cup { [op |-> "decd", c |-> c, g |-> g] : c \in Lens \cup {0}, g \in Lens \cup {0} }
    \cup { [op |-> "verc", c |-> c, x |-> k[1], y |-> k[2], z |-> k[3]] : c \in Lens, k \in Keys }
    \cup { [op |-> "batch", cs |-> cs, coef |-> f, x |-> k[1], y |-> k[2], z |-> k[3]]
           : cs \in {<<>>} \cup {<<a>> : a \in Lens} \cup {<<a, b>> : a \in Lens, b \in Lens} \cup {<<N, N, a>> : a \in Lens} \cup {<<N, a, N>> : a \in Lens},
             f \in 0..4, k \in { <<N, N, N + 1>>, <<N - 1, N - 1, N>>, <<N, N - 1, N + 1>>, <<N, N, N>> } }
    \cup { [op |-> "calcd", c |-> c, vk |-> v] : c \in Lens \cup {0}, v \in Lens \cup { N + 2 } }
    \cup { [op |-> "share", c |-> a, s |-> b] : a \in Lens \cup {0}, b \in Lens \cup {0} }
    \cup { [op |-> "cshare", a |-> a, b |-> b] : a \in Lens \cup {0}, b \in Lens \cup {0} }
    \cup { [op |-> "apply", c |-> a, w |-> b] : a \in Lens \cup {0}, b \in Lens \cup {0} }
    \cup { [op |-> "add", a |-> a, b |-> b] : a \in (Lens \cup {0, N + 2}), b \in (Lens \cup {0, N + 2}) }

Init == it \in Items
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* what the individual checks of the code amount to
KeyOK(i) == i.y = i.x /\ i.z = i.x + 1
Closed(i) ==
    CASE i.op = "ekcount" -> KeyOK(i)
      [] i.op = "dkcount" -> i.v1 = i.v2
      [] i.op \in {"keygen", "partial"} -> i.g >= N
      [] i.op = "pow" -> i.v1 = i.v2 /\ i.g >= i.v1
      [] i.op = "combine" -> i.ks # <<>> /\ \A k \in DOMAIN i.ks : i.ks[k][1] = i.ks[1][1] /\ i.ks[k][2] = i.ks[1][1] /\ i.ks[k][3] = i.ks[1][1] + 1
      [] i.op = "p1" -> i.t = i.x + 1
      [] i.op = "p1c" -> i.k > 0
      [] i.op = "enc" -> KeyOK(i) /\ i.m = i.x /\ i.g >= i.m
      [] i.op = "dec" -> i.v1 = i.v2 /\ i.c = i.v1 /\ i.g >= i.c /\ (i.pw = 0 \/ i.pw >= i.c)
      [] i.op = "decd" -> i.g >= i.c
      [] i.op = "verc" -> KeyOK(i) /\ i.c = i.x
      [] i.op = "batch" -> i.cs # <<>> /\ i.coef = Len(i.cs) /\ KeyOK(i) /\ \A k \in DOMAIN i.cs : i.cs[k] = i.x
      [] i.op = "calcd" -> i.vk = i.c + 1
      [] i.op = "share" -> i.c = i.s
      [] i.op = "cshare" -> i.a = i.b
      [] i.op = "apply" -> i.c = i.w
      [] i.op = "add" -> i.a = i.b

FitsIsClosed == Fits(it, N) <=> Closed(it)
\* a result is never shorter than an argument it is made from, position by position
NoTruncation ==
    (it.op \in {"share", "cshare", "apply", "add", "enc"} /\ Fits(it, N)) =>
        \A v \in { <<"c">>, <<"s">>, <<"a">>, <<"b">>, <<"w">>, <<"m">> } :
            Out(it, N)[1] >= Cardinality({p \in Given(it) : p[1] = v[1]})

ASSUME IF "DVE_OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.DVE_OUT, SetToSeq(Items)) ELSE TRUE
=============================================================================
