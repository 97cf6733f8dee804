------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Which lengths fit together.  An item is a call: operation name and the   *)
(* lengths of its vector arguments.  For every operation:                   *)
(*   Given(it)   the positions that are passed,                             *)
(*   Reads(it)   the positions the result is defined from,                  *)
(*   Surplus(it) vectors of which more may be passed than is read.          *)
(* A call fits when everything read was passed and everything passed is     *)
(* read or allowed surplus; only then a result may be produced.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Vec(name, len) == { <<name, i>> : i \in 1..len }
VecFrom(name, lo, hi) == { <<name, i>> : i \in lo..hi }

\* keys are consistent when their own vectors fit
KeyGiven(x, y, z) == Vec("X", x) \cup Vec("Y", y) \cup Vec("Z", z)
KeyReads(x) == Vec("X", x) \cup Vec("Y", x) \cup Vec("Z", x + 1)

MaxChunks == 255

Given(it) ==
    CASE it.op = "ekcount"  -> KeyGiven(it.x, it.y, it.z)
      [] it.op = "dkcount"  -> Vec("V1", it.v1) \cup Vec("V2", it.v2)
      [] it.op \in {"keygen", "partial"} -> Vec("g", it.g)
      [] it.op = "pow"      -> Vec("V1", it.v1) \cup Vec("V2", it.v2) \cup Vec("g", it.g)
      [] it.op = "combine"  -> UNION { { <<v[1], k, v[2]>> : v \in KeyGiven(it.ks[k][1], it.ks[k][2], it.ks[k][3]) }
                                       : k \in DOMAIN it.ks }
      [] it.op = "p1"       -> Vec("X", it.x) \cup Vec("t", it.t)
      [] it.op = "p1c"      -> Vec("p", it.k)
      [] it.op = "enc"      -> Vec("m", it.m) \cup KeyGiven(it.x, it.y, it.z) \cup Vec("g", it.g)
      [] it.op = "dec"      -> Vec("c", it.c) \cup Vec("V1", it.v1) \cup Vec("V2", it.v2) \cup Vec("g", it.g) \cup Vec("pow", it.pw)
      [] it.op = "decd"     -> Vec("c", it.c) \cup Vec("g", it.g)
      [] it.op = "verc"     -> Vec("c", it.c) \cup KeyGiven(it.x, it.y, it.z)
      [] it.op = "batch"    -> UNION { { <<v[1], k, v[2]>> : v \in Vec("c", it.cs[k]) } : k \in DOMAIN it.cs }
                               \cup Vec("coef", it.coef) \cup KeyGiven(it.x, it.y, it.z)
      [] it.op = "calcd"    -> Vec("c", it.c) \cup Vec("vk", it.vk)
      [] it.op = "share"    -> Vec("c", it.c) \cup Vec("s", it.s)
      [] it.op = "cshare"   -> Vec("a", it.a) \cup Vec("b", it.b)
      [] it.op = "apply"    -> Vec("c", it.c) \cup Vec("w", it.w)
      [] it.op = "add"      -> Vec("a", it.a) \cup Vec("b", it.b)

\* n: number of chunks of the configured chunk size
Reads(it, n) ==
    CASE it.op = "ekcount"  -> KeyReads(it.x)
      [] it.op = "dkcount"  -> Vec("V1", it.v1) \cup Vec("V2", it.v1)
      [] it.op \in {"keygen", "partial"} -> Vec("g", n)
      [] it.op = "pow"      -> Vec("V1", it.v1) \cup Vec("V2", it.v1) \cup Vec("g", it.v1)
      [] it.op = "combine"  -> IF it.ks = <<>> THEN { <<"none">> }
                               ELSE UNION { { <<v[1], k, v[2]>> : v \in KeyReads(it.ks[1][1]) } : k \in DOMAIN it.ks }
      [] it.op = "p1"       -> Vec("X", it.x) \cup Vec("t", it.x + 1)
      [] it.op = "p1c"      -> IF it.k = 0 THEN { <<"none">> } ELSE Vec("p", it.k)
      [] it.op = "enc"      -> Vec("m", it.x) \cup KeyReads(it.x) \cup Vec("g", it.x)
      [] it.op = "dec"      -> Vec("c", it.c) \cup Vec("V1", it.c) \cup Vec("V2", it.c) \cup Vec("g", it.c)
                               \* an empty table stands for no table
                               \cup (IF it.pw = 0 THEN {} ELSE Vec("pow", it.c))
      [] it.op = "decd"     -> Vec("c", it.c) \cup Vec("g", it.c)
      [] it.op = "verc"     -> Vec("c", it.x) \cup KeyReads(it.x)
      [] it.op = "batch"    -> IF it.cs = <<>> THEN { <<"none">> }
                               ELSE UNION { { <<v[1], k, v[2]>> : v \in Vec("c", it.x) } : k \in DOMAIN it.cs }
                                    \cup Vec("coef", Len(it.cs)) \cup KeyReads(it.x)
      [] it.op = "calcd"    -> Vec("c", it.c) \cup Vec("vk", it.c + 1)
      [] it.op = "share"    -> Vec("c", it.c) \cup Vec("s", it.c)
      [] it.op = "cshare"   -> Vec("a", it.a) \cup Vec("b", it.a)
      [] it.op = "apply"    -> Vec("c", it.c) \cup Vec("w", it.c)
      [] it.op = "add"      -> Vec("a", it.a) \cup Vec("b", it.a)

Surplus == {"g", "pow"}
Fits(it, n) ==
    /\ Reads(it, n) \subseteq Given(it)
    /\ \A p \in Given(it) \ Reads(it, n) : p[1] \in Surplus

\* the count of chunks is one byte wide
Countable(it) ==
    CASE it.op \in {"ekcount", "enc", "verc", "batch"} -> it.x <= MaxChunks
      [] it.op \in {"dkcount", "pow", "dec"} -> it.v1 <= MaxChunks
      [] OTHER -> TRUE

\* operations without an error result abort
Aborts == {"combine", "p1", "p1c"}
\* a verdict, not a product: with fitting lengths it may go either way
Verdicts == {"verc", "batch"}

Expect(it, n) ==
    IF Fits(it, n) /\ Countable(it) THEN (IF it.op \in Verdicts THEN {"ok", "err"} ELSE {"ok"})
    ELSE IF it.op \in Aborts THEN {"panic"} ELSE {"err"}

\* lengths of the result
Out(it, n) ==
    CASE it.op = "ekcount" -> <<it.x>>
      [] it.op = "dkcount" -> <<it.v1>>
      [] it.op = "keygen"  -> <<n, n, n + 1, n, n>>
      [] it.op = "partial" -> <<n, n, n + 1, n, n + 1>>
      [] it.op = "pow"     -> [i \in 1..it.v1 |-> 15]
      [] it.op = "combine" -> <<it.ks[1][1], it.ks[1][1], it.ks[1][1] + 1>>
      [] it.op = "enc"     -> <<it.m + 2>>
      [] it.op \in {"dec", "decd", "share"} -> <<it.c>>
      [] it.op = "apply"   -> <<it.c + 1>>
      [] it.op \in {"cshare", "add"} -> <<it.a>>
      [] OTHER -> <<>>
=============================================================================
