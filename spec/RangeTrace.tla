------------------------------ MODULE RangeTrace ------------------------------
(***************************************************************************)
(* The range circuit (C08).                                                 *)
(*                                                                          *)
(* The input is the constraint system the code generates (matrices of the   *)
(* quadratic constraints <A,z> * <B,z> = <C,z>) for several fields, bit     *)
(* sizes and numbers of values, and the code's verdict on given values.     *)
(*                                                                          *)
(* Small fields.  The prover is a state machine that assigns one variable   *)
(* after the other, any field element not contradicting a constraint whose  *)
(* variables are all assigned.  TLC explores every prover.  Complete        *)
(* assignments must have in-range public values (soundness), and every      *)
(* vector of in-range values must be reached (completeness).  Constraint    *)
(* systems without common variables are explored separately.                *)
(*                                                                          *)
(* Production field.  The values each variable may take in any satisfying   *)
(* assignment are narrowed until nothing changes; the system is decided if  *)
(* what remains is v = sum of 2^i * b_i over free bits b_0..b_(size-1).     *)
(* Systems that are not decided this way are not judged by it: the values   *)
(* and altered witnesses tried on the code (Probe) still are.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.DVE_TRACE)

VARIABLES item, comp, pos, asg, bad
vars == <<item, comp, pos, asg, bad>>

RECURSIVE Pow2(_)
Pow2(b) == IF b = 0 THEN 1 ELSE 2 * Pow2(b - 1)
RECURSIVE PowMod(_, _, _)
PowMod(x, e, q) ==
    IF e = 0 THEN 1
    ELSE LET h == PowMod((x * x) % q, e \div 2, q) IN IF e % 2 = 1 THEN (x * h) % q ELSE h
Min2(a, b) == IF a < b THEN a ELSE b

Bits(q) == CASE q = 13 -> 4 [] q = 257 -> 9 [] q = 40961 -> 16 [] q = 0 -> 255

(***************************************************************************)
(* A term is <<column, s, e>> for the coefficient s * 2^e (e = 0 in small   *)
(* fields); column 0 is the constant one, 1..ninst-1 the public values.     *)
(***************************************************************************)
LcVars(lc) == {lc[i][1] : i \in DOMAIN lc} \ {0}
ConVars(c) == LcVars(c.a) \cup LcVars(c.b) \cup LcVars(c.c)
Columns(e) == 1..(e.ninst + e.nwit - 1)

Merge(parts, vs) ==
    LET hit == {p \in parts : p \cap vs # {}} IN (parts \ hit) \cup {vs \cup UNION hit}
Components(e) ==
    FoldLeft(LAMBDA parts, c : IF ConVars(c) = {} THEN parts ELSE Merge(parts, ConVars(c)), {{x} : x \in Columns(e)}, e.cons)

(***************************************************************************)
(* Order of assignment within a component: variables a constraint determines*)
(* from assigned ones first, then those with a constraint of their own.     *)
(***************************************************************************)
RECURSIVE Order(_, _, _)
Order(vs, sets, seq) ==
    IF vs = {} THEN seq
    ELSE LET open == {s \cap vs : s \in sets}
             det  == {s \in open : Cardinality(s) = 1}
             own  == {x \in vs : {x} \in sets}
             pick == IF det \ {{x} : x \in own} # {} THEN Min(UNION (det \ {{x} : x \in own}))
                     ELSE IF own # {} THEN Min(own) ELSE Min(vs)
         IN  Order(vs \ {pick}, sets, Append(seq, pick))

\* the columns of the values: public, or found among the prover's own by what they are assigned
Count(e) == IF e.nv >= 0 THEN e.nv ELSE IF e.b = 0 THEN -1 ELSE (Bits(e.q) + e.b - 1) \div e.b
Values(e) == IF e.public THEN 1..(e.ninst - 1) ELSE Range(e.vcols)

Analyse(e) ==
    LET cs == SetToSeq(Components(e))
        one(vs) ==
            LET cons == {i \in DOMAIN e.cons : ConVars(e.cons[i]) # {} /\ ConVars(e.cons[i]) \subseteq vs}
                ord  == Order(vs, {ConVars(e.cons[i]) : i \in cons}, <<>>)
                at(x) == CHOOSE k \in DOMAIN ord : ord[k] = x
            IN  [ ord |-> ord,
                  inst |-> SetToSortSeq(vs \cap Values(e), <),
                  ready |-> [k \in DOMAIN ord |->
                     {i \in cons : k = Max({at(x) : x \in ConVars(e.cons[i])})}] ]
    IN  [k \in DOMAIN cs |-> one(cs[k])]

Small(e) == e.ev = "R1cs" /\ e.res = "ok" /\ e.q > 0
Prog == [i \in DOMAIN Trace |-> IF Small(Trace[i]) THEN Analyse(Trace[i]) ELSE <<>>]

(***************************************************************************)
(* Evaluation modulo q with one variable x left open: constant and slope    *)
(***************************************************************************)
Ev(lc, f, q) == FoldLeft(LAMBDA acc, t : (acc + t[2] * (IF t[1] = 0 THEN 1 ELSE f[t[1]])) % q, 0, lc)
Ev0(lc, f, x, q) == FoldLeft(LAMBDA acc, t : IF t[1] = x THEN acc ELSE (acc + t[2] * (IF t[1] = 0 THEN 1 ELSE f[t[1]])) % q, 0, lc)
Sl(lc, x, q) == FoldLeft(LAMBDA acc, t : IF t[1] = x THEN (acc + t[2]) % q ELSE acc, 0, lc)

Roots(c, f, x, q) ==
    LET a0 == Ev0(c.a, f, x, q)  a1 == Sl(c.a, x, q)
        b0 == Ev0(c.b, f, x, q)  b1 == Sl(c.b, x, q)
        c0 == Ev0(c.c, f, x, q)  c1 == Sl(c.c, x, q)
        root(k, l) == (((q - k) % q) * PowMod(l, q - 2, q)) % q      \* k + l x = 0
        k0 == (((a0 * b0) % q) + (q - c0)) % q
        k1 == ((((a0 * b1) % q) + ((a1 * b0) % q)) + (q - c1)) % q
        k2 == (a1 * b1) % q
    IN  IF k2 = 0 THEN IF k1 # 0 THEN {root(k0, k1)} ELSE IF k0 = 0 THEN 0..(q - 1) ELSE {}
        ELSE IF c0 = 0 /\ c1 = 0 THEN {root(a0, a1), root(b0, b1)}
        ELSE {y \in 0..(q - 1) : (k0 + ((y * ((k1 + ((y * k2) % q)) % q)) % q)) % q = 0}

\* field elements the next variable may take
Cands(e, p, k, f) ==
    LET q == e.q  x == p.ord[k] IN
    IF p.ready[k] = {} THEN 0..(q - 1)
    ELSE LET i0 == CHOOSE i \in p.ready[k] : \A j \in p.ready[k] : Cardinality(ConVars(e.cons[i])) <= Cardinality(ConVars(e.cons[j]))
         IN  {y \in Roots(e.cons[i0], f, x, q) :
                \A i \in p.ready[k] \ {i0} :
                   LET g == (x :> y) @@ f  c == e.cons[i] IN (Ev(c.a, g, q) * Ev(c.b, g, q)) % q = Ev(c.c, g, q)}

\* constraints without variables
Constant(e) == {c \in Range(e.cons) : ConVars(c) = {}}
ConstOK(e) == \A c \in Constant(e) : (Ev(c.a, <<>>, e.q) * Ev(c.b, <<>>, e.q)) % e.q = Ev(c.c, <<>>, e.q)

InRange(v, b) == b >= 17 \/ v < Pow2(b)

(***************************************************************************)
(* Narrowing over the production field.  dom[x] is <<>> when nothing is     *)
(* known about x, otherwise <<S>> with S a set of small integers containing *)
(* the value of x in every satisfying assignment.                           *)
(***************************************************************************)
SmallLc(lc) == \A i \in DOMAIN lc : lc[i][3] \in 0..8 /\ lc[i][2] \in -64..64
IEv(lc, f, x) == FoldLeft(LAMBDA acc, t : IF t[1] = x THEN acc ELSE acc + t[2] * Pow2(t[3]) * (IF t[1] = 0 THEN 1 ELSE f[t[1]]), 0, lc)
ISl(lc, x) == FoldLeft(LAMBDA acc, t : IF t[1] = x THEN acc + t[2] * Pow2(t[3]) ELSE acc, 0, lc)

\* assignments of the variables vs from their domains
RECURSIVE Fillings(_, _)
Fillings(vs, dom) ==
    IF vs = {} THEN {<<>>}
    ELSE LET x == CHOOSE x \in vs : TRUE  r == Fillings(vs \ {x}, dom)
         IN  {(x :> v) @@ f : v \in dom[x][1], f \in r}

Unknown == 100000
\* integers x with (a0 + a1 x)(b0 + b1 x) = c0 + c1 x; Unknown if there may be others
IRoots(a0, a1, b0, b1, c0, c1) ==
    LET lin(k, l) == IF k % (IF l < 0 THEN -l ELSE l) = 0 THEN {(0 - k) \div l} ELSE {Unknown}
        k0 == a0 * b0 - c0   k1 == a0 * b1 + a1 * b0 - c1
    IN  IF a1 * b1 = 0
        THEN IF k1 # 0 THEN lin(k0, k1) ELSE IF k0 # 0 THEN {} ELSE {Unknown}
        ELSE IF c0 = 0 /\ c1 = 0 THEN lin(a0, a1) \cup lin(b0, b1) ELSE {Unknown}

Narrow(c, dom) ==
    LET vs == ConVars(c)
        un == {x \in vs : dom[x] = <<>>}
        kn == vs \ un
        usable == Cardinality(vs) <= 5 /\ Cardinality(un) <= 1 /\ SmallLc(c.a) /\ SmallLc(c.b) /\ SmallLc(c.c)
                  /\ \A x \in kn : Cardinality(dom[x][1]) <= 4 /\ \A v \in dom[x][1] : v \in -64..64
    IN  IF ~usable \/ vs = {} THEN dom
        ELSE IF un = {}
        THEN LET ok == {f \in Fillings(vs, dom) : IEv(c.a, f, -1) * IEv(c.b, f, -1) = IEv(c.c, f, -1)}
                 new == [x \in vs |-> <<{f[x] : f \in ok}>>]
             IN  IF \A x \in vs : new[x] = dom[x] THEN dom ELSE new @@ dom
        ELSE LET x == CHOOSE x \in un : TRUE
                 rs == UNION {IRoots(IEv(c.a, f, x), ISl(c.a, x), IEv(c.b, f, x), ISl(c.b, x), IEv(c.c, f, x), ISl(c.c, x)) :
                              f \in Fillings(kn, dom)}
             IN  IF Unknown \in rs \/ Cardinality(rs) > 4 \/ (\E v \in rs : v \notin -64..64) THEN dom ELSE (x :> <<rs>>) @@ dom

Sweep(cons, dom) == FoldLeft(LAMBDA d, c : Narrow(c, d), dom, cons)
RECURSIVE Fix(_, _, _)
Fix(cons, dom, k) ==
    LET d1 == Sweep(cons, dom)
        d2 == Sweep(Reverse(cons), d1)
    IN  IF k = 0 \/ d2 = dom THEN d2 ELSE Fix(cons, d2, k - 1)

\* a linear equation: <<TRUE, terms>> for sum of terms = 0
NegLc(lc) == [i \in DOMAIN lc |-> <<lc[i][1], 0 - lc[i][2], lc[i][3]>>]
IsOne(lc) == lc = << <<0, 1, 0>> >>
Linear(c) ==
    IF c.a = <<>> \/ c.b = <<>> THEN <<TRUE, c.c>>
    ELSE IF IsOne(c.b) THEN <<TRUE, c.a \o NegLc(c.c)>>
    ELSE IF IsOne(c.a) THEN <<TRUE, c.b \o NegLc(c.c)>>
    ELSE <<FALSE, <<>> >>

\* is the component of public value v decided?  cons: its constraints
DecidedBlock(cons, v, b, vs) ==
    LET dom == Fix(cons, [x \in vs |-> <<>>], 6)
        ofv == {i \in DOMAIN cons : v \in ConVars(cons[i])}
        i0  == CHOOSE i \in ofv : TRUE
        lin == Linear(cons[i0])
        \* terms that matter: the variable is not forced to zero
        ts  == SelectSeq(lin[2], LAMBDA t : t[1] = 0 \/ dom[t[1]] # <<{0}>>)
        sg  == LET t == SelectSeq(ts, LAMBDA u : u[1] = v) IN IF Len(t) = 1 /\ t[1][3] = 0 THEN t[1][2] ELSE 0
        rest == SelectSeq(ts, LAMBDA u : u[1] # v)
        free == {rest[i][1] : i \in DOMAIN rest}
        empty == \E x \in vs : dom[x] = <<{}>>
        shape == /\ Cardinality(ofv) = 1 /\ lin[1] /\ sg \in {1, -1} /\ dom[v] = <<>>
                 /\ 0 \notin free
                 /\ Len(rest) = Cardinality(free)
                 /\ \A i \in DOMAIN rest : rest[i][2] = 0 - sg /\ dom[rest[i][1]] = <<{0, 1}>>
                 /\ {rest[i][3] : i \in DOMAIN rest} = 0..(b - 1)
                 /\ Len(rest) = b
        \* every other constraint holds whatever the free bits are
        others == \A i \in DOMAIN cons : i = i0 \/
                     (/\ Cardinality(ConVars(cons[i])) <= 5
                      /\ \A x \in ConVars(cons[i]) : dom[x] # <<>> /\ (x \in free \/ Cardinality(dom[x][1]) = 1)
                      /\ SmallLc(cons[i].a) /\ SmallLc(cons[i].b) /\ SmallLc(cons[i].c)
                      /\ \A f \in Fillings(ConVars(cons[i]), dom) :
                            IEv(cons[i].a, f, -1) * IEv(cons[i].b, f, -1) = IEv(cons[i].c, f, -1))
    IN  ~empty /\ ofv # {} /\ shape /\ others

\* the values of a large system: copies of the first block, decided if that is
ShiftLc(lc, ninst, k, m) ==
    [i \in DOMAIN lc |-> <<IF lc[i][1] = 0 THEN 0 ELSE IF lc[i][1] < ninst THEN lc[i][1] + k ELSE lc[i][1] + k * m, lc[i][2], lc[i][3]>>]
SameLc(x, y) == Len(x) = Len(y) /\ (x = y \/ Range(x) = Range(y))
Decided(e) ==
    LET n == e.ninst - 1
        m == e.nwit \div Min2(n, e.nwit + 1)
        k == Len(e.cons) \div n
        cols == {1} \cup (e.ninst)..(e.ninst + m - 1)
        block == SubSeq(e.cons, 1, k)
    IN  /\ n >= 1 /\ m * n = e.nwit /\ k * n = Len(e.cons)
        /\ \A i \in 1..k : ConVars(block[i]) \subseteq cols
        /\ \A j \in 1..(n - 1) : \A i \in 1..k :
              LET x == block[i]  y == e.cons[j * k + i] IN
              /\ SameLc(ShiftLc(x.a, e.ninst, j, m), y.a)
              /\ SameLc(ShiftLc(x.b, e.ninst, j, m), y.b)
              /\ SameLc(ShiftLc(x.c, e.ninst, j, m), y.c)
        /\ DecidedBlock(block, 1, e.b, cols)

(***************************************************************************)
(* Events that need no search                                               *)
(***************************************************************************)
Fail(cond, l) == IF cond THEN {} ELSE l

\* a value as big-endian bytes: smaller than 2^b?
BytesBelow(v, b) ==
    \A i \in DOMAIN v :
       LET w == 8 * (Len(v) - i)                  \* weight of the last bit of byte i
       IN  IF w >= b THEN v[i] = 0 ELSE IF w + 8 <= b THEN TRUE ELSE v[i] < Pow2(b - w)

Flat(e) ==
    IF e.res # "ok" THEN {"C08:generate"}
    ELSE IF e.ev = "R1cs"
    THEN Fail(e.same, {"C08:structure"})
         \cup Fail((IF e.public THEN e.ninst - 1 = Count(e) ELSE e.ninst = 1 /\ e.nwit >= Count(e)), {"C08:count"})
         \cup Fail(e.q = 0 \/ ConstOK(e), {"C08:constant"})
    ELSE LET good == \A i \in DOMAIN e.vals : BytesBelow(e.vals[i], e.b) IN
         Fail(e.order, {"C08:order"})
         \cup Fail(good => e.sat, {"C08:probe.complete"})
         \cup Fail(~good => ~e.sat, {"C08:probe.sound"})
         \cup Fail(~good => e.cheats = 0, {"C08:probe.cheat"})

(***************************************************************************)
(* One prover per way of choosing: decides most unsound systems without a   *)
(* search (a system without constraints on a value has too many provers).   *)
(***************************************************************************)
RECURSIVE Walk(_, _, _, _, _)
Walk(e, p, k, f, how) ==
    IF k > Len(p.ord) THEN \E j \in DOMAIN p.inst : ~InRange(f[p.inst[j]], e.b)
    ELSE LET cs == Cands(e, p, k, f)
             y  == CASE how = 1 -> Max(cs) [] how = 2 -> Min(cs)
                     [] how = 3 -> IF k % 2 = 0 THEN Max(cs) ELSE Min(cs)
                     [] OTHER -> LET s == SetToSortSeq(cs, <) IN s[1 + ((how * k + how) % Len(s))]
         IN  cs # {} /\ Walk(e, p, k + 1, (p.ord[k] :> y) @@ f, how)
Exposed(e, p) == \E how \in 1..12 : Walk(e, p, 1, <<>>, how)

\* registers: 0 - shown unsound; others - values reached, per item and component
Reg(i, c) == 1000 * i + c
Init ==
    /\ item \in DOMAIN Trace
    /\ comp \in 0..Len(Prog[item])
    /\ pos = 0
    /\ asg = <<>>
    /\ comp = 0 => TLCSet(Reg(item, 0), FALSE)
    /\ comp > 0 => TLCSet(Reg(item, comp), {})
    /\ bad = IF comp = 0 THEN Flat(Trace[item])
             ELSE IF Exposed(Trace[item], Prog[item][comp]) /\ TLCSet(Reg(item, 0), TRUE) THEN {"C08:sound"} ELSE {}
    /\ bad # {} => PrintT("DVEFAIL " \o ToJson([l |-> item, bad |-> bad]))
    /\ comp = 0 => (Trace[item].ev = "R1cs" /\ Trace[item].res = "ok" /\ Trace[item].q = 0 /\ Trace[item].public
                    => PrintT("DVENOTE " \o (IF Decided(Trace[item]) THEN "decided" ELSE "undecided") \o " b=" \o ToString(Trace[item].b)))

\* the prover's next choice
Next ==
    /\ comp > 0
    /\ ~TLCGet(Reg(item, 0))          \* already shown unsound
    /\ pos < Len(Prog[item][comp].ord)
    /\ LET e == Trace[item]  p == Prog[item][comp] IN
       \E y \in Cands(e, p, pos + 1, asg) :
         LET f == (p.ord[pos + 1] :> y) @@ asg
             leaf == pos + 1 = Len(p.ord)
             vals == IF leaf THEN [k \in DOMAIN p.inst |-> f[p.inst[k]]] ELSE <<>>
             wrong == leaf /\ \E k \in DOMAIN vals : ~InRange(vals[k], e.b)
         IN  /\ pos' = pos + 1
             /\ asg' = f
             /\ bad' = IF wrong THEN {"C08:sound"} ELSE {}
             /\ wrong /\ ~TLCGet(Reg(item, 0))
                  => TLCSet(Reg(item, 0), TRUE) /\ PrintT("DVEFAIL " \o ToJson([l |-> item, bad |-> bad']))
             /\ leaf => TLCSet(Reg(item, comp), TLCGet(Reg(item, comp)) \cup {vals})
             /\ UNCHANGED <<item, comp>>

Spec == Init /\ [][Next]_vars

\* every vector of in-range values was reached
Vectors(n, hi) == [1..n -> 0..hi]
Complete ==
    \A i \in DOMAIN Trace : \A c \in DOMAIN Prog[i] :
       LET e == Trace[i]
           got == TLCGet(Reg(i, c))
           want == Vectors(Len(Prog[i][c].inst), IF e.b >= 17 THEN e.q - 1 ELSE Min2(Pow2(e.b), e.q) - 1)
       IN  want \subseteq got
           \/ TLCGet(Reg(i, 0))
           \/ PrintT("DVEFAIL " \o ToJson([l |-> i, bad |-> {"C08:complete"}]))
=============================================================================
