-------------------------------- MODULE Ir --------------------------------
(***************************************************************************)
(* The compiled form of a program: a rank-1 constraint system together     *)
(* with directives which tell an honest prover how to compute what the     *)
(* constraints do not define.  A program S is a record                     *)
(*   p, bits  the field prime and its width                                *)
(*   n        the number of variables; variable 1 is the constant one      *)
(*   args     the argument variables in order; pub[i] says which are public*)
(*   rets     the output variables in order                                *)
(*   st       the statements:                                              *)
(*     [t |-> "c", l, r, o]     l * r = o, each a sequence of <<var, coef>>*)
(*     [t |-> "d", s, w, i, o]  outputs o given by solver s (width w) from *)
(*                              inputs i, each [l, r], a product            *)
(* An assignment is a sequence of n field elements or NA.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigNat

NA == <<10000>>
\* (SubSeq makes TLC hold the sequence explicitly)
Unassigned(n) == SubSeq([v \in 1..n |-> NA], 1, n)
FAdd(p, a, b) == BMod(BAdd(a, b), p)
FSub(p, a, b) == BMod(BAdd(a, BSub(p, b)), p)
FMul(p, a, b) == BMod(BMul(a, b), p)
FNeg(p, a) == IF a = <<>> THEN a ELSE BSub(p, a)
FInv(p, a) == BModExp(a, BSub(p, <<2>>), p)

\* the value of a linear combination / of a product, all of whose variables are assigned
Lin(S, asg, ts) == BDot(ts, asg, S.p)
Quad(S, asg, q) == FMul(S.p, Lin(S, asg, q.l), Lin(S, asg, q.r))
Vars(ts) == {ts[i][1] : i \in DOMAIN ts}
Known(asg, ts) == \A i \in DOMAIN ts : asg[ts[i][1]] # NA
Holds(S, asg, c) == FMul(S.p, Lin(S, asg, c.l), Lin(S, asg, c.r)) = Lin(S, asg, c.o)

---------------------------------------------------------------------------
(* The honest prover                                                       *)

MSB(bs) == [i \in DOMAIN bs |-> bs[Len(bs) + 1 - i]]
Bit(b) == IF b = 1 THEN <<1>> ELSE <<>>

\* the solvers with a definition here; the others are functions which come with the program
Defined == {"Bits", "ConditionEq", "Div", "Xor", "Or", "EuclideanDiv", "ShaCh", "ShaAndXorAndXorAnd"}
Solver(S, d, in) ==
  LET p == S.p IN
  CASE d.s = "Bits" -> LET bs == MSB(BBits(in[1], d.w)) IN [i \in DOMAIN bs |-> Bit(bs[i])]
    [] d.s = "ConditionEq" -> IF in[1] = <<>> THEN << <<>>, <<1>> >> ELSE << <<1>>, FInv(p, in[1]) >>
    [] d.s = "Div" -> << IF in[2] = <<>> THEN <<1>> ELSE FMul(p, in[1], FInv(p, in[2])) >>
    [] d.s = "Xor" -> << FSub(p, FAdd(p, in[1], in[2]), FMul(p, <<2>>, FMul(p, in[1], in[2]))) >>
    [] d.s = "Or" -> << FSub(p, FAdd(p, in[1], in[2]), FMul(p, in[1], in[2])) >>
    [] d.s = "EuclideanDiv" -> IF in[2] = <<>> THEN << <<>>, in[1] >> ELSE << BDiv(in[1], in[2]), BMod(in[1], in[2]) >>
    [] d.s = "ShaCh" -> << FAdd(p, FMul(p, in[1], FSub(p, in[2], in[3])), in[3]) >>
    [] d.s = "ShaAndXorAndXorAnd" ->
         LET bc == FMul(p, in[2], in[3])
         IN  << FSub(p, bc, FMul(p, FSub(p, FSub(p, FMul(p, <<2>>, bc), in[2]), in[3]), in[1])) >>

RECURSIVE AssignAll(_,_,_,_)
AssignAll(asg, vs, xs, i) == IF i > Len(vs) THEN asg ELSE AssignAll([asg EXCEPT ![vs[i]] = xs[i]], vs, xs, i + 1)

Enter(S, enc) == AssignAll([Unassigned(S.n) EXCEPT ![1] = <<1>>], S.args, enc, 1)

\* One statement executed by the honest prover: [st, asg]; st is "ok", "fail" or "stuck".
\* A constraint whose right hand side is a single unassigned variable defines it.
\* wit gives the outputs of the solvers which are functions of their own.
Execute1(S, asg, x, wit) ==
  IF x.t = "c"
  THEN IF ~(Known(asg, x.l) /\ Known(asg, x.r)) THEN [st |-> "stuck", asg |-> asg]
       ELSE IF Len(x.o) = 1 /\ x.o[1][2] = <<1>> /\ asg[x.o[1][1]] = NA
       THEN [st |-> "ok", asg |-> [asg EXCEPT ![x.o[1][1]] = Quad(S, asg, x)]]
       ELSE IF ~Known(asg, x.o) THEN [st |-> "stuck", asg |-> asg]
       ELSE [st |-> IF Holds(S, asg, x) THEN "ok" ELSE "fail", asg |-> asg]
  ELSE IF \E i \in DOMAIN x.i : ~(Known(asg, x.i[i].l) /\ Known(asg, x.i[i].r)) THEN [st |-> "stuck", asg |-> asg]
       ELSE IF x.s \notin Defined
            THEN IF wit = <<>> THEN [st |-> "any", asg |-> asg]
                 ELSE [st |-> "ok", asg |-> AssignAll(asg, x.o, [i \in DOMAIN x.o |-> wit[x.o[i]]], 1)]
            ELSE [st |-> "ok", asg |-> AssignAll(asg, x.o, Solver(S, x, [i \in DOMAIN x.i |-> Quad(S, asg, x.i[i])]), 1)]

RECURSIVE ExecuteFrom(_,_,_,_)
ExecuteFrom(S, asg, k, wit) ==
  IF k > Len(S.st) THEN [st |-> "ok", asg |-> asg, at |-> k]
  ELSE LET r == Execute1(S, asg, S.st[k], wit)
       IN  IF r.st # "ok" THEN [st |-> r.st, asg |-> r.asg, at |-> k] ELSE ExecuteFrom(S, r.asg, k + 1, wit)
Execute(S, enc, wit) == ExecuteFrom(S, Enter(S, enc), 1, wit)

---------------------------------------------------------------------------
(* Any prover: whatever assignment satisfies the constraints               *)

\* A linear form under a partial assignment: constant part and the coefficients of the unknowns
\* see BTerms: the coefficients of each variable added up, those which vanish left out
Form(p, asg, ts) ==
  LET kn == SelectSeq(ts, LAMBDA t : asg[t[1]] # NA)
      un == SelectSeq(ts, LAMBDA t : asg[t[1]] = NA)
  IN  [k |-> BDot(kn, asg, p), u |-> BTerms(un, p)]
NonZero(u) == [x \in {y \in DOMAIN u : u[y] # <<>>} |-> u[x]]
Constant(f) == DOMAIN f.u = {}
CoefOf(f, v) == IF v \in DOMAIN f.u THEN f.u[v] ELSE <<>>
\* s * a - b
Combine(p, s, a, b) ==
  [k |-> FSub(p, FMul(p, s, a.k), b.k),
   u |-> NonZero([v \in DOMAIN a.u \union DOMAIN b.u |-> FSub(p, FMul(p, s, CoefOf(a, v)), CoefOf(b, v))])]

\* The constraint under the assignment: [q |-> "lin", f] means f = 0; "sq" A x^2 + B x + C = 0; "bil" anything else
Reduce(S, asg, c) ==
  LET p == S.p L == Form(p, asg, c.l) R == Form(p, asg, c.r) O == Form(p, asg, c.o)
  IN  IF Constant(L) THEN [q |-> "lin", f |-> Combine(p, L.k, R, O)]
      ELSE IF Constant(R) THEN [q |-> "lin", f |-> Combine(p, R.k, L, O)]
      ELSE LET U == DOMAIN L.u \union DOMAIN R.u \union DOMAIN O.u
           IN  IF Cardinality(U) = 1
               THEN LET x == CHOOSE v \in U : TRUE
                        a == CoefOf(L, x) b == CoefOf(R, x)
                    IN  [q |-> "sq", x |-> x, A |-> FMul(p, a, b),
                         B |-> FSub(p, FAdd(p, FMul(p, a, R.k), FMul(p, b, L.k)), CoefOf(O, x)),
                         C |-> FSub(p, FMul(p, L.k, R.k), O.k)]
               ELSE [q |-> "bil", U |-> U]

\* the square roots of a modulo p
Roots(p, A, B, C) ==
  IF C = <<>> THEN {<<>>, FMul(p, FNeg(p, B), FInv(p, A))} ELSE
  LET disc == FSub(p, FMul(p, B, B), FMul(p, <<4>>, FMul(p, A, C)))
      rs == BSqrt(disc, p)
      i2a == FInv(p, FMul(p, <<2>>, A))
  IN  {FMul(p, FSub(p, rs[i], B), i2a) : i \in DOMAIN rs}

\* variables which some constraint alone forces to be 0 or 1
BooleanIn(S, none, c) ==
  LET r == Reduce(S, none, c)
  IN  IF r.q = "sq" /\ r.C = <<>> /\ r.A # <<>> /\ r.B = FNeg(S.p, r.A) THEN {r.x} ELSE {}
Booleans(S) ==
  LET none == [Unassigned(S.n) EXCEPT ![1] = <<1>>]
  IN  UNION {IF S.st[k].t = "c" /\ Len(S.st[k].l) \in 1..2 /\ Len(S.st[k].r) \in 1..2
             THEN BooleanIn(S, none, S.st[k]) ELSE {} : k \in DOMAIN S.st}

\* The solutions over {0,1} of k + sum u[v] * v = 0 when, up to sign, the coefficients are distinct powers of two:
\* the integers up to the sum of the coefficients which are congruent to the rest, read as bits
RECURSIVE Candidates(_,_,_)
Candidates(m, p, top) == IF BLe(m, top) THEN {m} \union Candidates(BAdd(m, p), p, top) ELSE {}
\* at most 2^12 of them are listed
Decompose(S, f) ==
  LET p == S.p
      Try(neg) ==
        LET e == [v \in DOMAIN f.u |-> BLog2(IF neg THEN FNeg(p, f.u[v]) ELSE f.u[v])]
            E == {e[v] : v \in DOMAIN e}
        IN  IF (0 - 1) \in E \/ Cardinality(E) # Cardinality(DOMAIN e) THEN [ok |-> FALSE]
            ELSE LET rest == IF neg THEN f.k ELSE FNeg(p, f.k)
                     hi == CHOOSE x \in E : \A y \in E : y <= x
                     top == BSub(BPow2(hi + 1), <<1>>)
                     N == {m \in Candidates(rest, p, top) :
                             LET b == BBits(m, hi + 1) IN \A j \in 1..(hi + 1) : b[j] = 1 => (j - 1) \in E}
                 IN  IF BLt(BMul(p, <<4096>>), top) THEN [ok |-> FALSE]
                     ELSE [ok |-> TRUE, alts |-> {LET b == BBits(m, hi + 1) IN [v \in DOMAIN e |-> Bit(b[e[v] + 1])] : m \in N}]
      a == Try(FALSE)
  IN  IF a.ok THEN a ELSE Try(TRUE)

Extend(asg, f) ==
  IF Cardinality(DOMAIN f) = 1 THEN LET v == CHOOSE x \in DOMAIN f : TRUE IN [asg EXCEPT ![v] = f[v]]
  ELSE SubSeq([v \in DOMAIN asg |-> IF v \in DOMAIN f THEN f[v] ELSE asg[v]], 1, Len(asg))

\* One pending constraint under the assignment:
\*   [r |-> "drop"] it holds;  "dead": it cannot;  "set": f is forced;  "alts": one of alts;  "wait": not decided
Consider(S, B, asg, c) ==
  LET r == Reduce(S, asg, c) IN
  CASE r.q = "lin" ->
         (LET U == DOMAIN r.f.u IN
          IF U = {} THEN (IF r.f.k = <<>> THEN [r |-> "drop"] ELSE [r |-> "dead"])
          ELSE IF Cardinality(U) = 1
          THEN LET v == CHOOSE x \in U : TRUE
               IN  [r |-> "set", f |-> (v :> FMul(S.p, FNeg(S.p, r.f.k), FInv(S.p, r.f.u[v])))]
          ELSE IF U \subseteq B
          THEN LET d == Decompose(S, r.f)
               IN  IF ~d.ok THEN [r |-> "wait"]
                   ELSE IF d.alts = {} THEN [r |-> "dead"]
                   ELSE IF Cardinality(d.alts) = 1 THEN [r |-> "set", f |-> CHOOSE a \in d.alts : TRUE]
                   ELSE [r |-> "alts", alts |-> d.alts]
          ELSE [r |-> "wait"])
    [] r.q = "sq" ->
         IF r.A = <<>>
         THEN IF r.B = <<>> THEN (IF r.C = <<>> THEN [r |-> "drop"] ELSE [r |-> "dead"])
              ELSE [r |-> "set", f |-> (r.x :> FMul(S.p, FNeg(S.p, r.C), FInv(S.p, r.B)))]
         ELSE LET rs == IF r.x \in B
                        THEN (IF r.C = <<>> THEN {<<>>} ELSE {}) \union
                             (IF FAdd(S.p, r.A, FAdd(S.p, r.B, r.C)) = <<>> THEN {<<1>>} ELSE {})
                        ELSE Roots(S.p, r.A, r.B, r.C)
              IN  IF rs = {} THEN [r |-> "dead"]
                  ELSE IF Cardinality(rs) = 1 THEN [r |-> "set", f |-> (r.x :> CHOOSE x \in rs : TRUE)]
                  ELSE [r |-> "alts", alts |-> {(r.x :> x) : x \in rs}]
    [] OTHER -> [r |-> "wait"]

\* everything which is forced: [dead, asg, pend], pend a sequence of pending statement numbers
RECURSIVE Pass(_,_,_,_,_,_,_)
Pass(S, B, asg, pend, i, keep, moved) ==
  IF i > Len(pend)
  THEN IF moved /\ keep # <<>> THEN Pass(S, B, asg, keep, 1, <<>>, FALSE) ELSE [dead |-> FALSE, asg |-> asg, pend |-> keep]
  ELSE LET r == Consider(S, B, asg, S.st[pend[i]]) IN
       CASE r.r = "dead" -> [dead |-> TRUE, asg |-> asg, pend |-> <<>>]
         [] r.r = "drop" -> Pass(S, B, asg, pend, i + 1, keep, moved)
         [] r.r = "set" -> Pass(S, B, Extend(asg, r.f), pend, i + 1, keep, TRUE)
         [] OTHER -> Pass(S, B, asg, pend, i + 1, Append(keep, pend[i]), moved)
Propagate(S, B, asg, pend) == Pass(S, B, asg, pend, 1, <<>>, FALSE)
AllConstraints(S) == SelectSeq([k \in DOMAIN S.st |-> k], LAMBDA k : S.st[k].t = "c")

\* The choices left to the prover after propagation: a set of partial assignments covering all of them
\* (complete = TRUE), or some of them.  wit is an assignment whose values are tried first, or <<>>.
SmallField(S) == BLt(S.p, <<500>>)
UnknownsOf(S, asg, c) == {v \in Vars(c.l) \union Vars(c.r) \union Vars(c.o) : asg[v] = NA}
FieldValues(S) == {BFromInt(i) : i \in 0..(BToInt(S.p) - 1)}
\* values a dishonest prover might try for a variable whose honest value is w
Tries(S, w) ==
  LET p == S.p IN {w, FAdd(p, w, <<1>>), FSub(p, w, <<1>>), <<>>, <<1>>, FNeg(p, w), BSub(p, <<1>>), FAdd(p, w, <<256>>)}
Choices(S, B, asg, pend, wit) ==
  LET alts == [i \in DOMAIN pend |-> Consider(S, B, asg, S.st[pend[i]])]
      any == {i \in DOMAIN pend : alts[i].r = "alts"}
      dec == {i \in any : Cardinality(DOMAIN (CHOOSE a \in alts[i].alts : TRUE)) > 1}
      few == {i \in any : DOMAIN (CHOOSE a \in alts[i].alts : TRUE) \cap B = {}}
      First(I) == CHOOSE i \in I : \A j \in I : i <= j
      best == IF dec # {} THEN First(dec) ELSE IF few # {} THEN First(few) ELSE IF any # {} THEN First(any) ELSE 0
      \* too many bits to go through: guess the numbers they make up instead
      free(i) == UnknownsOf(S, asg, S.st[pend[i]]) \ B
      guess == {i \in DOMAIN pend : alts[i].r = "wait" /\ Cardinality(free(i)) \in 1..3}
      guessing == dec = {} /\ few = {} /\ Cardinality(any) > 12 /\ ~SmallField(S) /\ guess # {} /\ wit # <<>>
      v == LET U == UnknownsOf(S, asg, S.st[pend[1]]) IN CHOOSE x \in U : \A y \in U : x <= y
      w == IF wit = <<>> THEN <<>> ELSE wit[v]
  IN  IF guessing THEN [complete |-> FALSE, alts |-> UNION {{(x :> y) : y \in Tries(S, wit[x])} : x \in free(First(guess))}]
      ELSE IF best # 0 THEN [complete |-> TRUE, alts |-> alts[best].alts]
      ELSE IF v \in B THEN [complete |-> TRUE, alts |-> {(v :> <<>>), (v :> <<1>>)}]
      ELSE IF SmallField(S) THEN [complete |-> TRUE, alts |-> {(v :> x) : x \in FieldValues(S)}]
      ELSE [complete |-> FALSE, alts |-> {(v :> x) : x \in Tries(S, w)}]
=============================================================================
