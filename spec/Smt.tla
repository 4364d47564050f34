-------------------------------- MODULE Smt --------------------------------
(***************************************************************************)
(* The SMT-LIB formula written for a compiled program, read as a formula of    *)
(* integer arithmetic: under every assignment of naturals to its constants it   *)
(* must be true exactly when the prime and one are what they should be and      *)
(* every constraint holds modulo the prime.                                       *)
(* A session holds the formula as a tree (v: constant, n: number, o: operator),  *)
(* the constants declared, and the program; the machine moves from assignment to  *)
(* assignment.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigNat, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k
vars == <<c, k>>
S == Sessions[c]
P == S.p

\* constants are numbered: 1 is ~prime, 2 is ~one, then the variables of the program
RECURSIVE Num(_,_), Truth(_,_), Used(_)
Sum(xs) == LET RECURSIVE go(_) go(i) == IF i = 0 THEN <<>> ELSE BAdd(go(i - 1), xs[i]) IN go(Len(xs))
Prod(xs) == LET RECURSIVE go(_) go(i) == IF i = 0 THEN <<1>> ELSE BMul(go(i - 1), xs[i]) IN go(Len(xs))
Num(t, e) ==
  CASE t.k = "n" -> t.n
    [] t.k = "v" -> e[t.v]
    [] t.o = "+" -> Sum([i \in DOMAIN t.xs |-> Num(t.xs[i], e)])
    [] t.o = "*" -> Prod([i \in DOMAIN t.xs |-> Num(t.xs[i], e)])
    [] t.o = "mod" -> BMod(Num(t.xs[1], e), Num(t.xs[2], e))
Truth(t, e) ==
  CASE t.o = "and" -> \A i \in DOMAIN t.xs : Truth(t.xs[i], e)
    [] t.o = "=" -> \A i \in 2..Len(t.xs) : Num(t.xs[i], e) = Num(t.xs[1], e)
Used(t) == IF t.k = "v" THEN {t.v} ELSE IF t.k = "n" THEN {} ELSE UNION {Used(t.xs[i]) : i \in DOMAIN t.xs}

Holds(x, e) == BMod(BMul(BDot(x.l, e, P), BDot(x.r, e, P)), P) = BDot(x.o, e, P)
Meaning(e) == e[1] = P /\ e[2] = <<1>> /\ \A i \in DOMAIN S.st : Holds(S.st[i], e)

Bad(what) == PrintT("@@C11|" \o ToString(S.id) \o "|" \o ToString(k) \o "|" \o what)
Check(ok, what) == IF ok THEN TRUE ELSE Bad(what)
Init == c \in DOMAIN Sessions /\ k = 0
Declared ==
  /\ k = 0 /\ k' = 1 /\ c' = c
  /\ Check(Cardinality({S.declared[i] : i \in DOMAIN S.declared}) = Len(S.declared), "a constant is declared twice")
  /\ Check(UNION {Used(S.formula[i]) : i \in DOMAIN S.formula} \subseteq {S.declared[i] : i \in DOMAIN S.declared}, "a constant is not declared")
  /\ Check(1..S.n \subseteq {S.declared[i] : i \in DOMAIN S.declared}, "a variable of the program is missing")
Assign ==
  /\ k \in 1..Len(S.envs) /\ k' = k + 1 /\ c' = c
  /\ \E e \in {S.envs[k]} :
       LET f == \A i \in DOMAIN S.formula : Truth(S.formula[i], e) m == Meaning(e)
       IN  /\ Check(f = m, "the formula is " \o ToString(f) \o ", the constraints " \o ToString(m))
           /\ PrintT("##" \o ToString(m))
Next == Declared \/ Assign
Spec == Init /\ [][Next]_vars
=============================================================================
