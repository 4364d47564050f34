------------------------------ MODULE ZokAsm ------------------------------
(***************************************************************************)
(* Asm blocks.  A hint (<--) gives a variable a value the prover may choose; *)
(* the honest prover chooses that of the expression.  A constraint (===)      *)
(* must hold.  So the meaning of a program with asm blocks is a relation: the  *)
(* outcomes of some inputs are those of every choice for every hint executed    *)
(* under which all constraints and assertions executed hold.                    *)
(*   - The real honest prover must reach the outcome of the honest choices if     *)
(*     there is one, and otherwise fail or reach that of other choices.            *)
(*   - Every assignment which satisfies the compiled program must hold one of     *)
(*     the outcomes.                                                             *)
(*   - The compiler may reject a program only as one whose constraints are not    *)
(*     quadratic or never hold.                                                   *)
(* All values are field elements or arrays of them.                             *)
(***************************************************************************)
EXTENDS Ir, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.CASES)

VARIABLES c, r, B, asg, pend, width, rel, pc
vars == <<c, r, B, asg, pend, width, rel, pc>>

X == Sessions[c]
P == X.prog
S == X.ir
R == X.runs[r]

---------------------------------------------------------------------------
(* Expressions                                                              *)
p == P.p
\* what a division by zero gives, and a comparison of elements too big to be compared
DZ == <<20000>>
Bind(env, n, v) == [x \in DOMAIN env \union {n} |-> IF x = n THEN v ELSE env[x]]
\* positions and amounts: numbers known when the program is compiled
RECURSIVE Num(_,_)
Num(env, e) ==
  CASE e.e = "int" -> e.v
    [] e.e = "lv" -> env[e.n] + e.d
    [] e.e = "rev" -> e.d - env[e.n]
Low(a, n) == BMod(a, BPow2(n))
Op(o, a, b) ==
  CASE o = "+" -> FAdd(p, a, b)
    [] o = "-" -> FSub(p, a, b)
    [] o = "*" -> FMul(p, a, b)
    [] o = "/" -> IF b = <<>> THEN DZ ELSE FMul(p, a, FInv(p, b))
    [] o = "&" -> BAnd(a, b, P.bits)
    [] o = "|" -> BMod(BOr(a, b, P.bits), p)
    [] o = "^" -> BMod(BXor(a, b, P.bits), p)
Shift(o, a, k) ==
  CASE k >= P.bits -> <<>>
    [] k = 0 -> a
    [] o = "<<" -> BMod(Low(BMul(a, BPow2(k)), P.bits), p)
    [] o = ">>" -> BDiv(a, BPow2(k))
Compare(o, a, b) ==
  CASE o = "==" -> a = b [] o = "!=" -> a # b [] o = "<" -> BLt(a, b) [] o = "<=" -> BLe(a, b) [] o = ">" -> BLt(b, a) [] o = ">=" -> BLe(b, a)
RECURSIVE Eval(_,_), Early(_,_)
\* A condition which fails to be computed.  Those within a branch are computed even where it is not taken.
Hazard(env, co, a, b) == a = DZ \/ b = DZ \/ (co.o \in {"<", "<=", ">", ">="} /\ ~(BLt(a, BPow2(P.bits - 2)) /\ BLt(b, BPow2(P.bits - 2))))
Early(env, e) ==
  CASE e.e = "bin" -> Early(env, e.a) \/ Early(env, e.b)
    [] e.e \in {"neg", "pow", "sh"} -> Early(env, e.a)
    [] e.e = "if" -> Hazard(env, e.c, Eval(env, e.c.a), Eval(env, e.c.b)) \/ Early(env, e.a) \/ Early(env, e.b)
    [] OTHER -> FALSE
Eval(env, e) ==
  CASE e.e = "num" -> e.v
    [] e.e = "var" -> env[e.n]
    [] e.e = "idx" -> env[e.n][Num(env, e.i) + 1]
    [] e.e = "bin" -> LET a == Eval(env, e.a) b == Eval(env, e.b) IN IF a = DZ \/ b = DZ THEN DZ ELSE Op(e.o, a, b)
    [] e.e = "neg" -> LET a == Eval(env, e.a) IN IF a = DZ THEN DZ ELSE FNeg(p, a)
    [] e.e = "pow" -> LET a == Eval(env, e.a) IN IF a = DZ THEN DZ ELSE BModExp(a, BFromInt(Num(env, e.k)), p)
    [] e.e = "sh" -> LET a == Eval(env, e.a) IN IF a = DZ THEN DZ ELSE Shift(e.o, a, Num(env, e.k))
    [] e.e = "if" ->
         LET a == Eval(env, e.c.a) b == Eval(env, e.c.b)
         IN  IF Hazard(env, e.c, a, b) \/ Early(env, e.a) \/ Early(env, e.b) THEN DZ
             ELSE IF Compare(e.c.o, a, b) THEN Eval(env, e.a) ELSE Eval(env, e.b)
EvalSeq(env, es) == SubSeq([i \in DOMAIN es |-> Eval(env, es[i])], 1, Len(es))

---------------------------------------------------------------------------
(* Statements, from a set of environments to the set of those after them.   *)
(* A name "#" in the environment records that a hint divided by zero.        *)
Put(env, t, v) == IF t.e = "idx" THEN [env EXCEPT ![t.n][Num(env, t.i) + 1] = v] ELSE Bind(env, t.n, v)
RECURSIVE Exec(_,_,_,_), Step(_,_,_), Loop(_,_,_,_,_), Arrays(_)
Arrays(n) == IF n = 0 THEN {<<>>} ELSE {Append(a, x) : a \in Arrays(n - 1), x \in FieldValues(P)}
Mark(env, vs) == IF \E i \in DOMAIN vs : vs[i] = DZ THEN Bind(env, "#", 1) ELSE env
Step(env, s, honest) ==
  CASE s.s = "let" -> {Bind(env, s.n, Eval(env, s.x))}
    [] s.s = "arr" -> {Bind(env, s.n, EvalSeq(env, s.xs))}
    [] s.s = "set" -> {Put(env, s.t, Eval(env, s.x))}
    [] s.s = "hint" ->
         IF honest THEN {LET v == Eval(env, s.x) IN Mark(Put(env, s.t, v), <<v>>)}
         ELSE {Put(env, s.t, v) : v \in FieldValues(P)}
    [] s.s = "hints" ->
         IF honest THEN {LET vs == EvalSeq(env, s.xs) IN Mark(Bind(env, s.n, vs), vs)}
         ELSE {Bind(env, s.n, vs) : vs \in Arrays(Len(s.xs))}
    [] s.s = "con" -> IF Eval(env, s.l) = Eval(env, s.r) THEN {env} ELSE {}
    [] s.s = "assert" -> IF Compare(s.c.o, Eval(env, s.c.a), Eval(env, s.c.b)) THEN {env} ELSE {}
    [] s.s = "for" -> Loop({env}, s, s.lo, honest, DOMAIN env)
    [] s.s = "call" ->
         LET f == P.fns[s.f]
             as == EvalSeq(env, s.xs)
             in == [x \in {f.ps[i] : i \in DOMAIN f.ps} |-> as[CHOOSE i \in DOMAIN f.ps : f.ps[i] = x]]
             ends == Exec({in}, f.body, 1, honest)
         IN  {LET v == Eval(e, f.ret) IN Mark(Bind(env, s.n, v), <<IF "#" \in DOMAIN e THEN DZ ELSE v>>) : e \in ends}
Exec(E, ss, i, honest) ==
  IF i > Len(ss) \/ E = {} THEN E ELSE Exec(UNION {Step(env, ss[i], honest) : env \in E}, ss, i + 1, honest)
\* the variables declared in the body are gone after each round (a mark stays)
Loop(E, s, k, honest, outer) ==
  IF k >= s.hi \/ E = {} THEN E
  ELSE Loop({[x \in DOMAIN e \cap (outer \union {"#"}) |-> e[x]] : e \in Exec({Bind(env, s.n, k) : env \in E}, s.body, 1, honest)}, s, k + 1, honest, outer)

RECURSIVE FlatSeq(_)
FlatSeq(vs) == IF vs = <<>> THEN <<>> ELSE (IF Head(vs).a THEN Head(vs).v ELSE <<Head(vs).v>>) \o FlatSeq(Tail(vs))
Output(env) == FlatSeq([i \in DOMAIN P.rets |-> IF P.rets[i].e = "all" THEN [a |-> TRUE, v |-> env[P.rets[i].n]] ELSE [a |-> FALSE, v |-> Eval(env, P.rets[i])]])
RECURSIVE Inputs(_,_,_)
\* the arguments: [n, k], an array if k is not zero
Inputs(enc, i, j) ==
  IF i > Len(P.ps) THEN [x \in {} |-> 0]
  ELSE LET q == P.ps[i] IN
       IF q.k = 0 THEN Bind(Inputs(enc, i + 1, j + 1), q.n, enc[j])
       ELSE Bind(Inputs(enc, i + 1, j + q.k), q.n, SubSeq(enc, j, j + q.k - 1))
Ends(honest) == Exec({Inputs(R.enc, 1, 1)}, P.body, 1, honest)
Outcomes == {Output(e) : e \in Ends(FALSE)}

---------------------------------------------------------------------------
JudgeHonest ==
  LET es == Ends(TRUE) IN
  IF R.st = "panic" THEN "crashed"
  ELSE IF \E e \in es : "#" \in DOMAIN e THEN "ok"
  ELSE IF X.compile = "never" THEN (IF es = {} THEN "ok" ELSE "rejected at compile time although the constraints hold")
  ELSE IF es = {} THEN
       (IF R.st # "ok" THEN "ok"
        \* the compiler may have solved a constraint for a hinted variable: then other choices are made
        ELSE IF P.small THEN (IF R.out \in Outcomes THEN "ok" ELSE "succeeded although no hints satisfy the constraints")
        ELSE "ok")
  ELSE IF R.st # "ok" THEN "failed although every constraint holds for the hints"
  ELSE IF {R.out} # {Output(e) : e \in es} THEN "wrong output"
  ELSE "ok"

Report(w) == IF w = "ok" THEN TRUE ELSE PrintT("@@C18|" \o ToString(X.id) \o "|" \o ToString(r) \o "|" \o w \o "|" \o ToString(asg))
Note(k) == PrintT("##" \o k \o "|" \o ToString(X.id) \o "|" \o ToString(r))
Closed(q) == IF q.dead THEN "dead" ELSE IF q.pend # <<>> THEN "open" ELSE "done"

Init == /\ c \in DOMAIN Sessions /\ r \in DOMAIN Sessions[c].runs
        /\ B = {} /\ asg = <<>> /\ pend = <<>> /\ width = 1 /\ rel = {} /\ pc = "start"
Honest ==
  /\ pc = "start" /\ pc' = (IF X.any THEN "enter" ELSE "over")
  /\ Report(JudgeHonest) /\ Note("honest")
  /\ UNCHANGED <<c, r, B, asg, pend, width, rel>>
EnterInputs ==
  /\ pc = "enter"
  /\ \E bs \in {Booleans(S)} : \E q \in {Propagate(S, bs, Enter(S, R.enc), AllConstraints(S))} :
         B' = bs /\ asg' = q.asg /\ pend' = q.pend /\ pc' = Closed(q)
  /\ rel' = Outcomes
  /\ UNCHANGED <<c, r, width>>
Choose ==
  /\ pc = "open"
  /\ \E ch \in {Choices(S, B, asg, pend, <<>>)} :
     LET n == Cardinality(ch.alts)
         all == width * n <= X.budget
         alts == IF all THEN ch.alts ELSE {CHOOSE a \in ch.alts : TRUE}
     IN  /\ IF all /\ ch.complete THEN TRUE ELSE Note("bounded")
         /\ \E a \in alts : \E q \in {Propagate(S, B, Extend(asg, a), pend)} :
                  asg' = q.asg /\ pend' = q.pend /\ pc' = Closed(q)
         /\ width' = (IF all THEN width * n ELSE width)
  /\ UNCHANGED <<c, r, B, rel>>
Open == {i \in DOMAIN S.rets : asg[S.rets[i]] = NA}
Guess ==
  /\ pc = "done" /\ Open # {}
  /\ LET v == S.rets[CHOOSE i \in Open : TRUE] IN \E x \in FieldValues(S) : asg' = [asg EXCEPT ![v] = x]
  /\ UNCHANGED <<c, r, B, pend, width, rel, pc>>
Judge ==
  /\ pc = "done" /\ Open = {} /\ pc' = "end"
  /\ IF [i \in DOMAIN S.rets |-> asg[S.rets[i]]] \in rel THEN TRUE ELSE Report("a proof exists of an outcome for which no hints satisfy the constraints")
  /\ Note("proof")
  /\ UNCHANGED <<c, r, B, asg, pend, width, rel>>
End == /\ pc \in {"dead", "end"} /\ pc' = "over" /\ asg' = <<>> /\ pend' = <<>> /\ rel' = {} /\ UNCHANGED <<c, r, B, width>>
       /\ (pc = "dead" => Note("dead"))
Next == Honest \/ EnterInputs \/ Choose \/ Guess \/ Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
