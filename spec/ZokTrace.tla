----------------------------- MODULE ZokTrace -----------------------------
(***************************************************************************)
(* Trace validation: the recorded behaviours of the real toolchain (compile *)
(* a program, execute it on inputs) must be behaviours of ZokLang.         *)
(* The state machine picks a recorded session, compiles, then executes its *)
(* runs one by one; each step judges what was observed.                    *)
(***************************************************************************)
EXTENDS ZokLang, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.CASES)

VARIABLES c, pc, verdict
vars == <<c, pc, verdict>>

S == Sessions[c]
Expected(i) == Run(S.prog, S.runs[i].args)

\* What was logged.  The compiler evaluates repeated calls of a function with the same arguments once,
\* so a line logged in a called function may be missing if the same line came before; calls whose results
\* are not needed may be left out.
\* the result of a failed operation whose failure went unnoticed may be anything
RECURSIVE Matches(_,_)
Matches(v, o) ==
  CASE v.k = "p" -> TRUE
    [] v.k \in {"a", "t", "s"} /\ o.k = v.k -> Len(v.s) = Len(o.s) /\ \A i \in DOMAIN v.s : Matches(v.s[i], o.s[i])
    [] OTHER -> v = o
AllMatch(vs, os) == Len(vs) = Len(os) /\ \A i \in DOMAIN vs : Matches(vs[i], os[i])
RECURSIVE LogOk(_,_,_,_)
LogOk(exp, i, obs, j) ==
  IF i > Len(exp) THEN j > Len(obs)
  ELSE \/ /\ j <= Len(obs) /\ obs[j].fmt = exp[i].fmt /\ AllMatch(exp[i].vs, obs[j].vs)
          /\ LogOk(exp, i + 1, obs, j + 1)
       \/ exp[i].opt /\ LogOk(exp, i + 1, obs, j)
       \/ /\ exp[i].fn
          /\ \E k \in 1..(i - 1) : exp[k].fmt = exp[i].fmt /\ exp[k].vs = exp[i].vs
          /\ LogOk(exp, i + 1, obs, j)

\* why the observed outcome o is not an outcome of the program, or "ok"
JudgeRun(x, o) ==
  CASE o.st = "ok" /\ x.hard -> "accepted an execution which must fail"
    [] o.st = "ok" /\ o.v # x.v -> "wrong output"
    [] o.st = "ok" /\ o.logs /\ ~LogOk(x.lg, 1, o.lg, 1) -> "wrong log"
    [] o.st = "ok" -> "ok"
    [] o.st = "fail" /\ ~x.hard /\ ~x.soft -> "rejected an execution which must succeed"
    [] o.st = "fail" -> "ok"
    [] OTHER -> "crashed"

JudgeCompile ==
  CASE S.compile = "ok" -> "ok"
    [] S.compile = "error" ->
         IF \E i \in DOMAIN S.runs : LET x == Expected(i) IN ~x.hard /\ ~x.soft
         THEN "rejected a valid program" ELSE "ok"
    [] OTHER -> "compiler crashed"

Report(i, w, x) ==
  IF w = "ok" THEN TRUE
  ELSE PrintT("@@" \o ToString(S.id) \o "|" \o ToString(i) \o "|" \o w \o "|" \o ToString(x))

\* what was covered: runs, of which must fail, of which may fail
Count(n, h, o) == PrintT("##" \o ToString(S.id) \o "|" \o ToString(n) \o "|" \o ToString(h) \o "|" \o ToString(o))

Init == c \in DOMAIN Sessions /\ pc = "start" /\ verdict = "ok"
Compile ==
  /\ pc = "start"
  /\ verdict' = JudgeCompile
  /\ Report(0, verdict', "")
  /\ IF S.compile = "ok" THEN TRUE ELSE Count(0, 0, 0)
  /\ pc' = IF S.compile = "ok" THEN "run" ELSE "done"
  /\ UNCHANGED c
Execute ==
  /\ pc = "run"
  /\ LET x == [i \in DOMAIN S.runs |-> Expected(i)]
         w == [i \in DOMAIN S.runs |-> JudgeRun(x[i], S.runs[i].obs)]
         bad == {i \in DOMAIN S.runs : w[i] # "ok"}
     IN  /\ verdict' = IF bad = {} THEN "ok" ELSE w[CHOOSE i \in bad : TRUE]
         /\ \A i \in bad : Report(i, w[i], [v |-> x[i].v, hard |-> x[i].hard, soft |-> x[i].soft, lg |-> x[i].lg])
         /\ Count(Len(S.runs), Cardinality({i \in DOMAIN S.runs : x[i].hard}),
                  Cardinality({i \in DOMAIN S.runs : x[i].soft /\ ~x[i].hard}))
  /\ pc' = "done"
  /\ UNCHANGED c
Done == pc = "done" /\ UNCHANGED vars
Next == Compile \/ Execute \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
