------------------------------ MODULE ZokLang ------------------------------
(***************************************************************************)
(* The ZoKrates language: what a program means, independently of how it is *)
(* compiled.  A program is a record [p, bits, mods, main]: the field prime *)
(* and its width, the modules and the name of the entry module.  Modules   *)
(* have functions, constants, struct and type definitions and imports;     *)
(* bodies are abstract syntax trees (see /verif/DESIGN.md for their form). *)
(*                                                                         *)
(* Evaluation is strict and total.  A failing operation gives the value    *)
(* Poison and raises a flag:                                               *)
(*   hard  the execution must fail;                                        *)
(*   soft  it may fail: the failure is in a branch which is not taken, or  *)
(*         its result is not needed.  (The compiler may drop such          *)
(*         operations; the documentation warns that it need not.)          *)
(* Poison propagates; an execution whose output holds it must fail.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigNat

\* the value of something which failed, by type: "f", "b" or "u" with a width
Poison == [k |-> "p", t |-> "f", w |-> 0]
PB == [k |-> "p", t |-> "b", w |-> 0]
PU(w) == [k |-> "p", t |-> "u", w |-> w]
Bool(b) == [k |-> "b", b |-> b]
Fld(n) == [k |-> "f", n |-> n]
UInt(w, n) == [k |-> "u", w |-> w, n |-> n]
Arr(s) == [k |-> "a", s |-> s]
Tup(s) == [k |-> "t", s |-> s]
Struct(id, fs, s) == [k |-> "s", n |-> id, fs |-> fs, s |-> s]
U32(i) == UInt(32, BFromInt(i))

RECURSIVE HasPoison(_)
HasPoison(v) ==
  CASE v.k = "p" -> TRUE
    [] v.k \in {"a", "t", "s"} -> \E i \in DOMAIN v.s : HasPoison(v.s[i])
    [] OTHER -> FALSE

\* The result of evaluating an expression
Res(v, hard, soft, lg) == [v |-> v, hard |-> hard, soft |-> soft, lg |-> lg]
Ok(v) == Res(v, FALSE, FALSE, <<>>)
Hard == Res(Poison, TRUE, FALSE, <<>>)
HardU(w) == Res(PU(w), TRUE, FALSE, <<>>)
Soft == Res(Poison, FALSE, TRUE, <<>>)
\* the flags of s added to r
With(r, s) == Res(r.v, r.hard \/ s.hard, r.soft \/ s.soft, s.lg \o r.lg)
\* what was logged, but may be left out
Opt(lg) == [i \in DOMAIN lg |-> [lg[i] EXCEPT !.opt = TRUE]]
\* r need not be evaluated
Soften(r) == Res(r.v, FALSE, r.hard \/ r.soft, Opt(r.lg))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

---------------------------------------------------------------------------
(* Scalars                                                                 *)

MaxW(w) == BPow2(w)
Inv(p, a) == BModExp(a, BSub(p, <<2>>), p)

\* operands below this are in the range of the comparison of unknowns
CmpBound(P) == BPow2(P.bits - 2)

\* a < b for field elements; complete when one operand is a literal
FieldLt(P, a, b, lit) ==
  LET r == Ok(Bool(BLt(a.n, b.n)))
  IN  IF lit \/ (BLt(a.n, CmpBound(P)) /\ BLt(b.n, CmpBound(P))) THEN r ELSE Soften(With(r, Hard))

Lt(P, a, b, lit) == IF a.k = "f" THEN FieldLt(P, a, b, lit) ELSE Ok(Bool(BLt(a.n, b.n)))
Neg(r) == IF r.v.k = "p" THEN r ELSE [r EXCEPT !.v = Bool(~r.v.b)]

FieldOp(P, o, a, b) ==
  CASE o = "+" -> Ok(Fld(BMod(BAdd(a.n, b.n), P.p)))
    [] o = "-" -> Ok(Fld(BMod(BAdd(a.n, BSub(P.p, b.n)), P.p)))
    [] o = "*" -> Ok(Fld(BMod(BMul(a.n, b.n), P.p)))
    [] o = "/" -> IF b.n = <<>> THEN Hard ELSE Ok(Fld(BMod(BMul(a.n, Inv(P.p, b.n)), P.p)))
    [] o = "**" -> Ok(Fld(BModExp(a.n, b.n, P.p)))

\* shift amounts are small numbers; anything of w or more shifts everything out
Shift(o, a, s) ==
  IF BLe(BFromInt(a.w), s.n) THEN UInt(a.w, <<>>)
  ELSE LET k == BPow2(BToInt(s.n)) IN
       IF o = "<<" THEN UInt(a.w, BMod(BMul(a.n, k), MaxW(a.w))) ELSE UInt(a.w, BDiv(a.n, k))

UIntOp(o, a, b) ==
  LET w == a.w m == MaxW(w) IN
  CASE o = "+" -> Ok(UInt(w, BMod(BAdd(a.n, b.n), m)))
    [] o = "-" -> Ok(UInt(w, BMod(BSub(BAdd(a.n, m), b.n), m)))
    [] o = "*" -> Ok(UInt(w, BMod(BMul(a.n, b.n), m)))
    [] o = "/" -> IF b.n = <<>> THEN HardU(w) ELSE Ok(UInt(w, BDiv(a.n, b.n)))
    [] o = "%" -> IF b.n = <<>> THEN HardU(w) ELSE Ok(UInt(w, BMod(a.n, b.n)))
    [] o = "&" -> Ok(UInt(w, BAnd(a.n, b.n, w)))
    [] o = "|" -> Ok(UInt(w, BOr(a.n, b.n, w)))
    [] o = "^" -> Ok(UInt(w, BXor(a.n, b.n, w)))
    [] o \in {"<<", ">>"} -> Ok(Shift(o, a, b))

\* the least and greatest values of v's type (a poisoned value has a type too)
IsMin(v) == v.k \in {"f", "u"} /\ v.n = <<>>
IsMax(P, v) == \/ v.k = "f" /\ v.n = BSub(P.p, <<1>>)
               \/ v.k = "u" /\ v.n = BSub(MaxW(v.w), <<1>>)

\* the result of o is the same whatever its right operand is
FreeOfRight(P, o, a) ==
  \/ o = "&&" /\ a.k = "b" /\ ~a.b
  \/ o = "||" /\ a.k = "b" /\ a.b
  \/ o \in {"*", "&", "<<", ">>", ">", "<="} /\ IsMin(a)
  \/ o = "|" /\ a.k = "u" /\ IsMax(P, a)
  \/ o \in {"<", ">="} /\ IsMax(P, a)
\* the result of o is the same whatever its left operand is
FreeOfLeft(P, o, a, b) ==
  \/ o = "&&" /\ b.k = "b" /\ ~b.b
  \/ o = "||" /\ b.k = "b" /\ b.b
  \/ o \in {"*", "&", "<", ">=", "**"} /\ IsMin(b)
  \/ o = "|" /\ b.k = "u" /\ IsMax(P, b)
  \/ o \in {">", "<="} /\ IsMax(P, b)
  \/ o = "%" /\ b.k = "u" /\ b.n = <<1>>
  \/ o \in {"<<", ">>"} /\ b.k = "u" /\ a.k \in {"u", "p"} /\ BLe(BFromInt(a.w), b.n)
\* the result of o is known when its operands are equal
Reflexive == {"==", "!=", "<", "<=", ">", ">=", "-", "^"}
\* two values of the same shape have a part in which they are known to differ
RECURSIVE Differ(_,_)
Differ(a, b) ==
  CASE a.k = "p" \/ b.k = "p" -> FALSE
    [] a.k \in {"a", "t", "s"} -> Len(a.s) # Len(b.s) \/ \E i \in DOMAIN a.s : Differ(a.s[i], b.s[i])
    [] OTHER -> a # b
\* whether an operation may be simplified without evaluating its operands
Free(P, o, a, b) ==
  \/ FreeOfRight(P, o, a)
  \/ FreeOfLeft(P, o, a, b)
  \/ o \in Reflexive /\ a = b
  \/ o \in {"==", "!="} /\ a.k \in {"a", "t", "s"} /\ Differ(a, b)

\* some value of the type of a poisoned one
RECURSIVE AnyValue(_)
AnyValue(v) ==
  CASE v.k = "p" -> (CASE v.t = "f" -> Fld(<<1>>) [] v.t = "b" -> Bool(TRUE) [] OTHER -> UInt(v.w, <<1>>))
    [] v.k \in {"a", "t", "s"} -> [v EXCEPT !.s = [i \in DOMAIN v.s |-> AnyValue(v.s[i])]]
    [] OTHER -> v
FreeValue(a, b) == IF Differ(a, b) THEN a ELSE AnyValue(a)
PoisonOf(v) == CASE v.k = "u" -> PU(v.w) [] v.k = "b" -> PB [] v.k = "f" -> Poison [] OTHER -> v
Compares == {"==", "!=", "<", "<=", ">", ">=", "&&", "||"}

BinVal(P, o, a, b, lit) ==
  CASE o \in {"==", "!="} /\ Differ(a, b) -> Ok(Bool(o = "!="))
    [] HasPoison(a) \/ HasPoison(b) -> Ok(IF o \in Compares THEN PB ELSE PoisonOf(a))
    [] o = "==" -> Ok(Bool(a = b))
    [] o = "!=" -> Ok(Bool(a # b))
    [] o = "<" -> Lt(P, a, b, lit)
    [] o = ">" -> Lt(P, b, a, lit)
    [] o = "<=" -> Neg(Lt(P, b, a, lit))
    [] o = ">=" -> Neg(Lt(P, a, b, lit))
    [] o = "&&" -> Ok(Bool(a.b /\ b.b))
    [] o = "||" -> Ok(Bool(a.b \/ b.b))
    [] a.k = "f" -> FieldOp(P, o, a, b)
    [] OTHER -> UIntOp(o, a, b)

UnVal(P, o, a) ==
  CASE a.k = "p" -> a
    [] o = "+" -> a
    [] o = "-" -> IF a.k = "f" THEN Fld(BMod(BSub(P.p, a.n), P.p))
                  ELSE UInt(a.w, BMod(BSub(MaxW(a.w), a.n), MaxW(a.w)))
    [] o = "!" -> IF a.k = "b" THEN Bool(~a.b) ELSE UInt(a.w, BSub(BSub(MaxW(a.w), <<1>>), a.n))

---------------------------------------------------------------------------
(* Environments: a stack of scopes, the innermost last                     *)

EmptyScope == [x \in {} |-> 0]
RECURSIVE FindScope(_,_,_)
FindScope(env, n, i) == IF i = 0 THEN 0 ELSE IF n \in DOMAIN env[i] THEN i ELSE FindScope(env, n, i - 1)
Bind(scope, n, v) == [x \in DOMAIN scope \union {n} |-> IF x = n THEN v ELSE scope[x]]
Declare(env, n, v) == [env EXCEPT ![Len(env)] = Bind(env[Len(env)], n, v)]
Update(env, n, v) == LET i == FindScope(env, n, Len(env)) IN [env EXCEPT ![i] = Bind(env[i], n, v)]

Lookup1(seq, n) == CHOOSE i \in DOMAIN seq : seq[i].n = n
HasName(seq, n) == \E i \in DOMAIN seq : seq[i].n = n
FieldIndex(fs, f) == CHOOSE i \in DOMAIN fs : fs[i] = f

\* a module's imports: a sequence of [n, m, x], local name n stands for x of module m
RECURSIVE Origin(_,_,_)
Origin(P, m, n) ==
  IF HasName(P.mods[m].imp, n)
  THEN LET i == P.mods[m].imp[Lookup1(P.mods[m].imp, n)] IN Origin(P, i.m, i.x)
  ELSE [m |-> m, n |-> n]

IsNumLit(e) == e.e = "num"

---------------------------------------------------------------------------
RECURSIVE Eval(_,_,_,_), EvalAll(_,_,_,_), Exec(_,_,_,_), ExecFor(_,_,_,_,_,_), Assign(_,_,_,_,_),
          Call(_,_,_,_,_), ConstVal(_,_,_), SizeOf(_,_,_,_), MatchTy(_,_,_,_,_), MatchAll(_,_,_,_,_),
          IndexAll(_,_,_,_), Spread(_,_), Poisoned(_), EvalEach(_,_,_,_,_)

\* a value of v's shape holding nothing but poison
Poisoned(v) == IF v.k \in {"a", "t", "s"} THEN [v EXCEPT !.s = [i \in DOMAIN v.s |-> Poisoned(v.s[i])]] ELSE PoisonOf(v)

\* one of two values of the same shape: composite values are selected component by component
RECURSIVE Merge(_,_)
Merge(a, b) ==
  IF a = b THEN a
  ELSE IF a.k \in {"a", "t", "s"} /\ b.k = a.k THEN [a EXCEPT !.s = [i \in DOMAIN a.s |-> Merge(a.s[i], b.s[i])]]
  ELSE Poisoned(a)

ConstVal(P, m, n) ==
  LET o == Origin(P, m, n)
      c == P.mods[o.m].consts[Lookup1(P.mods[o.m].consts, o.n)]
  IN  Eval(P, o.m, <<EmptyScope>>, c.x)

EvalEach(P, m, env, es, i) ==
  IF i > Len(es) THEN <<>> ELSE <<Eval(P, m, env, es[i])>> \o EvalEach(P, m, env, es, i + 1)

\* evaluates a sequence of expressions: [vs, hard, soft, lg]
EvalAll(P, m, env, es) ==
  LET rs == EvalEach(P, m, env, es, 1) IN
  [vs |-> [i \in DOMAIN rs |-> rs[i].v],
   hard |-> \E i \in DOMAIN rs : rs[i].hard,
   soft |-> \E i \in DOMAIN rs : rs[i].soft,
   lg |-> Flat([i \in DOMAIN rs |-> rs[i].lg])]

\* elements of an array literal: those marked sp are arrays to be spread
Spread(xs, vs) ==
  IF xs = <<>> THEN <<>>
  ELSE (IF Head(xs).sp THEN (IF Head(vs).k = "p" THEN <<Poison>> ELSE Head(vs).s) ELSE <<Head(vs)>>) \o Spread(Tail(xs), Tail(vs))

IntOf(v) == IF Len(v.n) > 2 THEN 99999999 ELSE BToInt(v.n)

Eval(P, m, env, e) ==
  CASE e.e = "num" -> Ok(IF e.t.k = "f" THEN Fld(e.v) ELSE UInt(e.t.w, e.v))
    [] e.e = "bool" -> Ok(Bool(e.v))
    [] e.e = "var" ->
         LET i == FindScope(env, e.n, Len(env)) IN
         IF i > 0 THEN Ok(env[i][e.n]) ELSE ConstVal(P, m, e.n)
    [] e.e = "un" -> LET a == Eval(P, m, env, e.a) IN With(Ok(UnVal(P, e.o, a.v)), a)
    [] e.e = "bin" ->
         LET a == Eval(P, m, env, e.a)
             b == Eval(P, m, env, e.b)
             lit == IsNumLit(e.a) \/ IsNumLit(e.b)
             r == BinVal(P, e.o, a.v, b.v, lit)
         IN  IF Free(P, e.o, a.v, b.v)
             THEN Soften(With(With(IF HasPoison(a.v) \/ HasPoison(b.v)
                                 THEN BinVal(P, e.o, FreeValue(a.v, b.v), FreeValue(b.v, a.v), lit) ELSE r, b), a))
             ELSE With(With(r, b), a)
    [] e.e = "if" ->
         LET c == Eval(P, m, env, e.c)
             a == Eval(P, m, env, e.a)
             b == Eval(P, m, env, e.b)
             t == IF c.v.k = "b" /\ ~c.v.b THEN b ELSE a
             u == IF c.v.k = "b" /\ ~c.v.b THEN a ELSE b
         IN  IF a.v = b.v THEN [With(With(t, Soften(u)), Soften(c)) EXCEPT !.lg = Opt(c.lg \o a.lg \o b.lg)]
             ELSE IF c.v.k = "p"
             THEN LET r == With(Res(Merge(a.v, b.v), a.hard, a.soft, Opt(a.lg)), b)
                  IN  With(r, IF a.v.k \in {"a", "t", "s"} THEN Soften(c) ELSE c)
             ELSE [With(With(t, Soften(u)), c) EXCEPT !.lg = c.lg \o Opt(a.lg \o b.lg)]
    [] e.e = "arr" ->
         LET r == EvalAll(P, m, env, [i \in DOMAIN e.xs |-> e.xs[i].x])
         IN  Soften(Res(Arr(Spread(e.xs, r.vs)), r.hard, r.soft, r.lg))
    [] e.e = "rep" ->
         LET x == Eval(P, m, env, e.x)
             n == SizeOf(P, m, env, e.n)
         IN  Soften([x EXCEPT !.v = Arr([i \in 1..n |-> x.v])])
    [] e.e = "tup" ->
         LET r == EvalAll(P, m, env, e.xs) IN Soften(Res(Tup(r.vs), r.hard, r.soft, r.lg))
    [] e.e = "st" ->
         LET o == Origin(P, m, e.n)
             d == P.mods[o.m].structs[Lookup1(P.mods[o.m].structs, o.n)]
             fs == [i \in DOMAIN d.fs |-> d.fs[i].n]
             r == EvalAll(P, m, env, [i \in DOMAIN fs |-> e.fs[Lookup1(e.fs, fs[i])].x])
         IN  Soften(Res(Struct(o.m \o "." \o o.n, fs, r.vs), r.hard, r.soft, r.lg))
    [] e.e = "idx" ->
         LET a == Eval(P, m, env, e.a)
             i == Eval(P, m, env, e.i)
             v == IF a.v.k = "p" THEN Ok(a.v)
                  ELSE IF i.v.k = "p" THEN Ok(IF a.v.s = <<>> THEN Poison ELSE Poisoned(a.v.s[1]))
                  ELSE IF IntOf(i.v) < Len(a.v.s) THEN Ok(a.v.s[IntOf(i.v) + 1])
                  ELSE IF a.v.s = <<>> THEN Soft ELSE With(Ok(Poisoned(a.v.s[1])), Soft)
         IN  With(With(v, i), a)
    [] e.e = "slice" ->
         LET a == Eval(P, m, env, e.a)
             lo == IF e.lo.e = "none" THEN 0 ELSE SizeOf(P, m, env, e.lo)
             hi == IF e.hi.e = "none" THEN Len(a.v.s) ELSE SizeOf(P, m, env, e.hi)
         IN  IF a.v.k = "p" THEN a
             ELSE IF lo <= hi /\ hi <= Len(a.v.s) THEN [a EXCEPT !.v = Arr(SubSeq(a.v.s, lo + 1, hi))]
             ELSE With(Hard, a)
    [] e.e = "mem" ->
         LET a == Eval(P, m, env, e.a)
         IN  IF a.v.k = "p" THEN a ELSE [a EXCEPT !.v = a.v.s[FieldIndex(a.v.fs, e.f)]]
    [] e.e = "tel" ->
         LET a == Eval(P, m, env, e.a) IN IF a.v.k = "p" THEN a ELSE [a EXCEPT !.v = a.v.s[e.i + 1]]
    [] e.e = "call" ->
         LET r == EvalAll(P, m, env, e.xs)
             g == [i \in DOMAIN e.g |-> IF e.g[i].e = "none" THEN 0 - 1 ELSE SizeOf(P, m, env, e.g[i])]
             c == Call(P, m, e.n, g, r.vs)
         IN  With(c, Res(Poison, FALSE, r.hard \/ r.soft, Opt(r.lg)))

\* the value of an expression which is known at compile time and small
SizeOf(P, m, env, e) ==
  IF e.e = "int" THEN e.v ELSE IntOf(Eval(P, m, env, e).v)

---------------------------------------------------------------------------
(* Matching a value against a declared type binds the generic parameters   *)
(* which stand alone as an array size; g is [name |-> size].               *)

GEnv(g) == <<[x \in DOMAIN g |-> U32(g[x])]>>
NoMatch == [ok |-> FALSE]
Match(g) == [ok |-> TRUE, g |-> g]

MatchSize(P, m, n, len, gen, g) ==
  IF n.e = "var" /\ n.n \in gen
  THEN IF n.n \in DOMAIN g
       THEN IF g[n.n] = len THEN Match(g) ELSE NoMatch
       ELSE Match(Bind(g, n.n, len))
  ELSE IF SizeOf(P, m, GEnv(g), n) = len THEN Match(g) ELSE NoMatch

MatchTy(P, m, ty, v, gg) ==
  LET gen == gg.gen g == gg.g IN
  CASE v.k = "p" /\ ty.k \in {"f", "b", "u"} -> IF v.t = ty.k /\ (v.t = "u" => v.w = ty.w) THEN Match(g) ELSE NoMatch
    [] ty.k = "f" -> IF v.k = "f" THEN Match(g) ELSE NoMatch
    [] ty.k = "b" -> IF v.k = "b" THEN Match(g) ELSE NoMatch
    [] ty.k = "u" -> IF v.k = "u" /\ v.w = ty.w THEN Match(g) ELSE NoMatch
    [] ty.k = "arr" ->
         IF v.k # "a" THEN NoMatch
         ELSE LET s == MatchSize(P, m, ty.n, Len(v.s), gen, g) IN
              IF ~s.ok THEN s ELSE IF v.s = <<>> THEN s
              ELSE MatchTy(P, m, ty.t, v.s[1], [gen |-> gen, g |-> s.g])
    [] ty.k = "tup" ->
         IF v.k # "t" \/ Len(v.s) # Len(ty.ts) THEN NoMatch
         ELSE MatchAll(P, m, ty.ts, v.s, gg)
    [] ty.k = "st" ->
         LET o == Origin(P, m, ty.n) IN
         IF HasName(P.mods[o.m].structs, o.n)
         THEN IF v.k = "s" /\ v.n = o.m \o "." \o o.n
              THEN IF ty.g = <<>> THEN Match(g)
                   ELSE \* match the members with the struct's parameters renamed to the given arguments
                     LET d == P.mods[o.m].structs[Lookup1(P.mods[o.m].structs, o.n)]
                         inner == MatchAll(P, o.m, [i \in DOMAIN d.fs |-> d.fs[i].t], v.s,
                                           [gen |-> {d.gen[i] : i \in DOMAIN d.gen}, g |-> [x \in {} |-> 0]])
                         known == {i \in DOMAIN d.gen : d.gen[i] \in DOMAIN inner.g}
                         RECURSIVE bindg(_,_)
                         bindg(i, acc) ==
                           IF i > Len(d.gen) \/ ~acc.ok THEN acc
                           ELSE IF i \notin known THEN bindg(i + 1, acc)
                           ELSE bindg(i + 1, MatchSize(P, m, ty.g[i], inner.g[d.gen[i]], gen, acc.g))
                     IN  IF ~inner.ok THEN inner ELSE bindg(1, Match(g))
              ELSE NoMatch
         ELSE \* a type alias
           LET a == P.mods[o.m].types[Lookup1(P.mods[o.m].types, o.n)] IN
           MatchTy(P, o.m, a.t, v, gg)

MatchAll(P, m, ts, vs, gg) ==
  IF Len(ts) # Len(vs) THEN NoMatch
  ELSE LET RECURSIVE go(_,_)
           go(i, g) == IF i > Len(ts) THEN Match(g)
                       ELSE LET r == MatchTy(P, m, ts[i], vs[i], [gen |-> gg.gen, g |-> g])
                            IN  IF r.ok THEN go(i + 1, r.g) ELSE r
       IN  go(1, gg.g)

\* the bindings made by explicit generic arguments (-1 where left to inference)
RECURSIVE Explicit(_,_,_)
Explicit(gen, g, i) ==
  IF i > Len(g) THEN [x \in {} |-> 0]
  ELSE IF g[i] < 0 THEN Explicit(gen, g, i + 1) ELSE Bind(Explicit(gen, g, i + 1), gen[i], g[i])

FnMatch(P, m, f, g, vs) ==
  IF Len(f.ps) # Len(vs) \/ (g # <<>> /\ Len(g) # Len(f.gen)) THEN NoMatch
  ELSE MatchAll(P, m, [i \in DOMAIN f.ps |-> f.ps[i].t], vs,
                [gen |-> {f.gen[i] : i \in DOMAIN f.gen}, g |-> Explicit(f.gen, g, 1)])

Call(P, m, n, g, vs) ==
  LET o == Origin(P, m, n)
      fns == P.mods[o.m].fns
      fits == {i \in DOMAIN fns : fns[i].n = o.n /\ FnMatch(P, o.m, fns[i], g, vs).ok}
      f == fns[CHOOSE i \in fits : TRUE]
      b == FnMatch(P, o.m, f, g, vs).g
      names == {f.ps[i].n : i \in DOMAIN f.ps}
      params == [x \in names |-> vs[CHOOSE i \in DOMAIN f.ps : f.ps[i].n = x]]
      r == Exec(P, o.m, <<GEnv(b)[1], params>>, f.body)
  IN  IF fits = {} THEN Assert(FALSE, <<"no function fits", n, vs>>)
      ELSE Res(r.v, r.hard, r.soft, [i \in DOMAIN r.lg |-> [r.lg[i] EXCEPT !.fn = TRUE]])

---------------------------------------------------------------------------
(* Statements.  The result of a sequence of statements is                  *)
(* [env, v, ret, hard, soft, lg]: ret tells whether it returned v.          *)

Step(env, r) == [env |-> env, v |-> Poison, ret |-> FALSE, hard |-> r.hard, soft |-> r.soft, lg |-> r.lg]
Then(a, b) == [b EXCEPT !.hard = a.hard \/ b.hard, !.soft = a.soft \/ b.soft, !.lg = a.lg \o b.lg]

\* v with the part at the path replaced; path elements are evaluated indices
Assign(P, v, path, i, x) ==
  IF i > Len(path) THEN Ok(x)
  ELSE IF v.k = "p" THEN Ok(v)
  ELSE LET q == path[i]
           j == CASE q.k = "i" -> (IF q.v.k = "p" THEN 0 - 1 ELSE IntOf(q.v) + 1)
                  [] q.k = "m" -> FieldIndex(v.fs, q.f)
                  [] q.k = "t" -> q.i + 1
       IN  IF j = 0 - 1 THEN Ok(Poisoned(v))
           ELSE IF j > Len(v.s) THEN With(Ok(Poisoned(v)), Hard)
           ELSE LET r == Assign(P, v.s[j], path, i + 1, x) IN [r EXCEPT !.v = [v EXCEPT !.s[j] = r.v]]

IndexAll(P, m, env, path) ==
  IF path = <<>> THEN <<>>
  ELSE <<IF Head(path).k = "i" THEN [k |-> "i", v |-> Eval(P, m, env, Head(path).x).v] ELSE Head(path)>>
       \o IndexAll(P, m, env, Tail(path))

Stmt(P, m, env, s) ==
  CASE s.s = "let" -> LET r == Eval(P, m, env, s.x) IN Step(Declare(env, s.n, r.v), r)
    [] s.s = "set" ->
         LET r == Eval(P, m, env, s.x)
             path == IndexAll(P, m, env, s.path)
             a == Assign(P, env[FindScope(env, s.n, Len(env))][s.n], path, 1, r.v)
         IN  Step(Update(env, s.n, a.v), With(a, r))
    [] s.s = "assert" ->
         LET r == Eval(P, m, env, s.x)
         IN  Step(env, IF r.v.k = "p" \/ ~r.v.b THEN With(Hard, r) ELSE r)
    [] s.s = "log" ->
         LET r == EvalAll(P, m, env, s.xs)
         IN  Step(env, Res(Poison, FALSE, r.hard \/ r.soft, r.lg \o <<[fmt |-> s.fmt, vs |-> r.vs, fn |-> FALSE, opt |-> FALSE]>>))
    [] s.s = "for" ->
         LET lo == SizeOf(P, m, env, s.lo)
             hi == SizeOf(P, m, env, s.hi)
         IN  ExecFor(P, m, env, s, lo, hi)
    [] s.s = "ret" -> LET r == Eval(P, m, env, s.x) IN [Step(env, r) EXCEPT !.v = r.v, !.ret = TRUE]

\* one more iteration: the body runs in a scope of its own
ExecFor(P, m, env, s, i, hi) ==
  IF i >= hi THEN Step(env, Ok(Poison))
  ELSE LET r == Exec(P, m, Append(Append(env, Bind(EmptyScope, s.n, U32(i))), EmptyScope), s.body)
       IN  Then(r, ExecFor(P, m, SubSeq(r.env, 1, Len(env)), s, i + 1, hi))

Exec(P, m, env, ss) ==
  IF ss = <<>> THEN Step(env, Ok(Poison))
  ELSE LET r == Stmt(P, m, env, Head(ss))
       IN  IF r.ret THEN r ELSE Then(r, Exec(P, m, r.env, Tail(ss)))

---------------------------------------------------------------------------
(* Running a program                                                       *)

MainFn(P) == LET fns == P.mods[P.main].fns IN fns[Lookup1(fns, "main")]
Run(P, args) ==
  LET f == MainFn(P)
      params == [x \in {f.ps[i].n : i \in DOMAIN f.ps} |-> args[CHOOSE i \in DOMAIN f.ps : f.ps[i].n = x]]
      r == Exec(P, P.main, <<EmptyScope, params>>, f.body)
  IN  [v |-> r.v, hard |-> r.hard \/ HasPoison(r.v), soft |-> r.soft, lg |-> r.lg]
=============================================================================
