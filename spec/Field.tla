------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* A machine whose registers hold elements of the prime field of p           *)
(* elements, and every operation the toolchain has on them: what it leaves    *)
(* in the register it writes ("none" if it has no result) and what can be      *)
(* observed of it.  A session is a run of the real implementation of one       *)
(* curve's field; every step of it must be a step of this machine.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, BigNat, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, reg, bad
vars == <<c, i, reg, bad>>

S == Sessions[c]
P == S.p
None == <<10000>>

Mod(x) == BMod(x, P)
Neg(x) == IF x = <<>> THEN x ELSE BSub(P, x)
Add(x, y) == Mod(BAdd(x, y))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mod(BMul(x, y))
Inv(x) == BModExp(x, BSub(P, <<2>>), P)   \* of x # 0
Quo(x, y) == IF y = <<>> THEN None ELSE Mul(x, Inv(y))
Pow(x, e) == BModExp(x, e, P)
RECURSIVE Width(_)
Width(x) == IF x = <<>> THEN 0 ELSE 1 + Width(BHalf(x))
Bits == Width(P)
\* the largest value all of whose predecessors have one decomposition in a fixed number of bits below p
MaxUnique == BSub(BPow2(Bits - 1), <<1>>)
Half == BHalf(BSub(P, <<1>>))
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
\* bytes, least significant first, as bits
Byte(b) == SubSeq([k \in 1..8 |-> (b \div 2^(k - 1)) % 2], 1, 8)
RECURSIVE BytesBits(_)
BytesBits(bs) == IF bs = <<>> THEN <<>> ELSE Byte(Head(bs)) \o BytesBits(Tail(bs))
OfBytes(bs) == BFromBits(BytesBits(bs))
RECURSIVE Value(_,_)
Value(ds, radix) == IF ds = <<>> THEN <<>>
                    ELSE BAdd(BMul(Value(SubSeq(ds, 1, Len(ds) - 1), radix), BFromInt(radix)), BFromInt(ds[Len(ds)]))
Digits(ds, radix) == ds # <<>> /\ \A k \in DOMAIN ds : ds[k] >= 0 /\ ds[k] < radix

Both(a, b, x) == IF BLe(a, MaxUnique) /\ BLe(b, MaxUnique) THEN IF BLe(x, MaxUnique) THEN x ELSE None ELSE <<10001>>

\* what the operation o gives: the element (or None, or <<10001>> where it must not be used)
Result(o) ==
  LET a == IF o.a = 0 THEN <<>> ELSE reg[o.a] b == IF o.b = 0 THEN <<>> ELSE reg[o.b] IN
  CASE o.op \in {"add", "addr"} -> Add(a, b)
    [] o.op \in {"sub", "subr"} -> Sub(a, b)
    [] o.op \in {"mul", "mulr"} -> Mul(a, b)
    [] o.op \in {"div", "divr", "cdiv"} -> Quo(a, b)
    [] o.op = "inv" -> Quo(<<1>>, a)
    [] o.op = "pow" -> Pow(a, o.n)
    [] o.op = "cadd" -> Both(a, b, BAdd(a, b))
    [] o.op = "cmul" -> Both(a, b, BMul(a, b))
    [] o.op \in {"frombytes", "de"} -> LET x == OfBytes(o.bytes) IN IF Len(o.bytes) = S.size /\ BLt(x, P) THEN x ELSE None
    [] o.op = "rw" -> a
    [] o.op = "parse" -> IF Digits(o.ds, 10) THEN Mod(Value(o.ds, 10)) ELSE None
    [] o.op = "parser" -> IF Digits(o.ds, o.radix) /\ BLt(Value(o.ds, o.radix), P) THEN Value(o.ds, o.radix) ELSE None
    [] o.op = "frombig" -> IF BLt(o.n, P) THEN o.n ELSE None
    [] o.op = "from" -> IF o.neg THEN Neg(Mod(o.n)) ELSE Mod(o.n)
    [] o.op \in {"min", "zero"} -> <<>>
    [] o.op = "one" -> <<1>>
    [] o.op = "max" -> BSub(P, <<1>>)
    [] o.op = "maxu" -> MaxUnique
    [] OTHER -> None

\* what else can be seen of the operation o, given what was seen
Shown(o) ==
  LET a == IF o.a = 0 THEN <<>> ELSE reg[o.a] b == IF o.b = 0 THEN <<>> ELSE reg[o.b] IN
  CASE o.op = "cmp" -> o.seen = [lt |-> BLt(a, b), eq |-> a = b, sg |-> BCmp(a, b)]
    [] o.op = "bits" -> o.seen.n = (IF a = <<>> THEN 1 ELSE Width(a)) /\ o.seen.bits = Reverse(BBits(a, Bits))
    [] o.op \in {"bytes", "ser"} -> Len(o.seen) = S.size /\ OfBytes(o.seen) = a
    [] o.op = "dec" -> o.seen = <<a, a, a>>
    [] o.op = "cdec" -> o.seen = (IF BLe(a, Half) THEN [neg |-> FALSE, n |-> a] ELSE [neg |-> TRUE, n |-> BSub(P, a)])
    [] o.op = "big" -> o.seen = a
    [] o.op = "isz" -> o.seen = [z |-> a = <<>>, n |-> Bits]
    [] OTHER -> TRUE

Init == c \in DOMAIN Sessions /\ i = 1 /\ reg = Sessions[c].init /\ bad = FALSE
Step ==
  /\ i <= Len(S.steps) /\ ~bad /\ i' = i + 1 /\ c' = c
  /\ \E o \in {S.steps[i]} : \E x \in {Result(S.steps[i])} :
       LET good == x = <<10001>> \/ (o.v = x /\ Shown(o)) IN
       /\ bad' = ~good
       /\ IF good THEN TRUE ELSE PrintT("@@C14|" \o ToString(S.id) \o "|" \o ToString(i) \o "|" \o ToString(o) \o "|" \o ToString(x) \o "|" \o ToString(reg))
       /\ reg' = IF o.v = None \/ x = <<10001>> THEN reg ELSE [reg EXCEPT ![o.to] = o.v]
Spec == Init /\ [][Step]_vars
\* registers hold reduced elements in every reachable state
TypeOK == \A k \in DOMAIN reg : BLt(reg[k], P)
=============================================================================
