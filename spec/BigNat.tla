------------------------------ MODULE BigNat ------------------------------
(***************************************************************************)
(* Natural numbers of any size, as little-endian sequences of limbs in     *)
(* base 10000 without trailing zero limbs; <<>> is zero.  TLC's integers   *)
(* are 32 bits wide, field elements of the curves are up to 377 bits wide. *)
(* Every operator has a definition in plain TLA+.  /verif/java/BigNat.java *)
(* overrides them for speed when it is on TLC's class path; BigNatCheck    *)
(* compares the two on samples.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Base == 10000

RECURSIVE BNorm(_), BFromInt(_), BAddC(_,_,_), BSubC(_,_,_), BMulS(_,_,_), BMul(_,_),
          BCmpAt(_,_,_), BDivS(_,_,_,_), BDivLoop(_,_,_,_,_), BPowNat(_,_),
          BBitsLoop(_,_), BFromBitsLE(_), BModExp(_,_,_), BToInt(_)

BNorm(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

BFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BFromInt(n \div Base)

\* only for values which fit TLC's integers
BToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * BToInt(Tail(a))

BCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN 0 - 1
                   ELSE IF a[i] > b[i] THEN 1 ELSE BCmpAt(a, b, i - 1)
\* -1, 0 or 1
BCmp(a, b) == IF Len(a) < Len(b) THEN 0 - 1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmpAt(a, b, Len(a))
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0

BAddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
       IN  <<x % Base>> \o BAddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div Base)
BAdd(a, b) == BAddC(a, b, 0)

BSubC(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET y == (IF b = <<>> THEN 0 ELSE Head(b)) + c
           x == Head(a)
       IN  IF x >= y THEN <<x - y>> \o BSubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), 0)
           ELSE <<x + Base - y>> \o BSubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), 1)
\* a - b, for a >= b
BSub(a, b) == BNorm(BSubC(a, b, 0))

\* a times one limb, plus a carry
BMulS(a, s, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                  ELSE LET x == Head(a) * s + c IN <<x % Base>> \o BMulS(Tail(a), s, x \div Base)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE BNorm(BAdd(BMulS(a, Head(b), 0), <<0>> \o BMul(a, Tail(b))))

\* largest limb q in lo..hi with q * b <= r
BDivS(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF BLe(BNorm(BMulS(b, m, 0)), r) THEN BDivS(r, b, m, hi) ELSE BDivS(r, b, lo, m - 1)
BDivLoop(a, b, i, q, r) ==
  IF i = 0 THEN <<BNorm(q), r>>
  ELSE LET r1 == BNorm(<<a[i]>> \o r)
           d  == BDivS(r1, b, 0, Base - 1)
       IN  BDivLoop(a, b, i - 1, <<d>> \o q, BSub(r1, BNorm(BMulS(b, d, 0))))
\* <<quotient, remainder>>, for b # 0
BDivMod(a, b) == BDivLoop(a, b, Len(a), <<>>, <<>>)
BDiv(a, b) == BDivMod(a, b)[1]
BMod(a, b) == BDivMod(a, b)[2]

BPowNat(a, n) == IF n = 0 THEN <<1>> ELSE BMul(a, BPowNat(a, n - 1))
BPow2(n) == BPowNat(<<2>>, n)

BHalf(a) == BDiv(a, <<2>>)
BOdd(a) == a # <<>> /\ a[1] % 2 = 1
\* a^e mod m
BModExp(a, e, m) ==
  IF e = <<>> THEN BMod(<<1>>, m)
  ELSE LET h == BModExp(a, BHalf(e), m)
           s == BMod(BMul(h, h), m)
       IN  IF BOdd(e) THEN BMod(BMul(s, a), m) ELSE s

\* the n low bits of a, least significant first, as 0/1
BBitsLoop(a, n) == IF n = 0 THEN <<>> ELSE <<IF BOdd(a) THEN 1 ELSE 0>> \o BBitsLoop(BHalf(a), n - 1)
BBits(a, n) == BBitsLoop(a, n)
BFromBitsLE(s) == IF s = <<>> THEN <<>> ELSE BAdd(IF Head(s) = 1 THEN <<1>> ELSE <<>>, BMul(<<2>>, BFromBitsLE(Tail(s))))
BFromBits(s) == BFromBitsLE(s)

BAnd(a, b, n) == LET x == BBits(a, n) y == BBits(b, n) IN BFromBits([i \in 1..n |-> x[i] * y[i]])
BOr(a, b, n)  == LET x == BBits(a, n) y == BBits(b, n) IN BFromBits([i \in 1..n |-> IF x[i] + y[i] > 0 THEN 1 ELSE 0])
BXor(a, b, n) == LET x == BBits(a, n) y == BBits(b, n) IN BFromBits([i \in 1..n |-> (x[i] + y[i]) % 2])

\* sum of terms[i][2] * asg[terms[i][1]] modulo m: the value of a linear combination
RECURSIVE BDotFrom(_,_,_,_)
BDotFrom(terms, asg, m, i) ==
  IF i > Len(terms) THEN <<>>
  ELSE BMod(BAdd(BMul(terms[i][2], asg[terms[i][1]]), BDotFrom(terms, asg, m, i + 1)), m)
BDot(terms, asg, m) == BDotFrom(terms, asg, m, 1)

\* the terms <<variable, coefficient>> as a function of the variables, coefficients of the same variable added up
\* modulo m and those which vanish left out
RECURSIVE BTermsFrom(_,_,_,_)
BTermsFrom(ts, m, u, i) ==
  IF i > Len(ts) THEN u
  ELSE LET v == ts[i][1]
           c == IF v \in DOMAIN u THEN BMod(BAdd(u[v], ts[i][2]), m) ELSE ts[i][2]
       IN  BTermsFrom(ts, m, [x \in DOMAIN u \union {v} |-> IF x = v THEN c ELSE u[x]], i + 1)
BTerms(ts, m) ==
  LET u == BTermsFrom(ts, m, [x \in {} |-> <<>>], 1)
  IN  [x \in {y \in DOMAIN u : u[y] # <<>>} |-> u[x]]

\* the square roots of a modulo the prime m, as a sequence (definition by search; overridden)
RECURSIVE BSqrtSearch(_,_,_)
BSqrtSearch(a, m, x) ==
  IF BLe(m, x) THEN <<>>
  ELSE (IF BMod(BMul(x, x), m) = a THEN <<x>> ELSE <<>>) \o BSqrtSearch(a, m, BAdd(x, <<1>>))
BSqrt(a, m) == BSqrtSearch(a, m, <<>>)

\* k if a is 2^k, otherwise -1
RECURSIVE BLog2From(_,_)
BLog2From(a, k) == IF a = <<>> THEN 0 - 1 ELSE IF a = <<1>> THEN k ELSE IF BOdd(a) THEN 0 - 1 ELSE BLog2From(BHalf(a), k + 1)
BLog2(a) == BLog2From(a, 0)
=============================================================================
