------------------------------- MODULE Bytes -------------------------------
(* Numbers in byte sequences.  Those beyond 2^31 matter only as bytes.       *)
EXTENDS Integers, Sequences
Huge == -1
RECURSIVE LE(_,_,_), BE(_,_,_)
\* the number in bytes at..at+n-1, least (LE) or most (BE) significant first, or Huge
LE(b, at, n) ==
  IF n = 0 THEN 0
  ELSE LET h == LE(b, at + 1, n - 1) IN
       IF h = Huge \/ h >= 2^23 THEN Huge ELSE h * 256 + b[at]
BE(b, at, n) ==
  IF n = 0 THEN 0
  ELSE LET h == BE(b, at, n - 1) IN
       IF h = Huge \/ h >= 2^23 THEN Huge ELSE h * 256 + b[at + n - 1]
=============================================================================
