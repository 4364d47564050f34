# (commit, property, what failed)
import json, os
F = """966b358 C02 a loop whose lower bound exceeds its upper bound overflowed in the compiler
f1564f4 C01 an unused remainder by zero did not fail the execution
34c330a C13 comparing field elements given by a product crashed the compiler
90d2a99 C01 the maximum of a shifted integer was underestimated, so later sums were not reduced and gave wrong values
2d0ba87 C13 a constant integer division by zero crashed the compiler
9ea9712 C13 constant shifts by 128 and more crashed the compiler
c5511a0 C13 remainders by zero known only after flattening crashed the compiler
f3a66cc C13 a product raised to a power crashed the compiler
b51db6d C01 a bit decomposition cached for one width was reused truncated for another, giving wrong values
f32c3a1 C01 integer subtractions were offset by the wrong width, so valid executions failed
adb8d79 C13 selecting from literals whose type cannot be inferred crashed the compiler
9299169 C13 struct literals whose generic parameters disagree crashed the compiler
ad95d09 C13 slices in assignments crashed the compiler
9d43f59 C13 constants given by slices of repeated arrays crashed the compiler
5b6417f C03 out of bounds accesses nested in others, and out of bounds slices, crashed the compiler
a34e9ff C03 redefining a variable by a slice of itself crashed the compiler
d18a0b2 C17 a log which printed the same values as an earlier one was dropped
20eb48b C03 assigning a composite which reads the variable's own components read already overwritten ones
49c586d C17 logging a product crashed the compiler
37e5650 C02 a function returning the call of a function of a generic struct was rejected
be1b096 C12 cyclic imports overflowed the compiler's stack
0f3b4df C12 a module imported along two paths was taken for two modules, so its types disagreed
ff128bc C12 imported constants of struct types with constant sizes were rejected
53c4929 C12 constants imported by a module of which only types are used crashed the compiler
e950b99 C07 optimising asm blocks crashed, left variables undefined or removed the hint of a variable read before its definition
480504b C08 rendering an array whose elements hold no values crashed
0076f04 C08 decimal field inputs with leading zeros were read as hexadecimal
e984b80 C09 programs over Pallas and Vesta were reported as programs of other curves
80a6a0c C09 the module section was labelled as the solvers section
dde09e0 C09 a damaged statement silently ended the program being read, losing its constraints
d74a0a7 C09 in debug mode a private input which is only logged was accepted as constrained
c58a89e C10 the r1cs file of a bw6_761 program had coefficients cut to 32 bytes and a header of the wrong size
285d004 C18 `|`, `^` and `<<` on field elements crashed when the result was not below the prime
9fd07a6 C18 a hint which refers to its own target crashed the compiler
c21bef2 C18 a hint with an argument optimisation made unused crashed the compiler
4a1f46e C18 terms of degree three in asm constraints were dropped, so any value satisfied them
217f868 C18 an asm constraint with a multiple of a sum crashed the compiler
7a04260 C18 a hint which divides by a variable known to be zero crashed the compiler"""
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
old = json.load(open(p)) if os.path.exists(p) else {"findings": []}
old["fixed"] = ["fixed: property=%s %s %s" % (l.split(" ", 2)[1], l.split(" ", 2)[0], l.split(" ", 2)[2]) for l in F.split("\n")]
json.dump(old, open(p, "w"), indent=1)
