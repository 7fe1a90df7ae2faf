-------------------------------- MODULE Terms --------------------------------
(* Exact symbolic numbers: formulas over integers that a specification       *)
(* states and the conformance driver evaluates with rational arithmetic.     *)
(* They lift TLC's 32-bit integers to the reals the definitions speak about. *)
EXTENDS Integers, Sequences

I(n)        == [op |-> "int", n |-> n]
Q(n, d)     == [op |-> "div", a |-> I(n), b |-> I(d)]
Plus(a, b)  == [op |-> "add", a |-> a, b |-> b]
Minus(a, b) == [op |-> "sub", a |-> a, b |-> b]
Times(a, b) == [op |-> "mul", a |-> a, b |-> b]
Over(a, b)  == [op |-> "div", a |-> a, b |-> b]
Pow(a, k)   == [op |-> "pow", a |-> a, k |-> k]
Sqrt(a)     == [op |-> "sqrt", a |-> a]
\* 2^a for a real exponent
Exp2(a)     == [op |-> "exp2", a |-> a]
\* angle of the direction (b, a) in degree, and the angle in radian with the given cosine
Atan2(a, b) == [op |-> "atan2", a |-> a, b |-> b]
Acos(a)     == [op |-> "acos", a |-> a]
\* of an angle in degree
Cos(a)      == [op |-> "cos", a |-> a]
Sin(a)      == [op |-> "sin", a |-> a]
Pi          == [op |-> "pi"]
Total(s)    == [op |-> "sum", s |-> s]
\* sum of the k-th powers of a sequence of integers
SumPow(s, k) == [op |-> "sumpow", s |-> s, k |-> k]
=============================================================================
