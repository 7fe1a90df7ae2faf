------------------------------ MODULE Functional ------------------------------
(* Material ratio curve and functional parameters (property H02).             *)
(* y is the sequence of the n heights in descending order.  The height at a   *)
(* material ratio is the quantile from the top: heights at the ratios         *)
(* 100 k / (n - 1) %, linear in between.  The unit of ratio is 1 / 5N of      *)
(* 100 % with N = n - 1, so that 40 % are 2N units and every break point of   *)
(* the 40 % secant search is a whole number of units.                         *)
(* Every case comes with claims about the answers of the implementation       *)
(* (operation "call"), stated as exact terms over the heights.                *)
EXTENDS Terms, FiniteSets, SequencesExt, TLC, Json

VARIABLES done
R(S) == RandomElement(S)
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(S, F(_)) == FoldLeft(LAMBDA acc, x : acc + F(x), 0, SetToSeq(S))

N(y) == Len(y) - 1
\* 5 times the height at u units of ratio, u in 0..5N
Q5(y, u) == LET k == u \div 5 f == u % 5 IN IF f = 0 THEN 5 * y[k + 1] ELSE (5 - f) * y[k + 1] + f * y[k + 2]
Ratio(y, u) == Q(20 * u, N(y))                              \* in per cent
Extent(y) == y[1] - y[Len(y)]

(* core: least squares line over the 40 % window with the smallest secant slope, the first one of equal ones *)
Fall(y, u) == Q5(y, u) - Q5(y, u + 2 * N(y))
Starts(y) == 0..(3 * N(y))
Falls(y) == [u \in Starts(y) |-> Fall(y, u)]
Best(f) == LET m == FoldLeft(LAMBDA acc, u : IF f[u] < f[acc] THEN u ELSE acc, 0, [i \in 1..Cardinality(DOMAIN f) |-> i - 1]) IN m
\* the sampled curve finds the same window only if no other one is about as flat
Unique(f, u0) == \A v \in DOMAIN f : v # u0 => f[v] >= f[u0] + 2
\* or if the curve is level over more than the window: then the first such plateau counts, however many there are
Level(f, u0) == u0 + 1 \in DOMAIN f /\ f[u0] = 0 /\ f[u0 + 1] = 0
\* 6 times the first moment of the curve about the centre of the window, and twice its sum
Moment6(y, u0) == Sum(0..(2 * N(y) - 1), LAMBDA i : LET q0 == Q5(y, u0 + i) q1 == Q5(y, u0 + i + 1) d == i - N(y) IN 3 * d * (q0 + q1) + q0 + 2 * q1)
Twice(y, u0) == Sum(0..(2 * N(y) - 1), LAMBDA i : Q5(y, u0 + i) + Q5(y, u0 + i + 1))
CoreHeight(y, u0) == Q(-Moment6(y, u0), 4 * N(y) * N(y))
CentreHeight(y, u0) == Q(Twice(y, u0), 20 * N(y))
Upper(y, u0) == Plus(CentreHeight(y, u0), Times(CoreHeight(y, u0), Q(u0 + N(y), 5 * N(y))))

(* volumes above and below the height at u units, times 100 N *)
Material(y, u) == Sum(0..(u - 1), LAMBDA i : (Q5(y, i) - Q5(y, i + 1)) * (2 * i + 1))
Voids(y, u) == Sum(u..(5 * N(y) - 1), LAMBDA i : (Q5(y, i) - Q5(y, i + 1)) * (10 * N(y) - 2 * i - 1))
Vol(y, x) == Q(x, 50 * N(y))

(* ratios at which the curve has the height h / 4: lowest and highest, in per cent times 4 N * drop *)
Above(y, h) == {k \in 1..Len(y) : 4 * y[k] > h}
AtLeast(y, h) == {k \in 1..Len(y) : 4 * y[k] >= h}
RatioAt(y, h) ==
    LET a == Cardinality(Above(y, h)) b == Cardinality(AtLeast(y, h)) n == Len(y) IN
    IF a = n THEN <<I(100), I(100)>>
    ELSE IF b = 0 THEN <<I(0), I(0)>>
    ELSE IF b > a THEN <<Q(100 * a, N(y)), Q(100 * (b - 1), N(y))>>
    ELSE LET p == Plus(Q(100 * (a - 1), N(y)), Q(100 * (4 * y[a] - h), N(y) * 4 * (y[a] - y[a + 1]))) IN <<p, p>>

(* the volume functions do not depend on how the curve is described: adding the material above and the voids below *)
(* a height and the box between them gives the area left and right of the curve                                   *)
ASSUME \A a \in 0..3 : \A b \in 0..3 : \A c \in 0..3 :
    LET y == <<a + b + c, b + c, c, 0>> IN
    /\ \A u \in 0..14 : Material(y, u) <= Material(y, u + 1) /\ Voids(y, u) >= Voids(y, u + 1) /\ Material(y, u) >= 0 /\ Voids(y, u) >= 0
    /\ Material(y, 0) = 0 /\ Voids(y, 15) = 0
    \* mean height above the lowest point: all material
    /\ Material(y, 15) = Sum(0..14, LAMBDA i : (Q5(y, i) + Q5(y, i + 1)) - 2 * Q5(y, 15))
    /\ (a # b => RatioAt(y, 4 * (b + c)) # <<>>)

-------------------------------------------------------------------------------
Obs(f, a) == [op |-> "call", f |-> f, a |-> a]
Mul == [op |-> "var", n |-> "mul"]
Off == [op |-> "var", n |-> "off"]
Z(h) == Plus(Times(h, Mul), Off)               \* a height
D(h) == Times(h, Mul)                          \* a height difference
Least(a, b) == [op |-> "min", a |-> a, b |-> b]
Most(a, b) == [op |-> "max", a |-> a, b |-> b]
Eq(n, a, b, tol) == [n |-> n, rel |-> "eq", a |-> a, b |-> b, tol |-> tol]
Le(n, a, b, tol) == [n |-> n, rel |-> "le", a |-> a, b |-> b, tol |-> tol]
P(k) == <<Q(k, 10)>>

Claims(y, us, hs, p, q, u0, unique) ==
    LET n == Len(y)
        top == Z(I(y[1])) bottom == Z(I(y[n])) range == D(I(Extent(y)))
        tol == Times(range, Q(3, 1000))
        tiny == Plus(Times(range, Q(1, 100000000)), Times([op |-> "abs", a |-> Off], Times(Q(1, 100000000), Q(1, 1000))))
        rtol == Q(13, 1000)
        upper == Minus(top, Obs("pkx", <<>>))
        lower == Plus(bottom, Obs("vkx", <<>>))
        small == Plus(tiny, Q(1, 1000000000))
    IN  [k \in 1..Len(us) |-> Eq("mc", Obs("mc", <<Ratio(y, us[k])>>), Z(Q(Q5(y, us[k]), 5)), tol)]
     \o [k \in 1..Len(us) |-> Eq("Vm", Obs("Vm", <<Ratio(y, us[k])>>), D(Vol(y, Material(y, us[k]))), tol)]
     \o [k \in 1..Len(us) |-> Eq("Vv", Obs("Vv", <<Ratio(y, us[k])>>), D(Vol(y, Voids(y, us[k]))), tol)]
     \o FlattenSeq([k \in 1..Len(hs) |-> LET w == RatioAt(y, hs[k]) c == Obs("mr", <<Z(Q(hs[k], 4))>>) IN
                     <<Le("mr", w[1], c, rtol), Le("mr", c, w[2], rtol)>>])
     \o <<Eq("mc0", Obs("mc", <<I(0)>>), top, tiny), Eq("mc100", Obs("mc", <<I(100)>>), bottom, tiny),
          Eq("mr_above", Obs("mr", <<Plus(top, range)>>), I(0), I(0)), Eq("mr_below", Obs("mr", <<Minus(bottom, range)>>), I(100), I(0)),
          Eq("range", Plus(Plus(Obs("pkx", <<>>), Obs("k", <<>>)), Obs("vkx", <<>>)), range, small),
          Eq("mr1", Obs("mc", <<Obs("mr1", <<>>)>>), Most(bottom, Least(upper, top)), tol),
          Eq("mr2", Obs("mc", <<Obs("mr2", <<>>)>>), Least(top, Most(lower, bottom)), tol),
          Le("mr1", I(0), Obs("mr1", <<>>), I(0)), Le("mr2", Obs("mr2", <<>>), I(100), I(0)), Le("k", I(0), Obs("k", <<>>), small),
          Eq("mrk1", Obs("mrk1", <<>>), Obs("mr1", <<>>), I(0)), Eq("mrk2", Obs("mrk2", <<>>), Obs("mr2", <<>>), I(0)),
          Eq("ak1", Obs("ak1", <<>>), Times(Q(1, 2), Times(Obs("pk", <<>>), Obs("mr1", <<>>))), small),
          Eq("ak2", Obs("ak2", <<>>), Times(Q(1, 2), Times(Obs("vk", <<>>), Minus(I(100), Obs("mr2", <<>>)))), small),
          Eq("ak1_area", Obs("ak1", <<>>), Times(I(100), Obs("Vm", <<Obs("mr1", <<>>)>>)), Times(I(100), tol)),
          Eq("ak2_area", Obs("ak2", <<>>), Times(I(100), Obs("Vv", <<Obs("mr2", <<>>)>>)), Times(I(100), tol)),
          Le("pk", I(0), Obs("pk", <<>>), I(0)), Le("vk", I(0), Obs("vk", <<>>), I(0)),
          Eq("xp", Obs("xp", P(p) \o P(q)), Minus(Obs("mc", P(p)), Obs("mc", P(q))), small),
          Eq("dc", Obs("dc", P(p) \o P(q)), Minus(Obs("mc", P(p)), Obs("mc", P(q))), small),
          Eq("xp_default", Obs("xp", <<>>), Minus(Obs("mc", P(25)), Obs("mc", P(500))), small),
          Eq("dc_default", Obs("dc", <<>>), Minus(Obs("mc", P(25)), Obs("mc", P(500))), small),
          Eq("vmp", Obs("vmp", P(p)), Obs("Vm", P(p)), small), Eq("vmp_default", Obs("vmp", <<>>), Obs("Vm", P(100)), small),
          Eq("vmc", Obs("vmc", P(p) \o P(q)), Minus(Obs("Vm", P(q)), Obs("Vm", P(p))), small),
          Eq("vmc_default", Obs("vmc", <<>>), Minus(Obs("Vm", P(800)), Obs("Vm", P(100))), small),
          Eq("vvv", Obs("vvv", P(q)), Obs("Vv", P(q)), small), Eq("vvv_default", Obs("vvv", <<>>), Obs("Vv", P(800)), small),
          Eq("vvc", Obs("vvc", P(p) \o P(q)), Minus(Obs("Vv", P(p)), Obs("Vv", P(q))), small),
          Eq("vvc_default", Obs("vvc", <<>>), Minus(Obs("Vv", P(100)), Obs("Vv", P(800))), small),
          Le("vmc", I(0), Obs("vmc", P(p) \o P(q)), I(0)), Le("vvc", I(0), Obs("vvc", P(p) \o P(q)), I(0)),
          Le("mc_order", Obs("mc", P(q)), Obs("mc", P(p)), I(0))>>
     \o (IF ~unique THEN <<>> ELSE
         <<Eq("core", Obs("k", <<>>), D(CoreHeight(y, u0)), tol), Eq("upper", upper, Z(Upper(y, u0)), tol)>>
         \o (IF 100 * Abs(Moment6(y, u0)) <= 4 * N(y) * N(y) * Extent(y) THEN <<>> ELSE
             <<Le("mr_order", Obs("mr1", <<>>), Obs("mr2", <<>>), I(0))>>))

\* every height occurs rep times, for so large a number that the curve is a staircase whose steps all have the same width;
\* the middle of step k is at (2k - 1) / 2n
ClaimsOfSteps(y, hs, k0) ==
    LET n == Len(y)
        top == Z(I(y[1])) bottom == Z(I(y[n])) range == D(I(Extent(y)))
        tol == Times(range, Q(3, 1000))
        tiny == Plus(Times(range, Q(1, 100000000)), Times([op |-> "abs", a |-> Off], Times(Q(1, 100000000), Q(1, 1000))))
        rtol == Q(13, 1000)
        Mid(k) == Q(50 * (2 * k - 1), n)
        upper == Minus(top, Obs("pkx", <<>>))
        lower == Plus(bottom, Obs("vkx", <<>>))
        AbsT(a) == [op |-> "abs", a |-> a]
        Nearest(h) == FoldLeft(LAMBDA acc, x : Least(acc, AbsT(Minus(Z(I(x)), h))), AbsT(Minus(top, h)), y)
        \* the areas above and below the core, whose limits may be taken at the nearest height that occurs
        hills == Times(Q(100, n), Total([k \in 1..n |-> Most(I(0), Minus(Z(I(y[k])), upper))]))
        dales == Times(Q(100, n), Total([k \in 1..n |-> Most(I(0), Minus(lower, Z(I(y[k]))))]))
        high(h) == Cardinality(Above(y, h)) reach(h) == Cardinality(AtLeast(y, h))
    IN  [k \in 1..n |-> Eq("mc", Obs("mc", <<Mid(k)>>), Z(I(y[k])), tiny)]
     \o [k \in 1..2 |-> LET m == IF k = 1 THEN k0 ELSE n - k0 + 1 IN
            Eq("Vm", Obs("Vm", <<Mid(m)>>), D(Q(Sum(1..m, LAMBDA i : y[i] - y[m]), n)), tol)]
     \o [k \in 1..2 |-> LET m == IF k = 1 THEN k0 ELSE n - k0 + 1 IN
            Eq("Vv", Obs("Vv", <<Mid(m)>>), D(Q(Sum(m..n, LAMBDA i : y[m] - y[i]), n)), tol)]
     \o FlattenSeq([k \in 1..Len(hs) |-> LET c == Obs("mr", <<Z(Q(hs[k], 4))>>) IN
                     <<Le("mr", Minus(Q(100 * high(hs[k]), n), rtol), c, I(0)), Le("mr", c, Plus(Q(100 * reach(hs[k]), n), rtol), I(0))>>])
     \o <<Eq("mc0", Obs("mc", <<I(0)>>), top, tiny), Eq("mc100", Obs("mc", <<I(100)>>), bottom, tiny),
          Eq("range", Plus(Plus(Obs("pkx", <<>>), Obs("k", <<>>)), Obs("vkx", <<>>)), range, Plus(tiny, Q(1, 1000000000))),
          Eq(IF 9999 % n = 0 THEN "ak1_class_in_jump" ELSE "ak1_steps", Obs("ak1", <<>>), hills, Plus(Times(I(100), tol), Times(Nearest(upper), Plus(Obs("mr1", <<>>), rtol)))),
          Eq("ak2_steps", Obs("ak2", <<>>), dales, Plus(Times(I(100), tol), Times(Nearest(lower), Plus(Minus(I(100), Obs("mr2", <<>>)), rtol)))),
          Eq("ak1", Obs("ak1", <<>>), Times(Q(1, 2), Times(Obs("pk", <<>>), Obs("mr1", <<>>))), Times(I(100), tiny)),
          Eq("ak2", Obs("ak2", <<>>), Times(Q(1, 2), Times(Obs("vk", <<>>), Minus(I(100), Obs("mr2", <<>>)))), Times(I(100), tiny)),
          Eq("xp", Obs("xp", <<Mid(1), Mid(n)>>), range, tiny), Eq("dc", Obs("dc", <<Mid(1), Mid(k0)>>), D(I(y[1] - y[k0])), tiny),
          Eq("vmp", Obs("vmp", <<Mid(k0)>>), Obs("Vm", <<Mid(k0)>>), tiny), Eq("vvv", Obs("vvv", <<Mid(k0)>>), Obs("Vv", <<Mid(k0)>>), tiny)>>

Heights(n, style) ==
    [k \in 1..n |-> CASE style = 1 -> R(0..60)
       [] style = 2 -> R({0, 20, 20, 40})
       [] style = 3 -> IF k <= n \div 2 THEN R(0..6) ELSE R(0..60)
       [] style = 4 -> IF k = 1 THEN 60 ELSE R(0..5)
       [] style = 7 -> IF 20 * k <= 9 * n THEN 30 ELSE IF 20 * (n - k) < 9 * n THEN 4 ELSE R(0..60)
       [] style = 5 -> IF k = 1 THEN 0 ELSE R(40..45)
       [] OTHER -> 5 * k]
Descending(s) == SortSeq(s, LAMBDA a, b : a > b)
\* the 10000 classes of the curve are 1 / 9999 apart: if n divides 9999 there is one in the middle of every jump
InJump == LET z == <<32, 23, 35, 52, 41, 29, 26, 23, 13, 9, 53>> y == Descending(z) IN
    [z |-> z, kind |-> "P", w |-> 1, unique |-> FALSE, mul |-> 10, off |-> 0, rep |-> 5000, order |-> "pattern", claims |-> ClaimsOfSteps(y, <<100, 140>>, 3)]
Init == done = FALSE /\ PrintT("@@" \o ToJson(InJump))
Next ==
    /\ ~done /\ done' = TRUE
    /\ \E style \in {R(1..7)} : \E n \in {IF style = 7 THEN R(18..24) ELSE R(2..12)} : \E z \in {Heights(n, style)} : \E y \in {Descending(z)} :
       \E us \in {[k \in 1..6 |-> R(0..(5 * (n - 1)))]} :
       \E hs \in {[k \in 1..6 |-> IF R(1..3) = 1 THEN 4 * y[R(1..n)] ELSE 4 * y[n] - 8 + R(0..(4 * (y[1] - y[n]) + 16))]} :
       \E f \in {Falls(y)} : \E u0 \in {Best(f)} : \E unique \in {Unique(f, u0) \/ Level(f, u0)} :
       \E p \in {R(1..500)} : \E q \in {R(501..1000)} :
       \E many \in {R(1..30) = 1} : \E k0 \in {R(1..n)} :
       Extent(y) > 0 => PrintT("@@" \o ToJson([z |-> z, kind |-> R({"S", "P"}), w |-> R({k \in 1..n : n % k = 0}), unique |-> unique /\ ~many,
                              mul |-> R({1, 10, 1000, 2500}), off |-> R({0, 0, 7, -3000, 100000}),
                              rep |-> IF many THEN (IF R(1..2) = 1 THEN R(1000000..2600000) ELSE R(50000..200000)) \div n ELSE 1, order |-> R({"pattern", "runs", "shuffled"}),
                              claims |-> IF many THEN ClaimsOfSteps(y, hs, k0) ELSE Claims(y, us, hs, p, q, u0, unique)]))
Spec == Init /\ [][Next]_done
=============================================================================
