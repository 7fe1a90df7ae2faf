------------------------------- MODULE Detrend -------------------------------
(* Levelling and polynomial detrending (property T07).                       *)
(* Generator of the topographies and requests, and trace specification of    *)
(* the recorded answers.  Heights in 1/1000.  A remainder r and a trend t of *)
(* a topography g of degree d are right iff                                  *)
(*   r + t = g at measured points, r is missing exactly where g is,          *)
(*   t is a polynomial of total degree d: its mixed differences of order     *)
(*   d + 1 vanish,                                                           *)
(*   r is orthogonal to every monomial of total degree at most d.            *)
(* These are linear integer relations: no least squares solver is involved.  *)
EXTENDS Grid, Json, IOUtils

VARIABLES t, l, done
vars == <<t, l, done>>
R(S) == RandomElement(S)

(* generator *)
RandomGrid(ny, nx, style, cx, cy, cxy) ==
    [i \in 1..ny |-> [j \in 1..nx |->
        \* style 8: few measured points
        IF (IF style = 8 THEN R(1..12) # 1 /\ <<i, j>> \notin {<<1, 1>>, <<1, 2>>, <<ny, nx>>} ELSE R(1..(IF style = 4 THEN 4 ELSE 40)) = 1) THEN NaN
        ELSE 1000 * (CASE style = 1 -> R(-9..9)
               [] style = 2 -> cx * j + cy * i + R({-1, 0, 1})
               [] style = 3 -> cx * j * j - cy * i * i + cxy * i * j + R({0, 0, 1})
               [] style = 4 -> cx * j - cy * i + 40
               [] style \in {7, 8} -> R(-3..3)
               [] style = 5 -> 100 + R({0, 5})
               [] OTHER -> (cx * i * i * j - cxy * j * j * j) \div 16)]]
\* a rectangular cavity in a rough tilted surface, with missing points
StepGrid(ny, nx, r, noise, ta, tb, lost) ==
    [i \in 1..ny |-> [j \in 1..nx |->
        IF R(1..lost) = 1 THEN NaN
        ELSE 1000 * (IF i > r[1] /\ j > r[2] /\ i <= r[3] /\ j <= r[4] THEN -400 ELSE 0) + 1000 * R(-noise..noise) + (30000 * ta * i) \div ny + (30000 * tb * j) \div nx]]
GenInit == t = 0 /\ l = 0 /\ done = FALSE
GenNext ==
    /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, l>>
    /\ \E k \in {R({"S", "S", "P"})} : \E d \in {R({1, 1, 2, 2, 3, 3, 4, 5})} : \E small \in {IF d > 3 THEN d + 2 ELSE 2} :
       \* a few large topographies, too (low heights and degrees, to keep the moments small)
       \E step \in {k = "S" /\ R(1..8) = 1} : \E large \in {(step /\ R(1..4) = 1) \/ (d < 3 /\ R(1..40) = 1)} :
       \E ny \in {IF large THEN R(34..40) ELSE R(small..7)} : \E nx \in {IF large THEN R(34..40) ELSE R(small..8)} : \E n \in {IF large THEN R(60..100) ELSE R(Max2(3, small)..11)} :
       \E style \in {IF large THEN R({7, 7, 8}) ELSE IF d < 3 THEN R({R(1..6), R(1..6), R(1..6), 8}) ELSE R(1..6)} : \E cx \in {R(-3..3)} : \E cy \in {R(-3..3)} : \E cxy \in {R(-2..2)} :
       \E g \in {IF k = "S" THEN RandomGrid(ny, nx, style, cx, cy, cxy) ELSE RandomGrid(1, n, style, cx, cy, cxy)} :
       \* now and then as many points as a measurement has: the grid is repeated, with a hill in the middle of the topography,
       \* and recorded are the points of a coarse grid and the moments of the remainder
       \E many \in {R(1..150) = 1} : \E points \in {R({40000, 300000, 300000, 1200000})} : \E share \in {R(2..8)} :
       \E api \in {IF step THEN "step" ELSE R({"level", "detrend"})} : \E inp \in {R(BOOLEAN)} : \E rt \in {R(BOOLEAN)} :
       \E h \in {IF ~step THEN g
                ELSE LET sy == IF large THEN ny ELSE ny + 6 sx == IF large THEN nx ELSE nx + 6 IN
                     StepGrid(sy, sx, <<R(1..3), R(1..3), R({sy - R(0..2), (2 * sy) \div 3}), R({sx - R(1..3), (3 * sx) \div 4})>>, R({0, 1, 3}), R(-1..1), R(-1..1), R({5, 40, 100000}))} :
       PrintT("@@" \o ToJson([k |-> k, g |-> h, many |-> many /\ ~step, points |-> points, share |-> share, d |-> IF api = "detrend" THEN d ELSE 1, api |-> api, inp |-> inp, rt |-> rt /\ ~step,
                              sx |-> R({1, 500, 1000, 2500, 7000000}), sy |-> R({1, 500, 1000, 3000, 40000000}), unit |-> R({"1", "1", "1e-7", "3e4"})]))
GenSpec == GenInit /\ [][GenNext]_vars

(* judgement *)
Clause(ok, name) == IF ok THEN {} ELSE {name}
Monomials(k, d) == IF k = "P" THEN {<<a, 0>> : a \in 0..d} ELSE {<<a, b>> : a \in 0..d, b \in 0..d} \cap {p \in (0..d) \X (0..d) : p[1] + p[2] <= d}
RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN 1 ELSE x * PowI(x, n - 1)
\* coordinates are centred by half their range to keep the moments small
Cx(g, j) == j - (NCols(g) + 1) \div 2
Cy(g, i) == i - (NRows(g) + 1) \div 2
Weight(g, m, i, j) == PowI(Cx(g, j), m[1]) * PowI(Cy(g, i), m[2])
Points(g) == {<<i, j>> \in (1..NRows(g)) \X (1..NCols(g)) : g[i][j] # NaN}
Moment(g, r, m) == SeqSum(Flat([i \in 1..NRows(g) |-> [j \in 1..NCols(g) |-> IF g[i][j] = NaN THEN 0 ELSE Weight(g, m, i, j) * r[i][j]]]))
Slack(g, m) == SeqSum(Flat([i \in 1..NRows(g) |-> [j \in 1..NCols(g) |-> IF g[i][j] = NaN THEN 0 ELSE Abs(Weight(g, m, i, j))]]))
Orthogonal(k, g, r, d) == \A m \in Monomials(k, d) : Abs(Moment(g, r, m)) <= Slack(g, m) + 2
\* the recorded moments: 10^6 times the share of a moment in the largest one possible
MomentsVanish(k, d, m) == \A p \in Monomials(k, d) : \E i \in 1..Len(m) : m[i].a = p[1] /\ m[i].b = p[2] /\ Abs(m[i].v) <= 3
DiffX(g) == [i \in 1..NRows(g) |-> [j \in 1..(NCols(g) - 1) |-> g[i][j + 1] - g[i][j]]]
DiffY(g) == [i \in 1..(NRows(g) - 1) |-> [j \in 1..NCols(g) |-> g[i + 1][j] - g[i][j]]]
RECURSIVE DiffXY(_, _, _)
DiffXY(g, a, b) == IF a > 0 THEN (IF NCols(g) < 2 THEN <<>> ELSE DiffXY(DiffX(g), a - 1, b))
                   ELSE IF b > 0 THEN (IF NRows(g) < 2 THEN <<>> ELSE DiffXY(DiffY(g), a, b - 1)) ELSE g
Polynomial(k, g, d) ==
    \A a \in 0..(d + 1) : LET dd == DiffXY(g, a, IF k = "P" THEN 0 ELSE d + 1 - a) IN
        (k = "P" => a = d + 1) => \A i \in 1..NRows(dd) : \A j \in 1..NCols(dd) : Abs(dd[i][j]) <= 20 + PowI(2, d + 1)

(* Levelling by the upper level of a step: the heights lose a plane of mean zero, and the upper level has no tilt any more. *)
Upper(g) == {p \in Points(g) : g[p[1]][p[2]] > -200000}
StepPlane(g, r) ==
    LET d == [i \in 1..NRows(g) |-> [j \in 1..NCols(g) |-> IF g[i][j] = NaN THEN NaN ELSE g[i][j] - r[i][j]]]
        \* neighbouring measured points of each row and each column
        X == {p \in Points(g) : <<p[1], p[2] + 1>> \in Points(g)}
        Y == {p \in Points(g) : <<p[1] + 1, p[2]>> \in Points(g)}
        Gx(p) == d[p[1]][p[2] + 1] - d[p[1]][p[2]]
        Gy(p) == d[p[1] + 1][p[2]] - d[p[1]][p[2]]
    IN  /\ X # {} => LET q == CHOOSE p \in X : TRUE IN \A p \in X : Abs(Gx(p) - Gx(q)) <= 3
        /\ Y # {} => LET q == CHOOSE p \in Y : TRUE IN \A p \in Y : Abs(Gy(p) - Gy(q)) <= 3
        \* the plane vanishes in the middle
        /\ \A p \in Points(g) : LET o == <<NRows(g) + 1 - p[1], NCols(g) + 1 - p[2]>> IN o \in Points(g) => Abs(d[p[1]][p[2]] + d[o[1]][o[2]]) <= 3
StepLevel(g, r) ==
    LET u == [i \in 1..NRows(g) |-> [j \in 1..NCols(g) |-> IF <<i, j>> \in Upper(g) THEN g[i][j] ELSE NaN]]
        mean == Moment(u, r, <<0, 0>>) \div Cardinality(Upper(g))
        e == [i \in 1..NRows(g) |-> [j \in 1..NCols(g) |-> r[i][j] - mean]]
    IN  \A m \in {<<1, 0>>, <<0, 1>>} : Abs(Moment(u, e, m)) <= 2 * Slack(u, m) + 2

Ranged(g) == \A i \in 1..NRows(g) : \A j \in 1..NCols(g) : g[i][j] = NaN \/ (g[i][j] # Inf /\ Abs(g[i][j]) <= 1400000)
Verdict(e) ==
    IF e.err # "" THEN {"T07:raised"}
    ELSE Clause(SameMask(e.g, e.r), "T07:mask")
    \cup (IF ~SameMask(e.g, e.r) \/ ~Ranged(e.r) THEN Clause(Ranged(e.r), "T07:range") ELSE
         Clause(IF e.step THEN StepLevel(e.g, e.r) ELSE IF e.many THEN MomentsVanish(e.k, e.d, e.moments) ELSE Orthogonal(e.k, e.g, e.r, e.d), "T07:remainder_contains_trend")
         \cup Clause(NearGrid(e.r, e.again, 2), "T07:not_idempotent")
         \cup Clause(NearGrid(e.r, e.other, 1), "T07:variant_differs")
         \cup Clause(e.idn, "T07:identity")
         \cup Clause(e.sp, "T07:spacing")
         \* without the trend being returned it is the difference, defined at the measured points only
         \cup (IF e.rt THEN
                 Clause(SameShape(e.tr, e.g) /\ ~HasNaN(e.tr) /\ Ranged(e.tr), "T07:trend_shape")
                 \cup (IF ~SameShape(e.tr, e.g) \/ HasNaN(e.tr) \/ ~Ranged(e.tr) THEN {} ELSE
                    Clause(\A i \in 1..NRows(e.g) : \A j \in 1..NCols(e.g) : e.g[i][j] # NaN => Abs(e.r[i][j] + e.tr[i][j] - e.g[i][j]) <= 2, "T07:not_additive")
                    \cup Clause(Polynomial(e.k, e.tr, e.d), "T07:trend_no_polynomial"))
               ELSE IF e.step THEN Clause(StepPlane(e.g, e.r), "T07:trend_no_polynomial")
               ELSE IF HasNaN(e.g) THEN {} ELSE
                 Clause(Polynomial(e.k, [i \in 1..NRows(e.g) |-> [j \in 1..NCols(e.g) |-> e.g[i][j] - e.r[i][j]]], e.d), "T07:trend_no_polynomial")))

Traces == JsonDeserialize(IOEnv.TRACE)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ done = FALSE
TraceNext == /\ l <= Len(Traces[t])
             /\ LET v == Verdict(Traces[t][l]) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
             /\ l' = l + 1 /\ UNCHANGED <<t, done>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
