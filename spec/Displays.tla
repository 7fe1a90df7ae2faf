------------------------------ MODULE Displays ------------------------------
(* Displays of topographies and of their analyses (property D01).             *)
(* The state is a topography that may be edited between displays, and the     *)
(* pictures that have been drawn.  A picture shows the topography it was      *)
(* asked for at the time it was drawn: every height at its place, missing     *)
(* points in the colour asked for, the axes in units of length, frequency or  *)
(* material ratio.  It is drawn into the axes that are given or into a new    *)
(* figure, and nothing else changes: neither the topography, nor pictures     *)
(* that were drawn before, nor other figures.                                 *)
EXTENDS Grid, Json, IOUtils

VARIABLES t, l, g
vars == <<t, l, g>>
R(S) == RandomElement(S)

\* one period of the patterns of which waves are made: 2 cos(2 pi j / p), or half of it
Pattern(p) == CASE p = 1 -> <<0>> [] p = 2 -> <<1, -1>> [] p = 3 -> <<2, -1, -1>> [] p = 4 -> <<1, 0, -1, 0>> [] OTHER -> <<2, 1, -1, -2, -1, 1>>
Wave(p, j) == Pattern(p)[(j % p) + 1]
\* amplitude of the Fourier coefficients +-n/p of n points
Coefficient(p, n) == IF p = 4 THEN n \div 2 ELSE n

-----------------------------------------------------------------------------
(* generator *)
Colours == 1..4
Request(k, wave) ==
    LET S == k = "S" IN
    [r \in 1..10 |->
      IF r <= 3 THEN [op |-> "plot2d", own |-> R(BOOLEAN), save |-> R(1..12) = 1, cbar |-> R({"", "", "yes", "no"}), colour |-> R(Colours),
                      layer |-> R({0, 0, 0, 1, 2, 3}), lo |-> R({NaN, NaN, 0, -2000, 1000}), hi |-> R({NaN, NaN, 0, 4000, 9000})]
      ELSE IF r = 4 THEN [op |-> "curve", own |-> R(1..3) # 1, save |-> R(1..12) = 1, bars |-> R(1..9)]
      ELSE IF r = 5 THEN [op |-> "study", own |-> R(1..3) # 1, save |-> R(1..12) = 1]
      ELSE IF r = 6 \/ ~S THEN [op |-> "edit", i |-> R(1..20), j |-> R(1..20), v |-> R({-9000, 3500, 12000}), how |-> R({"point", "row", "whole"})]
      ELSE IF r = 7 THEN [op |-> "acf", own |-> R(BOOLEAN), save |-> R(1..12) = 1, cbar |-> R({"", "yes", "no"})]
      ELSE IF r = 8 \/ (wave /\ r = 9) THEN [op |-> "fourier", own |-> R(BOOLEAN), save |-> R(1..12) = 1, log |-> R(BOOLEAN), sub |-> R(BOOLEAN), adj |-> R(BOOLEAN), han |-> R(1..3) = 1,
                            fx |-> R({0, 0, 1, 2, 3, 5}), fy |-> R({0, 0, 1, 2, 3, 5}), jit |-> R(-3..3)]
      ELSE IF r = 9 THEN [op |-> "angular", own |-> R(BOOLEAN), save |-> FALSE, step |-> R({1, 5, 10, 45})]
      ELSE [op |-> "solid", own |-> TRUE, save |-> R(1..6) = 1, cbar |-> R({"yes", "no"}), lod |-> R({100, 100, 50, 34, 80})]][R(1..10)]
RandomGrid(ny, nx, missing) == [i \in 1..ny |-> [j \in 1..nx |-> IF missing /\ R(1..6) = 1 THEN NaN ELSE 500 * R(-9..14)]]
WaveGrid(ny, nx, py, px, a, b, o) == [i \in 1..ny |-> [j \in 1..nx |-> 1000 * (a * Wave(px, j) + b * Wave(py, i) + o)]]
GenInit == t = 0 /\ l = 0 /\ g = <<>>
GenNext ==
    /\ l = 0 /\ l' = 1 /\ UNCHANGED <<t, g>>
    /\ \E k \in {R({"S", "S", "S", "P"})} : \E wave \in {k = "S" /\ R(1..2) = 1} : \E px \in {R({1, 2, 3, 4, 6})} : \E py \in {IF px = 1 THEN R({2, 3, 4, 6}) ELSE R({1, 2, 3, 4, 6})} :
       \E nx \in {IF wave THEN px * (R(1..3) + 3 \div px) ELSE R(3..9)} : \E ny \in {IF wave THEN py * (R(1..3) + 3 \div py) ELSE IF k = "P" THEN 1 ELSE R(3..9)} :
       \E a \in {R(1..3)} : \E b \in {R(1..3)} : \E o \in {R({0, 0, 2, -5})} : \E missing \in {R(1..3) = 1} :
       \E h \in {IF wave THEN WaveGrid(ny, nx, py, px, a, b, o) ELSE RandomGrid(ny, nx, missing)} :
       (\E i \in 1..ny : \E j \in 1..nx : h[i][j] # NaN /\ \E m \in 1..nx : h[i][m] # NaN /\ h[i][m] # h[i][j]) =>
       PrintT("@@" \o ToJson([k |-> k, g |-> h, sx |-> R({100, 250, 300, 500, 700, 1000, 3000}), sy |-> R({100, 250, 500, 700, 1000, 2000}),
                              wave |-> IF wave THEN [px |-> px, py |-> py, a |-> a, b |-> b, o |-> o] ELSE [px |-> 0, py |-> 0, a |-> 0, b |-> 0, o |-> 0],
                              prog |-> [i \in 1..R(2..5) |-> Request(k, wave)]]))
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
(* judgement of recorded displays *)
Clause(ok, name) == IF ok THEN {} ELSE {name}
AllOf(h) == Flat(h)
Low(h) == SeqMin(Measured(h))
High(h) == SeqMax(Measured(h))
Labels(e, x, y) == e.xl = x /\ e.yl = y
Is4(x, a, b, c, d, tol) == Len(x) = 4 /\ Abs(x[1] - a) <= tol /\ Abs(x[2] - b) <= tol /\ Abs(x[3] - c) <= tol /\ Abs(x[4] - d) <= tol
Bar(e, default, label) == IF e.cbar = "yes" \/ (e.cbar = "" /\ default) THEN e.bar = label ELSE e.bar = "none"
\* what holds for every display
Common(e) ==
    Clause(e.unchanged, "D01:topography_changed")
    \cup Clause(e.earlier, "D01:earlier_picture_changed")
    \cup Clause(e.others, "D01:other_figure_changed")
    \cup Clause(e.figs = (IF e.own /\ e.op # "solid" THEN 1 ELSE 0), "D01:figures")
    \cup Clause(e.place, "D01:not_in_given_axes")
    \cup Clause(e.saved = e.save, "D01:saved")

Plot2d(e, h) ==
    LET shown == IF e.layer = 0 THEN h ELSE e.layers[e.layer] IN
    IF e.layer = 3 THEN Clause(e.err # "", "D01:unknown_layer_accepted")
    ELSE IF e.err # "" THEN (IF (IF e.lo = NaN THEN Low(shown) ELSE e.lo) < (IF e.hi = NaN THEN High(shown) ELSE e.hi) THEN {"D01:raised"} ELSE {})
    ELSE Clause(NearGrid(e.img, shown, 1), "D01:heights")
    \cup Clause(e.origin = "upper" /\ Is4(e.ext, 0, (NCols(h) - 1) * e.sx, 0, (NRows(h) - 1) * e.sy, 2), "D01:extent")
    \cup Clause(Labels(e, "x [µm]", "y [µm]"), "D01:labels")
    \cup (IF e.layer # 0 THEN Clause(Bar(e, FALSE, "z [µm]"), "D01:colorbar") \cup (IF e.rgb THEN {} ELSE Clause(e.cmap = "gray", "D01:colormap"))
          ELSE Clause(Bar(e, TRUE, "z [µm]"), "D01:colorbar")
               \cup Clause(e.bad = e.colour, "D01:colour_of_missing_points")
               \cup Clause(e.cmap = e.wanted, "D01:colormap")
               \cup Clause(e.legend = HasNaN(h), "D01:legend")
               \cup LET lo == IF e.lo = NaN THEN Low(h) ELSE e.lo hi == IF e.hi = NaN THEN High(h) ELSE e.hi IN
                  \* limits the wrong way around are the caller's
                  Clause(lo >= hi \/ (Abs(e.clim[1] - lo) <= 1 /\ Abs(e.clim[2] - hi) <= 1), "D01:limits"))

Line(e, h) ==
    IF e.err # "" THEN {"D01:raised"}
    ELSE Clause(Len(e.xs) = NCols(h) /\ Len(e.ys) = NCols(h) /\ \A j \in 1..NCols(h) : Near(e.ys[j], h[1][j], 1) /\ Abs(e.xs[j] - (j - 1) * e.sx) <= 1, "D01:heights")
    \cup Clause(Labels(e, "x [µm]", "z [µm]"), "D01:labels")
    \cup Clause(Abs(e.xlim[1]) <= 1 /\ Abs(e.xlim[2] - (NCols(h) - 1) * e.sx) <= 1, "D01:extent")

\* bars of the distribution of the heights, from the top; a height on the boundary of two classes is counted by rounding
Curve(e, h) ==
    LET z == Measured(h) lo == Low(h) hi == High(h) n == Len(z) nb == e.bars
        Class(v) == IF v = hi THEN nb ELSE ((v - lo) * nb) \div (hi - lo) + 1
        boundary == \E k \in 1..n : z[k] # lo /\ z[k] # hi /\ ((z[k] - lo) * nb) % (hi - lo) = 0
        count == [c \in 1..nb |-> Cardinality({k \in 1..n : Class(z[k]) = c})] IN
    IF e.err # "" THEN {"D01:raised"}
    ELSE Clause(Len(e.barsat) = nb /\ (Len(e.barsat) # nb \/ \A k \in 1..nb : LET b == e.barsat[k] c == nb + 1 - k IN
               /\ Abs(nb * (b[1] - lo) - (c - 1) * (hi - lo)) <= 2 * nb /\ Abs(nb * b[2] - (hi - lo)) <= 2 * nb
               /\ (boundary \/ Abs(n * b[3] - 100000 * count[c]) <= 2 * n)), "D01:bars")
    \cup Clause(e.curve, "D01:curve")
    \cup Clause(Labels(e, "Material distribution (%)", "z (µm)") /\ e.xl2 = "Material ratio (%)", "D01:labels")
    \cup Clause(Is4(e.lims, 0, 100000, lo, hi, 2), "D01:extent")

\* the triangles of the peaks and the dales, and the line of the core, follow from the answers of the topography itself
Study(e, h) ==
    LET up == High(h) - e.pkx low == Low(h) + e.vkx
        tri == {<<0, up>>, <<0, up + e.pk>>, <<e.mr1, up>>} tri2 == {<<100000, low>>, <<100000, low - e.vk>>, <<e.mr2, low>>}
        Same(p, q) == (\A x \in p : \E y \in q : Abs(x[1] - y[1]) <= 3 /\ Abs(x[2] - y[2]) <= 3) /\ \A y \in q : \E x \in p : Abs(x[1] - y[1]) <= 3 /\ Abs(x[2] - y[2]) <= 3
        Set(s) == {s[k] : k \in 1..Len(s)} IN
    IF e.err # "" THEN {"D01:raised"}
    ELSE Clause(Len(e.poly) = 2 /\ (Len(e.poly) # 2 \/ (Same(Set(e.poly[1]), tri) /\ Same(Set(e.poly[2]), tri2)) \/ (Same(Set(e.poly[2]), tri) /\ Same(Set(e.poly[1]), tri2))), "D01:triangles")
    \cup Clause(\E k \in 1..Len(e.lines) : Same({e.lines[k][1], e.lines[k][Len(e.lines[k])]}, {<<0, up>>, <<100000, low>>}), "D01:core_line")
    \* the levels of the core, the peaks and the dales, and the material ratios at which the core begins and ends
    \cup Clause(Same({<<0, y>> : y \in Set(e.levels)}, {<<0, up>>, <<0, low>>, <<0, up + e.pk>>, <<0, low - e.vk>>}), "D01:levels")
    \cup Clause(LET ends == {<<e.mr1, up>>, <<e.mr2, low>>}
                    At(m, p) == \E i \in 1..2 : Abs(m[i][1] - p[1]) <= 3 /\ Abs(m[i][2] - p[2]) <= 3 IN
                (\A k \in 1..Len(e.upright) : \E p \in ends : At(e.upright[k], p)) /\ \A p \in ends : \E k \in 1..Len(e.upright) : At(e.upright[k], p), "D01:ratios")
    \cup Clause(e.curve, "D01:curve")
    \cup Clause(Labels(e, "Material ratio (%)", "Height (µm)"), "D01:labels")
    \cup Clause(Is4(e.lims, 0, 100000, Low(h), High(h), 2), "D01:extent")

\* the autocorrelation of the heights (in halves) as a mean over the points that overlap, times the square of the number of points
Acf(h, dy, dx) ==
    LET n == NRows(h) * NCols(h) sum == SeqSum(Flat(h)) \div 500
        Z(i, j) == n * (h[i][j] \div 500) - sum
        rows == {i \in 1..NRows(h) : i + dy \in 1..NRows(h)} cols == {j \in 1..NCols(h) : j + dx \in 1..NCols(h)}
    IN  <<FoldLeft(LAMBDA acc, i : acc + FoldLeft(LAMBDA b, j : b + Z(i, j) * Z(i + dy, j + dx), 0, SetToSeq(cols)), 0, SetToSeq(rows)),
          Cardinality(rows) * Cardinality(cols)>>
Correlation(e, h) ==
    LET ny == NRows(h) nx == NCols(h) n == ny * nx
        \* a few of the lags
        lags == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<ny - 1, nx - 1>>, <<1, -2>>, <<-1, nx - 2>>, <<2 - ny, 1>>} IN
    IF e.err # "" THEN {"D01:raised"}
    ELSE Clause(NRows(e.img) = 2 * ny - 1 /\ NCols(e.img) = 2 * nx - 1 /\
                (n > 81 \/ NRows(e.img) # 2 * ny - 1 \/ NCols(e.img) # 2 * nx - 1 \/ \A p \in lags : LET w == Acf(h, p[1], p[2]) v == e.img[ny + p[1]][nx + p[2]] IN
                   v # NaN /\ v # Inf /\ LET want == (250 * (w[1] \div (n * n))) \div w[2] slack == 250 \div w[2] + 3 IN Abs(v - want) <= slack), "D01:heights")
    \cup Clause(Is4(e.ext, -(nx - 1) * e.sx, (nx - 1) * e.sx, -(ny - 1) * e.sy, (ny - 1) * e.sy, 2), "D01:extent")
    \cup Clause(Bar(e, TRUE, "z [µm²]"), "D01:colorbar")
    \cup Clause(Labels(e, "lag x [µm]", "lag y [µm]"), "D01:labels")

\* Fourier coefficients of a wave at the offset (u, v) from the centre
Amplitude(w, ny, nx, sub, u, v) ==
    IF u = 0 /\ v = 0 THEN (IF sub THEN 0 ELSE ny * nx * Abs(w.o))
    ELSE IF u = 0 THEN (IF w.px > 1 /\ Abs(v) = nx \div w.px THEN ny * w.a * Coefficient(w.px, nx) ELSE 0)
    ELSE IF v = 0 THEN (IF w.py > 1 /\ Abs(u) = ny \div w.py THEN nx * w.b * Coefficient(w.py, ny) ELSE 0)
    ELSE 0
\* the window that weighs the heights before the transform, in quarters, where these are whole
Window == 3 :> <<0, 4, 0>> @@ 4 :> <<0, 3, 3, 0>> @@ 5 :> <<0, 2, 4, 2, 0>> @@ 7 :> <<0, 1, 3, 4, 3, 1, 0>>
\* 16 n times the constant part of the weighed heights
Weighed(h, sub) ==
    LET ny == NRows(h) nx == NCols(h) n == ny * nx s == IF sub THEN SeqSum(Flat(h)) ELSE 0 IN
    Abs(SeqSum([k \in 1..n |-> LET i == ((k - 1) \div nx) + 1 j == ((k - 1) % nx) + 1 IN Window[ny][i] * Window[nx][j] * (n * h[i][j] - s)]))
\* frequencies are recorded in 1e-5; a period is measured in units of n or n - 1 spacings (see H04)
Freq(k, n, s) == {(k * 100000000) \div ((n - 1) * s), (k * 100000000) \div (n * s)}
At(x, k, n, s) == \E f \in Freq(k, n, s) : Abs(x - f) <= 2
Offsets(n) == (-(n \div 2))..((n - 1) \div 2)
\* first and last offset along an axis
First(x, n, s) == {k \in Offsets(n) : At(x, k, n, s)}
Fourier(e, h, w) ==
    LET ny == NRows(h) nx == NCols(h) x0 == First(e.ext[1], nx, e.sx) x1 == First(e.ext[2], nx, e.sx) y0 == First(e.ext[4], ny, e.sy) y1 == First(e.ext[3], ny, e.sy)
        right == (nx - 1) \div 2 bottom == (ny - 1) \div 2 IN
    IF e.err # "" THEN {"D01:raised"}
    ELSE IF x0 = {} \/ x1 = {} \/ y0 = {} \/ y1 = {} THEN {"D01:extent"}
    ELSE LET l0 == CHOOSE k \in x0 : TRUE l1 == CHOOSE k \in x1 : TRUE m0 == CHOOSE k \in y0 : TRUE m1 == CHOOSE k \in y1 : TRUE
             Limit(k, q, a, b, n) == IF q = 0 THEN a = -(n \div 2) /\ b = k ELSE b = Min2(q, k) /\ a = -b IN
         Clause(Limit(right, e.fx, l0, l1, nx) /\ Limit(bottom, e.fy, m0, m1, ny), "D01:frequency_range")
         \cup Clause(NCols(e.img) = l1 - l0 + 1 /\ NRows(e.img) = m1 - m0 + 1, "D01:size")
         \cup (IF ~e.han \/ e.log \/ ~({ny, nx} \subseteq DOMAIN Window) \/ m0 > 0 \/ l0 > 0 \/ NCols(e.img) # l1 - l0 + 1 \/ NRows(e.img) # m1 - m0 + 1 THEN {} ELSE
               Clause(Abs(16 * ny * nx * e.img[1 - m0][1 - l0] - Weighed(h, e.sub)) <= 32 * ny * nx, "D01:window"))
         \cup (IF e.han \/ w.px = 0 \/ NCols(e.img) # l1 - l0 + 1 \/ NRows(e.img) # m1 - m0 + 1 THEN {} ELSE
               LET A(i, j) == Amplitude(w, ny, nx, e.sub, m0 + i - 1, l0 + j - 1) IN
               Clause(\A i \in 1..NRows(e.img) : \A j \in 1..NCols(e.img) :
                        IF e.log THEN (IF A(i, j) = 0 THEN e.img[i][j] <= -5000
                                       ELSE e.img[i][j] >= 0 /\ \A a \in 1..NRows(e.img) : \A b \in 1..NCols(e.img) : A(a, b) > A(i, j) => e.img[a][b] > e.img[i][j])
                        ELSE Abs(e.img[i][j] - 1000 * A(i, j)) <= 2, "D01:spectrum"))
         \cup Clause(e.xl # e.yl \/ e.xl # "", "D01:labels")

\* fewer points over the same extent: the corners stay where they are, points are missing only next to missing points
Reduced(e, h) ==
    LET ny == NRows(h) nx == NCols(h) N == {p \in (2..ny) \X (2..nx) : p[1] * p[2] = Len(e.points) /\ Abs(100 * p[1] - ny * e.lod) <= 50 /\ Abs(100 * p[2] - nx * e.lod) <= 50}
        got == {e.points[k] : k \in 1..Len(e.points)}
        w == (nx - 1) * e.sx d == (ny - 1) * e.sy
        Value(x, y) == {p[3] : p \in {q \in got : Abs(q[1] - x) <= 2 /\ Abs(q[2] - y) <= 2}}
        \* the points of the topography around a place
        Around(x, y) == {h[i][j] : i \in {i \in 1..ny : Abs((ny - i) * e.sy - y) <= e.sy + 2}, j \in {j \in 1..nx : Abs((j - 1) * e.sx - x) <= e.sx + 2}} IN
    IF e.err # "" THEN {"D01:raised"}
    ELSE Clause(N # {}, "D01:size")
    \cup (IF N = {} THEN {} ELSE
          Clause(\E p \in N : got = {q \in got : \E i \in 1..p[1] : \E j \in 1..p[2] : Abs(q[1] * (p[2] - 1) - (j - 1) * w) <= 2 * p[2] /\ Abs(q[2] * (p[1] - 1) - (p[1] - i) * d) <= 2 * p[1]} /\ Cardinality({<<q[1], q[2]>> : q \in got}) = Len(e.points), "D01:extent")
          \cup (IF HasNaN(h) THEN Clause(\A q \in got : LET a == Around(q[1], q[2]) IN IF NaN \notin a THEN q[3] # NaN ELSE a # {NaN} \/ q[3] = NaN, "D01:missing_points")
                ELSE Clause(\A c \in {<<0, 0, h[ny][1]>>, <<w, 0, h[ny][nx]>>, <<0, d, h[1][1]>>, <<w, d, h[1][nx]>>} : \A v \in Value(c[1], c[2]) : Near(v, c[3], 3), "D01:heights")))
    \cup Clause(e.scalars, "D01:colours")
Solid(e, h) ==
    IF e.lod < 100 THEN (IF NRows(h) * e.lod < 160 \/ NCols(h) * e.lod < 160 THEN {} ELSE Reduced(e, h))
    ELSE IF e.err # "" THEN {"D01:raised"}
    ELSE LET want == {<<(j - 1) * e.sx, (NRows(h) - i) * e.sy, h[i][j]>> : i \in 1..NRows(h), j \in 1..NCols(h)}
             got == {e.points[k] : k \in 1..Len(e.points)} IN
         Clause(Len(e.points) = NRows(h) * NCols(h) /\ got = want, "D01:heights")
         \cup Clause(e.scalars, "D01:colours")

Needs == {"curve", "study", "acf", "fourier", "angular"}
Verdict(e, h, w) ==
    IF e.op = "edit" THEN Clause(e.err = "", "D01:edit") \cup Clause(e.earlier, "D01:earlier_picture_changed")
    ELSE IF e.op \in Needs /\ HasNaN(h) THEN Clause(e.err = "ValueError", "D01:missing_points_accepted") \cup Clause(e.unchanged, "D01:topography_changed") \cup Clause(e.earlier, "D01:earlier_picture_changed")
    ELSE IF e.op \in {"curve", "study"} /\ Low(h) = High(h) THEN {}
    ELSE (IF e.err = "" THEN Common(e) ELSE {})
         \cup CASE e.op = "plot2d" /\ e.k = "S" -> Plot2d(e, h) [] e.op = "plot2d" -> Line(e, h) [] e.op = "curve" -> Curve(e, h) [] e.op = "study" -> Study(e, h)
                [] e.op = "acf" -> Correlation(e, h) [] e.op = "fourier" -> Fourier(e, h, w)
                [] e.op = "angular" -> Clause(e.err = "", "D01:raised") \cup Clause(e.err # "" \/ e.curve, "D01:spectrum")
                [] OTHER -> Solid(e, h)

NoWave == [px |-> 0, py |-> 0, a |-> 0, b |-> 0, o |-> 0]
After(e, h) == IF e.op # "edit" THEN h
               ELSE [i \in 1..NRows(h) |-> [j \in 1..NCols(h) |->
                      IF e.how = "whole" \/ (e.how = "row" /\ i = ((e.i - 1) % NRows(h)) + 1) \/ (i = ((e.i - 1) % NRows(h)) + 1 /\ j = ((e.j - 1) % NCols(h)) + 1)
                      THEN (IF e.how = "whole" /\ i = j THEN h[i][j] ELSE e.v) ELSE h[i][j]]]
Traces == JsonDeserialize(IOEnv.TRACE)
\* the first event carries the topography
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ g = Traces[t][1].g
TraceNext == /\ l <= Len(Traces[t])
             /\ LET e == Traces[t][l] h == After(e, g)
                    w == IF \E k \in 1..l : Traces[t][k].op = "edit" THEN NoWave ELSE Traces[t][1].wave
                    v == IF e.op = "new" THEN {} ELSE Verdict(e, h, w) IN
                /\ g' = h
                /\ IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
             /\ l' = l + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
