------------------------------- MODULE Profiles -------------------------------
(* Extraction of profiles from surfaces (property P01).  Lengths and heights  *)
(* in 1/1000; rows and columns count from the first row and column.           *)
EXTENDS Grid, Json, IOUtils

VARIABLES t, l, done
vars == <<t, l, done>>
R(S) == RandomElement(S)

Heights(ny, nx, style, a, b) ==
    [i \in 1..ny |-> [j \in 1..nx |->
        CASE style = 1 -> 1000 * R(-50..50)
          [] style = 2 -> 1000 * (a * j + b * i)
          [] style = 3 -> 1000 * (100 * i + j)
          [] OTHER -> IF R(1..8) = 1 THEN NaN ELSE 1000 * (7 * i - 3 * j * j)]]
Steps == {100, 125, 250, 300, 500, 700, 1000, 1100, 2500, 4000}
GenInit == t = 0 /\ l = 0 /\ done = FALSE
\* positions in quarters of the spacing, on, between, at the border of and outside of the grid
Position(n, s) == R({(q * s) \div 4 : q \in 0..(4 * (n - 1))} \cup {0, (n - 1) * s, -(s \div 5), -s, (n - 1) * s + s \div 5, n * s, -(n - 1) * s})
Inside(n, s) == R({(q * s) \div 4 : q \in 0..(4 * (n - 1))} \cup {q * s : q \in 0..(n - 1)})
Node(n, s) == s * R(0..(n - 1))
GenNext ==
    /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, l>>
    /\ \E kind \in {R({"h", "v", "o"})} : \E ny \in {R(2..8)} : \E nx \in {R(2..8)} : \E style \in {R(1..4)} :
       \E sx \in {R(Steps)} : \E sy \in {R(Steps)} : \E a \in {R(-4..4)} : \E b \in {R(-4..4)} :
       \E st \in {IF kind = "o" /\ style = 4 THEN 2 ELSE style} :
       \E s \in {IF kind = "h" THEN sy ELSE sx} : \E n \in {IF kind = "h" THEN ny ELSE nx} :
       \E avg \in {IF st = 4 THEN 1 ELSE R({1, 1, 2, 3, 4, 5, 7, 12})} :
       PrintT("@@" \o ToJson([kind |-> kind, g |-> Heights(ny, nx, st, a, b), style |-> st, sx |-> sx, sy |-> sy, a |-> a, b |-> b,
                              avg |-> avg, dist |-> R({0, 0, s, 2 * s, 3 * s, s \div 4, (5 * s) \div 4, (7 * s) \div 4, (11 * s) \div 4}),
                              pos |-> IF R(1..4) = 1 THEN Position(n, s) ELSE Inside(n, s),
                              p |-> IF R(1..5) = 1 THEN <<Position(nx, sx), Position(ny, sy), Position(nx, sx), Position(ny, sy)>>
                                    ELSE IF R(1..5) = 1 THEN <<Inside(nx, sx), Inside(ny, sy), Inside(nx, sx), Inside(ny, sy)>>
                                    ELSE <<Node(nx, sx), Node(ny, sy), Node(nx, sx), Node(ny, sy)>>]))
GenSpec == GenInit /\ [][GenNext]_vars

Clause(ok, name) == IF ok THEN {} ELSE {name}
\* the whole numbers k in S that are closest to p / s
Closest(p, s, S) == {k \in S : \A m \in S : Abs(k * s - p) <= Abs(m * s - p)}
\* sets of rows (from 0) that are averaged: count many at distance d around c; an even count has one more on either side
RowSets(c, d, count, n) == { {c + (k - h) * d : k \in 0..(count - 1)} \cap (0..(n - 1)) : h \in {count \div 2, (count - 1) \div 2} }
Acceptable(pos, s, n, avg, dist) ==
    UNION { RowSets(c, d, avg, n) : c \in Closest(pos, s, 0..(n - 1)), d \in (IF dist = 0 THEN {1} ELSE Closest(dist, s, 1..40)) }
SumAt(g, rows, j) == FoldLeft(LAMBDA acc, i : acc + g[i + 1][j], 0, SetToSeq(rows))
IsMean(g, rows, z) == LET m == Cardinality(rows) IN
    /\ Len(z) = NCols(g)
    /\ \A j \in 1..Len(z) : IF \E i \in rows : g[i + 1][j] = NaN THEN z[j] = NaN
                            ELSE IsNum(z[j]) /\ Abs(m * z[j] - SumAt(g, rows, j)) <= m
Transposed(a) == [j \in 1..NCols(a) |-> [i \in 1..NRows(a) |-> a[i][j]]]

Straight(e) ==
    LET g == IF e.kind = "h" THEN e.g ELSE Transposed(e.g)
        s == IF e.kind = "h" THEN e.sy ELSE e.sx
        along == IF e.kind = "h" THEN e.sx ELSE e.sy
        outside == e.pos < 0 \/ e.pos > (NRows(g) - 1) * s
    IN  IF outside THEN Clause(e.err = "ValueError", "P01:outside_not_refused")
        ELSE IF e.err # "" THEN {"P01:raised"}
        ELSE Clause(\E rows \in Acceptable(e.pos, s, NRows(g), e.avg, e.dist) : IsMean(g, rows, e.z), "P01:not_the_addressed_rows")
             \cup Clause(e.step = along /\ e.length = (NCols(g) - 1) * along, "P01:spacing_or_length")

Oblique(e) ==
    LET g == e.g ny == NRows(g) nx == NCols(g)
        outside == \E k \in {1, 3} : e.p[k] < 0 \/ e.p[k] > (nx - 1) * e.sx \/ e.p[k + 1] < 0 \/ e.p[k + 1] > (ny - 1) * e.sy
        nodes == \A k \in {1, 3} : e.p[k] % e.sx = 0 /\ e.p[k + 1] % e.sy = 0
        x0 == e.p[1] \div e.sx  y0 == e.p[2] \div e.sy  x1 == e.p[3] \div e.sx  y1 == e.p[4] \div e.sy
        dx == e.p[3] - e.p[1]  dy == e.p[4] - e.p[2]
        close == Abs(dx) <= e.sx /\ Abs(dy) <= e.sy
        n == Len(e.z)
    IN  IF outside THEN Clause(e.err = "ValueError", "P01:outside_not_refused")
        ELSE IF dx = 0 /\ dy = 0 THEN Clause(e.err # "", "P01:point_not_refused")
        ELSE IF e.err # "" THEN Clause(close /\ ~nodes, "P01:raised")
        ELSE Clause(n >= 2 /\ Abs((n - 1) * e.step - e.length) <= n, "P01:spacing_or_length")
        \* ends between the points: they may be moved to the closest points
        \cup (IF n < 2 \/ nodes THEN {} ELSE
              Clause(LET w == e.sx + e.sy + 2 IN e.length > w => (e.length - w) * (e.length - w) <= dx * dx + dy * dy, "P01:length")
              \cup Clause(LET w == e.sx + e.sy + 2 IN (e.length + w) * (e.length + w) >= dx * dx + dy * dy, "P01:length")
              \* heights of the plane at the ends, within half a point
              \cup Clause(e.style # 2 \/ \A q \in {<<1, e.p[1], e.p[2]>>, <<n, e.p[3], e.p[4]>>} :
                     LET px == (1000 * q[2]) \div e.sx py == (1000 * q[3]) \div e.sy IN
                     Abs(e.z[q[1]] - (e.a * (1000 + px) + e.b * (1000 + py))) <= 501 * (Abs(e.a) + Abs(e.b)) + 2, "P01:ends"))
        \cup (IF n < 2 \/ ~nodes THEN {} ELSE
              Clause(Abs(e.length * e.length - dx * dx - dy * dy) <= 2 * e.length + 2, "P01:length")
              \cup Clause(e.step <= 2 * Max2(e.sx, e.sy), "P01:too_few_points")
              \cup Clause(Near(e.z[1], g[y0 + 1][x0 + 1], 1) /\ Near(e.z[n], g[y1 + 1][x1 + 1], 1), "P01:ends")
              \cup Clause(\A k \in 0..(n - 1) :
                     ((x1 - x0) * k) % (n - 1) = 0 /\ ((y1 - y0) * k) % (n - 1) = 0 =>
                        Near(e.z[k + 1], g[y0 + 1 + ((y1 - y0) * k) \div (n - 1)][x0 + 1 + ((x1 - x0) * k) \div (n - 1)], 1), "P01:not_on_the_line")
              \* on a tilted plane the heights between the points are those of the plane, up to the interpolation at the borders
              \cup Clause(e.style # 2 \/ \A k \in 0..(n - 1) :
                     Abs((n - 1) * (e.z[k + 1] - g[y0 + 1][x0 + 1]) - 1000 * k * (e.a * (x1 - x0) + e.b * (y1 - y0)))
                        <= (n - 1) * 300 * (Abs(e.a) + Abs(e.b)) + n, "P01:not_on_the_line"))

Verdict(e) == IF ~e.idn THEN {"P01:surface_changed"} ELSE IF e.kind = "o" THEN Oblique(e) ELSE Straight(e)

Traces == JsonDeserialize(IOEnv.TRACE)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ done = FALSE
TraceNext == /\ l <= Len(Traces[t])
             /\ LET v == Verdict(Traces[t][l]) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
             /\ l' = l + 1 /\ UNCHANGED <<t, done>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
