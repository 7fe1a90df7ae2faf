-------------------------------- MODULE Grid --------------------------------
(* Exact integer semantics of height grids.                                *)
(* A grid is a sequence of rows, a row a sequence of integers: heights in  *)
(* 1/1000 of the unit, NaN for a non-measured point, Inf for anything not  *)
(* representable.  Grids observed on the implementation are compared with  *)
(* the exact values by the tolerance of that encoding.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NaN == 2000000000
Inf == 2000000001

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
IsNum(x) == x # NaN /\ x # Inf

NRows(g) == Len(g)
NCols(g) == IF Len(g) = 0 THEN 0 ELSE Len(g[1])
SameShape(a, b) == NRows(a) = NRows(b) /\ NCols(a) = NCols(b)
Flat(g) == FlattenSeq(g)
Measured(g) == SelectSeq(Flat(g), LAMBDA v : v # NaN)
HasNaN(g) == \E i \in 1..NRows(g) : \E j \in 1..NCols(g) : g[i][j] = NaN
AllNum(g) == \A i \in 1..NRows(g) : \A j \in 1..NCols(g) : g[i][j] # Inf
MaxAbsUpTo(g, m) == \A i \in 1..NRows(g) : \A j \in 1..NCols(g) : g[i][j] = NaN \/ Abs(g[i][j]) <= m
SeqSum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
SeqMin(s) == FoldLeft(LAMBDA acc, x : Min2(acc, x), s[1], s)
SeqMax(s) == FoldLeft(LAMBDA acc, x : Max2(acc, x), s[1], s)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
SortedDesc(s) == SortSeq(s, LAMBDA a, b : a > b)
\* twice the median
Median2(s) == LET t == Sorted(s) n == Len(s)
              IN  IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[n \div 2 + 1]

MapGrid(g, F(_)) == [i \in 1..NRows(g) |-> [j \in 1..NCols(g) |-> IF g[i][j] = NaN THEN NaN ELSE F(g[i][j])]]
SameMask(a, b) == SameShape(a, b) /\ \A i \in 1..NRows(a) : \A j \in 1..NCols(a) : (a[i][j] = NaN) <=> (b[i][j] = NaN)
Near(a, b, tol) == IF a = NaN \/ b = NaN THEN a = b ELSE IF a = Inf \/ b = Inf THEN a = b ELSE Abs(a - b) <= tol
NearGrid(a, b, tol) == SameShape(a, b) /\ \A i \in 1..NRows(a) : \A j \in 1..NCols(a) : Near(a[i][j], b[i][j], tol)

RoundDiv(a, b) == (2 * a + b) \div (2 * b)          \* nearest integer, b > 0, ties excluded by the callers

-----------------------------------------------------------------------------
(* Reference semantics of the point-wise transforms. Each relation holds   *)
(* between the heights before (g) and after (r).                           *)

IsZeroed(g, r) == LET m == SeqMin(Measured(g)) IN SameMask(g, r) /\ NearGrid(r, MapGrid(g, LAMBDA v : v - m), 2)

IsCentered(g, r) ==
    LET s == Measured(g) n == Len(s) sum == SeqSum(s)
    IN  /\ SameMask(g, r)
        /\ \A i \in 1..NRows(g) : \A j \in 1..NCols(g) :
              g[i][j] # NaN => r[i][j] # Inf /\ Abs(n * (r[i][j] - g[i][j]) + sum) <= 2 * n

IsInverted(g, r) == LET s == Measured(g) a == SeqMin(s) b == SeqMax(s)
                    IN  SameMask(g, r) /\ NearGrid(r, MapGrid(g, LAMBDA v : a + b - v), 2)

\* indices (from 1) of the material ratio classes closest to p per cent, n classes at 100 k / n
ClosestClasses(p, n) == {k \in 1..n : \A m \in 1..n : Abs(100 * k - p * n) <= Abs(100 * m - p * n)}

IsThresholded(g, r, up, low, ex) ==
    LET y == SortedDesc(Measured(g)) n == Len(y) IN
    /\ SameShape(g, r)
    /\ \E ku \in ClosestClasses(up, n) : \E kl \in ClosestClasses(100 - low, n) :
       LET hi == y[ku] lo == y[kl] IN
       \A i \in 1..NRows(g) : \A j \in 1..NCols(g) :
         LET v == g[i][j] w == r[i][j] IN
         IF v = NaN THEN w = NaN
         ELSE IF ~ex /\ (Abs(v - hi) <= 1 \/ Abs(v - lo) <= 1) THEN w = NaN \/ w = v
         ELSE IF v > hi \/ v < lo THEN w = NaN ELSE w = v

\* ex: all heights are exactly on the half-unit lattice, where every comparison is exact
\* outliers beyond h/2 standard deviations of the mean
IsMeanFiltered(g, r, h, ex) ==
    /\ SameShape(g, r)
    /\ \A i \in 1..NRows(g) : \A j \in 1..NCols(g) : IF g[i][j] = NaN THEN r[i][j] = NaN ELSE r[i][j] \in {g[i][j], NaN}
    /\ (ex /\ MaxAbsUpTo(g, 45000)) =>
         LET s == [k \in 1..Len(Measured(g)) |-> Measured(g)[k] \div 500]
             n == Len(s) sum == SeqSum(s)
             q == SeqSum([k \in 1..n |-> s[k] * s[k]])
             var == h * h * (n * q - sum * sum)
         IN  \A i \in 1..NRows(g) : \A j \in 1..NCols(g) : g[i][j] # NaN =>
               LET d == n * (g[i][j] \div 500) - sum
                   dd == 4 * d * d
               IN  IF dd > var THEN r[i][j] = NaN
                   ELSE IF dd < var THEN r[i][j] = g[i][j] ELSE TRUE

\* outliers beyond h/2 median distances of the median
IsMedianFiltered(g, r, h, ex) ==
    /\ SameShape(g, r)
    /\ \A i \in 1..NRows(g) : \A j \in 1..NCols(g) : IF g[i][j] = NaN THEN r[i][j] = NaN ELSE r[i][j] \in {g[i][j], NaN}
    /\ (ex /\ MaxAbsUpTo(g, 1000000)) =>
         LET s == Measured(g)
             m2 == Median2(s)
             d == [k \in 1..Len(s) |-> Abs(2 * s[k] - m2)]        \* twice the distances
             md2 == Median2(d)                                   \* four times the median distance
         IN  \A i \in 1..NRows(g) : \A j \in 1..NCols(g) : g[i][j] # NaN =>
               IF 4 * Abs(2 * g[i][j] - m2) > h * md2 THEN r[i][j] = NaN ELSE r[i][j] = g[i][j]

\* missing points take the height of one of the nearest measured points (distance in grid points)
IsFilledNearest(g, r) ==
    LET ms == {<<i, j>> \in (1..NRows(g)) \X (1..NCols(g)) : g[i][j] # NaN}
        D(i, j, m) == (i - m[1]) * (i - m[1]) + (j - m[2]) * (j - m[2])
    IN  /\ SameShape(g, r)
        /\ \A i \in 1..NRows(g) : \A j \in 1..NCols(g) :
             IF g[i][j] # NaN \/ ms = {} THEN r[i][j] = g[i][j]
             ELSE \E m \in ms : /\ r[i][j] = g[m[1]][m[2]]
                                /\ \A k \in ms : D(i, j, m) <= D(i, j, k)

\* interpolated filling: measured points stay, filled heights within the range of the measured ones (linear)
IsFilledWithin(g, r, bounded) ==
    LET s == Measured(g) a == SeqMin(s) b == SeqMax(s)
    IN  /\ SameShape(g, r)
        /\ \A i \in 1..NRows(g) : \A j \in 1..NCols(g) :
             IF g[i][j] # NaN THEN Near(r[i][j], g[i][j], 1)
             ELSE r[i][j] = NaN \/ ~bounded \/ (r[i][j] # Inf /\ r[i][j] >= a - 1 /\ r[i][j] <= b + 1)

\* rows i0..i1 and columns j0..j1 (from 0, inclusive)
SubGrid(g, i0, i1, j0, j1) == [i \in 1..(i1 - i0 + 1) |-> [j \in 1..(j1 - j0 + 1) |-> g[i0 + i][j0 + j]]]

\* positions addressed by a Python slice start:stop:stride, from 0 (stop exclusive, stop = -1 with stride < 0 is "to the front")
SliceLen(a, b, d) == IF d > 0 THEN (IF b > a THEN (b - a + d - 1) \div d ELSE 0)
                               ELSE (IF a > b THEN (a - b + (-d) - 1) \div (-d) ELSE 0)
SliceGrid(g, a, b, d, c, e, f) ==
    [i \in 1..SliceLen(a, b, d) |-> [j \in 1..SliceLen(c, e, f) |-> g[a + (i - 1) * d + 1][c + (j - 1) * f + 1]]]

PutPoint(g, i, j, v) == [g EXCEPT ![i + 1][j + 1] = v]
PutRow(g, i, v) == [g EXCEPT ![i + 1] = [j \in 1..NCols(g) |-> v]]
IsPutAbove(g, r, c, v, ex) ==
    /\ SameShape(g, r)
    /\ \A i \in 1..NRows(g) : \A j \in 1..NCols(g) :
         IF g[i][j] # NaN /\ ~ex /\ Abs(g[i][j] - c) <= 1 THEN r[i][j] \in {v, g[i][j]}
         ELSE r[i][j] = IF g[i][j] # NaN /\ g[i][j] > c THEN v ELSE g[i][j]

\* elementary statistics of the measured points: <<min, max, mean, median, std>>
StatsOK(g, st) ==
    LET s == Measured(g) n == Len(s)
    IN  n = 0 \/ ~AllNum(g) \/
        /\ Near(st[1], SeqMin(s), 0)
        /\ Near(st[2], SeqMax(s), 0)
        /\ IsNum(st[3]) /\ Abs(n * st[3] - SeqSum(s)) <= 2 * n
        /\ IsNum(st[4]) /\ Abs(2 * st[4] - Median2(s)) <= 3
        /\ IsNum(st[5])
        /\ MaxAbsUpTo(g, 40000) =>
             LET u == [k \in 1..n |-> s[k] \div 100] sum == SeqSum(u)         \* tenths
                 q == SeqSum([k \in 1..n |-> u[k] * u[k]])
                 sd == st[5] \div 100
             IN  n <= 60 => \* n^2 sd^2 = n q - sum^2 up to the coarse rounding
                    LET v == (n * q - sum * sum) \div (n * n) IN sd * sd <= v + 4 * sd + 6 /\ v <= sd * sd + 4 * sd + 6
=============================================================================
