------------------------------- MODULE Heights -------------------------------
(* Definitions of the height and hybrid parameters (property H01).           *)
(* One state = one topography together with the values every parameter must  *)
(* have on it, given as exact terms over its integer heights.  Heights are    *)
(* g * mul / 8 + off: the definitions do not depend on off, are homogeneous   *)
(* in mul and a negative mul inverts the topography.                          *)
EXTENDS Grid, Terms, Json

CONSTANTS Mode        \* "all": every grid of the small shapes, "rnd": random grids
VARIABLES case, ok
vars == <<case, ok>>
R(S) == RandomElement(S)

-----------------------------------------------------------------------------
Seqs(g, mul) == [k \in 1..Len(Flat(g)) |-> Flat(g)[k] * mul]
\* n times the deviation from the mean
Dev(z) == LET n == Len(z) s == SeqSum(z) IN [k \in 1..n |-> n * z[k] - s]
AbsSeq(s) == [k \in 1..Len(s) |-> Abs(s[k])]
IsFlat(z) == \A k \in 1..Len(z) : z[k] = z[1]

DArith(z) == Over(I(SeqSum(AbsSeq(Dev(z)))), I(8 * Len(z) * Len(z)))
DQuad(z) == Sqrt(Over(SumPow(Dev(z), 2), Times(I(64), Pow(I(Len(z)), 3))))
DPeak(z) == Over(I(SeqMax(Dev(z))), I(8 * Len(z)))
DPit(z) == Over(I(-SeqMin(Dev(z))), I(8 * Len(z)))
DRange(z) == Q(SeqMax(z) - SeqMin(z), 8)
\* mean cube (quartic) of the deviations over the cube (fourth power) of the root mean square
DSkew(z) == Over(Over(SumPow(Dev(z), 3), I(Len(z))), Pow(Sqrt(Over(SumPow(Dev(z), 2), I(Len(z)))), 3))
DKurt(z) == Over(Over(SumPow(Dev(z), 4), I(Len(z))), Pow(Over(SumPow(Dev(z), 2), I(Len(z))), 2))

\* the spacing is s / 4
StepT(s) == Q(s, 4)
DxSeq(g, mul) == FlattenSeq([i \in 1..NRows(g) |-> [j \in 1..(NCols(g) - 1) |-> mul * (g[i][j + 1] - g[i][j])]])
DySeq(g, mul) == FlattenSeq([i \in 1..(NRows(g) - 1) |-> [j \in 1..NCols(g) |-> mul * (g[i + 1][j] - g[i][j])]])
DSlope(g, mul, sx, sy) ==
    Sqrt(Over(Plus(Over(SumPow(DxSeq(g, mul), 2), Pow(Times(I(8), StepT(sx)), 2)),
                   Over(SumPow(DySeq(g, mul), 2), Pow(Times(I(8), StepT(sy)), 2))), I(NRows(g) * NCols(g))))

\* area of the triangle spanned by the height differences a (along x) and b (along y), in units of 1/8
Tri(a, b, sx, sy) ==
    Over(Sqrt(Total(<<Pow(Times(Over(I(b), I(8)), StepT(sx)), 2), Pow(Times(Over(I(a), I(8)), StepT(sy)), 2),
                      Pow(Times(StepT(sx), StepT(sy)), 2)>>)), I(2))
\* the two triangles of the cell with the upper left corner (i, j): one at the upper left, one at the lower right corner
CellUL(g, mul, i, j, sx, sy) == Tri(mul * (g[i][j + 1] - g[i][j]), mul * (g[i + 1][j] - g[i][j]), sx, sy)
CellLR(g, mul, i, j, sx, sy) == Tri(mul * (g[i + 1][j + 1] - g[i + 1][j]), mul * (g[i + 1][j + 1] - g[i][j + 1]), sx, sy)
Cells(g) == [k \in 1..((NRows(g) - 1) * (NCols(g) - 1)) |-> <<((k - 1) \div (NCols(g) - 1)) + 1, ((k - 1) % (NCols(g) - 1)) + 1>>]
DArea(g, mul, sx, sy) ==
    Total([k \in 1..Len(Cells(g)) |-> Plus(CellUL(g, mul, Cells(g)[k][1], Cells(g)[k][2], sx, sy),
                                           CellLR(g, mul, Cells(g)[k][1], Cells(g)[k][2], sx, sy))])
DProjected(g, sx, sy) == Times(I((NRows(g) - 1) * (NCols(g) - 1)), Times(StepT(sx), StepT(sy)))
DDeveloped(area, proj) == Times(I(100), Minus(Over(area, proj), I(1)))
\* the implementation's reading, a recorded finding (pinned by the values of its tests): the triangle of the upper left
\* corner counts twice and the projected area lacks one row and one column of cells
AArea(g, mul, sx, sy) ==
    Total([k \in 1..Len(Cells(g)) |-> Times(I(2), CellUL(g, mul, Cells(g)[k][1], Cells(g)[k][2], sx, sy))])
AProjected(g, sx, sy) == Times(I((NRows(g) - 2) * (NCols(g) - 2)), Times(StepT(sx), StepT(sy)))

SurfaceValues(g, mul, sx, sy) ==
    LET z == Seqs(g, mul)
        base == <<[n |-> "Sa", v |-> DArith(z)], [n |-> "Sq", v |-> DQuad(z)], [n |-> "Sp", v |-> DPeak(z)],
                  [n |-> "Sv", v |-> DPit(z)], [n |-> "Sz", v |-> DRange(z)], [n |-> "Sdq", v |-> DSlope(g, mul, sx, sy)],
                  [n |-> "surface_area", v |-> DArea(g, mul, sx, sy), w |-> AArea(g, mul, sx, sy)],
                  [n |-> "projected_area", v |-> DProjected(g, sx, sy), w |-> AProjected(g, sx, sy)]>>
        shape == IF IsFlat(z) THEN <<>> ELSE <<[n |-> "Ssk", v |-> DSkew(z)], [n |-> "Sku", v |-> DKurt(z)]>>
        dev == IF NRows(g) <= 2 \/ NCols(g) <= 2 THEN <<>>
               ELSE <<[n |-> "Sdr", v |-> DDeveloped(DArea(g, mul, sx, sy), DProjected(g, sx, sy)),
                       w |-> DDeveloped(AArea(g, mul, sx, sy), AProjected(g, sx, sy))]>>
    IN base \o shape \o dev

-----------------------------------------------------------------------------
(* Profiles: peak, pit and height are averaged over m sampling sections of    *)
(* the profile, which differ by at most one point in size, longer ones first; *)
(* heights refer to the mean line of the whole profile.                       *)
Section(z, m, k) ==
    LET n == Len(z) q == n \div m r == n % m
        first == (k - 1) * q + Min2(k - 1, r) + 1
        len == q + (IF k <= r THEN 1 ELSE 0)
    IN  SubSeq(z, first, first + len - 1)
SectionSum(z, m, F(_)) == SeqSum([k \in 1..m |-> F(Section(z, m, k))])
DRp(z, m) == Over(I(SectionSum(Dev(z), m, SeqMax)), I(8 * Len(z) * m))
DRv(z, m) == Over(I(SectionSum(Dev(z), m, LAMBDA s : Abs(SeqMin(s)))), I(8 * Len(z) * m))
DRz(z, m) == Over(I(SectionSum(z, m, LAMBDA s : SeqMax(s) - SeqMin(s))), I(8 * m))
DRdq(z, sx) == Sqrt(Over(Over(SumPow([k \in 1..(Len(z) - 1) |-> z[k + 1] - z[k]], 2), I(64 * (Len(z) - 1))), Pow(StepT(sx), 2)))

ProfileValues(z, sx) ==
    LET n == Len(z)
        base == <<[n |-> "Ra", v |-> DArith(z)], [n |-> "Rq", v |-> DQuad(z)], [n |-> "Rt", v |-> DRange(z)], [n |-> "Rdq", v |-> DRdq(z, sx)]>>
        shape == IF IsFlat(z) THEN <<>> ELSE <<[n |-> "Rsk", v |-> DSkew(z)], [n |-> "Rku", v |-> DKurt(z)]>>
        ms == SelectSeq(<<1, 2, 3, 4, 5, 6, 7, n - 1, n>>, LAMBDA m : m >= 1 /\ m <= n)
        sect == FlattenSeq([i \in 1..Len(ms) |-> <<[n |-> "Rp", m |-> ms[i], v |-> DRp(z, ms[i])], [n |-> "Rv", m |-> ms[i], v |-> DRv(z, ms[i])],
                                                   [n |-> "Rz", m |-> ms[i], v |-> DRz(z, ms[i])]>>])
        dflt == IF n < 5 THEN <<>> ELSE <<[n |-> "Rp", v |-> DRp(z, 5)], [n |-> "Rv", v |-> DRv(z, 5)], [n |-> "Rz", v |-> DRz(z, 5)]>>
        refuse == <<[n |-> "Rp", m |-> n + 1, err |-> TRUE], [n |-> "Rv", m |-> 0, err |-> TRUE], [n |-> "Rz", m |-> n + 2, err |-> TRUE]>>
    IN  base \o shape \o sect \o dflt \o refuse

-----------------------------------------------------------------------------
Steps == {1, 2, 4, 8, 12}
Offs == {0, 0, 3, -250, 4000, 100000}
\* parameters of the distribution of the heights keep their values if the grid is repeated any number of times
OfDistribution == {"Sa", "Sq", "Sp", "Sv", "Sz", "Ssk", "Sku", "Ra", "Rq", "Rt", "Rsk", "Rku"}
Emit(k, g, mul, off, sx, sy, lay, vals, rep) ==
    PrintT("@@" \o ToJson([k |-> k, g |-> g, mul |-> mul, off |-> off, sx |-> sx, sy |-> sy, lay |-> lay, rep |-> rep,
                           vals |-> IF rep = <<1, 1>> THEN vals ELSE SelectSeq(vals, LAMBDA v : v.n \in OfDistribution)]))

SmallGrids == UNION {[1..ny -> [1..nx -> {0, 1, 3}]] : <<ny, nx>> \in {<<2, 2>>, <<2, 3>>, <<3, 2>>}}
SmallProfiles == UNION {[1..n -> {0, 1, 3}] : n \in 2..6}

Init == /\ ok = FALSE
        /\ IF Mode = "all" THEN case \in {[k |-> "S", g |-> g] : g \in SmallGrids} \cup {[k |-> "P", g |-> <<z>>] : z \in SmallProfiles}
           ELSE case = [k |-> "?", g |-> <<>>]
RandomGrid(ny, nx, style) ==
    [i \in 1..ny |-> [j \in 1..nx |->
        CASE style = 1 -> R(-12..12) [] style = 2 -> R({0, 0, 0, 9}) [] style = 3 -> j * R({1, 2}) - 2 * i
          [] style = 4 -> (IF i = 1 THEN 7 ELSE R({0, 1})) [] OTHER -> R({-5, 5})]]
Judge(k, g, mul, off, sx, sy, lay, rep) ==
    Emit(k, g, mul, off, sx, sy, lay, IF k = "S" THEN SurfaceValues(g, mul, sx, sy) ELSE ProfileValues(Seqs(g, mul), sx), rep)
Next == /\ ~ok
        /\ ok' = TRUE
        /\ IF Mode = "all"
           THEN /\ case' = case
                /\ Judge(case.k, case.g, 8, 0, 4, 2, 0, <<1, 1>>)
           ELSE \E k \in {R({"S", "S", "S", "P", "P"})} : \E big \in {R(1..40) = 1} : \E ny \in {IF big THEN R(14..22) ELSE R(2..6)} : \E nx \in {IF big THEN R(14..22) ELSE R(2..7)} : \E n \in {IF big THEN R(100..300) ELSE R(2..24)} : \E style \in {R(1..5)} :
                \E g \in {IF k = "S" THEN RandomGrid(ny, nx, style) ELSE RandomGrid(1, n, style)} :
                \E mul \in {R({8, 8, 1, 3, -8, -2, 16})} : \E off \in {R(Offs)} : \E sx \in {R(Steps)} : \E sy \in {R(Steps)} : \E lay \in {R(0..6)} :
                /\ case' = [k |-> k, g |-> g]
                \* now and then as many points as a measurement has
                /\ \E z \in {R(1..200)} : \E a \in {R(3..900)} : \E m \in {R(1050000..2600000)} :
                   Judge(k, g, mul, off, sx, sy, lay,
                         IF z = 1 THEN (IF k = "P" THEN <<1, m \div Len(g[1])>> ELSE <<a, m \div (Len(g) * Len(g[1]) * a) + 1>>)
                         ELSE IF z > 10 THEN <<1, 1>> ELSE IF k = "P" THEN <<1, R(20..4000)>> ELSE <<R(3..200), R(3..150)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
