-------------------------------- MODULE Waves --------------------------------
(* Texture analysis (property H04): what period, orientation, depth, texture  *)
(* direction, homogeneity, step height and autocorrelation must be on         *)
(* topographies that are known by construction.  Every case describes a       *)
(* topography and claims about the answers of the implementation on it        *)
(* (operation "call"), stated as exact terms over the description.            *)
(* A claim has an alternative reading (b2) where a finding is recorded.       *)
EXTENDS Terms, FiniteSets, SequencesExt, TLC, Json

CONSTANT Mode
VARIABLES done
R(S) == RandomElement(S)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(S, F(_)) == FoldLeft(LAMBDA acc, x : acc + F(x), 0, SetToSeq(S))
Seq1(n, F(_)) == [k \in 1..n |-> F(k)]
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)

Obs(f, a) == [op |-> "call", f |-> f, a |-> a]
Eq(n, a, b, tol) == [n |-> n, rel |-> "eq", a |-> a, b |-> b, tol |-> tol]
\* the sampling length of n points is taken as n - 1 instead of n spacings
Alt(n, a, b, b2, tol) == [n |-> n, rel |-> "eq", a |-> a, b |-> b, b2 |-> b2, tol |-> tol]
\* angles, equal up to half a turn
Ang(n, a, b, tol) == [n |-> n, rel |-> "angle", a |-> a, b |-> b, tol |-> tol]
AltAng(n, a, b, b2, tol) == [n |-> n, rel |-> "angle", a |-> a, b |-> b, b2 |-> b2, tol |-> tol]
Le(n, a, b, tol) == [n |-> n, rel |-> "le", a |-> a, b |-> b, tol |-> tol]
Raises(n, a) == [n |-> n, rel |-> "raises", a |-> a]
Tiny == Q(1, 1000000)
Emit(c) == PrintT("@@" \o ToJson(c))

-------------------------------------------------------------------------------
(* Waves: amp / 4 * cos(2 pi (kx j / M + ky i / N + ph / 24)) + off           *)
(* in row i, column j; ky > 0 runs downwards.                                 *)
Fx(w, m) == Over(I(w.kx), Times(I(m), Q(w.sx, 4)))
Fy(w, n) == Over(I(w.ky), Times(I(n), Q(w.sy, 4)))
PeriodOf(w, n, m) == Over(I(1), Sqrt(Plus(Pow(Fx(w, m), 2), Pow(Fy(w, n), 2))))
PeriodX(w, m) == Over(Times(I(m), Q(w.sx, 4)), I(Abs(w.kx)))
PeriodY(w, n) == Over(Times(I(n), Q(w.sy, 4)), I(Abs(w.ky)))
\* angle of the wave vector from the x axis, counted upwards; the same as that of the crests from the vertical axis
Direction(w, n, m) == Atan2(Minus(I(0), Fy(w, n)), Fx(w, m))
\* the same, counted downwards
Lay(w, n, m) == Atan2(Fy(w, n), Fx(w, m))

WaveClaims(w) ==
    LET per == PeriodOf(w, w.N, w.M) perA == PeriodOf(w, w.N - 1, w.M - 1)
        dir == Direction(w, w.N, w.M) dirA == Direction(w, w.N - 1, w.M - 1)
        tol == Times(Tiny, per)
        amp == Q(w.amp, 2)                                  \* from peak to valley
        n == w.nprof
    IN  <<Alt("period", Obs("period", <<>>), per, perA, tol),
          Alt("Ssw", Obs("Ssw", <<>>), per, perA, tol),
          AltAng("orientation_fft", Obs("orientation_fft", <<>>), dir, dirA, Tiny)>>
     \o (IF w.kx # 0 THEN <<Alt("period_x_y", Obs("period_x", <<>>), PeriodX(w, w.M), PeriodX(w, w.M - 1), tol)>>
         ELSE <<[n |-> "period_x_y", rel |-> "inf", a |-> Obs("period_x", <<>>)]>>)
     \o (IF w.ky # 0 THEN <<Alt("period_x_y", Obs("period_y", <<>>), PeriodY(w, w.N), PeriodY(w, w.N - 1), tol)>>
         ELSE <<[n |-> "period_x_y", rel |-> "inf", a |-> Obs("period_y", <<>>)]>>)
     \o <<[n |-> "Std", rel |-> "bin", a |-> Obs("Std", <<Q(w.astep, 2)>>), b |-> Lay(w, w.N, w.M), b2 |-> Lay(w, w.N - 1, w.M - 1), tol |-> Q(w.astep, 2)],
          [n |-> "Std_default", rel |-> "bin", a |-> Obs("Std", <<>>), b |-> Lay(w, w.N, w.M), b2 |-> Lay(w, w.N - 1, w.M - 1), tol |-> Q(1, 2)]>>
     \o (IF w.second \/ w.few THEN <<>> ELSE
        <<Ang("orientation", Obs("orientation", <<>>), dir, Q(3, 10)),
          Ang("orientation_refined", Obs("orientation_refined", <<>>), dir, Q(3, 10)),
          Raises("depth_refused", Obs("depth_mean", <<I(1000)>>)),
          Eq("aspect_ratio", Obs("aspect_ratio", <<>>), Over(Obs("depth_mean", <<>>), Obs("period", <<>>)), Tiny),
          [n |-> "align_rotate", rel |-> "true", a |-> Obs("align_is_rotation", <<>>)]>>
          \o (IF w.coarse THEN <<>> ELSE
              <<Le("depth_most", Obs("depth_mean", <<I(n)>>), amp, Times(Tiny, amp)),
                Le("depth_least", Times(amp, Q(80, 100)), Obs("depth_mean", <<I(n)>>), I(0)),
                Le("depth_std", Obs("depth_std", <<I(n)>>), Times(amp, Q(12, 100)), I(0))>>)
          \o (IF w.alignable THEN <<Ang("align", Obs("aligned_y", <<>>), I(0), I(1)), Ang("align", Obs("aligned_x", <<>>), I(90), I(1))>> ELSE <<>>))
     \o <<Eq("power_total", Obs("power_total", <<Q(w.astep, 2)>>), Obs("power_of_heights", <<>>), Times(Tiny, Obs("power_of_heights", <<>>))),
          [n |-> "power_bin", rel |-> "le", a |-> Q(w.amp * w.amp, 32), b |-> Obs("power_at", <<Lay(w, w.N, w.M), Q(w.astep, 2)>>),
           b2 |-> Obs("power_at", <<Lay(w, w.N - 1, w.M - 1), Q(w.astep, 2)>>), tol |-> Tiny]>>
     \o (IF w.second THEN <<[n |-> "power_bin2", rel |-> "le", a |-> Q(w.amp * w.amp, 512), b |-> Obs("power_at", <<Lay(w.w2, w.N, w.M), Q(w.astep, 2)>>),
                            b2 |-> Obs("power_at", <<Lay(w.w2, w.N - 1, w.M - 1), Q(w.astep, 2)>>), tol |-> Tiny]>> ELSE <<>>)

\* the axes along which the period is shorter: 1 for x, 2 for y, both if there is not much of a difference
Along(N, M, kx, ky, sx, sy) ==
    LET a == kx * N * sy b == ky * M * sx IN
    (IF 10 * a > 9 * b THEN {1} ELSE {}) \cup (IF 10 * b > 9 * a THEN {2} ELSE {})
Fewest(N, M, kx, ky, sx, sy) ==
    LET a == Along(N, M, kx, ky, sx, sy) IN Min2(IF 1 \in a THEN kx ELSE ky, IF 2 \in a THEN ky ELSE kx)
WaveCase(l) ==
    l = FALSE /\
    \E N \in {R(48..104)} : \E M \in {R(48..104)} :
    \E sx \in {R({1, 2, 4})} : \E sy \in {R({1, 2, 4})} :
    \E kx \in {R({0, 1, R(2..(M \div 6)), R(2..(M \div 6)), R(2..(M \div 6))})} :
    \E ky \in {R({0, R(0..(N \div 6)), -R(0..(N \div 6)), R(0..(N \div 6)), -R(0..(N \div 6))})} :
    \E second \in {R(1..4) = 1} : \E k2x \in {R(1..(M \div 3))} : \E k2y \in {R(0..(N \div 3))} :
    \E w \in {[kind |-> "wave", N |-> N, M |-> M, kx |-> kx, ky |-> ky, sx |-> sx, sy |-> sy, amp |-> R({1, 4, 20, 300}), off |-> R({0, 0, 5, -700}),
               ph |-> R(0..23), nprof |-> R(1..12), astep |-> R({1, 2, 4, 9}), second |-> second /\ <<k2x, k2y>> \notin {<<kx, ky>>, <<kx, -ky>>},
               \* less than three periods, less than twelve points per period along the profiles that are analysed
               few |-> Fewest(N, M, kx, Abs(ky), sx, sy) < 3,
               coarse |-> LET a == Along(N, M, kx, Abs(ky), sx, sy) IN (2 \in a /\ 12 * Abs(ky) > N) \/ (1 \in a /\ 12 * kx > M),
               alignable |-> kx >= 4 /\ Abs(ky) >= 4 /\ 2 * kx <= M \div 4 /\ 2 * Abs(ky) <= N \div 4 /\ sx = sy,
               w2 |-> [kx |-> k2x, ky |-> k2y, sx |-> sx, sy |-> sy], lay |-> R(0..5)]} :
    (kx >= 2 \/ Abs(ky) >= 2) => Emit([c |-> w, claims |-> WaveClaims(w)])

(* Waves of any length down to two points, along an axis or oblique: the      *)
(* dominant wavelength and the total power do not depend on how fine it is.   *)
FineCase(l) ==
    l = FALSE /\
    \E N \in {R(6..41)} : \E M \in {R(6..41)} :
    \E kx \in {R({0, M \div 2, R(0..(M \div 2))})} : \E ky \in {R({0, N \div 2, -(N \div 2), R(0..(N \div 2)), -R(0..(N \div 2))})} :
    \E w \in {[kind |-> "wave", N |-> N, M |-> M, kx |-> kx, ky |-> ky, sx |-> R({1, 2, 4, 12}), sy |-> R({1, 2, 4, 12}), amp |-> R({1, 4, 300}), off |-> R({0, 0, 5, -700}),
               ph |-> R(0..23), second |-> FALSE, astep |-> R({1, 2, 4, 9}), lay |-> R(0..5)]} :
    (kx # 0 \/ ky # 0) =>
    Emit([c |-> w, claims |->
        <<Alt("Ssw", Obs("Ssw", <<>>), PeriodOf(w, N, M), PeriodOf(w, N - 1, M - 1), Times(Tiny, PeriodOf(w, N, M))),
          Eq("power_total", Obs("power_total", <<Q(w.astep, 2)>>), Obs("power_of_heights", <<>>), Times(Tiny, Obs("power_of_heights", <<>>)))>>])

-------------------------------------------------------------------------------
(* Profiles with a wave of k periods.                                         *)
ProfileCase(l) ==
    l = FALSE /\
    \E n \in {R(30..400)} : \E k \in {R(1..(n \div 4))} :
    \E w \in {[kind |-> "profile", n |-> n, k |-> k, s |-> R({1, 2, 4, 40}), amp |-> R({1, 4, 20, 300}), mag |-> R({0, -3, 2}), off |-> R({0, 0, 5, -700}), ph |-> R(0..23)]} :
    Emit([c |-> w, claims |-> <<Eq("profile_period", Obs("period", <<>>), Over(Times(I(n), Q(w.s, 4)), I(k)), Times(Tiny, Over(Times(I(n), Q(w.s, 4)), I(k))))>>])

-------------------------------------------------------------------------------
(* Grooves with vertical walls whose depth differs from profile to profile.   *)
(* The sampled profiles are equally far apart, as far as possible, starting   *)
(* with the first one.                                                        *)
Sampled(N, n) == [k \in 1..n |-> (k - 1) * ((N - 1) \div (IF n = 1 THEN 1 ELSE n - 1)) + 1]
GrooveClaims(g) ==
    LET at == Sampled(g.N, g.nprof)
        d == [k \in 1..g.nprof |-> g.depths[at[k]]]
        n == g.nprof
        arg == <<I(n), Q(g.width, 100)>>
        dd == [k \in 1..30 |-> g.depths[Sampled(g.N, 30)[k]]]
    IN  <<Eq("groove_depth", Obs("depth_mean", arg), Q(SumSeq(d), 4 * n), Tiny),
          Eq("groove_std", Obs("depth_std", arg), Over(Sqrt(I(n * SumSeq([k \in 1..n |-> d[k] * d[k]]) - SumSeq(d) * SumSeq(d))), I(4 * n)), Q(1, 10000)),
          Eq("groove_default", Obs("depth_mean", <<>>), Q(SumSeq(dd), 120), Tiny),
          Eq("groove_aspect", Obs("aspect_ratio", <<>>), Over(Q(SumSeq(dd), 120), Obs("period", <<>>)), Tiny)>>
GrooveCase(l) ==
    l = FALSE /\
    \E p \in {2 * R(6..11)} : \E c \in {R(4..6)} : \E N \in {R(30..60)} : \E base \in {R({8, 40, 400})} :
    \E depths \in {[i \in 1..N |-> base + R(0..(base \div 4))]} :
    \E g \in {[kind |-> "groove", p |-> p, c |-> c, N |-> N, depths |-> depths, shift |-> R(0..(p - 1)), t |-> R({0, 1}), nprof |-> R(1..30),
               width |-> R({5, 10, 20, 25}), off |-> R({0, 9, -300}), s |-> R({1, 2, 4})]} :
    Emit([c |-> g, claims |-> GrooveClaims(g)])

-------------------------------------------------------------------------------
(* Homogeneity: cells with the same pattern at different heights.  It is one  *)
(* minus the Gini coefficient of the values of the cells.                     *)
Lorenz(v, k) == SumSeq(SubSeq(v, 1, k))
Homogeneity(vals) ==
    LET v == SortSeq(vals, LAMBDA a, b : a < b) n == Len(v) s == SumSeq(v)
        area == Sum(1..n, LAMBDA k : Lorenz(v, k - 1) + Lorenz(v, k))        \* 2 n s times the area below the curve
    IN  Q(area, n * s)
ASSUME \A v \in {<<3, 3, 3>>, <<1, 1>>, <<7>>} : Homogeneity(v).a.n = Homogeneity(v).b.n
CellCase(l) ==
    l = FALSE /\
    \E p \in {R(3..5)} : \E hx \in {R({1, 2})} : \E hy \in {R({1, 2})} : \E gx \in {R(1..4)} : \E gy \in {R(1..4)} :
    \E hs \in {[k \in 1..(gx * gy) |-> R({R(1..9), R({1, 2, 60})})]} :
    \E c \in {[kind |-> "cells", p |-> p, hx |-> hx, hy |-> hy, gx |-> gx, gy |-> gy, hs |-> hs, mx |-> R(0..(p * hx - 1)), my |-> R(0..(p * hy - 1)),
               seed |-> R(1..1000), off |-> R({0, 3, -50})]} :
    Emit([c |-> c, claims |->
          [k \in 1..4 |-> LET ps == <<<<"Sz">>, <<"Sa">>, <<"Sq", "Sz">>, <<"Sp", "Sv", "Sa">>>>[k] IN
                          [n |-> "homogeneity", rel |-> "eq", a |-> [op |-> "call", f |-> "homogeneity", a |-> <<>>, s |-> ps], b |-> Homogeneity(hs), tol |-> Q(6, 100000)]]
          \o [k \in 1..3 |-> [n |-> "homogeneity_refused", rel |-> "raises",
                              a |-> [op |-> "call", f |-> "homogeneity", a |-> <<>>, s |-> <<<<"Ssk">>, <<"Sa", "period">>, <<"depth", "orientation">>>>[k]]]]])

-------------------------------------------------------------------------------
(* Two levels.                                                                *)
\* twice the median
Median2(s) == LET v == SortSeq(s, LAMBDA a, b : a < b) n == Len(v) IN v[(n + 1) \div 2] + v[(n \div 2) + 1]
Points(ny, nx) == [k \in 1..(ny * nx) |-> <<((k - 1) \div nx) + 1, ((k - 1) % nx) + 1>>]
Heights(z, ps) == [k \in 1..Len(ps) |-> z[ps[k][1]][ps[k][2]]]
Cavity(z, ps, um2, lm2, t) ==
    LET inside == SelectSeq(ps, LAMBDA q : 16 * z[q[1]][q[2]] < 8 * um2 - t * (um2 - lm2)) IN
    SumSeq([k \in 1..Len(inside) |-> um2 - 2 * z[inside[k][1]][inside[k][2]]])
StepCase(l) ==
    l = FALSE /\
    \E ny \in {R(8..13)} : \E nx \in {R(8..13)} :
    \E r \in {<<R(1..3), R(1..3), ny - R(1..3), nx - R(1..3)>>} :
    \E gap \in {R({24, 60, 400})} : \E noise \in {R({0, 2, 5})} : \E lost \in {R({0, 0, 5})} :
    \E low \in {[i \in 1..ny |-> [j \in 1..nx |-> i > r[1] /\ j > r[2] /\ i <= r[3] /\ j <= r[4]]]} :
    \E z \in {[i \in 1..ny |-> [j \in 1..nx |-> (IF low[i][j] THEN -gap ELSE 0) + R(0..noise)]]} :
    \E keep \in {[i \in 1..ny |-> [j \in 1..nx |-> lost = 0 \/ R(1..lost) > 1]]} :
    \E ps \in {SelectSeq(Points(ny, nx), LAMBDA q : keep[q[1]][q[2]])} :
    \E um2 \in {Median2(Heights(z, SelectSeq(ps, LAMBDA q : ~low[q[1]][q[2]])))} :
    \E lm2 \in {Median2(Heights(z, SelectSeq(ps, LAMBDA q : low[q[1]][q[2]])))} :
    \E ta \in {R(-2..2)} : \E tb \in {R(-2..2)} : \E t \in {R(0..8)} :
    \E c \in {[kind |-> "step", z |-> z, keep |-> keep, sx |-> R({1, 2, 4, 8}), sy |-> R({1, 2, 4, 8}), off |-> R({0, 3, -300}),
               \* for levelling: the same levels without noise on a slope
               ta |-> IF gap < 400 THEN 0 ELSE ta, tb |-> IF gap < 400 THEN 0 ELSE tb,
               base |-> [i \in 1..ny |-> [j \in 1..nx |-> IF low[i][j] THEN z[i][j] ELSE 0]]]} :
    LET area == Times(Q(c.sx, 4), Q(c.sy, 4)) IN
    Emit([c |-> c, claims |->
          <<Eq("stepheight", Obs("stepheight", <<>>), Q(um2 - lm2, 8), Tiny),
            Eq("cavity_volume", Obs("cavity_volume", <<>>), Times(area, Q(Cavity(z, ps, um2, lm2, 4), 8)), Tiny),
            Eq("cavity_volume", Obs("cavity_volume", <<Q(t, 8)>>), Times(area, Q(Cavity(z, ps, um2, lm2, t), 8)), Tiny),
            [n |-> "stepheight_level", rel |-> "true", a |-> Obs("level_restores_base", <<Plus(Q(c.ta * (ny - 1), 8), Q(c.tb * (nx - 1), 8))>>)]>>])

-------------------------------------------------------------------------------
(* Autocorrelation: the mean product of the deviations of all pairs of points *)
(* at a lag, exactly, for every lag of small grids.                           *)
Dev(z, ny, nx) == LET s == Sum(1..ny, LAMBDA i : SumSeq(z[i])) IN [i \in 1..ny |-> [j \in 1..nx |-> ny * nx * z[i][j] - s]]
Product(d, ny, nx, ly, lx) ==
    Sum(Max2(1, 1 - ly)..Min2(ny, ny - ly), LAMBDA i : Sum(Max2(1, 1 - lx)..Min2(nx, nx - lx), LAMBDA j : d[i][j] * d[i + ly][j + lx]))
AcfCase(l) ==
    l = FALSE /\
    \E ny \in {R(2..5)} : \E nx \in {R(2..5)} : \E z \in {[i \in 1..ny |-> [j \in 1..nx |-> R(-9..9)]]} : \E d \in {Dev(z, ny, nx)} :
    Emit([c |-> [kind |-> "acf", z |-> z, off |-> R({0, 4, -90})], claims |->
          [k \in 1..((2 * ny - 1) * (2 * nx - 1)) |->
             LET ly == ((k - 1) \div (2 * nx - 1)) - ny + 1 lx == ((k - 1) % (2 * nx - 1)) - nx + 1 IN
             Eq("acf", Obs("acf", <<I(ly), I(lx)>>), Over(Q(Product(d, ny, nx, ly, lx), ny * nx * ny * nx), I((ny - Abs(ly)) * (nx - Abs(lx)))), Tiny)]])

(* Two crossed waves of equal amplitude: the autocorrelation falls to the     *)
(* fraction s of its maximum at the phase with the cosine 2 s - 1 along the   *)
(* shorter and along the longer wave.                                         *)
CrossCase(l) ==
    l = FALSE /\
    \E lx \in {R(20..30)} : \E f \in {R(20..32)} : \E kx \in {R(5..7)} : \E ky \in {R(5..6)} : \E t \in {R({0, 1})} :
    \E c \in {[kind |-> "cross", lx |-> lx, kx |-> kx, ky |-> ky, f |-> f, ph |-> R(0..23), ph2 |-> R(0..23), t |-> t, su |-> R({1, 2, 4, 8}), sv |-> R({1, 2, 4, 8}),
               amp |-> R({1, 40}), off |-> R({0, 70})]} :
    \* ly points in the longer wave, such that it is f / 10 times as long in length units
    LET ly == (lx * f * c.su) \div (10 * c.sv)
        short == Times(I(lx), Q(c.su, 4)) long == Times(I(ly), Q(c.sv, 4))
        Phase(s) == Over(Acos(Minus(Times(I(2), s), I(1))), Times(I(2), Pi))
        Claims(s, arg) ==
            <<Eq("Sal", Obs("Sal", arg), Times(short, Phase(s)), Plus(Times(Times(short, Phase(s)), Q(7, 100)), Q(c.su, 4))),
              Eq("Str", Obs("Str", arg), Over(short, long), Times(Over(short, long), Q(26, 100)))>>
    IN  ly \in 20..120 =>
        Emit([c |-> [c EXCEPT !.f = ly], claims |-> Claims(Q(1, 5), <<>>) \o Claims(Q(1, 5), <<Q(1, 5)>>) \o Claims(Q(1, 2), <<Q(1, 2)>>) \o Claims(Q(7, 20), <<Q(7, 20)>>)])

(* A single wave along one axis, whatever the spacing along the other one:    *)
(* the autocorrelation falls to the fraction s at the phase with the cosine s.*)
RidgeCase(l) ==
    l = FALSE /\
    \E lx \in {R(20..40)} : \E kx \in {R(5..9)} : \E n \in {R(10..50)} :
    \E c \in {[kind |-> "ridge", lx |-> lx, kx |-> kx, n |-> n, ph |-> R(0..23), t |-> R({0, 1}), su |-> R({1, 2, 4, 8}), sv |-> R({1, 2, 4, 8, 40}),
               amp |-> R({1, 40}), off |-> R({0, 70})]} :
    LET short == Times(I(lx), Q(c.su, 4))
        Claim(s, arg) == Eq("Sal", Obs("Sal", arg), Times(short, Over(Acos(s), Times(I(2), Pi))), Plus(Times(short, Q(1, 100)), Q(c.su, 8)))
    IN  Emit([c |-> c, claims |-> <<Claim(Q(1, 5), <<>>), Claim(Q(1, 5), <<Q(1, 5)>>), Claim(Q(1, 2), <<Q(1, 2)>>), Claim(Q(7, 20), <<Q(7, 20)>>)>>])

-------------------------------------------------------------------------------
Init == done = FALSE
Next ==
    /\ ~done /\ done' = TRUE
    /\ CASE Mode = "wave" -> WaveCase(done) [] Mode = "fine" -> FineCase(done) [] Mode = "ridge" -> RidgeCase(done) [] Mode = "profile" -> ProfileCase(done) [] Mode = "groove" -> GrooveCase(done)
         [] Mode = "cells" -> CellCase(done) [] Mode = "step" -> StepCase(done) [] Mode = "acf" -> AcfCase(done) [] OTHER -> CrossCase(done)
Spec == Init /\ [][Next]_done
=============================================================================
