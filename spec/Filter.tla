-------------------------------- MODULE Filter --------------------------------
(* Gaussian filtering (property T08).  Heights and lengths in 1/1000.         *)
(* The lowpass of cutoff c is the weighted mean of the surrounding heights    *)
(* with the weight exp(-(pi^2 / ln 2) (d / c)^2) at the distance d, which is  *)
(* the Gaussian that passes a wave of the cutoff wavelength with half of its  *)
(* amplitude.  Beyond its borders the topography continues as Source states.  *)
(* The generator emits, with every request, the continued topography; the     *)
(* driver evaluates the weighted means (real arithmetic) and records them     *)
(* with the answers; the relations between all of them are judged here.       *)
EXTENDS Grid, Json, IOUtils

VARIABLES t, l, done
vars == <<t, l, done>>
R(S) == RandomElement(S)

\* the position 1..n that stands for position i (any integer) of an axis of n points; 0: height zero
Source(mode, i, n) ==
    IF i \in 1..n THEN i
    ELSE CASE mode = "nearest" -> IF i < 1 THEN 1 ELSE n
           [] mode = "wrap" -> ((i - 1) % n) + 1
           [] mode = "reflect" -> LET m == (i - 1) % (2 * n) IN IF m < n THEN m + 1 ELSE 2 * n - m
           [] mode = "mirror" -> IF n = 1 THEN 1 ELSE LET m == (i - 1) % (2 * n - 2) IN IF m < n THEN m + 1 ELSE 2 * n - 1 - m
           [] mode = "constant" -> 0
Continued(g, mode, py, px) ==
    [i \in 1..(NRows(g) + 2 * py) |-> [j \in 1..(NCols(g) + 2 * px) |->
        LET a == Source(mode, i - py, NRows(g)) b == Source(mode, j - px, NCols(g)) IN
        IF a = 0 \/ b = 0 THEN 0 ELSE g[a][b]]]
\* the weights are below 1e-5 beyond this many points
Reach(c, s) == (8 * c) \div (8 * s) + 2

\* the continuations are symmetric, periodic and continue to the neighbours as they should
ASSUME \A n \in 1..6 : \A i \in -20..20 :
    /\ Source("reflect", i, n) = Source("reflect", 1 - i, n)
    /\ Source("reflect", i, n) = Source("reflect", 2 * n + 1 - i, n)
    /\ (n > 1 => Source("mirror", i, n) = Source("mirror", 2 - i, n))
    /\ (n > 1 => Source("mirror", i, n) = Source("mirror", 2 * n - i, n))
    /\ Source("wrap", i, n) = Source("wrap", i + n, n)
    /\ \A m \in {"reflect", "mirror", "nearest", "wrap"} : Source(m, i, n) \in 1..n /\ (i \in 1..n => Source(m, i, n) = i)
    /\ \A m \in {"reflect", "mirror", "nearest"} : Abs(Source(m, i, n) - Source(m, i + 1, n)) <= 1

Modes == <<"reflect", "nearest", "mirror", "wrap", "constant">>
Heights(ny, nx, style, c) ==
    [i \in 1..ny |-> [j \in 1..nx |->
        CASE style = 1 -> 1000 * R(-9..9)
          [] style = 2 -> c
          [] style = 3 -> IF i = (ny + 1) \div 2 /\ j = (nx + 1) \div 2 THEN 30000 ELSE 0
          [] style = 4 -> 1000 * (2 * j - i) + 500 * R(0..1)
          [] OTHER -> 20000 + 4000 * ((i + j) % 2) + 100 * R(-9..9)]]
GenInit == t = 0 /\ l = 0 /\ done = FALSE
GenNext ==
    /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, l>>
    /\ \E k \in {R({"S", "S", "P"})} : \E ny \in {R(1..8)} : \E nx \in {R(2..9)} : \E n \in {R(3..16)} :
       \E style \in {R(1..5)} : \E c \in {1000 * R(-9..9)} : \E mode \in {Modes[R(1..5)]} :
       \E sx \in {R({400, 1000, 2500})} : \E sy \in {R({500, 1000, 2000})} : \E c1 \in {R({600, 1000, 1700, 2500, 4000, 6000})} :
       \E c2 \in {c1 + R({100, 800, 2500})} :
       \E g \in {IF k = "S" THEN Heights(ny, nx, style, c) ELSE Heights(1, n, style, c)} :
       LET cm == c1 py == IF k = "P" THEN 0 ELSE Reach(cm, sy) px == Reach(cm, sx) IN
       PrintT("@@" \o ToJson([k |-> k, g |-> g, mode |-> mode, sx |-> sx, sy |-> sy, c1 |-> c1, c2 |-> c2, py |-> py, px |-> px,
                              ext |-> Continued(g, mode, py, px), dt |-> R({"float64", "float64", "float32", "int64"}),
                              api |-> R({"filter", "filter", "object"}), lay |-> R(0..4),
                              flat |-> \A i \in 1..NRows(g) : \A j \in 1..NCols(g) : g[i][j] = g[1][1]]))
GenSpec == GenInit /\ [][GenNext]_vars

Clause(ok, name) == IF ok THEN {} ELSE {name}
Plus2(a, b) == [i \in 1..NRows(a) |-> [j \in 1..NCols(a) |-> a[i][j] + b[i][j]]]
Minus2(a, b) == [i \in 1..NRows(a) |-> [j \in 1..NCols(a) |-> a[i][j] - b[i][j]]]
Transposed(a) == [j \in 1..NCols(a) |-> [i \in 1..NRows(a) |-> a[i][j]]]
Tol(e) == IF e.dt = "float32" THEN 8 ELSE 4

Verdict(e) ==
    IF e.err # "" THEN {"T08:raised"}
    ELSE IF ~(SameShape(e.g, e.lp) /\ SameShape(e.g, e.hp) /\ SameShape(e.g, e.bp)) \/ HasNaN(e.lp) \/ HasNaN(e.hp) \/ HasNaN(e.bp) THEN {"T08:shape"}
    ELSE Clause(NearGrid(e.lp, e.want, Tol(e)), "T08:lowpass_is_not_the_gaussian_mean")
    \cup Clause(NearGrid(e.hp, Minus2(e.g, e.lp), 2), "T08:not_complementary")
    \cup Clause(NearGrid(e.both1, e.hp, 1) /\ NearGrid(e.both2, e.lp, 1), "T08:both")
    \cup Clause(NearGrid(e.bp, e.seq, 2), "T08:bandpass_is_not_lowpass_then_highpass")
    \cup Clause(e.mode = "constant" \/ ~e.flat \/ NearGrid(e.lp, e.g, 2), "T08:flat")
    \cup Clause(e.k = "P" \/ NearGrid(e.tp, Transposed(e.lp), 2), "T08:transposition")
    \cup Clause(e.idn, "T08:identity")
    \cup Clause(e.sp, "T08:spacing")
    \cup Clause(e.refused = <<>>, "T08:invalid_request_not_refused")

(* waves: a wave of wavelength w passes with the share 2^-((c/w)^2); the recorded amplitudes are in 1/10000, *)
(* ratio r = 2 (c / w)^2 is an integer here, so that (amplitude / full)^2 = 2^-r                             *)
WaveVerdict(e) ==
    IF e.err # "" THEN {"T08:raised"}
    ELSE LET full2 == 100000000 want == full2 \div (2 ^ e.r) got == e.amp * e.amp IN
         Clause(Abs(got - want) <= want \div 25 + 10000, "T08:wave_transmission")
         \cup Clause(Abs(e.phase) <= 60, "T08:wave_shifted")
         \cup Clause(Abs(e.amp + e.hamp - 10000) <= 5, "T08:wave_complement")

Traces == JsonDeserialize(IOEnv.TRACE)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ done = FALSE
TraceNext == /\ l <= Len(Traces[t])
             /\ LET e == Traces[t][l]
                    v == IF e.kind = "wave" THEN WaveVerdict(e) ELSE Verdict(e)
                IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
             /\ l' = l + 1 /\ UNCHANGED <<t, done>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
