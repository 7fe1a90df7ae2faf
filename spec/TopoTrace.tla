----------------------------- MODULE TopoTrace ------------------------------
(* Trace specification of the topography objects: every recorded call of    *)
(* the implementation, with the observed state of all live objects after    *)
(* it, must be a step of the reference semantics in Grid.  The verdict of   *)
(* an event is the set of violated clauses "<property>:<clause>".           *)
EXTENDS Grid, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, st
vars == <<t, l, st>>

Clause(ok, name) == IF ok THEN {} ELSE {name}

SameTopo(a, b) == a.k = b.k /\ a.sx = b.sx /\ a.sy = b.sy /\ a.g = b.g
SameFrame(a, b) == a.w = b.w /\ a.hh = b.hh
TwinEq(a, b) == a.k = b.k /\ Near(a.sx, b.sx, 1) /\ Near(a.sy, b.sy, 1) /\ NearGrid(a.g, b.g, 1) /\ Near(a.w, b.w, 2) /\ Near(a.hh, b.hh, 2)
Regular(x) == x > 0 /\ x <= 20000000
Extents(o) == /\ Regular(o.sx) /\ (o.k = "S" => Regular(o.sy))
              /\ o.w # Inf /\ o.w # NaN /\ o.hh # Inf /\ o.hh # NaN
              /\ Abs(o.w - (o.nx - 1) * o.sx) <= o.nx
              /\ o.k = "S" => Abs(o.hh - (o.ny - 1) * o.sy) <= o.ny
              /\ NRows(o.g) = o.ny /\ (o.ny > 0 => NCols(o.g) = o.nx)

\* ---- which calls must fail, and with which result they must leave everything alone ----
CropBox(e, o) ==          \* <<x0, x1, y0, y1>> in array indices
    IF e.op = "cropx" THEN (IF o.k = "P" THEN <<e.a[1], e.a[2], 0, 0>> ELSE <<e.a[1], e.a[2], e.a[3], e.a[4]>>)
    ELSE \* in units: a holds the box in 1/1000 µm, y upwards
         IF o.k = "P" THEN <<RoundDiv(e.a[1], o.sx), RoundDiv(e.a[2], o.sx), 0, 0>>
         ELSE <<RoundDiv(e.a[1], o.sx), RoundDiv(e.a[2], o.sx),
                o.ny - RoundDiv(e.a[4], o.sy) - 1, o.ny - RoundDiv(e.a[3], o.sy) - 1>>
CropBad(e, o) == LET b == CropBox(e, o) IN
    IF o.k = "P" THEN b[1] < 0 \/ b[2] > o.nx - 1 \/ b[1] >= b[2]
    ELSE b[1] < 0 \/ b[3] < 0 \/ b[2] > o.nx - 1 \/ b[4] > o.ny - 1 \/ b[1] > b[2] \/ b[3] > b[4]

Refusing == {"lowpass", "highpass", "bandpass", "rotate", "align"}
MustFail(e, o) ==
    CASE e.op \in {"cropx", "cropu"} -> CropBad(e, o)
      [] e.op = "zoom" -> e.a[1] < 10
      [] e.op = "threshold" -> e.a[1] + e.a[2] >= 100
      [] e.op \in Refusing -> HasNaN(o.g) \/ (e.op = "bandpass" /\ e.a[2] <= e.a[1])
      [] e.op = "filterbad" -> TRUE
      [] e.op \in {"addS", "subS", "mulS"} -> LET p == st[e.h2] IN o.sx # p.sx \/ o.sy # p.sy \/ ~SameShape(o.g, p.g)
      [] OTHER -> FALSE
\* calls that may fail for reasons outside of this specification (degenerate data)
MayFail(e, o) == e.op \in {"align", "filllinear", "fillcubic", "rotate", "shlevel", "level", "detrend", "read"}
                 \/ (e.op \in {"threshold", "fill", "zero", "center", "invert", "outmean", "outmedian"} /\ Measured(o.g) = <<>>)

ScalarOps == {"adds", "subs", "rsubs", "muls", "divs"}
SurfOps == {"addS", "subS", "mulS"}

\* ---- expected heights, as a relation between before (b) and after (r) ----
ValueOK(e, b, r) ==
    CASE e.op = "zero" -> IsZeroed(b.g, r.g)
      [] e.op = "center" -> IsCentered(b.g, r.g)
      [] e.op = "invert" -> IsInverted(b.g, r.g)
      [] e.op = "threshold" -> IsThresholded(b.g, r.g, e.a[1], e.a[2], b.ex)
      [] e.op = "outmean" -> IsMeanFiltered(b.g, r.g, e.a[1], b.ex)
      [] e.op = "outmedian" -> IsMedianFiltered(b.g, r.g, e.a[1], b.ex)
      [] e.op = "adds" -> NearGrid(r.g, MapGrid(b.g, LAMBDA v : v + e.a[1]), 2)
      [] e.op = "subs" -> NearGrid(r.g, MapGrid(b.g, LAMBDA v : v - e.a[1]), 2)
      [] e.op = "rsubs" -> NearGrid(r.g, MapGrid(b.g, LAMBDA v : e.a[1] - v), 2)
      [] e.op = "muls" -> MaxAbsUpTo(b.g, 500000) => NearGrid(r.g, MapGrid(b.g, LAMBDA v : (v * e.a[1]) \div 1000), 4)
      [] e.op = "divs" -> NearGrid(r.g, MapGrid(b.g, LAMBDA v : (v \div (e.a[1] \div 1000))), 2)
      [] e.op \in SurfOps ->
            LET p == st[e.h2] IN
            /\ SameShape(b.g, r.g)
            /\ \A i \in 1..NRows(b.g) : \A j \in 1..NCols(b.g) :
                 LET x == b.g[i][j] y == p.g[i][j] IN
                 IF x = NaN \/ y = NaN THEN r.g[i][j] = NaN
                 ELSE IF e.op = "mulS" THEN
                        (Abs(x) <= 40000 /\ Abs(y) <= 40000) =>
                          r.g[i][j] # Inf /\ Abs(r.g[i][j] - (x * y) \div 1000) <= 2 + (Abs(x) + Abs(y)) \div 1000
                      ELSE Near(r.g[i][j], IF e.op = "addS" THEN x + y ELSE x - y, 2)
      [] OTHER -> TRUE

SelectOK(e, b, r) ==
    CASE e.op \in {"cropx", "cropu"} ->
            LET c == CropBox(e, b) IN (c[1] <= c[2] /\ c[3] <= c[4]) => r.g = SubGrid(b.g, c[3], c[4], c[1], c[2])
      [] e.op = "zoom" ->
            LET Lo(n) == (n - (10 * n) \div e.a[1]) \div 2
                Hi(n) == Min2(n - 1, Lo(n) + (10 * n) \div e.a[1])
            IN  r.g = SubGrid(b.g, IF b.k = "P" THEN 0 ELSE Lo(b.ny), IF b.k = "P" THEN 0 ELSE Hi(b.ny), Lo(b.nx), Hi(b.nx))
      [] e.op = "slice" -> r.g = SliceGrid(b.g, e.a[1], e.a[2], e.a[3], e.a[4], e.a[5], e.a[6])
      [] e.op = "slice1" -> r.g = SliceGrid(b.g, e.a[1], e.a[2], e.a[3], 0, b.nx, 1)
      [] e.op = "setpt" -> r.g = PutPoint(b.g, e.a[1], e.a[2], e.a[3])
      [] e.op = "setrow" -> r.g = PutRow(b.g, e.a[1], e.a[2])
      [] e.op = "setabove" -> IsPutAbove(b.g, r.g, e.a[1], e.a[2], b.ex)
      [] e.op = "setall" -> r.g = [i \in 1..b.ny |-> [j \in 1..b.nx |-> e.a[1]]]
      [] e.op = "assign" -> r.g = e.g
      [] e.op = "assignfrom" -> r.g = st[e.h2].g
      [] OTHER -> TRUE

SpacingOK(e, b, r) ==
    CASE e.op = "slice" -> Near(r.sy, b.sy * Abs(e.a[3]), Abs(e.a[3])) /\ Near(r.sx, b.sx * Abs(e.a[6]), Abs(e.a[6]))
      [] e.op = "slice1" -> Near(r.sy, b.sy * Abs(e.a[3]), Abs(e.a[3])) /\ r.sx = b.sx
      [] e.op \in {"rotate", "align", "hprof", "vprof"} -> TRUE
      [] OTHER -> r.sx = b.sx /\ r.sy = b.sy

\* heights that are kept are kept exactly: kx tells that all heights of an object are heights of the lattice the program
\* draws its heights from (in the unit of the program, whatever it is), bit by bit
Keeping == {"cropx", "cropu", "zoom", "slice", "slice1", "fill", "threshold", "outmean", "outmedian", "setpt", "setrow", "setabove", "setall", "assign"}
ExactlyOK(e, b, r) == (e.op \in Keeping /\ b.kx) => r.kx

MaskKeeping == {"zero", "center", "invert", "level", "detrend", "shlevel", "adds", "subs", "rsubs", "muls", "divs"}
MaskOK(e, b, r) ==
    CASE e.op \in MaskKeeping -> SameMask(b.g, r.g)
      [] e.op \in {"threshold", "outmean", "outmedian"} ->
            /\ SameShape(b.g, r.g)
            /\ \A i \in 1..NRows(b.g) : \A j \in 1..NCols(b.g) : b.g[i][j] = NaN => r.g[i][j] = NaN
      [] e.op = "fill" -> IsFilledNearest(b.g, r.g)
      [] e.op = "filllinear" -> IsFilledWithin(b.g, r.g, TRUE)
      [] e.op = "fillcubic" -> IsFilledWithin(b.g, r.g, FALSE)
      [] e.op \in {"lowpass", "highpass", "bandpass"} -> ~HasNaN(r.g)
      [] OTHER -> TRUE
\* a transform that keeps the mask and treats only measured points is judged on grids with missing points
MissingValueOK(e, b, r) == HasNaN(b.g) => ValueOK(e, b, r)

IsEdit(e) == e.op \in {"setpt", "setrow", "setabove", "setall", "assign", "assignfrom"}
InPlace(e) == e.inp \/ IsEdit(e)

Verdict(e) ==
    LET n == Len(st) m == Len(e.obs) ok == e.err = ""
        others == {k \in 1..n : ~(ok /\ InPlace(e) /\ k = e.h)}
    IN
    IF e.op \in {"new", "newP"} THEN
        Clause(ok, "T03:create") \cup
        (IF ok THEN Clause(Extents(e.obs[m]), "T03:extent") \cup Clause(e.obs[m].g = e.g, "T03:create_heights")
                    \cup Clause(e.obs[m].stale = <<>>, "T01:stale") ELSE {})
    ELSE
    LET b == st[e.h] mf == MustFail(e, b) IN
    \* T02: nothing but the target of an in-place call changes
    Clause(\A k \in others : SameTopo(st[k], e.obs[k]) /\ SameFrame(st[k], e.obs[k]), "T02:others_changed")
    \cup Clause(ok \/ SameTopo(b, e.obs[e.h]), "T04:changed_by_refused_call")
    \cup Clause(mf => ~ok, IF e.op \in Refusing /\ HasNaN(b.g) THEN "T04:not_refused" ELSE IF e.op \in SurfOps \/ e.op = "threshold" THEN "T05:not_refused"
                           ELSE IF e.op \in {"cropx", "cropu", "zoom"} THEN "T03:not_refused" ELSE "T08:not_refused")
    \cup Clause((mf /\ ~ok) => e.err = "ValueError", "T04:wrong_error")
    \cup Clause((~mf /\ ~MayFail(e, b)) => ok,
                IF e.op \in {"cropx", "cropu", "zoom", "slice", "slice1"} THEN "T03:refused"
                ELSE IF IsEdit(e) THEN "T02:edit_refused" ELSE IF HasNaN(b.g) THEN "T04:refused" ELSE "T05:refused")
    \* T01: every result read from every live object is the one of a fresh object
    \cup Clause(\A k \in 1..m : e.obs[k].stale = <<>>, "T01:stale")
    \* T03: extents
    \cup Clause(\A k \in 1..m : Extents(e.obs[k]), "T03:extent")
    \* T04: statistics and refusals on whatever is there
    \cup Clause(\A k \in 1..m : StatsOK(e.obs[k].g, e.obs[k].st), "T04:statistics")
    \cup Clause(\A k \in 1..m : e.obs[k].norefuse = <<>>, "T04:parameter_not_refused")
    \cup
    (IF ~ok \/ mf \/ e.op = "read" THEN {}
     ELSE IF e.r < 1 \/ e.r > m THEN {"T02:no_result"}
     ELSE
       LET r == e.obs[e.r] IN
       Clause(IF InPlace(e) THEN IsEdit(e) \/ e.ret = "self" ELSE e.ret = "new", "T02:identity")
       \cup Clause(e.ret # "new" \/ m = n + 1, "T02:handles")
       \cup Clause(e.alt.has => (e.alt.err = "" /\ TwinEq(e.alt.o, r)), "T02:inplace_differs_from_copy")
       \cup Clause(SpacingOK(e, b, r), "T03:spacing")
       \cup Clause(SelectOK(e, b, r), IF IsEdit(e) THEN "T02:edit" ELSE "T03:selection")
       \cup Clause(MaskOK(e, b, r), "T04:mask")
       \cup Clause(ExactlyOK(e, b, r), IF IsEdit(e) THEN "T02:edit" ELSE IF e.op = "fill" THEN "T04:kept_exactly" ELSE IF e.op \in {"threshold", "outmean", "outmedian"} THEN "T05:kept_exactly" ELSE "T03:kept_exactly")
       \cup Clause(MissingValueOK(e, b, r), "T04:values")
       \cup Clause(ValueOK(e, b, r), "T05:values")
       \cup Clause((e.op \in {"level", "detrend", "shlevel", "lowpass", "highpass", "bandpass"}) => SameShape(b.g, r.g), "T03:shape"))
    \cup Clause((~ok /\ e.alt.has) => e.alt.err # "", "T02:inplace_fails_differently")

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
TraceNext ==
    /\ l <= Len(Traces[t])
    /\ LET e == Traces[t][l] v == Verdict(e) IN
       /\ v = {} \/ PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
       /\ st' = e.obs
    /\ l' = l + 1
    /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
