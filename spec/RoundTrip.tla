-------------------------------- MODULE RoundTrip --------------------------------
(* Saving and loading (property F01).                                           *)
(* The state is a topography (shape, non-measured positions, image layers) that *)
(* travels through a chain of files.  A step saves it in one format and loads   *)
(* it back.  Shape, orientation, spacing and non-measured positions survive any *)
(* chain; every step moves the heights by at most the resolution of its format; *)
(* image layers survive exactly the formats and options that hold them.         *)
(* Tolerance(f) states the resolution as a formula over the heights of the      *)
(* saved topography: its range, its largest and the single absolute height.     *)
EXTENDS Grid, Terms, Json, IOUtils

VARIABLES t, l, cur
vars == <<t, l, cur>>
R(S) == RandomElement(S)
Var(n) == [op |-> "var", n |-> n]

\* the formats and their options
Sflz == {[fmt |-> "sflz", compression |-> c, dtype |-> d, layers |-> b, meta |-> m] :
            c \in {"none", "zlib", "lzma"}, d \in {"<u1", "<u2", "<u4", "<u8", ">u4", "<i1", "<i2", "<i4", "<i8", "<f4", "<f8", ">f8"}, b \in BOOLEAN, m \in BOOLEAN}
\* comments: number of characters and the bytes one of them takes at least
Sur == {[fmt |-> "sur", compressed |-> c, comment |-> k, chars |-> a] : c \in BOOLEAN, k \in {0, 1, 15, 2000}, a \in {"ascii", "latin", "wide"}}
Sdf == {[fmt |-> "sdf", binary |-> b] : b \in BOOLEAN}
Al3d == {[fmt |-> "al3d"]}
Tmd == {[fmt |-> "tmd", comment |-> k, chars |-> a] : k \in {0, 5, 11, 21}, a \in {"ascii", "ascii", "latin", "wide"}}
Formats == <<Sflz, Sflz \cup Sur, Sur, Sdf, Al3d, Tmd>>
Bits(d) == CASE d \in {"<u1", "<i1"} -> 8 [] d \in {"<u2", "<i2"} -> 16 [] d \in {"<u4", ">u4", "<i4"} -> 32 [] OTHER -> 50

\* |loaded - saved| at one position
Tolerance(f, missing) ==
    CASE f.fmt = "al3d" -> Times(Exp2(I(-22)), Var("abs"))
      [] f.fmt = "tmd" -> Times(Exp2(I(-23)), Var("abs"))
      [] f.fmt = "sdf" /\ f.binary -> Times(Exp2(I(-48)), Var("abs"))
      [] f.fmt = "sdf" /\ ~f.binary -> Times(Exp2(I(-33)), Var("max"))
      [] f.fmt = "sur" -> Times(Exp2(I(-23)), Plus(Var("max"), Var("range")))
      [] f.fmt = "sflz" -> IF f.dtype = "<f4" THEN Times(Exp2(I(-23)), Var("abs"))
                           ELSE IF f.dtype \in {"<f8", ">f8"} \/ missing THEN I(0)
                           ELSE Plus(Times(Exp2(I(1 - Bits(f.dtype))), Var("range")), Times(Exp2(I(-48)), Var("max")))
\* relative deviation of the spacing: 2^-k
SpacingBits(f) == IF f.fmt \in {"sur", "tmd"} THEN 22 ELSE 45
\* comments whose characters fit but whose bytes do not fit into the field of the header, and characters that the encoding lacks
MayRefuse(e) == (e.f.fmt = "tmd" /\ e.f.chars # "ascii" /\ e.f.comment > 10) \/ (e.f.fmt \in {"sur", "tmd"} /\ e.f.chars = "wide" /\ e.f.comment > 0 /\ e.enc # "utf-8")
HoldsLayers(f) == f.fmt = "sflz" /\ f.layers

-----------------------------------------------------------------------------
GenInit == t = 0 /\ l = 0 /\ cur = <<>>
Missing(p, i, j, ny, nx, r) ==
    CASE p = "none" -> FALSE
      [] p = "some" -> r = 1
      [] p = "row" -> i = 1
      [] p = "most" -> ~(i = ny /\ j = 1)
      [] p = "all" -> TRUE
      [] p = "corner" -> i = ny /\ j = nx
      [] p = "first" -> i = 1 /\ j = 1
GenNext ==
    /\ l = 0 /\ l' = 1 /\ UNCHANGED <<t, cur>>
    /\ \E ny \in {R(1..7)} : \E nx \in {R(1..7)} : \E p \in {R({"none", "none", "some", "some", "row", "most", "all", "corner", "first"})} :
       \E style \in {R(1..4)} : \E n \in {R({1, 1, 2, 3})} : \E pos \in {R(1..3)} :
       LET z(i, j) == CASE style = 1 -> R(-1000..1000) [] style = 2 -> 7 [] style = 3 -> -R(1..1000) [] style = 4 -> (IF R(1..5) = 1 THEN 100000 ELSE R(0..3))
       IN \E g \in {[i \in 1..ny |-> [j \in 1..nx |-> IF Missing(p, i, j, ny, nx, R(1..4)) THEN NaN ELSE z(i, j)]]} :
       \E fs \in {[i \in 1..n |-> R(Formats[R(1..6)])]} :
       PrintT("@@" \o ToJson([g |-> g, mul |-> R(-7..6), off |-> R({0, 0, 0, 3, -50, 1000, -100000}), sx |-> R({1, 7, 10, 333, 1000, 54321}),
              sy |-> R({1, 7, 10, 333, 1000, 54321}), sm |-> R(-5..2), dt |-> R({"float64", "float64", "float32"}), lay |-> R(0..4), tile |-> R({1, 1, 1, 1, 1, 1, 1, 40, 150}),
              layers |-> R({<<>>, <<>>, <<"RGB">>, <<"Grayscale", "RGB">>, <<"topography", "Float">>, <<"Wide", "Tall">>}),
              ts |-> R(BOOLEAN), \* a share of the chains begins with a topography that was loaded from an instrument file
              source |-> IF R(1..8) = 1 THEN R(1..9) ELSE 0,
              steps |-> [i \in 1..n |-> [f |-> fs[i], tol |-> Tolerance(fs[i], FALSE), tolm |-> Tolerance(fs[i], TRUE), sbits |-> SpacingBits(fs[i]),
                         target |-> R({"str", "path", "bytesio", "bytesio", "position", "file", "rawfile", "upper", "nosuffix", "overwrite"}),
                         readlayers |-> R(BOOLEAN), enc |-> R({"utf-8", "utf-8", "latin-1", "cp1252"}), auto |-> R(BOOLEAN)]]]))
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
\* Checking.  cur: [ny, nx, mask, layers] of the topography in the chain
Traces == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ cur = <<>>
Expected(c, e) == [ny |-> c.ny, nx |-> c.nx, mask |-> c.mask, layers |-> IF HoldsLayers(e.f) /\ e.readlayers THEN c.layers ELSE <<>>]
Verdict(c, e) ==
    IF e.err # "" THEN (IF MayRefuse(e) /\ e.stage = "save" THEN {} ELSE {"F01:raised"})
    ELSE LET x == Expected(c, e) IN
         Clause(e.ny = x.ny /\ e.nx = x.nx, "F01:shape")
         \cup Clause(e.mask = x.mask, "F01:missing")
         \cup Clause(e.dev <= 1000, "F01:heights")
         \cup Clause(e.dsx <= 1000 /\ e.dsy <= 1000, "F01:spacing")
         \cup Clause(e.layers = x.layers, "F01:image_layers")
         \cup Clause(e.same, "F01:saved_surface_changed")
         \cup Clause(e.again, "F01:second_load_differs")
TraceNext ==
    /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET e == Traces[t][l] IN
       IF l = 1 THEN cur' = e
       ELSE /\ cur' = [ny |-> e.ny, nx |-> e.nx, mask |-> e.mask, layers |-> e.layers]   \* (a deviation is reported once)
            /\ LET v == Verdict(cur, e) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
