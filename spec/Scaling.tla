------------------------------- MODULE Scaling -------------------------------
(* How parameters change with the topography (property H03).  Transformations *)
(* generate a group: scaling of heights by 2^h and of lengths by 2^l, offset, *)
(* inversion of heights, mirroring along x and y and exchange of the axes.    *)
(* The state is the chain of transformations so far together with its normal  *)
(* form; every parameter has a law on the generators, which is applied step   *)
(* by step and must agree with the law of the normal form (checked on all     *)
(* chains).  The implementation is asked for the parameter before and after   *)
(* the chain.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, Depth       \* "all": every chain of small generators, "rnd": random chains that are replayed
VARIABLES chain, form, laws
vars == <<chain, form, laws>>
R(S) == RandomElement(S)

(* The law of a parameter: value = 2^(h a + l b) * value of the partner,      *)
(* where partner and sign follow from inversion; angles are s * value + o     *)
(* modulo 180.  A transformation a parameter has no law for ends the claim.   *)
P(n, h, l, inv, mir, tr, kinds) == [n |-> n, h |-> h, l |-> l, inv |-> inv, mir |-> mir, tr |-> tr, kinds |-> kinds, uni |-> FALSE]
\* developed area: the diagonal of the triangulation is not mirrored; only scaling heights and lengths by the same factor has a law
U(n, l, inv) == [P(n, 0, l, inv, FALSE, TRUE, "rws") EXCEPT !.uni = TRUE]
Params == <<
    U("Sdr", 0, "Sdr"), U("surface_area", 2, "surface_area"),
    P("Sa", 1, 0, "Sa", TRUE, TRUE, "rws"), P("Sq", 1, 0, "Sq", TRUE, TRUE, "rws"), P("Sz", 1, 0, "Sz", TRUE, TRUE, "rws"),
    P("Sp", 1, 0, "Sv", TRUE, TRUE, "rws"), P("Sv", 1, 0, "Sp", TRUE, TRUE, "rws"), P("Ssk", 0, 0, "-Ssk", TRUE, TRUE, "rws"),
    P("Sku", 0, 0, "Sku", TRUE, TRUE, "rws"), P("Sdq", 1, -1, "Sdq", TRUE, TRUE, "rws"),
    P("projected_area", 0, 2, "projected_area", TRUE, TRUE, "rws"),
    P("Sal", 0, 1, "Sal", TRUE, TRUE, "rw"), P("Sal(0.5)", 0, 1, "Sal(0.5)", TRUE, TRUE, "rw"),
    P("Str", 0, 0, "Str", TRUE, TRUE, "rw"), P("Str(0.3)", 0, 0, "Str(0.3)", TRUE, TRUE, "rw"),
    P("Sk", 1, 0, "", TRUE, TRUE, "rw"), P("Spk", 1, 0, "", TRUE, TRUE, "rw"), P("Svk", 1, 0, "", TRUE, TRUE, "rw"),
    P("Spkx", 1, 0, "", TRUE, TRUE, "rw"), P("Svkx", 1, 0, "", TRUE, TRUE, "rw"), P("Sak1", 1, 0, "", TRUE, TRUE, "rw"),
    P("Sak2", 1, 0, "", TRUE, TRUE, "rw"), P("Smr1", 0, 0, "", TRUE, TRUE, "rw"), P("Smr2", 0, 0, "", TRUE, TRUE, "rw"),
    P("Smrk1", 0, 0, "", TRUE, TRUE, "rw"), P("Smrk2", 0, 0, "", TRUE, TRUE, "rw"),
    P("Sxp", 1, 0, "Sxp(50,97.5)", TRUE, TRUE, "rw"), P("Sxp(50,97.5)", 1, 0, "Sxp", TRUE, TRUE, "rw"), P("Sdc(10,60)", 1, 0, "Sdc(40,90)", TRUE, TRUE, "rw"),
    P("Vmp", 1, 0, "Vvv(90)", TRUE, TRUE, "rw"), P("Vvv(90)", 1, 0, "Vmp", TRUE, TRUE, "rw"), P("Vmc", 1, 0, "Vvc(20,90)", TRUE, TRUE, "rw"),
    P("Vvc", 1, 0, "Vmc(20,90)", TRUE, TRUE, "rw"), P("Vvv", 1, 0, "Vmp(20)", TRUE, TRUE, "rw"), P("Vmp(20)", 1, 0, "Vvv", TRUE, TRUE, "rw"),
    P("Ssw", 0, 1, "Ssw", TRUE, TRUE, "w"), P("period", 0, 1, "period", TRUE, TRUE, "w"),
    P("homogeneity:Sa", 0, 0, "homogeneity:Sa", FALSE, FALSE, "w"), P("homogeneity:Sku,Sz", 0, 0, "homogeneity:Sku,Sz", FALSE, FALSE, "w"),
    P("depth", 1, 0, "depth", FALSE, TRUE, "w"), P("aspect_ratio", 1, -1, "aspect_ratio", FALSE, TRUE, "w"),
    P("stepheight", 1, 0, "", TRUE, TRUE, "s"), P("cavity_volume", 1, 2, "", TRUE, TRUE, "s"), P("cavity_volume(0.25)", 1, 2, "", TRUE, TRUE, "s"),
    P("@orientation:fft", 0, 0, "@orientation:fft", TRUE, TRUE, "w"), P("@orientation", 0, 0, "@orientation", TRUE, TRUE, "w"),
    P("@Std", 0, 0, "@Std", TRUE, TRUE, "w"),
    P("Ra", 1, 0, "Ra", TRUE, FALSE, "p"), P("Rq", 1, 0, "Rq", TRUE, FALSE, "p"), P("Rt", 1, 0, "Rt", TRUE, FALSE, "p"), P("Rsk", 0, 0, "-Rsk", TRUE, FALSE, "p"),
    P("Rku", 0, 0, "Rku", TRUE, FALSE, "p"), P("Rdq", 1, -1, "Rdq", TRUE, FALSE, "p"), P("Rp", 1, 0, "Rv", FALSE, FALSE, "p"), P("Rv", 1, 0, "Rp", FALSE, FALSE, "p"),
    P("Rz", 1, 0, "Rz", FALSE, FALSE, "p"), P("Rp(1)", 1, 0, "Rv(1)", TRUE, FALSE, "p"), P("Rv(1)", 1, 0, "Rp(1)", TRUE, FALSE, "p"), P("Rz(1)", 1, 0, "Rz(1)", TRUE, FALSE, "p"),
    P("Rk", 1, 0, "", TRUE, FALSE, "p"), P("Rpk", 1, 0, "", TRUE, FALSE, "p"), P("Rvk", 1, 0, "", TRUE, FALSE, "p"), P("Rmr1", 0, 0, "", TRUE, FALSE, "p"),
    P("Rmr2", 0, 0, "", TRUE, FALSE, "p"), P("Rxp(10,60)", 1, 0, "Rxp(40,90)", TRUE, FALSE, "p"), P("Rdc(10,60)", 1, 0, "Rdc(40,90)", TRUE, FALSE, "p"),
    P("period", 0, 1, "period", TRUE, FALSE, "q") >>
IsAngle(p) == p.n \in {"@orientation:fft", "@orientation", "@Std"}

Generators == {"height", "length", "zoom", "offset", "invert", "mirrorx", "mirrory", "swap"}
\* the partner asked on the original: inverting twice gives the parameter itself
Partner(p, parity) == IF parity = 0 THEN p.n ELSE p.inv

\* d: by how much heights are scaled more than lengths
Identity == [ok |-> TRUE, d |-> 0, e |-> 0, inv |-> 0, s |-> 1, o |-> 0]
\* one more transformation g by k (before: law w, gives the value after the chain from the one before it)
Law(p, w, g, k) ==
    CASE g = "height" -> [w EXCEPT !.e = @ + p.h * k, !.d = @ + k]
      [] g = "length" -> [w EXCEPT !.e = @ + p.l * k, !.d = @ - k]
      [] g = "zoom" -> [w EXCEPT !.e = @ + (p.h + p.l) * k]
      [] g = "offset" -> w
      [] g = "invert" -> IF p.inv = "" THEN [w EXCEPT !.ok = FALSE] ELSE [w EXCEPT !.inv = 1 - @]
      [] g \in {"mirrorx", "mirrory"} -> IF ~p.mir THEN [w EXCEPT !.ok = FALSE] ELSE IF IsAngle(p) THEN [w EXCEPT !.s = -@, !.o = (180 - @) % 180] ELSE w
      [] g = "swap" -> IF ~p.tr THEN [w EXCEPT !.ok = FALSE] ELSE IF IsAngle(p) THEN [w EXCEPT !.s = -@, !.o = (90 - @ + 180) % 180] ELSE w

\* normal form: exponents, parities; mirrors are counted in the final axes
Form0 == [h |-> 0, l |-> 0, inv |-> 0, mx |-> 0, my |-> 0, t |-> 0]
Apply(f, g, k) ==
    CASE g = "height" -> [f EXCEPT !.h = @ + k] [] g = "length" -> [f EXCEPT !.l = @ + k] [] g = "zoom" -> [f EXCEPT !.h = @ + k, !.l = @ + k] [] g = "offset" -> f
      [] g = "invert" -> [f EXCEPT !.inv = 1 - @] [] g = "mirrorx" -> [f EXCEPT !.mx = 1 - @] [] g = "mirrory" -> [f EXCEPT !.my = 1 - @]
      [] g = "swap" -> [f EXCEPT !.t = 1 - @, !.mx = f.my, !.my = f.mx]
NormalLaw(p, f) ==
    LET flips == (f.mx + f.my + f.t) % 2 IN
    [e |-> p.h * f.h + p.l * f.l, inv |-> f.inv, s |-> IF IsAngle(p) /\ flips = 1 THEN -1 ELSE 1, o |-> IF IsAngle(p) /\ f.t = 1 THEN 90 ELSE 0]
Claimed(p, w) == w.ok /\ (p.uni => w.d = 0)
Agree == \A i \in 1..Len(Params) : /\ laws[i].d = form.h - form.l
    /\ Claimed(Params[i], laws[i]) => [e |-> laws[i].e, inv |-> laws[i].inv, s |-> laws[i].s, o |-> laws[i].o] = NormalLaw(Params[i], form)
\* partners belong together
ASSUME \A i \in 1..Len(Params) : \A j \in 1..Len(Params) :
    Params[i].kinds = Params[j].kinds /\ Params[i].inv = Params[j].n => Params[j].inv = Params[i].n /\ Params[i].h = Params[j].h /\ Params[i].l = Params[j].l

Init == chain = <<>> /\ form = Form0 /\ laws = [i \in 1..Len(Params) |-> Identity]
Step(g, k) ==
    /\ chain' = Append(chain, [g |-> g, k |-> k])
    /\ form' = Apply(form, g, k)
    /\ laws' = [i \in 1..Len(Params) |-> Law(Params[i], laws[i], g, k)]
Amount(g, l) == IF g = "height" THEN {-1, 2} ELSE IF g \in {"length", "zoom"} THEN {-2, 1} ELSE {1}
RandomAmount(g, l) == IF g = "height" THEN R({-9, -6, -3, -1, 2, 5, 10}) ELSE IF g \in {"length", "zoom"} THEN R({-9, -4, -1, 1, 3, 8}) ELSE IF g = "offset" THEN R({-3000, -20, -1, 1, 4, 250}) ELSE 1
Kinds == {"r", "w", "s", "p", "q"}
Claims(kind, lw) == [i \in 1..Len(Params) |-> [n |-> Params[i].n, partner |-> Partner(Params[i], lw[i].inv), e |-> lw[i].e, s |-> lw[i].s, o |-> lw[i].o,
                                               ok |-> Claimed(Params[i], lw[i]), kinds |-> Params[i].kinds]]
Next ==
    /\ Len(chain) < Depth
    /\ IF Mode = "all" THEN \E g \in Generators : \E k \in Amount(g, chain) : Step(g, k)
       ELSE /\ \E g \in {R(Generators)} : \E k \in {RandomAmount(g, chain)} : Step(g, k)
            /\ \E kind \in {R(Kinds)} : \E ny \in {R(9..22)} : \E nx \in {R(9..22)} : \E seed \in {R(1..1000000)} : \E sx \in {R({1, 2, 4, 8})} : \E sy \in {R({1, 2, 4, 8})} :
               PrintT("@@" \o ToJson([kind |-> kind, ny |-> ny, nx |-> nx, seed |-> seed, sx |-> sx, sy |-> sy, chain |-> chain', claims |-> Claims(kind, laws')]))
Spec == Init /\ [][Next]_vars
=============================================================================
