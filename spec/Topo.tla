-------------------------------- MODULE Topo --------------------------------
(* State machine of a set of live topography objects at the level of        *)
(* shapes, and the generator of the programs that are run on the            *)
(* implementation.  One action per public operation.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Focus,      \* multiset of operation names (a sequence), more entries = more often
          MaxObj, MaxLen

VARIABLES objs, prog, done
vars == <<objs, prog, done>>

Call(op, h, h2, inp, a) == [op |-> op, h |-> h, h2 |-> h2, inp |-> inp, a |-> a]
R(S) == RandomElement(S)
NaNv == 2000000000
Heights == {-7000, -2500, -1000, 0, 500, 1000, 3000, 8000, 12000}

Surf(ny, nx) == [k |-> "S", ny |-> ny, nx |-> nx]
Prof(n) == [k |-> "P", ny |-> 1, nx |-> n]

NewArgs(x) == <<R(3..7), R(3..8), R({250, 500, 1000, 2000}), R({250, 500, 1000, 2000}), R(1..100000), R(0..6), R({0, 0, 0, 1, 2, 3})>>
\* rows, columns, spacing x, y, grid seed, style, number of non-measured points

IsS(o) == o.k = "S"
InPlaceOps == {"zero", "center", "invert", "threshold", "outmean", "outmedian", "fill", "filllinear", "fillcubic",
               "level", "detrend", "lowpass", "highpass", "bandpass", "cropx", "cropu", "zoom", "rotate", "shlevel", "align"}
EditOps == {"setpt", "setrow", "setabove", "setall", "assign", "assignfrom"}
\* a box <<x0, x1, y0, y1, code>> inside the object (order of the bounds and, for code 1..4, the side that is moved
\* outside are fixed by the driver)
Box(o) == <<R(0..(o.nx - 1)), R(0..(o.nx - 1)), R(0..(o.ny - 1)), R(0..(o.ny - 1)), R(0..9)>>
\* operations of one object
Args(op, o) ==
    CASE op = "threshold" -> R({<<13, 13>>, <<7, 29>>, <<0, 37>>, <<37, 0>>, <<0, 0>>, <<3, 3>>, <<49, 47>>, <<60, 40>>, <<70, 53>>})
      [] op \in {"outmean", "outmedian"} -> <<R({1, 2, 3, 4, 6})>>
      [] op = "detrend" -> <<R(1..3)>>
      [] op \in {"lowpass", "highpass"} -> <<R({1500, 3000, 5000}), R(0..4)>>
      [] op = "bandpass" -> R({<<1500, 4000, 0>>, <<2000, 6000, 1>>, <<3000, 3000, 0>>, <<4000, 2000, 0>>})
      [] op = "filterbad" -> <<R(0..2)>>
      [] op = "cropx" -> Box(o)
      [] op = "cropu" -> Box(o) \o <<R({-1, 0, 1}), R({-1, 0, 1})>>
      [] op = "zoom" -> <<R({10, 10, 15, 20, 30, 12, 5, 9})>>
      [] op = "rotate" -> <<R({0, 30, 45, 90, -20, 180})>>
      [] op = "align" -> <<R(0..1), R(0..1)>>
      [] op = "slice" -> LET A(n) == R({<<0, n, 1>>, <<R(0..(n - 1)), n, R(1..2)>>, <<0, R(1..n), R(1..3)>>, <<n - 1, -1, -1>>, <<n - 1, -1, -2>>})
                         IN  A(o.ny) \o A(o.nx)
      [] op = "slice1" -> R({<<0, o.ny, 1>>, <<R(0..(o.ny - 1)), o.ny, 1>>, <<0, o.ny, 2>>, <<o.ny - 1, -1, -1>>})
      [] op = "setpt" -> <<R(0..(o.ny - 1)), R(0..(o.nx - 1)), R(Heights \cup {NaNv})>>
      [] op = "setrow" -> <<R(0..(o.ny - 1)), R(Heights)>>
      [] op = "setabove" -> <<R(Heights), R(Heights \cup {NaNv})>>
      [] op = "setall" -> <<R(Heights)>>
      [] op = "assign" -> <<R(2..6), R(3..7), R(1..100000), R(0..6), R({0, 0, 1, 2})>>
      [] op \in {"adds", "subs", "rsubs"} -> <<R(Heights)>>
      [] op = "muls" -> <<R({-1000, 2000, 500, 3000})>>
      [] op = "divs" -> <<R({2000, -1000, 4000})>>
      [] op = "hprof" -> <<R(0..(o.ny - 1))>>
      [] op = "vprof" -> <<R(0..(o.nx - 1))>>
      [] op = "read" -> <<R(0..5)>>
      [] OTHER -> <<>>

SurfaceOnly == {"rotate", "shlevel", "align", "slice", "slice1", "adds", "subs", "rsubs", "muls", "divs", "hprof", "vprof",
                "addS", "subS", "mulS", "mutdict"}
TwoOperand == {"addS", "subS", "mulS", "assignfrom"}
Copying == {"slice", "slice1", "adds", "subs", "rsubs", "muls", "divs", "hprof", "vprof", "addS", "subS", "mulS", "both", "leveltrend"}

\* The shape after an operation is only a guide for choosing sensible arguments: data dependent results keep the shape
\* of the operand here and the driver repairs arguments against the real shape.
Step(op) ==
    /\ Len(prog) >= 1 /\ Len(prog) < MaxLen
    /\ \E h \in {R(1..Len(objs))} : \E h2 \in {R(1..Len(objs))} :
       \E inp \in {IF op \in InPlaceOps THEN (IF Len(objs) >= MaxObj THEN TRUE ELSE R(BOOLEAN)) ELSE FALSE} :
       \E args \in {Args(op, objs[h])} :
           LET o == objs[h] IN
           /\ (op \in SurfaceOnly => IsS(o))
           /\ (op \in Copying => Len(objs) < MaxObj)
           /\ prog' = Append(prog, Call(op, h, IF op \in TwoOperand THEN h2 ELSE 0, inp, args))
           /\ objs' = IF (op \in InPlaceOps /\ ~inp) \/ op \in Copying
                      THEN Append(objs, IF op = "hprof" THEN Prof(o.nx) ELSE IF op = "vprof" THEN Prof(o.ny) ELSE o)
                      ELSE objs
           /\ UNCHANGED done

New == /\ Len(prog) = 0
       /\ \E a \in {NewArgs(prog)} : \E p \in {R(1..4)} :
          /\ prog' = <<Call(IF p = 1 THEN "newP" ELSE "new", 0, 0, FALSE, a)>>
          /\ objs' = <<IF p = 1 THEN Prof(a[1] * a[2]) ELSE Surf(a[1], a[2])>>
       /\ UNCHANGED done

Finish == /\ ~done
          /\ Len(prog) >= MaxLen
          /\ done' = TRUE
          /\ PrintT("@@" \o ToJson(prog))
          /\ UNCHANGED <<objs, prog>>

Init == objs = <<>> /\ prog = <<>> /\ done = FALSE
Next == New \/ Finish \/ (~done /\ \E i \in 1..Len(Focus) : Step(Focus[i]))
Spec == Init /\ [][Next]_vars
=============================================================================
