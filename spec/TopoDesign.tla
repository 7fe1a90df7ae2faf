----------------------------- MODULE TopoDesign -----------------------------
(* Design of the topography objects (properties T01 and T02): objects refer   *)
(* to heights in a heap and remember results; clients hold handles of objects *)
(* and expect that each of them is a topography of its own and that a result  *)
(* is the one of the current heights.  Values stand for contents of heights,  *)
(* every change makes a new one.  Bugs are wrong designs that TLC refutes.    *)
(* The behaviours are replayed on the implementation.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, MaxHandles, Bugs, Emit, Sim

VARIABLES heap,      \* contents of every block of heights
          objs,      \* block, remembered results per key (0: none), the object that a remembered operation gave (0: none), remembered analysis (0: none)
          anas,      \* analyses (curve, transform): block and remembered results
          held,      \* analyses that the client holds, with the heights they describe
          handles,   \* objects that the client holds
          want,      \* what the client expects the heights of every handle to be
          last,      \* the last result and the one expected
          hist
vars == <<heap, objs, anas, held, handles, want, last, hist>>

Keys == {1, 2}                        \* one parameter with two different arguments
Result(v, k) == 10 * v + k
Fresh == Len(heap) + 1                \* contents are numbered like the blocks they are created in, edits add 100 per edit
NoResults == [k \in Keys |-> 0]
Object(b) == [buf |-> b, memo |-> NoResults, given |-> 0, ana |-> 0]
Heights(h) == heap[objs[handles[h]].buf]
NewValue == 1000 * Len(hist) + Len(heap) + 1
Quiet == [got |-> 0, due |-> 0]
Log(op, h, k) == hist' = Append(hist, [op |-> op, h |-> h, k |-> k])

Init == heap = <<1>> /\ objs = <<Object(1)>> /\ anas = <<>> /\ held = <<>> /\ handles = <<1>> /\ want = <<1>> /\ last = Quiet /\ hist = <<>>

Read(h, k) ==
    LET o == handles[h] key == IF "keyless" \in Bugs THEN 1 ELSE k
        v == IF objs[o].memo[key] # 0 THEN objs[o].memo[key] ELSE Result(Heights(h), k) IN
    /\ objs' = [objs EXCEPT ![o].memo[key] = v]
    /\ last' = [got |-> v, due |-> Result(want[h], k)]
    /\ UNCHANGED <<heap, handles, want, anas, held>> /\ Log("read", h, k)
\* the client changes the result it got
Spoil(h) ==
    LET o == handles[h] v == IF objs[o].memo[1] # 0 THEN objs[o].memo[1] ELSE Result(Heights(h), 1) IN
    /\ objs' = [objs EXCEPT ![o].memo[1] = IF "exposed" \in Bugs THEN -1 ELSE v]
    /\ anas' = [a \in DOMAIN anas |-> IF a = objs[o].ana /\ "exposed" \in Bugs THEN [anas[a] EXCEPT !.memo[1] = -1] ELSE anas[a]]
    /\ last' = Quiet /\ UNCHANGED <<heap, handles, want, held>> /\ Log("spoil", h, 0)
\* an analysis of the topography: it describes the topography as it is, whatever becomes of that later. It is evaluated
\* when it is asked, so it needs heights of its own
Analyse(h) ==
    LET o == handles[h] IN
    /\ IF objs[o].ana # 0 THEN UNCHANGED <<heap, anas, objs>> /\ held' = Append(held, [ana |-> objs[o].ana, due |-> want[h]])
       ELSE /\ heap' = IF "live" \in Bugs THEN heap ELSE Append(heap, Heights(h))
            /\ anas' = Append(anas, [buf |-> IF "live" \in Bugs THEN objs[o].buf ELSE Len(heap) + 1, memo |-> NoResults])
            /\ objs' = [objs EXCEPT ![o].ana = Len(anas) + 1]
            /\ held' = Append(held, [ana |-> Len(anas) + 1, due |-> want[h]])
    /\ last' = Quiet /\ UNCHANGED <<handles, want>> /\ Log("analyse", h, 0)
Ask(a, k) ==
    LET n == held[a].ana
        v == IF anas[n].memo[k] # 0 THEN anas[n].memo[k] ELSE Result(heap[anas[n].buf], k) IN
    /\ anas' = [anas EXCEPT ![n].memo[k] = v]
    /\ last' = [got |-> v, due |-> Result(held[a].due, k)]
    /\ UNCHANGED <<heap, objs, held, handles, want>> /\ Log("ask", a, k)
\* assignment to points of the heights
Edit(h) ==
    LET o == handles[h] IN
    /\ heap' = [heap EXCEPT ![objs[o].buf] = NewValue]
    /\ objs' = IF "editkeeps" \in Bugs THEN objs ELSE [objs EXCEPT ![o].memo = NoResults, ![o].given = 0, ![o].ana = IF "kept" \in Bugs THEN @ ELSE 0]
    /\ want' = [want EXCEPT ![h] = NewValue]
    /\ last' = Quiet /\ UNCHANGED <<handles, anas, held>> /\ Log("edit", h, 0)
\* an operation in place
Inplace(h) ==
    LET o == handles[h] IN
    /\ heap' = Append(heap, NewValue)
    /\ objs' = [objs EXCEPT ![o] = IF "inplacekeeps" \in Bugs THEN [@ EXCEPT !.buf = Len(heap) + 1] ELSE Object(Len(heap) + 1)]
    /\ want' = [want EXCEPT ![h] = NewValue]
    /\ last' = Quiet /\ UNCHANGED <<handles, anas, held>> /\ Log("inplace", h, 0)
NewObject(b, v) == objs' = Append(objs, Object(b)) /\ handles' = Append(handles, Len(objs) + 1) /\ want' = Append(want, v) /\ last' = Quiet
\* the copying form of an operation; a design that remembers the object gives the same one again
Copying(h) ==
    LET o == handles[h] IN
    IF "cachedop" \in Bugs /\ objs[o].given # 0 THEN
        /\ handles' = Append(handles, objs[o].given) /\ want' = Append(want, Heights(h) + 500) /\ last' = Quiet
        /\ UNCHANGED <<heap, objs, anas, held>> /\ Log("copying", h, 0)
    ELSE
        /\ heap' = Append(heap, Heights(h) + 500)
        /\ objs' = [Append(objs, [Object(Len(heap) + 1) EXCEPT !.memo = IF "carry" \in Bugs THEN objs[o].memo ELSE NoResults]) EXCEPT ![o].given = Len(objs) + 1]
        /\ handles' = Append(handles, Len(objs) + 1) /\ want' = Append(want, Heights(h) + 500) /\ last' = Quiet
        /\ UNCHANGED <<anas, held>> /\ Log("copying", h, 0)
\* a part of the topography
Part(h) ==
    /\ IF "view" \in Bugs THEN heap' = heap /\ NewObject(objs[handles[h]].buf, want[h])
       ELSE heap' = Append(heap, Heights(h)) /\ NewObject(Len(heap) + 1, want[h])
    /\ UNCHANGED <<anas, held>> /\ Log("part", h, 0)
\* a copying operation that has nothing to do
Idle(h) ==
    /\ IF "self" \in Bugs THEN heap' = heap /\ objs' = objs /\ handles' = Append(handles, handles[h]) /\ want' = Append(want, want[h]) /\ last' = Quiet
       ELSE heap' = Append(heap, Heights(h)) /\ NewObject(Len(heap) + 1, want[h])
    /\ UNCHANGED <<anas, held>> /\ Log("idle", h, 0)
\* the heights of one object become those of another one
Assign(h, g) ==
    LET o == handles[h] IN
    /\ heap' = IF "alias" \in Bugs THEN heap ELSE Append(heap, Heights(g))
    /\ objs' = [objs EXCEPT ![o] = Object(IF "alias" \in Bugs THEN objs[handles[g]].buf ELSE Len(heap) + 1)]
    /\ want' = [want EXCEPT ![h] = want[g]]
    /\ last' = Quiet /\ UNCHANGED <<handles, anas, held>> /\ Log("assign", h, g)

More == Len(handles) < MaxHandles
Step == /\ Len(hist) < Depth
        /\ \E h \in (IF Sim THEN {RandomElement(1..Len(handles))} ELSE 1..Len(handles)) :
              \/ \E k \in Keys : Read(h, k)
              \/ Spoil(h) \/ Edit(h) \/ Inplace(h)
              \/ Len(held) < 2 /\ Analyse(h)
              \/ held # <<>> /\ \E a \in (IF Sim THEN {RandomElement(1..Len(held))} ELSE 1..Len(held)) : \E k \in Keys : Ask(a, k)
              \/ More /\ (Copying(h) \/ Part(h) \/ Idle(h))
              \/ \E g \in 1..Len(handles) : g # h /\ Assign(h, g)
Done == Emit /\ Len(hist) = Depth /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

Current == last.got = last.due
Isolated == \A h \in 1..Len(handles) : Heights(h) = want[h]
=============================================================================
