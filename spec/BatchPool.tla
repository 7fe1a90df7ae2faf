------------------------------- MODULE BatchPool -------------------------------
(* Design of the execution of a batch (property B02): a pool of workers takes    *)
(* the files one after the other, every worker reads its file, applies the       *)
(* steps and hands its row to the collector, which appends it and calls back.    *)
(* Heights are affine in this model: a file has the value Base(f), an operation  *)
(* maps v to 2v + 1, so every order of steps has its own result.                 *)
(* Bugs are wrong designs that TLC has to refute.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NFiles, NWorkers, Steps, Shared, Bugs, Record
VARIABLES queue, worker, lock, pos, cell, rows, calls, hist
vars == <<queue, worker, lock, pos, cell, rows, calls, hist>>

Files == 1..NFiles
Workers == 1..NWorkers
Base(f) == 10 * f
\* the name of a file: the last two have the same name
Name(f) == IF f = NFiles /\ NFiles > 1 THEN NFiles - 1 ELSE f
\* files that share one file object
Object(f) == IF f \in Shared THEN 0 ELSE f
Idle == [file |-> 0, pc |-> 0, v |-> 0, row |-> <<>>, state |-> "idle"]
Init == /\ queue = [i \in 1..NFiles |-> i]
        /\ worker = [w \in Workers |-> Idle]
        /\ lock = 0 /\ pos = [o \in 0..NFiles |-> 0] /\ cell = [s \in 0..Len(Steps) |-> 0] /\ rows = <<>> /\ calls = <<>> /\ hist = <<>>

Note(f) == hist' = IF Record THEN Append(hist, f) ELSE hist
Take(w) == /\ worker[w].state = "idle" /\ queue # <<>>
           /\ (Record => Head(queue) = w)
           /\ worker' = [worker EXCEPT ![w] = [Idle EXCEPT !.file = Head(queue), !.state = "open"]]
           /\ queue' = Tail(queue) /\ UNCHANGED <<lock, pos, cell, rows, calls, hist>>
\* reading: the position of the file object is moved to its end in two steps and restored
Open(w) == LET f == worker[w].file IN
    /\ worker[w].state = "open"
    /\ (f \in Shared /\ "nolock" \notin Bugs) => lock = 0
    /\ lock' = IF f \in Shared /\ "nolock" \notin Bugs THEN w ELSE lock
    /\ pos' = [pos EXCEPT ![Object(f)] = @ + 1]
    \* a file object that somebody else has moved gives something else
    /\ worker' = [worker EXCEPT ![w].state = "read", ![w].v = IF pos[Object(f)] = 0 THEN Base(f) ELSE -1]
    /\ UNCHANGED <<queue, cell, rows, calls, hist>>
Read(w) == LET f == worker[w].file IN
    /\ worker[w].state = "read"
    /\ pos' = [pos EXCEPT ![Object(f)] = 0]
    /\ lock' = IF lock = w THEN 0 ELSE lock
    /\ worker' = [worker EXCEPT ![w].state = "steps", ![w].pc = 1, ![w].v = IF pos[Object(f)] = 1 THEN @ ELSE -1]
    /\ Note(f) /\ UNCHANGED <<queue, cell, rows, calls>>
\* a step: operations change the value, parameters are calculated ("call") and recorded ("keep")
Value(w) == IF "sharedsurface" \in Bugs THEN cell[0] ELSE worker[w].v
Do(w) == LET s == worker[w].pc f == worker[w].file IN
    /\ worker[w].state = "steps" /\ s <= Len(Steps)
    /\ CASE Steps[s] = "op" -> /\ worker' = [worker EXCEPT ![w].v = 2 * @ + 1, ![w].pc = @ + 1]
                               /\ cell' = [cell EXCEPT ![0] = 2 * worker[w].v + 1]
         [] Steps[s] = "call" -> /\ cell' = [cell EXCEPT ![s] = worker[w].v]
                                 /\ worker' = [worker EXCEPT ![w].pc = @ + 1, ![w].row = Append(@, Value(w))]
         [] Steps[s] = "keep" -> /\ worker' = [worker EXCEPT ![w].pc = @ + 1, ![w].row = IF "stepstate" \in Bugs THEN [@ EXCEPT ![Len(@)] = cell[s - 1]] ELSE @]
                                 /\ cell' = cell
    /\ Note(f) /\ UNCHANGED <<queue, lock, pos, rows, calls>>
Row(w) == [file |-> Name(worker[w].file), v |-> worker[w].row]
Hand(w) == /\ worker[w].state = "steps" /\ worker[w].pc > Len(Steps)
           /\ worker' = [worker EXCEPT ![w] = Idle]
           /\ rows' = IF "byname" \in Bugs /\ \E i \in 1..Len(rows) : rows[i].file = Name(worker[w].file)
                      THEN [i \in 1..Len(rows) |-> IF rows[i].file = Name(worker[w].file) THEN Row(w) ELSE rows[i]] ELSE Append(rows, Row(w))
           /\ calls' = IF "lastrow" \in Bugs THEN Append(calls, rows'[1]) ELSE Append(calls, Row(w))
           /\ UNCHANGED <<queue, lock, pos, cell, hist>>
Done == queue = <<>> /\ \A w \in Workers : worker[w].state = "idle"
Next == (\E w \in Workers : Take(w) \/ Open(w) \/ Read(w) \/ Do(w) \/ Hand(w))
        \/ (Done /\ UNCHANGED vars /\ (Record => PrintT("@@" \o ToJson([order |-> hist, rows |-> rows]))))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* what a file alone gives
RECURSIVE Alone(_, _, _)
Alone(v, s, row) == IF s > Len(Steps) THEN row
                    ELSE IF Steps[s] = "op" THEN Alone(2 * v + 1, s + 1, row)
                    ELSE IF Steps[s] = "call" THEN Alone(v, s + 1, Append(row, v)) ELSE Alone(v, s + 1, row)
Own(f) == [file |-> Name(f), v |-> Alone(Base(f), 1, <<>>)]
Occurs(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
AsAlone(s) == \A f \in Files : Occurs(s, Own(f)) <= Cardinality({g \in Files : Own(g) = Own(f)})
NothingElse(s) == \A i \in 1..Len(s) : \E f \in Files : s[i] = Own(f)
RowsAreOwn == NothingElse(rows) /\ AsAlone(rows)
CallsAreOwn == NothingElse(calls) /\ AsAlone(calls)
Complete == Done => Len(rows) = NFiles /\ Len(calls) = NFiles
Terminates == <>Done
=============================================================================
