------------------------------ MODULE Equality ------------------------------
(* Equality and hashing of surfaces (property T06).  Heights are integers in *)
(* units of 1e-11 relative to a base height, the tolerance is 10 units.      *)
(* A state is a pair of surfaces and the last edit applied to one of them.   *)
EXTENDS Grid, Json

CONSTANTS Mode
VARIABLES a, b, n
vars == <<a, b, n>>
R(S) == RandomElement(S)

Tol == 10
Surf(g, sx, sy) == [g |-> g, sx |-> sx, sy |-> sy]
Equal(p, q) ==
    /\ p.sx = q.sx /\ p.sy = q.sy /\ SameMask(p.g, q.g)
    /\ \A i \in 1..NRows(p.g) : \A j \in 1..NCols(p.g) : p.g[i][j] # NaN => Abs(p.g[i][j] - q.g[i][j]) <= Tol
\* arithmetic is defined for surfaces of the same size and exactly the same spacing (property T05)
Combinable(p, q) == p.sx = q.sx /\ p.sy = q.sy /\ NRows(p.g) = NRows(q.g) /\ NCols(p.g) = NCols(q.g)
\* the part of a surface a hash may depend on
HashKey(p) == <<p.sx, p.sy, NRows(p.g), NCols(p.g)>>

H == {0, 4, 30, NaN}
Small == {Surf(g, s[1], s[2]) : g \in UNION {[1..s2[1] -> [1..s2[2] -> H]] : s2 \in {<<1, 2>>, <<2, 1>>}}, s \in {<<1, 1>>, <<1, 2>>, <<2, 1>>}}

\* consistency of the comparison itself
Consistent == (a # <<>> /\ b # <<>>) =>
    /\ Equal(a, a) /\ Equal(b, b)
    /\ Equal(a, b) <=> Equal(b, a)
    /\ Equal(a, b) => HashKey(a) = HashKey(b)
    /\ Equal(a, b) => Combinable(a, b)
    /\ Combinable(a, b) <=> Combinable(b, a)

RandomSurf(ny, nx) == Surf([i \in 1..ny |-> [j \in 1..nx |-> R({0, 0, 7, 48, 498, 4998, 49998, -400, 90, NaN})]], R({1, 2, 4}), R({1, 2, 4}))
\* b derived from a by one change
Changed(p, c, i, j) ==
    CASE c = 0 -> p
      [] c = 1 -> [p EXCEPT !.g[i][j] = IF @ = NaN THEN 0 ELSE NaN]
      [] c = 2 -> [p EXCEPT !.g[i][j] = IF @ = NaN THEN NaN ELSE @ + 5]
      [] c = 3 -> [p EXCEPT !.g[i][j] = IF @ = NaN THEN NaN ELSE @ - 9]
      [] c = 4 -> [p EXCEPT !.g[i][j] = IF @ = NaN THEN NaN ELSE @ + 16]
      [] c = 5 -> [p EXCEPT !.g[i][j] = IF @ = NaN THEN NaN ELSE @ - 1000]
      [] c = 6 -> [p EXCEPT !.sx = @ + 1]
      [] c = 7 -> [p EXCEPT !.sy = @ + 1]
      [] c = 8 -> [p EXCEPT !.g = SubGrid(p.g, 0, Max2(0, NRows(p.g) - 2), 0, NCols(p.g) - 1)]
      [] c = 9 -> [p EXCEPT !.g = SubGrid(p.g, 0, NRows(p.g) - 1, 0, Max2(0, NCols(p.g) - 2))]
      [] c = 10 -> [p EXCEPT !.sx = p.sy, !.sy = p.sx]
      [] c = 11 -> [p EXCEPT !.g = [y \in 1..NCols(p.g) |-> [x \in 1..NRows(p.g) |-> p.g[x][y]]]]
      [] OTHER -> [p EXCEPT !.g = Reverse(p.g)]

Init == /\ n = 0
        /\ IF Mode = "all" THEN a \in Small /\ b \in Small ELSE a = <<>> /\ b = <<>>
\* how the spacings 1, 2, ... are realised: half units, tiny or nearly equal ones; different spacings differ in any case
Emit(p, q, base, lay, space) == PrintT("@@" \o ToJson([a |-> p, b |-> q, base |-> base, lay |-> lay, space |-> space, eq |-> Equal(p, q),
    comb |-> Combinable(p, q)]))
Next ==
    /\ n = 0 /\ n' = 1
    /\ IF Mode = "all" THEN UNCHANGED <<a, b>> /\ Emit(a, b, 0, 0, IF a.sx = b.sx /\ a.sy = b.sy THEN "half" ELSE R({"half", "tiny", "near"}))
       ELSE \E ny \in {R(1..4)} : \E nx \in {R(1..5)} : \E p \in {RandomSurf(ny, nx)} : \E c \in {R(0..12)} : \E i \in {R(1..ny)} : \E j \in {R(1..nx)} :
            \E base \in {R({0, 1, 30})} : \E lay \in {R(0..4)} : \E space \in {R({"half", "half", "tiny", "near"})} :
            /\ a' = p
            /\ b' = Changed(p, c, i, j)
            /\ Emit(a', b', base, lay, space)
Spec == Init /\ [][Next]_vars
=============================================================================
