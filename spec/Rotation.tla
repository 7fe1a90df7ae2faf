------------------------------- MODULE Rotation -------------------------------
(* Rotation of a surface (property T09): the height that was found at a point *)
(* is found at the point turned counterclockwise about the centre, x to the   *)
(* right and y upwards, both counted in points; the result is the largest     *)
(* rectangle of the same aspect ratio inside of the turned surface.  The angle *)
(* is t tenths of a degree and e billionths, which turn nothing visibly.       *)
EXTENDS Terms, TLC, Json

VARIABLES done
R(S) == RandomElement(S)
Min(a, b) == [op |-> "min", a |-> a, b |-> b]
Abs(a) == [op |-> "abs", a |-> a]
X == [op |-> "var", n |-> "x"]
Y == [op |-> "var", n |-> "y"]
Eq(n, a, b, tol) == [n |-> n, rel |-> "eq", a |-> a, b |-> b, tol |-> tol]
Obs(f) == [op |-> "call", f |-> f, a |-> <<>>]

\* the height at a point of the original: two waves of at least w points length
Wave(x, y, w) == Plus(Cos(Plus(Over(Times(I(360), x), I(w)), I(40))), Sin(Plus(Over(Times(I(360), Plus(Times(I(2), y), x)), I(3 * w)), I(10))))
\* where the point (x, y) of the result comes from
FromX(a, x, y) == Plus(Times(Cos(a), x), Times(Sin(a), y))
FromY(a, x, y) == Minus(Times(Cos(a), y), Times(Sin(a), x))

\* width of the largest rectangle of aspect ratio N / M in a rectangle of M x N that is turned by a
Width(N, M, a) ==
    LET c == Abs(Cos(a)) s == Abs(Sin(a)) r == Q(N, M) IN
    Min(Over(I(M), Plus(c, Times(r, s))), Over(I(N), Plus(s, Times(r, c))))

\* turning back gives the point itself, the whole surface fits without rotation: the laws the definitions obey
Laws(a) ==
    <<Eq("law", FromX(a, FromX(Minus(I(0), a), I(3), I(5)), FromY(Minus(I(0), a), I(3), I(5))), I(3), Q(1, 1000000)),
      Eq("law", FromY(a, FromX(Minus(I(0), a), I(3), I(5)), FromY(Minus(I(0), a), I(3), I(5))), I(5), Q(1, 1000000)),
      Eq("law", Width(7, 9, I(0)), I(9), Q(1, 1000000))>>

Turn(l) == IF l THEN 0 ELSE R({R({0, 900, 1800, 2700, -900, 3600, -1800}), R({300, 450, -200, 600, 1350}), R(-3600..3600), R(-60..60), 1800 + R(-50..50), 900 + R(-50..50)})
Case(l) ==
    l = FALSE /\
    \E M \in {R(10..90)} : \E N \in {R(10..90)} : \E t \in {Turn(l)} : \E sx \in {R({1, 2, 4, 40})} : \E sy \in {IF R(1..3) > 1 THEN sx ELSE R({1, 2, 4})} :
    \E w \in {R(24..60)} : \E e \in {R({0, 0, 0, 0, 1, -1, 20, -300})} :
    LET a == Q(t, 10)
        right == t % 1800 = 0 /\ e = 0 square == t % 900 = 0 /\ e = 0 IN
    (3 * M >= N /\ 3 * N >= M) =>
    PrintT("@@" \o ToJson([N |-> N, M |-> M, t |-> t, e |-> e, sx |-> sx, sy |-> sy, w |-> w, off |-> R({0, 0, 5, -40}), amp |-> R({1, 8, 300}),
        z |-> Wave(X, Y, w), rotated |-> Wave(FromX(a, X, Y), FromY(a, X, Y), w),
        claims |-> Laws(a) \o
          <<Eq("columns", Obs("columns"), Minus(Width(N, M, a), Q(3, 2)), Q(27, 10)),
            Eq("rows", Obs("rows"), Minus(Over(Times(Width(N, M, a), I(N)), I(M)), Q(3, 2)), Q(27, 10))>>
          \o (IF sx = sy \/ right THEN <<Eq("step_x", Obs("step_x"), Q(sx, 4), Q(1, 1000000)), Eq("step_y", Obs("step_y"), Q(sy, 4), Q(1, 1000000))>>
              ELSE IF square THEN <<Eq("step_x", Obs("step_x"), Q(sy, 4), Q(1, 1000000)), Eq("step_y", Obs("step_y"), Q(sx, 4), Q(1, 1000000))>>
              ELSE <<>>)]))
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ Case(done)
Spec == Init /\ [][Next]_done
=============================================================================
