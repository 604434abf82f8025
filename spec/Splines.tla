------------------------------ MODULE Splines -------------------------------
(* Interpolation through points x (increasing), y: steps, lines, and the      *)
(* quadratic and cubic splines (knots between the points, not-a-knot ends).   *)
EXTENDS RealArith, Sequences

\* solution of a tridiagonal system: a below, b on, c above the diagonal
\* (asking for the length first has TLC evaluate the sequence so far)
RECURSIVE Down(_, _, _, _, _, _), Up(_, _, _)
Down(a, b, c, r, i, q) ==          \* q: eliminated rows <<coefficient above, right-hand side>>
    IF Len(q) # i - 1 \/ i > Len(b) THEN q
    ELSE LET p == q[i - 1]
             w == IF i = 1 THEN b[1] ELSE b[i] - a[i] * p[1]
             z == IF i = 1 THEN r[1] ELSE r[i] - a[i] * p[2]
         IN Down(a, b, c, r, i + 1, Append(q, <<c[i] / w, z / w>>))
Up(q, i, s) == IF Len(s) # Len(q) - i \/ i = 0 THEN s
               ELSE Up(q, i - 1, <<IF s = <<>> THEN q[i][2] ELSE q[i][2] - q[i][1] * s[1]>> \o s)
Tridiagonal(a, b, c, r) == Up(Down(a, b, c, r, 1, <<>>), Len(b), <<>>)

LOCAL Steps(x) == Vec([k \in 1..(Len(x) - 1) |-> x[k + 1] - x[k]])
LOCAL Slopes(x, y) == Vec([k \in 1..(Len(x) - 1) |-> (y[k + 1] - y[k]) / (x[k + 1] - x[k])])

\* cubic: the second derivatives at the points, the third continuous at the second and the last but one point
CubicMoments(x, y) ==
    LET n == Len(x)
        h == Steps(x)
        s == Slopes(x, y)
        inner == Tridiagonal(
            Vec([k \in 1..(n - 2) |-> IF k = n - 2 THEN h[k] - (h[k + 1] * h[k + 1]) / h[k] ELSE h[k]]),
            Vec([k \in 1..(n - 2) |-> 2 * (h[k] + h[k + 1])
                 + (IF k = 1 THEN (h[1] * (h[1] + h[2])) / h[2] ELSE 0)
                 + (IF k = n - 2 THEN (h[k + 1] * (h[k] + h[k + 1])) / h[k] ELSE 0)]),
            Vec([k \in 1..(n - 2) |-> IF k = 1 THEN h[2] - (h[1] * h[1]) / h[2] ELSE h[k + 1]]),
            Vec([k \in 1..(n - 2) |-> 6 * (s[k + 1] - s[k])]))
        first == ((h[1] + h[2]) * inner[1] - h[1] * inner[2]) / h[2]
        last == ((h[n - 2] + h[n - 1]) * inner[n - 2] - h[n - 1] * inner[n - 3]) / h[n - 2]
    IN <<first>> \o inner \o <<last>>
CubicAt(x, y, m, k, t) ==
    LET h == x[k + 1] - x[k]
        b == (t - x[k]) / h
        a == 1 - b
    IN a * y[k] + b * y[k + 1] + ((((a ^ 3 - a) * m[k] + (b ^ 3 - b) * m[k + 1]) * h) * h) / 6

\* quadratic: one parabola about each point but the first and the last, joined half-way between the points
QuadraticSlopes(x, y) ==           \* of points 2..n-1
    LET n == Len(x)
        h == Steps(x)
        s == Slopes(x, y)
        k(i) == i + 1              \* the point of unknown i
    IN Tridiagonal(
        Vec([i \in 1..(n - 2) |-> IF i = n - 2 THEN h[n - 1] / (2 * h[n - 2]) ELSE 1 / (2 * h[k(i) - 1])]),
        Vec([i \in 1..(n - 2) |->
             IF i = 1 THEN 1 + (3 * h[1]) / (2 * h[2])
             ELSE IF i = n - 2 THEN 1 + (3 * h[n - 1]) / (2 * h[n - 2])
             ELSE 3 / (2 * h[k(i) - 1]) + 3 / (2 * h[k(i)])]),
        Vec([i \in 1..(n - 2) |-> IF i = 1 THEN h[1] / (2 * h[2]) ELSE 1 / (2 * h[k(i)])]),
        Vec([i \in 1..(n - 2) |->
             IF i = 1 THEN s[1] + (2 * h[1] * s[2]) / h[2]
             ELSE IF i = n - 2 THEN s[n - 1] + (2 * h[n - 1] * s[n - 2]) / h[n - 2]
             ELSE (2 * s[k(i) - 1]) / h[k(i) - 1] + (2 * s[k(i)]) / h[k(i)]]))
QuadraticAt(x, y, d, k, t) ==      \* t between points k and k + 1
    LET n == Len(x)
        h == Steps(x)
        s == Slopes(x, y)
        c(j) == IF j < n - 1 THEN (4 * s[j] - 3 * d[j - 1] - d[j]) / (2 * h[j])
                ELSE (3 * d[j - 1] + d[j - 2] - 4 * s[j - 1]) / (2 * h[j - 1])
        j == IF k = 1 THEN 2 ELSE IF k = n - 1 THEN n - 1
             ELSE IF t - x[k] <= x[k + 1] - t THEN k ELSE k + 1
    IN y[j] + (t - x[j]) * (d[j - 1] + c(j) * (t - x[j]))

\* value at t, within the points
Curve(x, y, how) == IF how = "cubic" THEN CubicMoments(x, y) ELSE IF how = "quadratic" THEN QuadraticSlopes(x, y) ELSE <<>>
ValueAt(x, y, how, curve, t) ==
    LET at == SelectIdx(Vec([j \in 1..Len(x) |-> x[j] <= t]))
        k == IF Len(at) = Len(x) THEN Len(x) - 1 ELSE at[Len(at)]
        f == (t - x[k]) / (x[k + 1] - x[k])
    IN IF Eq(t, x[k]) THEN y[k] ELSE IF Eq(t, x[k + 1]) THEN y[k + 1]
       ELSE CASE how = "nearest" -> (IF f < "0.5" THEN y[k] ELSE y[k + 1])
              [] how = "zero" -> y[k]
              [] how = "cubic" -> CubicAt(x, y, curve, k, t)
              [] how = "quadratic" -> QuadraticAt(x, y, curve, k, t)
              [] OTHER -> y[k] + f * (y[k + 1] - y[k])

\* each kind reproduces what it is made of
LOCAL X == <<"-1.5", 0, "0.25", 1, 3, "3.5", 6>>
LOCAL Made(how, t) == CASE how = "cubic" -> 2 * (t ^ 3) - 5 * (t ^ 2) + t - 3 [] how = "quadratic" -> 7 - 3 * t + 2 * (t ^ 2) [] OTHER -> 4 - 3 * t
ASSUME \A how \in {"linear", "slinear", "quadratic", "cubic"} :
    LET y == Vec([k \in 1..Len(X) |-> Made(how, X[k])])
        c == Curve(X, y, how)
        q == <<"-1.5", "-1.2", 0, "0.11", "0.25", "0.6", "1.7", "2.2", "3.3", "4.6", "5.9", 6>>
    IN \A j \in 1..Len(q) : Near(ValueAt(X, y, how, c, q[j]), Made(how, q[j]), "1e-9")
=============================================================================
