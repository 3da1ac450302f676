---------------------------------- MODULE SOR ----------------------------------
(* Successive over-relaxation in exact arithmetic: numbers are x / scale, all of *)
(* them dyadic because the diagonal holds 1, -1, 2 or -2 and the factor omega is *)
(* a half, one, or one and a half.  Unknowns are taken point by point or         *)
(* variable by variable in each box.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Family, Many
VARIABLES sys,          \* the system: [shape, nv, A, b, w2, tol2, itmax, sorted]; A function on pairs of unknowns; w2 = 2 omega, tol2 = 2 tol
          x, scale, it, i, ret, over
vars == <<sys, x, scale, it, i, ret, over>>
Abs(q) == IF q < 0 THEN 0 - q ELSE q
N(sh, b) == sh[b][1] * sh[b][2] * sh[b][3]
Off(sh, b) == MapThenSumSet(LAMBDA q : N(sh, q), 1..(b - 1))
Size(sh, nv) == nv * MapThenSumSet(LAMBDA q : N(sh, q), 1..Len(sh))
(* number of unknown <<box, point, variable>> in either order, from 1 *)
Num(sh, nv, sorted, u) == 1 + Off(sh, u[1]) * nv + (IF sorted THEN u[3] * N(sh, u[1]) + u[2] ELSE u[2] * nv + u[3])
Unknowns(sh, nv) == UNION {{<<b, p, v>> : p \in 0..(N(sh, b) - 1), v \in 0..(nv - 1)} : b \in 1..Len(sh)}
n == Len(sys.b)
Resid(y, sc) == [r \in 1..n |-> MapThenSumSet(LAMBDA c : sys.A[r][c] * y[c], 1..n) - sc * sys.b[r]]
Small(f, sc) == /\ \A r \in 1..n : 2 * Abs(f[r]) <= sys.tol2 * sc
                /\ 4 * MapThenSumSet(LAMBDA r : f[r] * f[r], 1..n) <= sys.tol2 * sys.tol2 * sc * sc
Evens(y, sc) == sc % 2 = 0 /\ \A r \in 1..n : y[r] % 2 = 0
RECURSIVE Short(_, _)
Short(y, sc) == IF Evens(y, sc) THEN Short([r \in 1..n |-> y[r] \div 2], sc \div 2) ELSE <<y, sc>>
Diag == {1, -1, 2, -2}
Any1(nn, S) == LET full == RandomElement({1, 2, 4}) IN [r \in 1..nn |-> [c \in 1..nn |-> IF r = c THEN RandomElement(Diag) ELSE IF RandomElement(1..4) <= full THEN RandomElement(S) ELSE 0]]
Sys(sh, nv, so, A, b, w, tl, m) == [shape |-> sh, nv |-> nv, sorted |-> so, A |-> A, b |-> b, w2 |-> w, tol2 |-> tl, itmax |-> m]
Rnd(z) == LET sh == RandomElement({<<<<1, 1, 2>>>>, <<<<2, 1, 1>>, <<1, 1, 1>>>>, <<<<1, 2, 1>>>>, <<<<1, 1, 1>>, <<2, 1, 1>>>>, <<<<1, 1, 1>>>>})  nv == RandomElement(1..2)  m == Size(sh, nv) IN
          Sys(sh, nv, RandomElement({TRUE, FALSE}), Any1(m, RandomElement({{0, 1}, {-1, 1}, {0, 1, -1, 2}})), [r \in 1..m |-> RandomElement({0, 1, -1, 2})], RandomElement({1, 2, 2, 3}), RandomElement({0, 1, 2, 4}), RandomElement({0, 1, 2, 3, 8, 20}))
Begin(c) == /\ sys' = c /\ x' = [r \in 1..Len(c.b) |-> 0] /\ scale' = 1 /\ it' = 0 /\ i' = 0 /\ over' = "look" /\ ret' = 77
Take == over = "begin" /\ IF Family = "two" THEN \E p \in Diag, q \in Diag, e \in -1..1, f \in -1..1, b \in {<<1, 0>>, <<0, 0>>, <<1, 2>>}, w \in 1..3, tl \in {0, 2}, m \in 0..3, so \in {TRUE, FALSE} : Begin(Sys(<<<<1, 1, 1>>>>, 2, so, <<<<p, e>>, <<f, q>>>>, b, w, tl, m))
                          ELSE \E z \in 1..Many : \E c \in {Rnd(z)} : Begin(c)
(* look at the residual, then at one unknown after the other *)
Look == /\ over = "look" /\ UNCHANGED <<sys, x, scale>>
        /\ IF Small(Resid(x, scale), scale) THEN ret' = it /\ over' = "over" /\ UNCHANGED <<it, i>>
           ELSE IF it = sys.itmax THEN ret' = it + 1 /\ over' = "over" /\ UNCHANGED <<it, i>>
           ELSE it' = it + 1 /\ i' = 1 /\ over' = (IF scale > 64 \/ (\E r \in 1..n : Abs(x[r]) > 20000) THEN "too long" ELSE "step") /\ UNCHANGED ret
(* x_i := (1 - w) x_i + w (b_i - sum over the others) / A_ii *)
Step == /\ over = "step" /\ UNCHANGED <<sys, it, ret>>
        /\ LET a == sys.A[i][i]
               rest == scale * sys.b[i] - MapThenSumSet(LAMBDA c : IF c = i THEN 0 ELSE sys.A[i][c] * x[c], 1..n)
               new == (2 - sys.w2) * 2 * x[i] + (IF Abs(a) = 2 THEN 1 ELSE 2) * (IF a < 0 THEN -1 ELSE 1) * sys.w2 * rest
               s == Short([[r \in 1..n |-> 4 * x[r]] EXCEPT ![i] = new], 4 * scale) IN
           x' = s[1] /\ scale' = s[2]
        /\ i' = i + 1 /\ over' = (IF i = n THEN "look" ELSE "step")
Init == sys = [b |-> <<>>] /\ x = <<>> /\ scale = 1 /\ it = 0 /\ i = 0 /\ ret = 77 /\ over = "begin"
Next == Take \/ Look \/ Step
Spec == Init /\ [][Next]_vars
Solved == over = "over" => ((ret <= sys.itmax) <=> Small(Resid(x, scale), scale))
Exact == over = "look" => scale >= 1
Emit == over = "over" => PrintT("@@" \o ToJson([sys |-> sys, x |-> x, scale |-> scale, ret |-> ret, f |-> Resid(x, scale),
          unk |-> [r \in 1..n |-> CHOOSE u \in Unknowns(sys.shape, sys.nv) : Num(sys.shape, sys.nv, sys.sorted, u) = r]]))
===============================================================================
