---------------------------------- MODULE LU ----------------------------------
(* LU decomposition with row pivoting by scaled size, in exact arithmetic.      *)
(* The matrix is kept as integers (fraction-free elimination): after the steps  *)
(* done so far the entry in row i, column k is b[i][k]/prev.  Among rows that   *)
(* tie for the pivot any may be taken.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Family,       \* "two", "three", "random"
          Many          \* number of random matrices
VARIABLES a, x,         \* the matrix, the solution
          b, sc,        \* what is left of it, sizes of the rows
          j, prev,      \* column, last pivot
          perm, par,    \* row taken in each step, parity
          L, U,         \* factors, entries <<numerator, denominator>>
          sing, ret, over
vars == <<a, x, b, sc, j, prev, perm, par, L, U, sing, ret, over>>
Abs(k) == IF k < 0 THEN 0 - k ELSE k
Biggest(S) == CHOOSE m \in S : \A k \in S : k <= m
n == Len(a)
I == 1..n
Mats(k, V) == [1..k -> [1..k -> V]]
Given == CASE Family = "two" -> Mats(1, -2..2) \cup Mats(2, -2..2)
           [] Family = "three" -> Mats(3, -1..1)
           [] OTHER -> {<<>>}
Rnd(k) == LET m == RandomElement(1..k)  v == RandomElement({1, 2, 3, 7})  z == RandomElement({0, 3}) IN
          [r \in 1..m |-> [c \in 1..m |-> IF RandomElement(0..9) < z THEN 0 ELSE RandomElement((0 - (IF m < 5 THEN v ELSE 3))..(IF m < 5 THEN v ELSE 3))]]
Size(m, r) == Biggest({Abs(m[r][c]) : c \in 1..Len(m)})
ZeroCol(m) == {c \in 1..Len(m) : \A r \in 1..Len(m) : m[r][c] = 0}
ZeroRow(m) == {r \in 1..Len(m) : \A c \in 1..Len(m) : m[r][c] = 0}
First(S) == CHOOSE k \in S : \A l \in S : k <= l
Begin(m, y) == /\ a' = m /\ x' = y /\ b' = m /\ j' = 1 /\ prev' = 1 /\ perm' = <<>> /\ par' = 1 /\ sing' = FALSE
               /\ L' = [r \in 1..Len(m) |-> [c \in 1..Len(m) |-> IF r = c THEN <<1, 1>> ELSE <<0, 1>>]]
               /\ U' = [r \in 1..Len(m) |-> [c \in 1..Len(m) |-> <<0, 1>>]]
               /\ sc' = [r \in 1..Len(m) |-> Size(m, r)]
               /\ IF ZeroCol(m) # {} THEN ret' = First(ZeroCol(m)) /\ over' = TRUE
                  ELSE IF ZeroRow(m) # {} THEN ret' = 0 - First(ZeroRow(m)) /\ over' = TRUE
                  ELSE ret' = 0 /\ over' = FALSE
Init == /\ a = <<>> /\ x = <<>> /\ b = <<>> /\ sc = <<>> /\ j = 0 /\ prev = 1 /\ perm = <<>> /\ par = 1 /\ L = <<>> /\ U = <<>>
        /\ sing = FALSE /\ ret = 0 /\ over = FALSE
Sol(m) == [r \in 1..Len(m) |-> ((r * r) % 5) - 2]
Take == j = 0 /\ ~over /\ IF Family = "random" THEN \E k \in 1..Many : \E m \in {Rnd(5 + 0 * k)} : Begin(m, Sol(m))
                          ELSE \E m \in Given : Begin(m, Sol(m))
Swapped(s, r) == [s EXCEPT ![j] = s[r], ![r] = s[j]]
Best(r) == \A k \in j..n : Abs(b[r][j]) * sc[k] >= Abs(b[k][j]) * sc[r]
Step == /\ j > 0 /\ ~over /\ j <= n
        /\ \E r \in j..n : /\ Best(r)
           /\ LET bb == Swapped(b, r)  ll == [k \in I |-> IF k = j THEN [c \in I |-> IF c < j THEN L[r][c] ELSE L[j][c]]
                                                         ELSE IF k = r THEN [c \in I |-> IF c < j THEN L[j][c] ELSE L[r][c]] ELSE L[k]]
                  p == bb[j][j] IN
              /\ perm' = Append(perm, r - 1) /\ par' = (IF r = j THEN par ELSE 0 - par)
              /\ sc' = Swapped(sc, r)
              /\ U' = [U EXCEPT ![j] = [c \in I |-> IF c < j THEN <<0, 1>> ELSE <<bb[j][c], prev>>]]
              /\ IF p = 0 THEN /\ sing' = TRUE /\ L' = ll /\ b' = bb /\ prev' = prev
                 ELSE /\ sing' = sing /\ prev' = p
                      /\ L' = [k \in I |-> IF k <= j THEN ll[k] ELSE [ll[k] EXCEPT ![j] = <<bb[k][j], p>>]]
                      /\ b' = [k \in I |-> IF k <= j THEN bb[k] ELSE [c \in I |-> IF c < j THEN bb[k][c] ELSE (p * bb[k][c] - bb[k][j] * bb[j][c]) \div prev]]
        /\ j' = j + 1 /\ over' = (j = n) /\ UNCHANGED <<a, x, ret>>
Next == Take \/ Step
Spec == Init /\ [][Next]_vars
(* ---- what holds *)
Sum(f, m) == LET F[k \in 0..m] == IF k = 0 THEN 0 ELSE F[k-1] + f[k] IN F[m]
RowsOf == LET F[k \in 0..Len(perm)] == IF k = 0 THEN [r \in I |-> r] ELSE LET s == F[k-1] IN [s EXCEPT ![k] = s[perm[k] + 1], ![perm[k] + 1] = s[k]] IN F[Len(perm)]
Det == IF sing THEN 0 ELSE par * prev
(* L U = P A: row by row, with the common denominator of the products *)
Factors == (over /\ ret = 0 /\ Family # "random") => \A r \in I, c \in I :
     LET t == [k \in I |-> IF L[r][k][1] = 0 \/ U[k][c][1] = 0 THEN <<0, 1>> ELSE <<L[r][k][1] * U[k][c][1], L[r][k][2] * U[k][c][2]>>]
         F[k \in 0..n] == IF k = 0 THEN <<0, 1>> ELSE <<F[k-1][1] * t[k][2] + t[k][1] * F[k-1][2], F[k-1][2] * t[k][2]>> IN
     F[n][1] = a[RowsOf[r]][c] * F[n][2]
Small == (over /\ ret = 0) => \A r \in I, c \in I : c < r => Abs(L[r][c][1]) * sc[c] <= Abs(L[r][c][2]) * sc[r]      \* the pivot is the largest
Det3 == (over /\ ret = 0 /\ Len(a) = 3) => Det = a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1]) + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])
Rhs == [r \in I |-> Sum([c \in I |-> a[r][c] * x[c]], n)]
Emit == over => PrintT("@@" \o ToJson([a |-> a, x |-> x, rhs |-> Rhs, ret |-> ret, sing |-> sing, perm |-> perm, par |-> par, det |-> Det, L |-> L, U |-> U]))
===============================================================================
