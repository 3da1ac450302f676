--------------------------------- MODULE Sparse ---------------------------------
(* Sparse vectors and matrices: vectors as finite maps kept in the order of      *)
(* insertion; matrices read off a linear operator on a grid, column by column,   *)
(* by several threads that each own a copy of the grid; products; conversion to  *)
(* compressed columns; solution of the system.                                   *)
(* A grid is a sequence of boxes with <<n1,n2,n3>> points, an unknown is         *)
(* <<box, point, variable>>, an operator a set of <<row, column, coefficient>>,  *)
(* its entries are multiplied by coefficient fields c (at the row's point) and d *)
(* (at the column's point).                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Family,       \* "vec", "threads", "build", "solve", "random", "dense", "system"
          Many
VARIABLES rows,         \* sequence of sequences of <<position, value>>
          shape, nv, op, c, d,
          how, sub, drop, thr,      \* builder or solver, subbox, threshold, number of threads
          wait, busy,   \* columns not begun, thread -> <<column, lines to look at>>
          x, ret, phase
vars == <<rows, shape, nv, op, c, d, how, sub, drop, thr, wait, busy, x, ret, phase>>
Abs(k) == IF k < 0 THEN 0 - k ELSE k
SumOf(S, f(_)) == MapThenSumSet(f, S)
SumTo(m, f(_)) == LET F[k \in 0..m] == IF k = 0 THEN 0 ELSE F[k-1] + f(k) IN F[m]
(* ---- sparse vectors *)
Pos(v) == {v[k][1] : k \in 1..Len(v)}
Get(v, p) == IF p \in Pos(v) THEN v[CHOOSE k \in 1..Len(v) : v[k][1] = p][2] ELSE 0
Times(A, y) == [r \in 1..Len(A) |-> SumTo(Len(A[r]), LAMBDA k : A[r][k][2] * y[A[r][k][1] + 1])]
Left(A, y, m) == [q \in 1..m |-> SumTo(Len(A), LAMBDA r : y[r] * Get(A[r], q - 1))]
(* ---- grids *)
N(b) == shape[b][1] * shape[b][2] * shape[b][3]
Off(b) == SumTo(b - 1, N)
Unknowns == UNION {{<<b, p, v>> : p \in 0..(N(b) - 1), v \in 0..(nv - 1)} : b \in 1..Len(shape)}
Size == Cardinality(Unknowns)
Cut(n, k, m) == ((n * k) \div m)..((n * (k + 1)) \div m - 1)
(* sub: <<variable, box, subbox i,j,k, number of subboxes in each direction>> *)
InSub(u) == /\ u[1] = sub[2] /\ u[3] = sub[1]
            /\ LET s == shape[u[1]] IN /\ (u[2] % s[1]) \in Cut(s[1], sub[3], sub[6])
                                       /\ ((u[2] \div s[1]) % s[2]) \in Cut(s[2], sub[4], sub[7])
                                       /\ (u[2] \div (s[1] * s[2])) \in Cut(s[3], sub[5], sub[8])
Chosen == CASE how \in {"cols_one"} -> {u \in Unknowns : u[1] = sub[2] /\ u[3] = sub[1]}
            [] how \in {"cols_sub"} -> {u \in Unknowns : InSub(u)}
            [] OTHER -> Unknowns
Sorted == how \in {"lines_sorted", "cols_sorted", "di_lines_sorted", "di_cols_sorted"}
ByLines == how \in {"lines", "lines_sorted"}
(* number of an unknown, from 0 *)
Num(u) == CASE how = "cols_one" -> u[2]
            [] how = "cols_sub" -> Cardinality({w \in Chosen : w[2] < u[2]})
            [] Sorted -> Off(u[1]) * nv + u[3] * N(u[1]) + u[2]
            [] OTHER -> Off(u[1]) * nv + u[2] * nv + u[3]
Entry(t) == t[3] * c[t[1][1]][t[1][2] + 1] * d[t[2][1]][t[2][2] + 1]
Kept == {t \in op : t[1] \in Chosen /\ t[2] \in Chosen /\ Abs(Entry(t)) > drop}
Mat == {<<Num(t[1]), Num(t[2]), Entry(t)>> : t \in Kept}          \* <<line, column, value>>
(* the result of applying the operator to y, a function on the unknowns *)
Apply(M, y, l) == SumOf({t \in M : t[1] = l}, LAMBDA t : t[3] * y[t[2] + 1])
Stored == UNION {{IF ByLines THEN <<r - 1, rows[r][k][1], rows[r][k][2]>> ELSE <<rows[r][k][1], r - 1, rows[r][k][2]>> : k \in 1..Len(rows[r])} : r \in 1..Len(rows)}
(* compressed columns: lines of each column in ascending order *)
Column(S, q) == SortSeq(SetToSeq({t \in S : t[2] = q}), LAMBDA s, t : s[1] < t[1])
Packed(S, m) == LET F[k \in 0..m] == IF k = 0 THEN <<>> ELSE F[k-1] \o Column(S, k - 1) IN F[m]
Starts(S, m) == [k \in 1..(m + 1) |-> Cardinality({t \in S : t[2] < k - 1})]
(* ---- vocabularies *)
Builders == {"lines", "lines_sorted", "cols", "cols_sorted", "cols_one", "cols_sub"}
Solvers == {"lapack", "di_lines", "di_cols", "di_lines_sorted", "di_cols_sorted", "di_packed", "dl_cols", "dl_packed", "dl_arrays", "dl_numeric", "spqr_cols", "spqr_arrays"}
Tiny == {<<<< <<2,1,1>> >>, 1>>, <<<< <<1,1,1>>, <<1,1,1>> >>, 1>>, <<<< <<1,1,1>> >>, 2>>}
Rnd(S, k) == RandomElement({s \in S : k = k})
Shapes == {<<a, b, e>> : a \in 1..4, b \in 1..3, e \in 1..2}
RndShape(k) == [b \in 1..Rnd(1..3, k) |-> Rnd({s \in Shapes : s[1] * s[2] * s[3] <= 6}, k)]
All(sh, m) == UNION {{<<b, p, v>> : p \in 0..(sh[b][1] * sh[b][2] * sh[b][3] - 1), v \in 0..(m - 1)} : b \in 1..Len(sh)}
Ones(sh) == [b \in 1..Len(sh) |-> [p \in 1..(sh[b][1] * sh[b][2] * sh[b][3]) |-> 1]]
Field(sh, k) == [b \in 1..Len(sh) |-> [p \in 1..(sh[b][1] * sh[b][2] * sh[b][3]) |-> Rnd({0 - 2, 0 - 1, 1, 1, 2, 3}, k)]]
RndOp(U, k) == LET L == SetToSeq(U) IN
   {<<t[1], t[2], Rnd({0 - 3, 0 - 1, 1, 2, 5}, k)>> : t \in {<<L[Rnd(1..Len(L), i)], L[Rnd(1..Len(L), i)]>> : i \in 1..Rnd(0..(3 * Len(L)), k)}}
(* a permuted matrix whose large entries outweigh the others of their line *)
RndRegular(U, k) == LET L == SetToSeq(U)  n == Len(L)
                        sh == Rnd(0..(n - 1), k)  m == Rnd({1, 2, 3}, k)
                        big(i) == <<L[i], L[((m * 0 + (n - i) + sh) % n) + 1], Rnd({7, 0 - 7, 9}, i)>>
                        B == {big(i) : i \in 1..n}
                        few == {<<L[i], L[Rnd(1..n, i)], Rnd({0 - 2, 0 - 1, 1}, i)>> : i \in 1..n} \cup {<<L[i], L[Rnd(1..n, i)], Rnd({0 - 2, 0 - 1, 1}, i)>> : i \in 1..n} IN
   B \cup {t \in few : ~\E s \in B : s[1] = t[1] /\ s[2] = t[2]}
Clean(o) == \A s, t \in o : (s[1] = t[1] /\ s[2] = t[2]) => s = t
Unique(o) == {t \in o : \A s \in o : (s[1] = t[1] /\ s[2] = t[2]) => s[3] <= t[3]}
(* ---- behaviours *)
Init == /\ rows = (IF Family = "vec" THEN <<<<>>, <<>>>> ELSE <<>>) /\ shape = <<>> /\ nv = 1 /\ op = {} /\ c = <<>> /\ d = <<>>
        /\ how = "" /\ sub = <<>> /\ drop = 0 /\ thr = 1 /\ wait = {} /\ busy = <<>> /\ x = <<>> /\ ret = 0
        /\ phase = (IF Family = "vec" THEN "vec" ELSE "start")
Insert == /\ phase = "vec" /\ \E r \in 1..Len(rows) : Len(rows[r]) < Many /\ \E p \in 0..1, v \in {0 - 2, 0, 3} :
               p \notin Pos(rows[r]) /\ rows' = [rows EXCEPT ![r] = Append(@, <<p, v>>)]
          /\ UNCHANGED <<shape, nv, op, c, d, how, sub, drop, thr, wait, busy, x, ret, phase>>
(* all of a random matrix at once *)
RndRow(m, k) == LET ps == SetToSeq({p \in 0..(m - 1) : Rnd(0..2, p + k) > 0}) IN
                LET q == IF Rnd({0, 1}, k) = 0 THEN ps ELSE Reverse(ps) IN [i \in 1..Len(q) |-> <<q[i], Rnd((0 - 3)..4, i)>>]
Scatter == /\ Family = "random" /\ phase = "start" /\ \E k \in 1..Many : \E m \in {Rnd(1..6, k)} :
                rows' = [r \in 1..m |-> RndRow(m, r + k)]
           /\ phase' = "vec!" /\ UNCHANGED <<shape, nv, op, c, d, how, sub, drop, thr, wait, busy, x, ret>>
Subs(sh, m) == {<<v, b, i, j, e, n1, n2, n3>> : v \in 0..(m - 1), b \in 1..Len(sh), i \in 0..1, j \in 0..1, e \in 0..1, n1 \in 1..2, n2 \in 1..2, n3 \in 1..2}
GoodSub(s) == s[3] < s[6] /\ s[4] < s[7] /\ s[5] < s[8]
SetUp(sh, m, o, e, f, h, s, dr, t) ==
   /\ shape' = sh /\ nv' = m /\ op' = o /\ c' = e /\ d' = f /\ how' = h /\ sub' = s /\ drop' = dr /\ thr' = t
SubFor(h, S) == CASE h = "cols_sub" -> S [] h = "cols_one" -> {s \in S : s[3] + s[4] + s[5] = 0 /\ s[6] = 1 /\ s[7] = 1 /\ s[8] = 1} [] OTHER -> {<<>>}
Some(S, k) == IF S = {<<>>} THEN <<>> ELSE Rnd(S, k)
Choose == /\ phase = "start" /\ Family \in {"threads", "build"}
          /\ \E t \in Tiny : \E f \in [All(t[1], t[2]) \X All(t[1], t[2]) -> (IF Family = "threads" THEN {0, 1} ELSE {0 - 1, 0, 2})] : \E h \in Builders :
               \E s \in {z \in SubFor(h, Subs(t[1], t[2])) : z = <<>> \/ GoodSub(z)} : \E dr \in (IF Family = "threads" THEN {0} ELSE {0, 1}) : \E nt \in (IF Family = "threads" THEN {2} ELSE {1, 3}) :
               SetUp(t[1], t[2], {<<q[1], q[2], f[q]>> : q \in {z \in DOMAIN f : f[z] # 0}}, Ones(t[1]), Ones(t[1]), h, s, dr, nt)
          /\ phase' = "set" /\ UNCHANGED <<rows, wait, busy, x, ret>>
ChooseRnd == /\ phase = "start" /\ Family = "random"
             /\ \E k \in 1..Many : \E sh \in {RndShape(k)} : \E m \in {Rnd({1, 1, 2, 3}, k)} : \E o \in {Unique(RndOp(All(sh, m), k))} : \E h \in {Rnd(Builders, k)} :
                \E s \in {Some({z \in SubFor(h, Subs(sh, m)) : z = <<>> \/ GoodSub(z)}, k)} : \E dr \in {Rnd({0, 0, 1, 2}, k)} : \E nt \in {Rnd({1, 2, 4, 7}, k)} : \E e \in {Field(sh, k)} : \E f \in {Field(sh, k + 1)} :
                SetUp(sh, m, o, e, f, h, s, dr, nt)
             /\ phase' = "set" /\ UNCHANGED <<rows, wait, busy, x, ret>>
(* full operators, where all threads want the same lines all the time *)
Full(sh) == {<<t[1], t[2], 1 + ((t[1][2] * 5 + t[2][2]) % 7)>> : t \in All(sh, 1) \X All(sh, 1)}
ChooseFull == /\ phase = "start" /\ Family = "dense"
              /\ \E k \in 1..Many : \E sh \in {<< <<5, 2 + (k % 5), 1>>, <<3, 3, 2>> >>} : SetUp(sh, 1, Full(sh), Ones(sh), Ones(sh), IF k % 4 = 0 THEN "cols" ELSE "lines", <<>>, 0, 8)
              /\ phase' = "set" /\ UNCHANGED <<rows, wait, busy, x, ret>>
(* threads take columns; each looks at all lines of its column and stores what it finds *)
Begin == /\ phase = "set" /\ phase' = "run" /\ rows' = [k \in 1..Cardinality(Chosen) |-> <<>>]
         /\ wait' = {Num(u) : u \in Chosen} /\ busy' = [t \in 1..thr |-> <<>>] /\ UNCHANGED <<shape, nv, op, c, d, how, sub, drop, thr, x, ret>>
Get1(t) == /\ phase = "run" /\ busy[t] = <<>> /\ \E q \in wait : wait' = wait \ {q} /\ busy' = [busy EXCEPT ![t] = <<q, 0>>]
           /\ UNCHANGED <<rows, shape, nv, op, c, d, how, sub, drop, thr, x, ret, phase>>
Look(t) == /\ phase = "run" /\ busy[t] # <<>> /\ LET q == busy[t][1]  l == busy[t][2]  m == {e \in Mat : e[1] = l /\ e[2] = q} IN
              /\ busy' = [busy EXCEPT ![t] = IF l + 1 = Len(rows) THEN <<>> ELSE <<q, l + 1>>]
              /\ rows' = IF m = {} THEN rows ELSE LET v == (CHOOSE e \in m : TRUE)[3] IN
                            IF ByLines THEN [rows EXCEPT ![l + 1] = Append(@, <<q, v>>)] ELSE [rows EXCEPT ![q + 1] = Append(@, <<l, v>>)]
           /\ UNCHANGED <<shape, nv, op, c, d, how, sub, drop, thr, wait, x, ret, phase>>
Finish == /\ phase = "run" /\ wait = {} /\ \A t \in 1..thr : busy[t] = <<>> /\ phase' = "built"
          /\ UNCHANGED <<rows, shape, nv, op, c, d, how, sub, drop, thr, wait, busy, x, ret>>
(* the same in one step *)
Build == /\ phase = "set" /\ phase' = "built"
         /\ rows' = LET M == Mat IN [k \in 1..Cardinality(Chosen) |-> LET S == {e \in M : (IF ByLines THEN e[1] ELSE e[2]) = k - 1} IN
                       LET s == SortSeq(SetToSeq(S), LAMBDA g, e : (IF ByLines THEN g[2] < e[2] ELSE g[1] < e[1])) IN
                       [i \in 1..Len(s) |-> IF ByLines THEN <<s[i][2], s[i][3]>> ELSE <<s[i][1], s[i][3]>>]]
         /\ UNCHANGED <<shape, nv, op, c, d, how, sub, drop, thr, wait, busy, x, ret>>
(* a system of equations: the solution is given, the right-hand side follows from it *)
System == /\ phase = "start" /\ Family \in {"solve", "system"}
          /\ IF Family = "solve"
             THEN \E t \in Tiny : \E f \in [All(t[1], t[2]) \X All(t[1], t[2]) -> {0 - 1, 0, 1}] : \E h \in Solvers :
                  SetUp(t[1], t[2], {<<q[1], q[2], f[q]>> : q \in {z \in DOMAIN f : f[z] # 0}}, Ones(t[1]), Ones(t[1]), h, <<>>, 0, 1)
             ELSE \E k \in 1..Many : \E sh \in {RndShape(k)} : \E m \in {Rnd({1, 2, 3}, k)} : \E o \in {Unique(RndRegular(All(sh, m), k))} : \E h \in {Rnd(Solvers, k)} : \E dr \in {Rnd({0, 0, 1}, k)} :
                  SetUp(sh, m, o, Ones(sh), Ones(sh), h, <<>>, IF h = "lapack" THEN 0 ELSE dr, 1)
          /\ phase' = "system" /\ UNCHANGED <<rows, wait, busy, x, ret>>
Det2 == LET e(l, q) == LET m == {t \in Mat : t[1] = l /\ t[2] = q} IN IF m = {} THEN 0 ELSE (CHOOSE t \in m : TRUE)[3] IN e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0)
Solve == /\ phase = "system" /\ phase' = "solved" /\ x' = [k \in 1..Size |-> ((k * k + 3 * k) % 7) - 3]
         /\ ret' = (IF Family = "solve" THEN (IF Det2 = 0 THEN 1 ELSE 0) ELSE 0)      \* 1: the matrix is singular
         /\ UNCHANGED <<rows, shape, nv, op, c, d, how, sub, drop, thr, wait, busy>>
Next == \/ Insert \/ Scatter \/ Choose \/ ChooseRnd \/ ChooseFull \/ System \/ Solve
        \/ (Family # "threads" /\ Build) \/ (Family = "threads" /\ (Begin \/ Finish \/ \E t \in 1..thr : Get1(t) \/ Look(t)))
Spec == Init /\ [][Next]_vars
(* ---- what holds *)
Exact == phase = "built" => /\ Stored = Mat
                            /\ \A r \in 1..Len(rows) : Cardinality(Pos(rows[r])) = Len(rows[r])
Vec(k) == ((k * 3) % 5) - 2
Product == (phase = "built" /\ ByLines) => LET M == Mat  y == [k \in 1..Len(rows) |-> Vec(k)] IN \A l \in 1..Len(rows) : Times(rows, y)[l] = Apply(M, y, l - 1)
Linear == phase = "vec" => LET y == [k \in 1..Len(rows) |-> Vec(k)] IN \A q \in 1..Len(rows) : Left(rows, y, Len(rows))[q] = SumTo(Len(rows), LAMBDA r : y[r] * Get(rows[r], q - 1))
Emit == /\ (phase \in {"vec", "vec!"}) => LET m == Len(rows)  y == [k \in 1..m |-> Vec(k)]
              S(lim) == UNION {{<<r - 1, rows[r][k][1], rows[r][k][2]>> : k \in {i \in 1..Len(rows[r]) : Abs(rows[r][i][2]) > lim}} : r \in 1..m} IN
              PrintT("@@" \o ToJson([k |-> "vec", rows |-> rows, n |-> m, y |-> y, times |-> Times(rows, y), left |-> Left(rows, y, m),
                       ap |-> [l \in 1..3 |-> Starts(S(l - 1), m)], packed |-> [l \in 1..3 |-> Packed(S(l - 1), m)]]))
        /\ (phase = "built" /\ Family # "threads") => PrintT("@@" \o ToJson([k |-> "build", shape |-> shape, nv |-> nv, op |-> op, c |-> c, d |-> d, how |-> how, sub |-> sub, drop |-> drop, thr |-> thr, rows |-> rows]))
        /\ (phase = "solved") => PrintT("@@" \o ToJson([k |-> "solve", shape |-> shape, nv |-> nv, mat |-> Mat, how |-> how, drop |-> drop, x |-> x, sing |-> ret, size |-> Size,
                       full |-> {<<Num(t[1]), Num(t[2]), t[3]>> : t \in op}, b |-> LET M == Mat IN [l \in 1..Size |-> Apply(M, x, l - 1)], unk |-> SortSeq(SetToSeq(Unknowns), LAMBDA a, b : Num(a) < Num(b))]))
===============================================================================
