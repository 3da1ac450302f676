------------------------------ MODULE Evolve ------------------------------
(* Time integrators.  The right-hand side and the algebraic conditions are     *)
(* the environment: every call of them may return anything.  What they return  *)
(* is therefore a fresh symbol, and data are formal sums                       *)
(*     sum of  coefficient * (dt of some step or 1) * symbol                   *)
(* with rational coefficients.  Points of a box come in three classes: the     *)
(* algebraic conditions replace data by something new (class 1), by the data   *)
(* of the old time level (class 2), or leave them alone (class 3).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Mode, MaxSteps
VARIABLES u,      \* class -> variable -> sum
          st,     \* the step being done
          hist, calls, dead
vars == <<u, st, hist, calls, dead>>
Class == 1..3
AllVars == {"u", "w", "gx", "gy", "gz", "zz"}
Lists == <<<<"u">>, <<"u", "w">>, <<"gx", "gy", "gz">>, <<"w", "gx", "gy", "gz", "u">>>>
(* ---- rationals *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Norm(n, d) == LET g == Gcd(Abs(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Q(n, d) == IF d < 0 THEN Norm(-n, -d) ELSE Norm(n, d)
QAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
QMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])  h == Gcd(Abs(b[1]), a[2]) IN
  IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE Q((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
Zero == <<0, 1>>
(* ---- formal sums: function from <<step or 0, call, variable>> *)
Sym(c, v) == (<<0, c, v>> :> <<1, 1>>)
Co(a, k) == IF k \in DOMAIN a THEN a[k] ELSE Zero
Plus(a, b) == LET S == {k \in DOMAIN a \cup DOMAIN b : QAdd(Co(a, k), Co(b, k)) # Zero} IN [k \in S |-> QAdd(Co(a, k), Co(b, k))]
Times(q, a) == IF q = Zero THEN <<>> ELSE [k \in DOMAIN a |-> QMul(q, a[k])]
\* dt of step s times a: only right-hand sides are multiplied by it
WithDt(s, a) == [k \in {<<s, k[2], k[3]>> : k \in DOMAIN a} |-> a[<<0, k[2], k[3]>>]]
Minus(a, b) == Plus(a, Times(<<-1, 1>>, b))
(* ---- the schemes: a[i][j], b[j] *)
E(n) == <<n, 1>>
F(n, d) == <<n, d>>
Table == [
  rk1  |-> [a |-> <<<<>>>>, b |-> <<E(1)>>],
  rk2  |-> [a |-> <<<<>>, <<E(1)>>>>, b |-> <<F(1,2), F(1,2)>>],
  rk2a |-> [a |-> <<<<>>, <<F(1,2)>>>>, b |-> <<E(0), E(1)>>],
  rk3  |-> [a |-> <<<<>>, <<F(1,2)>>, <<E(-1), E(2)>>>>, b |-> <<F(1,6), F(2,3), F(1,6)>>],
  rk3a |-> [a |-> <<<<>>, <<F(1,3)>>, <<E(0), F(2,3)>>>>, b |-> <<F(1,4), E(0), F(3,4)>>],
  rk3b |-> [a |-> <<<<>>, <<F(1,2)>>, <<E(0), F(3,4)>>>>, b |-> <<F(2,9), F(1,3), F(4,9)>>],
  rk4  |-> [a |-> <<<<>>, <<F(1,2)>>, <<E(0), F(1,2)>>, <<E(0), E(0), E(1)>>>>, b |-> <<F(1,6), F(1,3), F(1,3), F(1,6)>>],
  rk4a |-> [a |-> <<<<>>, <<F(2,5)>>, <<F(-3,20), F(3,4)>>, <<F(19,44), F(-15,44), F(10,11)>>>>, b |-> <<F(11,72), F(25,72), F(25,72), F(11,72)>>],
  rk5  |-> [a |-> <<<<>>, <<F(1,5)>>, <<F(3,40), F(9,40)>>, <<F(44,45), F(-56,15), F(32,9)>>,
                    <<F(19372,6561), F(-25360,2187), F(64448,6561), F(-212,729)>>,
                    <<F(9017,3168), F(-355,33), F(46732,5247), F(49,176), F(-5103,18656)>>>>,
            b |-> <<F(35,384), E(0), F(500,1113), F(125,192), F(-2187,6784), F(11,84)>>]]
Order == [rk1 |-> 1, rk2 |-> 2, rk2a |-> 2, rk3 |-> 3, rk3a |-> 3, rk3b |-> 3, rk4 |-> 4, rk4a |-> 4, rk5 |-> 5]
\* names of methods: method, evolution_method_rk
RK == {"rk1", "rk2", "rk2a", "rk3", "rk3a", "rk3b", "rk4", "rk4a", "rk5"}
TabOf(m) == Table[IF m \in RK THEN m ELSE IF m = "midpoint" THEN "rk2a" ELSE "rk1"]
Methods == RK \cup {"midpoint", "rkeuler", "icn", "euler"}
Bad == {"nosuch", "rknosuch", "norhs", "nolist"}
(* a step: m method, l list, alg: conditions (0 none), f: which right-hand side, dt: dt in 64ths, keep: evolve_persist, ch: number of variables whose change is wanted, dbg *)
Step(m, l, alg, f, dt, keep, ch, dbg) == [m |-> m, l |-> l, alg |-> alg, f |-> f, dt |-> dt, keep |-> keep, ch |-> ch, dbg |-> dbg]
One == {Step(m, l, alg, 1, 16, keep, ch, dbg) : m \in Methods \cup Bad, l \in {2, 3}, alg \in {0, 1}, keep \in BOOLEAN, ch \in {0, 1}, dbg \in {FALSE}} \cup {Step("euler", l, 1, 1, 16, TRUE, 1, TRUE) : l \in 1..4}
Pairs == {Step(m, l, 1, l, 8, TRUE, 0, FALSE) : m \in {"icn", "euler", "rk1", "rk3", "rk4", "rk5"}, l \in {1, 2, 4}}
R(S) == RandomElement(S)
Some(d) == Step(R(Methods), R(1..4), R(0..2), R(1..2), R({-8, 1, 3, 16, 100}), R(BOOLEAN), R({0, 0, 1, 2, 5}), R(1..4) = 1)
Steps(d) == IF Mode = "one" THEN One ELSE IF Mode = "pairs" THEN Pairs ELSE {Some(d)}
(* ---- one call of the environment *)
L == Lists[st.c.l]
Here(x) == [k \in Class |-> [v \in Range(L) |-> x[k][v]]]
Fresh == [k \in Class |-> [v \in Range(L) |-> Sym(calls + 1, v)]]
\* the conditions act on data d, given the old level p; calls + k is the number of the call
AlgOf(d, p, k) == IF st.c.alg = 0 THEN d ELSE
  [x \in Class |-> [v \in Range(L) |-> IF x = 1 THEN Sym(calls + k, v) ELSE IF x = 2 THEN p[x][v] ELSE d[x][v]]]
RECURSIVE Terms(_)
Terms(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<k>> \o Terms(S \ {k})
OutSum(a) == [i \in 1..Cardinality(DOMAIN a) |-> LET k == Terms(DOMAIN a)[i] IN <<k[1], k[2], k[3], a[k][1], a[k][2]>>]
Out(x) == [k \in Class |-> [i \in 1..Len(L) |-> OutSum(x[k][L[i]])]]
EvAlg(d, p, k) == IF st.c.alg = 0 THEN <<>> ELSE << [e |-> "alg", f |-> st.c.alg, call |-> calls + k, new |-> Out(d), pre |-> Out(p)] >>
\* c: "0" or "dt" (times 0 if debugging)
EvRhs(c, p, v, k) == << [e |-> "rhs", f |-> st.c.f, call |-> calls + k, c |-> c, pre |-> IF c = "0" THEN "any" ELSE "as told", pres |-> Out(p), cur |-> Out(v)] >>
NAlg == IF st.c.alg = 0 THEN 0 ELSE 1
Comb(p, q, ks) ==    \* p + dt * sum q_j k_j
  [x \in Class |-> [v \in Range(L) |-> LET RECURSIVE S(_) S(j) == IF j = 0 THEN p[x][v] ELSE Plus(S(j - 1), Times(q[j], WithDt(Len(hist) + 1, ks[j][x][v]))) IN S(Len(q))]]
(* ---- transitions *)
Idle == [on |-> FALSE]
Begin == ~st.on /\ ~dead /\ Len(hist) < MaxSteps /\ \E c \in Steps(hist) :
  /\ st' = [on |-> TRUE, c |-> c, i |-> 1, p |-> [k \in Class |-> [v \in Range(Lists[c.l]) |-> u[k][v]]], ks |-> <<>>, ev |-> <<>>]
  /\ UNCHANGED <<u, hist, calls, dead>>
IsRK == st.c.m \notin {"icn", "euler"} \cup Bad
\* a stage of a Runge-Kutta scheme
Stage == st.on /\ IsRK /\ LET T == TabOf(st.c.m) IN st.i <= Len(T.b) /\
  LET v0 == Comb(st.p, T.a[st.i], st.ks)  v == AlgOf(v0, st.p, 1) IN
  /\ st' = [st EXCEPT !.i = @ + 1, !.ks = Append(@, [k \in Class |-> [x \in Range(L) |-> Sym(calls + NAlg + 1, x)]]),
                      !.ev = @ \o EvAlg(v0, st.p, 1) \o EvRhs("0", st.p, v, NAlg + 1)]
  /\ calls' = calls + NAlg + 1 /\ UNCHANGED <<u, hist, dead>>
\* an iteration of iterated Crank-Nicholson: the mean of old and new data, three times
Iterate == st.on /\ st.c.m = "icn" /\ st.i <= 3 /\
  LET new == IF st.i = 1 THEN st.p ELSE st.ks[1]
      v == [k \in Class |-> [x \in Range(L) |-> Times(<<1, 2>>, Plus(new[k][x], st.p[k][x]))]]
      r == [k \in Class |-> [x \in Range(L) |-> Plus(st.p[k][x], WithDt(Len(hist) + 1, Sym(calls + 1, x)))]]
      n == AlgOf(r, st.p, 2) IN
  /\ st' = [st EXCEPT !.i = @ + 1, !.ks = <<n>>, !.ev = @ \o EvRhs("dt", st.p, v, 1) \o EvAlg(r, st.p, 2)]
  /\ calls' = calls + 1 + NAlg /\ UNCHANGED <<u, hist, dead>>
Euler == st.on /\ st.c.m = "euler" /\ st.i = 1 /\
  LET r == [k \in Class |-> [x \in Range(L) |-> IF st.c.dbg THEN Sym(calls + 1, x) ELSE Plus(st.p[k][x], WithDt(Len(hist) + 1, Sym(calls + 1, x)))]] IN
  /\ st' = [st EXCEPT !.i = 2, !.ks = <<AlgOf(r, st.p, 2)>>, !.ev = EvRhs(IF st.c.dbg THEN "0" ELSE "dt", st.p, st.p, 1) \o EvAlg(r, st.p, 2)]
  /\ calls' = calls + 1 + NAlg /\ UNCHANGED <<u, hist, dead>>
\* the step ends with new data x after events ev
End(x, ev, n) ==
  LET un == [k \in Class |-> [v \in AllVars |-> IF v \in Range(L) THEN x[k][v] ELSE u[k][v]]]
      h == [c |-> st.c, list |-> L, ev |-> ev, new |-> Out(x), old |-> Out(st.p), change |-> [k \in Class |-> [i \in 1..(IF st.c.ch < Len(L) THEN st.c.ch ELSE Len(L)) |-> OutSum(Minus(x[k][L[i]], st.p[k][L[i]]))]],
            rest |-> [k \in Class |-> [v \in AllVars \ Range(L) |-> OutSum(u[k][v])]], end |-> "ok"] IN
  /\ u' = un /\ hist' = Append(hist, h) /\ calls' = calls + n /\ st' = Idle /\ dead' = dead
\* where the conditions have replaced the old data, it is left open which of the two the increment is added to:
\* they are about to be replaced again
EvLast(d, p, k) == [n \in 1..Len(EvAlg(d, p, k)) |-> [EvAlg(d, p, k)[n] EXCEPT !.new = [@ EXCEPT ![1] = <<>>]]]
FinishRK == st.on /\ IsRK /\ LET T == TabOf(st.c.m) IN st.i > Len(T.b) /\
  LET x == Comb(st.p, T.b, st.ks) IN End(AlgOf(x, st.p, 1), st.ev \o EvLast(x, st.p, 1), NAlg)
FinishOther == st.on /\ ((st.c.m = "icn" /\ st.i = 4) \/ (st.c.m = "euler" /\ st.i = 2)) /\ End(st.ks[1], st.ev, 0)
\* without a right-hand side nothing happens; without variables, or with an unknown method, the program stops
NoRhs == st.on /\ st.c.m = "norhs" /\ End(st.p, <<>>, 0)
Refuse == st.on /\ st.c.m \in Bad \ {"norhs"} /\ dead' = TRUE /\ st' = Idle /\ hist' = Append(hist, [c |-> st.c, list |-> L, end |-> "exit 1"]) /\ UNCHANGED <<u, calls>>
Init == u = [k \in Class |-> [v \in AllVars |-> Sym(0, v)]] /\ st = Idle /\ hist = <<>> /\ calls = 0 /\ dead = FALSE
Next == /\ Begin \/ Stage \/ Iterate \/ Euler \/ FinishRK \/ FinishOther \/ NoRhs \/ Refuse
        /\ ((Len(hist') = MaxSteps \/ dead') /\ hist' # hist => PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
(* ---- properties *)
(* nothing outside the list changes *)
Outside == [][ \A k \in Class, v \in AllVars : (st.on /\ v \in Range(L)) \/ u'[k][v] = u[k][v] ]_vars
(* as many evaluations as the scheme has stages, *)
NRhs == \A n \in 1..Len(hist) : hist[n].end = "ok" /\ hist[n].c.m # "norhs" =>
  Len(SelectSeq(hist[n].ev, LAMBDA e : e.e = "rhs")) = (IF hist[n].c.m = "icn" THEN 3 ELSE IF hist[n].c.m = "euler" THEN 1 ELSE Len(TabOf(hist[n].c.m).b))
(* whose weights sum up to one where no condition acts *)
RECURSIVE SumQ(_)
SumQ(S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN QAdd(<<x[4], x[5]>>, SumQ(S \ {x}))
Weights == \A n \in 1..Len(hist) : hist[n].end = "ok" /\ hist[n].c.m # "norhs" /\ ~hist[n].c.dbg =>
  \A i \in 1..Len(hist[n].list) : SumQ({t \in Range(hist[n].new[3][i]) : t[1] = n}) = <<1, 1>>
(* order conditions of the tables *)
Cc(T, i) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN Zero ELSE QAdd(S(j - 1), T.a[i][j]) IN S(Len(T.a[i]))
RECURSIVE Sum(_, _)
Sum(Op(_), n) == IF n = 0 THEN Zero ELSE QAdd(Op(n), Sum(Op, n - 1))
Ac(T, i, Op(_)) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN Zero ELSE QAdd(S(j - 1), QMul(T.a[i][j], Op(j))) IN S(Len(T.a[i]))
Cond(T, o) == LET n == Len(T.b)  C(i) == Cc(T, i)  C2(i) == QMul(C(i), C(i)) IN
  CASE o = 1 -> Sum(LAMBDA i : T.b[i], n) = <<1, 1>>
    [] o = 2 -> Sum(LAMBDA i : QMul(T.b[i], C(i)), n) = <<1, 2>>
    [] o = 3 -> Sum(LAMBDA i : QMul(T.b[i], C2(i)), n) = <<1, 3>> /\ Sum(LAMBDA i : QMul(T.b[i], Ac(T, i, C)), n) = <<1, 6>>
    [] o = 4 -> /\ Sum(LAMBDA i : QMul(T.b[i], QMul(C2(i), C(i))), n) = <<1, 4>>
                /\ Sum(LAMBDA i : QMul(T.b[i], QMul(C(i), Ac(T, i, C))), n) = <<1, 8>>
                /\ Sum(LAMBDA i : QMul(T.b[i], Ac(T, i, C2)), n) = <<1, 12>>
                /\ Sum(LAMBDA i : QMul(T.b[i], Ac(T, i, LAMBDA j : Ac(T, j, C))), n) = <<1, 24>>
    [] o = 5 -> Sum(LAMBDA i : QMul(T.b[i], QMul(C2(i), C2(i))), n) = <<1, 5>>
ASSUME \A m \in RK : \A o \in 1..Order[m] : PrintT(<<m, o>>) /\ Cond(Table[m], o)
===========================================================================
