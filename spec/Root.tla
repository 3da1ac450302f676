--------------------------------- MODULE Root ---------------------------------
(* Finding roots and minima of a function of one variable.                      *)
(* "gen": what the solver is called with; the function is the environment, its  *)
(* values are given call by call (any function at all) or by a formula.         *)
(* "check": the calls a solver made must be a behaviour of the machine below,   *)
(* which keeps the bracket known so far.  Points are given by their rank among  *)
(* all points that occur, values by sign (2: not a number) or rank.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Mode, Family, Many
VARIABLES t,          \* test or trace being looked at
          k,          \* evaluations seen
          lo, hi,     \* ends of the bracket: <<rank, sign>>
          best,       \* minimisers: point with the least value so far <<rank, value>>
          fate        \* "run", "done" (ends allowed only), "ok", "bad"
vars == <<t, k, lo, hi, best, fate>>
(* ------------------------------------------------------------------ tests *)
Solvers == {"newton", "bisect", "brent", "zbrent", "brak", "zbrac", "min", "minbrak"}
Vals == {"-3", "-1", "0", "1", "4"}
Slopes == {"0", "1", "-7", "1e9", "nan"}
Wide == {"-3", "-1", "0", "1", "4", "1e-9", "-1e-9", "1e12", "-0.5", "2.5", "inf"}
Ans(v, s) == v \o "/" \o s
Ints2 == {<<"0", "1">>, <<"2", "-1">>}
Test(s, x0, x, m, acc, f) == [s |-> s, x0 |-> x0, x1 |-> x[1], x2 |-> x[2], m |-> m, acc |-> acc, f |-> f]
Finders == {"newton", "bisect", "brent", "zbrent"}
Formulas == {"lin", "cube", "exp", "steep", "flat", "osc", "step", "quart", "abs", "bowl", "skew"}
RndTest(z) == LET s == RandomElement(Solvers)  n == RandomElement(1..30)  m == RandomElement({0, 1, 2, 5, 10, 50, 200})  x == RandomElement({<<"0", "1">>, <<"1", "-2">>, <<"-3", "1e6">>, <<"0.1", "0.1000001">>, <<"5", "5">>, <<"-1", "inf">>})
                  acc == RandomElement({"0.3", "1e-3", "1e-9", "0"})  x0 == RandomElement({"0.5", "0.1", "0", "77", "nan"})
                  f == IF RandomElement({0, 1}) = 0 THEN <<"@" \o RandomElement(Formulas) \o ":" \o RandomElement({"0", "0.3", "0.7", "-1", "0.99999", "1e-7", "2"}) \o ":" \o RandomElement({"1", "-1", "1e-3", "1e5"})>>
                       ELSE LET w == RandomElement({Vals, Wide, {"1", "-1"}, {"1", "2", "4", "-3"}, IF s \in Finders THEN {"1e-200", "-1e-200", "3e-200", "-2e-170", "1e-300", "-1e-300"} ELSE Vals}) IN [i \in 1..n |-> IF i < 3 /\ RandomElement({0, 1, 2}) > 0 THEN Ans(IF i = 1 THEN "2" ELSE "-1", "1") ELSE Ans(RandomElement(w), RandomElement(Slopes))] IN
              Test(s, IF s = "min" THEN (CASE x = <<"0", "1">> -> RandomElement({"0.5", "0.1", "0.9"}) [] x = <<"1", "-2">> -> "0.5" [] x = <<"-3", "1e6">> -> "77" [] x = <<"5", "5">> -> "5" [] x = <<"-1", "inf">> -> "0" [] OTHER -> "0.10000001") ELSE x0, x, m, acc, f)
Gen == /\ Mode = "gen" /\ fate = "run" /\ fate' = "ok" /\ UNCHANGED <<k, lo, hi, best>>
       /\ IF Family = "short" THEN \E s \in Solvers, x \in Ints2, m \in {0, 1, 3, 12}, f \in [1..Many -> Vals] :
                \E x0 \in (IF s \in {"newton", "bisect"} THEN {"0.25", "9"} ELSE {"0.25"}), d \in (IF s = "newton" THEN {"1", "-7"} ELSE {"1"}) :
                   t' = Test(s, x0, x, m, "0.01", [i \in 1..Many |-> Ans(f[i], d)])
          ELSE \E i \in 1..Many : \E c \in {RndTest(i)} : t' = c @@ [nr |-> i]
(* ------------------------------------------------------------------ traces *)
(* a trace: s, m, x1, x2 (ranks of the ends), fin (both finite), ev: sequence of <<rank, sign, value>>, ret, res: sequence of ranks,  *)
(* from, to: ranks of result - accuracy, result + accuracy, val: value rank of the returned minimum                                  *)
Traces == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACES) ELSE <<>>
T == Traces[t]
E == T.ev
Between(p, q, r) == (p <= q /\ q <= r) \/ (r <= q /\ q <= p)
Braks == {"brak", "zbrac"}
Bracketed(p, q) == p # 2 /\ q # 2 /\ p * q <= 0
Bad == fate' = "bad" /\ UNCHANGED <<t, k, lo, hi, best>>
(* --- root finders *)
Same(p, q) == p[1] = q[1] /\ p[2] = q[2]
FirstTwo == /\ k = 0 /\ fate = "run" /\ T.s \in Finders \cup Braks
   /\ IF Len(E) = 0 THEN fate' = "done" /\ UNCHANGED <<t, k, lo, hi, best>>
      ELSE IF Len(E) = 1 \/ {E[1][1], E[2][1]} # {T.x1, T.x2} THEN Bad
      ELSE /\ k' = 2 /\ lo' = (IF E[1][1] = T.x1 THEN E[1] ELSE E[2]) /\ hi' = (IF E[1][1] = T.x1 THEN E[2] ELSE E[1]) /\ UNCHANGED <<t, best>>
           /\ fate' = (IF T.s \in Finders /\ (~T.fin \/ ~Bracketed(E[1][2], E[2][2]) \/ E[1][2] = 0 \/ E[2][2] = 0) THEN "done" ELSE "run")
FindStep == /\ k >= 2 /\ fate = "run" /\ T.s \in Finders /\ k < Len(E)
   /\ LET e == E[k+1] IN
      IF ~Between(lo[1], e[1], hi[1]) \/ k - 1 > T.m THEN Bad
      ELSE /\ k' = k + 1 /\ UNCHANGED <<t, best>>
           /\ fate' = (IF e[2] \in {0, 2} THEN "done" ELSE "run")
           /\ lo' = (IF e[2] \in {0, 2} \/ e[2] = lo[2] THEN e ELSE lo)
           /\ hi' = (IF e[2] \in {0, 2} THEN e ELSE IF e[2] = hi[2] THEN e ELSE hi)
In(r) == T.from <= r /\ r <= T.to
Found == T.ret >= 0 /\ T.ret <= T.m
FindEnd ==
   /\ fate \in {"run", "done"} /\ T.s \in Finders /\ k = Len(E)
   /\ LET zero == {E[i][1] : i \in {j \in 1..k : E[j][2] = 0}}  nan == \E i \in 1..k : E[i][2] = 2
          open == k = 0 \/ ~Bracketed(E[1][2], E[2][2]) \/ ~T.fin IN
      IF open THEN fate' = (IF T.ret < 0 THEN "ok" ELSE "bad")                       \* nothing to be found
      ELSE IF Found THEN fate' = (IF nan THEN "bad" ELSE IF zero # {} THEN (IF T.res[1] \in zero THEN "ok" ELSE "bad")
                                  ELSE IF ~Between(lo[1], T.res[1], hi[1]) THEN "bad"
                                  ELSE IF T.s = "newton" THEN (IF In(E[k][1]) \/ (In(lo[1]) /\ In(hi[1])) THEN "ok" ELSE "bad")
                                  ELSE IF In(lo[1]) /\ In(hi[1]) THEN "ok" ELSE "bad")
      ELSE fate' = (IF nan THEN (IF T.ret < 0 THEN "ok" ELSE "bad") ELSE IF k = T.m + 2 /\ T.ret > T.m THEN "ok" ELSE IF T.m = 0 /\ T.ret > 0 THEN "ok" ELSE "bad")
   /\ UNCHANGED <<t, k, lo, hi, best>>
(* --- finding a bracket: the interval only grows *)
BrakStep == /\ k >= 2 /\ fate = "run" /\ T.s \in Braks /\ k < Len(E)
   /\ LET e == E[k+1]  dir == IF lo[1] < hi[1] THEN 1 ELSE 0 - 1 IN
      IF k - 2 >= T.m \/ (lo[2] * hi[2] < 0 /\ lo[2] # 2 /\ hi[2] # 2) THEN Bad
      ELSE IF dir * e[1] < dir * lo[1] THEN k' = k + 1 /\ lo' = e /\ UNCHANGED <<t, hi, best, fate>>
      ELSE IF dir * e[1] > dir * hi[1] THEN k' = k + 1 /\ hi' = e /\ UNCHANGED <<t, lo, best, fate>>
      ELSE Bad
BrakEnd == /\ fate \in {"run", "done"} /\ T.s \in Braks /\ k = Len(E) /\ UNCHANGED <<t, k, lo, hi, best>>
   /\ fate' = (IF k = 0 THEN (IF T.ret < 0 /\ T.x1 = T.x2 THEN "ok" ELSE "bad")
               ELSE IF T.ret >= 0 THEN (IF T.ret <= T.m /\ T.res = <<lo[1], hi[1]>> /\ lo[2] * hi[2] = 0 - 1 THEN "ok" ELSE "bad")
               ELSE IF k = T.m + 2 THEN "ok" ELSE "bad")
(* --- minimisers: the best point so far stays between the ends *)
MinFirst == /\ k = 0 /\ fate = "run" /\ T.s = "min"
   /\ IF Len(E) = 0 \/ E[1][1] # T.x0 THEN Bad ELSE /\ k' = 1 /\ best' = E[1] /\ lo' = <<IF T.x1 < T.x2 THEN T.x1 ELSE T.x2>> /\ hi' = <<IF T.x1 < T.x2 THEN T.x2 ELSE T.x1>> /\ UNCHANGED <<t, fate>>
MinStep == /\ k >= 1 /\ fate = "run" /\ T.s = "min" /\ k < Len(E)
   /\ LET e == E[k+1]  better == e[3] <= best[3] IN
      IF ~Between(lo[1], e[1], hi[1]) \/ k > T.m THEN Bad
      ELSE /\ k' = k + 1 /\ best' = (IF better THEN e ELSE best) /\ UNCHANGED <<t, fate>>
           /\ lo' = (IF better THEN (IF e[1] >= best[1] THEN <<best[1]>> ELSE lo) ELSE IF e[1] < best[1] THEN <<e[1]>> ELSE lo)
           /\ hi' = (IF better THEN (IF e[1] >= best[1] THEN hi ELSE <<best[1]>>) ELSE IF e[1] < best[1] THEN hi ELSE <<e[1]>>)
MinEnd == /\ k >= 1 /\ fate = "run" /\ T.s = "min" /\ k = Len(E) /\ UNCHANGED <<t, k, lo, hi, best>>
   /\ fate' = (IF T.res[1] # best[1] \/ T.val # best[3] \/ \E i \in 1..k : E[i][3] < T.val THEN "bad"
               ELSE IF T.ret >= 0 /\ T.ret <= T.m THEN (IF In(lo[1]) /\ In(hi[1]) THEN "ok" ELSE "bad")
               ELSE IF k = T.m + 1 THEN "ok" ELSE "bad")
MinBrakEnd == /\ k = 0 /\ fate = "run" /\ T.s = "minbrak" /\ UNCHANGED <<t, k, lo, hi, best>>
   /\ LET at(r) == {E[i][3] : i \in {j \in 1..Len(E) : E[j][1] = r}} IN
      fate' = (IF Len(E) > 3 + 2 * T.m THEN "bad"
               ELSE IF T.ret < 0 \/ T.ret > T.m THEN "ok"
               ELSE IF Between(T.res[1], T.res[2], T.res[3]) /\ at(T.res[1]) = {T.vals[1]} /\ at(T.res[2]) = {T.vals[2]} /\ at(T.res[3]) = {T.vals[3]} /\ T.vals[2] <= T.vals[1] /\ T.vals[2] <= T.vals[3] THEN "ok" ELSE "bad")
Check == Mode = "check" /\ (FirstTwo \/ FindStep \/ FindEnd \/ BrakStep \/ BrakEnd \/ MinFirst \/ MinStep \/ MinEnd \/ MinBrakEnd)
Init == /\ k = 0 /\ lo = <<0, 0>> /\ hi = <<0, 0>> /\ best = <<0, 0>> /\ fate = "run"
        /\ IF Mode = "gen" THEN t = 0 ELSE t \in 1..Len(Traces)
Next == Gen \/ Check
Spec == Init /\ [][Next]_vars
(* ---- what the machine guarantees: the bracket keeps its change of sign, and the best point is the best of all *)
Keeps == (Mode = "check" /\ fate = "run" /\ k >= 2) =>
   /\ (T.s \in Finders => lo[2] * hi[2] = 0 - 1)
   /\ (T.s = "min" => Between(lo[1], best[1], hi[1]) /\ \A i \in 1..k : E[i][3] >= best[3])
   /\ (T.s \in Braks => \A i \in 1..k : Between(lo[1], E[i][1], hi[1]))
Emit == (Mode = "gen" /\ fate = "ok" => PrintT("@@" \o ToJson(t))) /\ (Mode = "check" /\ fate \in {"ok", "bad"} => PrintT("@@" \o ToJson([t |-> t, fate |-> fate, k |-> k])))
===============================================================================
