------------------------------- MODULE LinSolve --------------------------------
(* An iterative solver of linear equations on a grid.                            *)
(* "model": what it may do, one application of the operator or preconditioner    *)
(*          after the other, when every residual and every breakdown is up to    *)
(*          the environment.                                                     *)
(* "gen":   systems to solve.                                                    *)
(* "check": a recorded call must be a behaviour of the machine, and its report   *)
(*          must be true.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Mode, Family, Many
VARIABLES t,            \* test, or number of the trace
          k,            \* events seen
          ph,           \* "begin", "top", "half", "over"
          it, itmax, apps, pres,
          met,          \* where the residual of the present solution lies: "in" (the tolerance), "out", "nan", "edge"
          temps,        \* temporaries in use
          ret
vars == <<t, k, ph, it, itmax, apps, pres, met, temps, ret>>
Where == {"in", "out", "nan"}
Success(r, m) == 0 <= r /\ r <= m
(* ------------------------------------------------------------------- the machine *)
Leave(r, w) == ph' = "over" /\ ret' = r /\ temps' = FALSE /\ met' = w
Begin == /\ ph = "begin" /\ apps' = 1 /\ UNCHANGED <<t, k, it, itmax, pres>>
         /\ \E w \in Where : IF w = "in" THEN Leave(0, w) ELSE ph' = "top" /\ temps' = TRUE /\ met' = w /\ ret' = ret
Top == /\ ph = "top" /\ UNCHANGED <<t, k, itmax>>
       /\ \/ it = itmax /\ Leave(itmax + 1, met) /\ UNCHANGED <<it, apps, pres>>
          \/ it < itmax /\ Leave(0 - 10, met) /\ UNCHANGED <<it, apps, pres>>            \* no direction left
          \/ it < itmax /\ it' = it + 1 /\ apps' = apps + 1 /\ pres' = pres + 1
             /\ \E w \in Where : IF w = "in" THEN Leave(it + 1, w) ELSE ph' = "half" /\ met' = met /\ UNCHANGED <<temps, ret>>
Half == /\ ph = "half" /\ apps' = apps + 1 /\ pres' = pres + 1 /\ UNCHANGED <<t, k, it, itmax>>
        /\ \E w \in Where : \/ w = "in" /\ Leave(it, w)
                            \/ w # "in" /\ ph' = "top" /\ met' = w /\ UNCHANGED <<temps, ret>>
                            \/ w # "in" /\ Leave(0 - 11, w)                                \* no step possible
(* --------------------------------------------------------------------- the traces *)
Traces == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACES) ELSE <<>>
T == Traces[t]
Steps(n) == (n + 1) \div 2          \* iterations begun when an operation with two halves has been done n times
(* the operator was applied to read its matrix off, and by the iterations; the preconditioner by these only *)
See == /\ Mode = "check" /\ ph = "top" /\ k < Len(T.ev) /\ k' = k + 1 /\ UNCHANGED <<t, itmax, met, temps, ret>>
       /\ LET a == apps + (IF T.ev[k+1] = "a" THEN 1 ELSE 0)  p == pres + (IF T.ev[k+1] = "p" THEN 1 ELSE 0)
              n == IF Steps(a - 1 - T.setup) > Steps(p) THEN Steps(a - 1 - T.setup) ELSE Steps(p) IN
          /\ apps' = a /\ pres' = p /\ it' = (IF n < 0 THEN 0 ELSE n)
          /\ ph' = (IF n > itmax THEN "refused" ELSE "top")
Report == CASE T.end = "in"  -> Success(T.ret, T.itmax)
            [] T.end \in {"out", "nan"} -> ~Success(T.ret, T.itmax)
            [] OTHER -> TRUE
Kept == (T.start = "in" /\ T.keeps) => T.end \in {"in", "edge"} /\ Success(T.ret, T.itmax)
Norm == T.same
Clean == T.temps /\ T.others /\ T.heap <= 0
End == /\ Mode = "check" /\ ph = "top" /\ k = Len(T.ev) /\ UNCHANGED <<t, k, itmax, apps, pres, it, met, temps>>
       /\ ret' = T.ret /\ ph' = (IF Report /\ Norm /\ Clean /\ Kept THEN "over" ELSE "refused")
(* ---------------------------------------------------------------------- the tests *)
Krylov == {"bicgstab"}
Others == {"sor", "sor_sorted", "wt", "bi_sor", "bi_sor_sorted", "bi_jacobi", "bi_block", "bi_block_qr"}
Pre == {"I", "diag", "zero", "nan", "odd"}
Test(s, sh, v, A, b, x, m, tl, p, nat, om) == [s |-> s, shape |-> sh, nv |-> v, A |-> A, b |-> b, x |-> x, itmax |-> m, tol |-> tl, pre |-> p, nanat |-> nat, omega |-> om, sub |-> <<1, 1, 1>>]
Dense(a) == {<<i, j, a[i][j]>> : i \in DOMAIN a, j \in DOMAIN a} 
Nz(S) == {e \in S : e[3] # 0}
Two == [1..2 -> [1..2 -> -1..2]]
Sh2 == {<<<<2, 1, 1>>>>, <<<<1, 1, 1>>, <<1, 1, 1>>>>}
Rnd(z) == LET nb == RandomElement(1..3)  sh == [i \in 1..nb |-> <<RandomElement(1..3), RandomElement(1..2), RandomElement(1..2)>>]
              v == RandomElement(1..2)  n == v * MapThenSumSet(LAMBDA i : sh[i][1] * sh[i][2] * sh[i][3], 1..nb)
              fill == RandomElement({0, 1, 3, 10})  sing == RandomElement({0, 0, 0, 1})  dom == RandomElement({0, 0, 2, 8})  big == RandomElement({1, 2, 5})
              s == RandomElement(Krylov \cup Others)
              A == {<<i, j, (IF i = j THEN dom ELSE 0) + RandomElement((0 - big)..big)>> : i \in 1..n, j \in {q \in 1..n : RandomElement(1..10) <= fill}}
              D == {<<i, i, dom + RandomElement(1..big)>> : i \in 1..n}
              E == {e \in A : e[1] # e[2]} \cup D
              F == {e \in E : sing = 0 \/ e[1] # 1}
              su == RandomElement({<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>, <<2, 2, 1>>}) IN
          [Test(s, sh, v, Nz(F), [i \in 1..n |-> RandomElement({0, 1, -2, 3})], [i \in 1..n |-> RandomElement({0, 0, 1})], RandomElement({0, 1, 2, 3, 10, 60, 300}),
               RandomElement({"0", "1e-12", "1e-8", "1e-3", "0.3", "2", "1e9", "-1", "nan"}), IF s \in Krylov THEN RandomElement(Pre) ELSE "I",
               IF s \in Krylov THEN RandomElement({0, 0, 1, 2, 3, 4, 7}) ELSE 0, RandomElement({"1", "1.5", "0.7"}))
            EXCEPT !.sub = IF \A i \in 1..nb : \A q \in 1..3 : sh[i][q] >= su[q] THEN su ELSE <<1, 1, 1>>]
(* successive over-relaxation divides by the diagonal *)
Fit(c) == c.s \notin {"sor", "sor_sorted", "bi_sor", "bi_sor_sorted"} \/ \A i \in 1..Len(c.b) : \E e \in c.A : e[1] = i /\ e[2] = i
Gen == /\ Mode = "gen" /\ ph = "begin" /\ ph' = "over" /\ UNCHANGED <<k, it, itmax, apps, pres, met, temps, ret>>
       /\ CASE Family = "two" -> \E a \in Two, b \in {<<1, 0>>, <<1, 2>>}, x \in {<<0, 0>>, <<1, -1>>}, m \in {0, 1, 2, 9}, tl \in {"1e-9", "0.6"}, p \in {"I", "diag"} :
                        t' = Test("bicgstab", <<<<2, 1, 1>>>>, 1, Nz(Dense(a)), b, x, m, tl, p, 0, "1")
            [] Family = "nan" -> \E a \in [1..2 -> [1..2 -> {-1, 1}]], m \in {0, 1, 3}, p \in Pre, j \in 0..5, x \in {<<0, 0>>, <<1, 0>>} :
                        t' = Test("bicgstab", <<<<1, 1, 1>>, <<1, 1, 1>>>>, 1, Dense(a), <<1, 0>>, x, m, "1e-9", p, j, "1")
            [] Family = "others" -> \E a \in Two, s \in Others, m \in {0, 1, 8}, tl \in {"1e-9", "1.5"}, sh \in Sh2 :
                        LET c == Test(s, sh, 1, Nz(Dense(a)), <<1, 2>>, <<1, -1>>, m, tl, "I", 0, "1") IN Fit(c) /\ t' = c
            [] OTHER -> \E i \in 1..Many : \E c \in {Rnd(i)} : Fit(c) /\ t' = c @@ [nr |-> i]
Init == /\ k = 0 /\ it = 0 /\ apps = 0 /\ pres = 0 /\ met = "out" /\ ret = 77
        /\ CASE Mode = "model" -> t = 0 /\ itmax \in 0..3 /\ ph = "begin" /\ temps = FALSE
             [] Mode = "gen" -> t = 0 /\ itmax = 0 /\ ph = "begin" /\ temps = FALSE
             [] OTHER -> t \in 1..Len(Traces) /\ itmax = Traces[t].itmax /\ ph = "top" /\ temps = FALSE
Next == (Mode = "model" /\ (Begin \/ Top \/ Half)) \/ Gen \/ See \/ End
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------------------ what holds *)
True == (Mode = "model" /\ ph = "over") => (Success(ret, itmax) <=> met = "in")
NoMore == Mode = "model" => it <= itmax /\ apps <= 1 + 2 * it /\ pres <= 2 * it
Released == (Mode = "model" /\ ph = "over") => ~temps
Halts == <>(ph \in {"over", "refused"})
Emit == ((Mode = "gen" /\ ph = "over") => PrintT("@@" \o ToJson(t)))
        /\ ((Mode = "check" /\ ph \in {"over", "refused"}) => PrintT("@@" \o ToJson([t |-> t, k |-> k, fate |-> ph, why |-> IF ph = "over" \/ k < Len(T.ev) THEN "" ELSE IF ~Report THEN "report" ELSE IF ~Norm THEN "norm" ELSE IF ~Clean THEN "clean" ELSE "kept"])))
===============================================================================
