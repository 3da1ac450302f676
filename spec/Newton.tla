--------------------------------- MODULE Newton ---------------------------------
(* Newton's method on a grid, F(u) = 0, as the caller sees it: which function it *)
(* calls when, with what, and what it reports.                                   *)
(* "gen":   the whole run, exactly, for steps that are taken in full.  The state *)
(*          of the grid is one number u (all unknowns are multiples of it), F is *)
(*          a table.                                                             *)
(* "search": runs to be made with backtracking, F a formula.                     *)
(* "check": a recorded run must be a behaviour of the machine.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Mode, Family, Many
VARIABLES t, ph, u, du, fu,      \* the test (or number of the trace); where it stands; the unknown, the correction, and what was computed last as F
          it, seen,              \* iterations; the position u at which fu was computed
          lam,                   \* what the last step was: 0 full, -1 none
          solver, alt,           \* linear solver in use (1, 2, 3 = from the list); next in the list
          nlin, nb, ev, ret,
          old, best              \* "check": residual before the step, best seen in the search
vars == <<t, ph, u, du, fu, it, seen, lam, solver, alt, nlin, nb, ev, ret, old, best>>
NaN == 9
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
G(x) == t.g[(((x % Len(t.g)) + Len(t.g)) % Len(t.g)) + 1]
In(f) == f # NaN /\ t.tol2 >= 0 /\ 2 * Abs(f) <= t.tol2
S(x) == ToString(x)
Ev(e) == ev' = Append(ev, e)
FEv(x) == <<"F", x>>
(* -------------------------------------------------------------- what it does, exactly *)
(* evaluate F at the start of an iteration, or a last time when there are no more *)
Eval == /\ ph = "top" /\ UNCHANGED <<t, u, du, lam, solver, alt, nlin, nb, old, best>>
        /\ fu' = G(u) /\ seen' = u /\ Ev(FEv(u))
        /\ IF it >= t.itmax THEN ph' = "over" /\ ret' = it /\ UNCHANGED it
           ELSE IF In(G(u)) THEN ph' = "over" /\ ret' = it /\ UNCHANGED it
           ELSE ph' = "before" /\ UNCHANGED <<ret, it>>
Before == /\ ph = "before" /\ ph' = "linear" /\ UNCHANGED <<t, u, du, fu, it, seen, lam, nlin, ret, old, best>>
          /\ alt' = 1
          /\ IF t.hooks % 2 = 1 THEN Ev(<<"B", lam>>) /\ nb' = nb + 1 ELSE UNCHANGED <<ev, nb>>
          /\ solver' = IF t.hooks % 2 = 1 /\ t.swap > 0 /\ nb + 1 >= t.swap THEN 2 ELSE 1
Tol2 == IF fu = NaN THEN t.lintol2 ELSE Max2(IF t.half THEN Abs(fu) ELSE 0, t.lintol2)
Scripted == /\ ph = "linear" /\ solver < 3 /\ UNCHANGED <<t, u, fu, it, seen, lam, solver, alt, nb, ret, old, best>>
            /\ LET s == t.script[(nlin % Len(t.script)) + 1] IN
               /\ Ev(<<"L", solver, u, fu, Tol2>>) /\ nlin' = nlin + 1
               /\ du' = s[2] /\ ph' = (IF s[1] >= 0 THEN "step" ELSE "failed")
(* the real bicgstab solves 1 du = fu in half an iteration, starting from du = 0 *)
Listed == /\ ph = "linear" /\ solver = 3 /\ UNCHANGED <<t, u, fu, it, seen, lam, solver, alt, nlin, nb, ret, old, best>>
          /\ IF fu = NaN THEN ph' = "unknown" /\ UNCHANGED <<du, ev>>
             ELSE IF 2 * Abs(fu) <= Tol2 THEN ev' = Append(ev, <<"J", du>>) /\ du' = 0 /\ ph' = "step"
             ELSE ev' = ev \o <<<<"J", 0>>, <<"P">>, <<"Jx">>>> /\ du' = fu /\ ph' = "step"
Worse(a, b) == b # NaN /\ a # NaN /\ Abs(a) >= Abs(b)
Step == /\ ph = "step" /\ u' = u - du /\ UNCHANGED <<t, it, alt, solver, nlin, nb, ret, old, best>>
        /\ lam' = 0 /\ du' = 0
        /\ LET ends == IF t.jend THEN <<<<"J", 0>>>> ELSE <<>> IN
           IF t.back THEN fu' = G(u - du) /\ seen' = u - du /\ ev' = ev \o <<FEv(u - du)>> \o ends /\ ph' = (IF Worse(G(u - du), fu) THEN "unknown" ELSE "stuck?")
           ELSE UNCHANGED <<fu, seen>> /\ ev' = ev \o ends /\ ph' = "stuck?"
Failed == /\ ph = "failed" /\ du' = 0 /\ lam' = -1 /\ ph' = "stuck?" /\ UNCHANGED <<t, u, fu, it, seen, alt, solver, nlin, nb, ret, old, best>>
          /\ (IF t.jend THEN Ev(<<"J", 0>>) ELSE UNCHANGED ev)
Stuck == (lam = -1) \/ t.wide
Local == /\ ph = "stuck?" /\ UNCHANGED <<t, u, du, lam, nlin, nb, ret, old, best>>
         /\ it' = IF Stuck /\ t.quit THEN t.itmax ELSE it
         /\ IF Stuck /\ t.another /\ alt <= Len(t.list)
            THEN alt' = alt + 1 /\ solver' = 3 /\ ph' = "linear" /\ fu' = G(u) /\ seen' = u /\ Ev(FEv(u))       \* for the linear equations at the present state
            ELSE ph' = "after" /\ UNCHANGED <<alt, solver, fu, seen, ev>>
After == /\ ph = "after" /\ it' = it + 1 /\ ph' = "top" /\ UNCHANGED <<t, u, du, fu, seen, lam, solver, alt, nlin, nb, ret, old, best>>
         /\ IF t.hooks >= 2 THEN Ev(<<"A", u>>) ELSE UNCHANGED ev
(* ------------------------------------------------------------------------ the traces *)
Traces == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACES) ELSE <<>>
T == Traces[t]
E == T.ev[seen + 1]
More == seen < Len(T.ev)
(* numbers in traces are ranks; events: [k |-> kind, at |-> position, f |-> residual (NaN: -1), ok |-> what the recorder checked] *)
CTop == /\ ph = "top" /\ More /\ E.k = "F" /\ E.ok /\ seen' = seen + 1 /\ fu' = E.f /\ u' = E.at
        /\ (it > 0 => E.at = u)                                       \* the state is the one the last step left
        /\ ph' = (IF it >= T.itmax \/ (E.f >= 0 /\ E.f <= T.tol) THEN "end" ELSE "linear")
        /\ UNCHANGED <<t, du, it, lam, solver, alt, nlin, nb, ev, ret, old, best>>
CLin == /\ ph = "linear" /\ More /\ E.k = "L" /\ E.ok /\ E.at = u /\ E.f = fu /\ seen' = seen + 1 /\ old' = fu /\ best' = -1 /\ nb' = 0
        /\ ph' = (IF E.ret >= 0 THEN "step" ELSE "failed") /\ lam' = E.full /\ UNCHANGED <<t, u, du, fu, it, solver, alt, nlin, ev, ret>>
(* the full step is tried first *)
CFull == /\ ph = "step" /\ T.back /\ More /\ E.k = "F" /\ E.ok /\ E.at = lam /\ seen' = seen + 1 /\ best' = E.f /\ UNCHANGED nb
         /\ u' = E.at /\ ph' = (IF (E.f >= 0 /\ old >= 0 /\ E.f >= old) \/ T.optimal THEN "search" ELSE "reset")
         /\ UNCHANGED <<t, du, fu, it, lam, solver, alt, nlin, ev, ret, old>>
CSearch == /\ ph = "search" /\ More /\ E.k = "F" /\ E.ok /\ seen' = seen + 1 /\ UNCHANGED <<t, ph, u, du, fu, it, lam, solver, alt, nlin, nb, ev, ret, old>>
           /\ best' = (IF E.f < 0 THEN best ELSE IF best < 0 \/ E.f < best THEN E.f ELSE best)
(* the correction is cleared, which ends the step; then the state the step left is looked at *)
CReset == /\ (ph \in {"search", "reset", "failed"} \/ (ph = "step" /\ ~T.back))
          /\ More /\ E.k = "J" /\ E.ok /\ seen' = seen + 1 /\ ph' = (IF ph = "search" THEN "found" ELSE IF ph = "failed" THEN "same" ELSE "moved")
          /\ UNCHANGED <<t, u, du, fu, it, lam, solver, alt, nlin, nb, ev, ret, old, best>>
CAfter == /\ ph \in {"found", "same", "moved"} /\ More /\ E.k = "A" /\ E.ok /\ seen' = seen + 1 /\ it' = it + 1
          /\ u' = E.at /\ ph' = "top" /\ UNCHANGED <<t, du, fu, lam, solver, alt, nlin, nb, ev, ret, old, best>>
          /\ (ph = "same" => E.at = u)
          /\ (ph = "moved" => E.at = lam)
          /\ (ph = "found" /\ best >= 0 => E.f = best)                       \* the best of all that were tried
CEnd == /\ ph = "end" /\ ~More /\ UNCHANGED <<t, u, du, fu, it, seen, lam, solver, alt, nlin, nb, ev, old, best>>
        /\ ret' = T.ret /\ ph' = (IF T.ret = it /\ T.clean /\ T.norm = fu /\ T.at = u THEN "over" ELSE "refused")
(* ------------------------------------------------------------------------- the tests *)
Shapes == {<<<<2, 1, 1>>>>, <<<<1, 1, 1>>, <<2, 1, 1>>>>}
Base == [shape |-> <<<<1, 1, 1>>, <<2, 1, 1>>>>, nv |-> 2, u0 |-> 0, hooks |-> 3, swap |-> 0, back |-> FALSE, jend |-> TRUE, quit |-> FALSE, another |-> FALSE, escape |-> FALSE, wide |-> FALSE, list |-> <<>>, half |-> TRUE, lintol2 |-> 1, tol2 |-> 3, linit |-> 5]
Scr == {<<0, 1>>, <<7, -1>>, <<-1, 2>>, <<2, 0>>}
Small == \E g \in [1..3 -> {1, -1, 2, NaN}], s \in [1..2 -> Scr], m \in {0, 1, 3}, q \in BOOLEAN, an \in BOOLEAN, w \in BOOLEAN, b \in BOOLEAN :
           t' = [g |-> g, script |-> s, itmax |-> m, quit |-> q, another |-> an, wide |-> w, back |-> b, list |-> IF an THEN <<"bicgstab">> ELSE <<>>] @@ Base
Rnd(z) == LET an == RandomElement({TRUE, FALSE}) IN
          [shape |-> RandomElement(Shapes), nv |-> RandomElement(1..3), u0 |-> RandomElement(-3..3), hooks |-> RandomElement({2, 3}), swap |-> RandomElement({0, 0, 1, 2, 3}), back |-> RandomElement(BOOLEAN), jend |-> RandomElement({TRUE, TRUE, FALSE}),
           quit |-> RandomElement({FALSE, FALSE, TRUE}), another |-> an, escape |-> RandomElement({FALSE, FALSE, TRUE}), wide |-> RandomElement({FALSE, FALSE, TRUE}), list |-> IF an THEN RandomElement({<<>>, <<"bicgstab">>, <<"bicgstab", "bicgstab">>, <<"bicgstab", "bicgstab", "bicgstab">>}) ELSE <<>>,
           half |-> RandomElement(BOOLEAN), lintol2 |-> RandomElement({1, 3, 1, 7}), tol2 |-> RandomElement({3, 1, 0, -1, 5}), linit |-> RandomElement({1, 5, 20}),
           g |-> [i \in 1..RandomElement(2..6) |-> RandomElement({1, 2, 3, 4, -2, -5, 6, NaN, 0})], script |-> [i \in 1..RandomElement(1..4) |-> <<RandomElement({0, 1, 2, 50, -1, -11}), RandomElement(-3..3)>>], itmax |-> RandomElement({0, 1, 2, 3, 5, 8, 12})]
Take == /\ Mode = "gen" /\ ph = "begin" /\ UNCHANGED <<du, it, lam, alt, nlin, nb, ev, ret, old, best, fu, seen>> /\ solver' = 1
        /\ IF Family = "small" THEN Small /\ u' = 0 /\ ph' = "top" ELSE \E i \in 1..Many : \E c \in {Rnd(i)} : t' = c /\ u' = c.u0 /\ ph' = "top"
Forms == {"line:2:1", "line:-0.5:3", "quad:1:-2", "quad:1:1", "cube:2:2", "cube:2:-5", "exp:1:2", "exp:-3:0.01", "exp:2:-1", "atan:1:0", "atan:5:1", "step:0.3:2:-1", "step:1:1:3", "abs:0.7:0.1", "abs:-2:0", "root:-1:0.5", "root:0:3", "root:-4:-1", "osc:1:0.5", "osc:3:10", "wells:0:1", "wells:0.5:-0.3", "wells:0:-1.1", "const:1", "const:0"}
Look(z) == [g |-> RandomElement(Forms), shape |-> RandomElement(Shapes), nv |-> RandomElement(1..3), u0 |-> RandomElement({"0", "1", "-2.5", "0.3", "3", "10", "-0.01"}), itmax |-> RandomElement({0, 1, 2, 4, 7, 12}), tol |-> RandomElement({"1e-9", "1e-3", "0", "-1", "0.5", "nan"}),
            mode |-> RandomElement({"backtrack", "backtrack%20optimal", "full"}), script |-> [i \in 1..RandomElement(1..3) |-> <<RandomElement({0, 3, 5, 1, 99, -1}), RandomElement({"n1", "n1", "n2", "n0.3", "n-1", "1", "-1", "0", "0.1", "30"})>>]]
Search == /\ Mode = "search" /\ ph = "begin" /\ ph' = "over" /\ UNCHANGED <<u, du, it, lam, solver, alt, nlin, nb, ev, ret, old, best, fu, seen>>
          /\ \E i \in 1..Many : \E c \in {Look(i)} : t' = c @@ [nr |-> i]
Init == /\ du = 0 /\ it = 0 /\ lam = 0 /\ alt = 1 /\ nlin = 0 /\ nb = 0 /\ ev = <<>> /\ ret = 77 /\ old = 0 /\ best = 0 /\ fu = 0 /\ seen = 0 /\ solver = 0 /\ u = 0
        /\ IF Mode = "check" THEN t \in 1..Len(Traces) /\ ph = "top" ELSE t = 0 /\ ph = "begin"
Next == Take \/ Search \/ (Mode = "gen" /\ (Eval \/ Before \/ Scripted \/ Listed \/ Step \/ Failed \/ Local \/ After)) \/ (Mode = "check" /\ (CTop \/ CLin \/ CFull \/ CSearch \/ CReset \/ CAfter \/ CEnd))
Done == Mode = "gen" /\ ph \in {"over", "unknown"} /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars          \* every run ends: no deadlock elsewhere, and the iterations are bounded
(* ------------------------------------------------------------------------- what holds *)
Truthful == (Mode = "gen" /\ ph = "over") => /\ (ret < t.itmax => In(fu))
                                            /\ seen = u /\ fu = G(u)
Bounded == (Mode = "gen" /\ ph # "begin") => it <= t.itmax + 1 /\ nb <= t.itmax
Present == (Mode = "gen" /\ ph = "linear") => seen = u /\ fu = G(u)      \* linear equations are solved for the present state
Emit == /\ (Mode = "gen" /\ ph = "over" => PrintT("@@" \o ToJson([t |-> t, ev |-> ev, ret |-> ret, u |-> u, fu |-> fu])))
        /\ (Mode = "search" /\ ph = "over" => PrintT("@@" \o ToJson(t)))
        /\ (Mode = "check" /\ ph \in {"over", "refused"} => PrintT("@@" \o ToJson([t |-> t, fate |-> ph])))
===============================================================================
