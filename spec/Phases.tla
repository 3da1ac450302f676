------------------------------- MODULE Phases -------------------------------
(* The schedule of a program: which registered functions are called, when,    *)
(* with which iteration number and time, for a program of several runs        *)
(* (lines of an argument file, positions of a parameter scan, a resumed run), *)
(* while functions change the limits, register further functions or fail.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Family,      \* which set of programs: "two", "acts", "random"
          MaxActs
VARIABLES cfg,         \* the program
          funs,        \* phase -> names of its functions in the order of registration
          par,         \* parameters in force: n, ft, dt
          line, pos,   \* number of the argument line, position in the scan
          stage, ph, i,\* where we are: phase and index of the next function in it
          it, dt,      \* iteration, time step of the grid
          mode,        \* "no", "restart", "yes": what is left to do about resuming
          acts, hist, over
vars == <<cfg, funs, par, line, pos, stage, ph, i, it, dt, mode, acts, hist, over>>
Setup == <<"POST_PARAMETERS", "PRE_GRID", "POST_GRID", "PRE_COORDINATES", "COORDINATES", "PRE_INITIALDATA", "INITIALDATA", "POST_INITIALDATA",
           "PRE_POST_EVOLVE", "POST_EVOLVE", "ANALYZE", "OUTPUT", "POST_OUTPUT">>
Cycle == <<"PRE_EVOLVE", "EVOLVE", "PRE_POST_EVOLVE", "POST_EVOLVE", "ANALYZE", "OUTPUT", "POST_OUTPUT">>
Finale == <<"PRE_FINALIZE_GRID", "POST_FINALIZE_GRID">>
Phases == {Setup[k] : k \in 1..Len(Setup)} \cup {Cycle[k] : k \in 1..Len(Cycle)} \cup {Finale[k] : k \in 1..Len(Finale)} \cup {"LAST"}
NoGrid == {"POST_PARAMETERS", "PRE_GRID", "POST_FINALIZE_GRID", "LAST"}
(* ---- programs.  times in eighths; funs: sequence of phases; lines: runs from an argument file; scan: positions; ck: iteration of the
   checkpoint there is (0: none), rit: checkpoint_restart_it *)
P0 == [funs |-> <<>>, n |-> 2, ft |-> 0, dt |-> 4, lines |-> 1, scan |-> 0, ck |-> 0, rit |-> 1]
Order == SetToSeq(Phases)
Two == {[P0 EXCEPT !.funs = <<a>>] : a \in Phases} \cup {[P0 EXCEPT !.funs = <<a, b>>] : a, b \in Phases} \cup {[P0 EXCEPT !.funs = <<a, b, a>>, !.n = 1] : a, b \in Phases}
Full == Order \o Order
ActProgs == {[P0 EXCEPT !.funs = Order, !.ck = k, !.rit = r, !.n = 3] : k \in {0}, r \in {1}} \cup {[P0 EXCEPT !.funs = Order, !.ck = k, !.rit = r, !.n = n] : k \in {1, 2}, r \in {0, 1, 2, 0 - 1}, n \in {0, 1, 3}}
  \cup {[P0 EXCEPT !.funs = Order, !.lines = 2, !.scan = s, !.n = 1] : s \in {0, 2}} \cup {[P0 EXCEPT !.funs = Order, !.scan = s, !.n = 1] : s \in {1, 3}}
  \cup {[P0 EXCEPT !.funs = Full, !.ft = f, !.dt = d] : f \in {0, 1, 2, 3, 5, 6, 7, 8, 10, 0 - 4}, d \in {2, 4}}
Rnd(d) == LET R(S) == RandomElement(S)  m == R(0..10)  fam == R({"plain", "resume", "many"}) IN
  [funs |-> [k \in 1..m |-> R(Phases)], n |-> R(0..4), ft |-> R({0, 0, 0, 0 - 3, 1, 3, 7, 9, 14}), dt |-> R({2, 3, 4}),
   lines |-> IF fam = "many" THEN R(1..3) ELSE 1, scan |-> IF fam = "many" THEN R(0..3) ELSE 0,
   ck |-> IF fam = "resume" THEN R(1..4) ELSE 0, rit |-> R({0, 1, 1, 2, 3, 0 - 1})]
Progs == CASE Family = "two" -> Two [] Family = "acts" -> ActProgs [] OTHER -> {Rnd(over)}
Name(k) == "f" \o ToString(k)
Register(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN [p \in Phases |-> <<>>] ELSE [F[k-1] EXCEPT ![s[k]] = Append(@, Name(k))] IN F[Len(s)]
ParOf(c) == [n |-> c.n, ft |-> c.ft, dt |-> c.dt]
Init == /\ cfg = P0 /\ funs = Register(<<>>) /\ par = ParOf(P0) /\ line = 1 /\ pos = 1 /\ stage = 1 /\ ph = "POST_PARAMETERS" /\ i = 1
  /\ it = 0 /\ dt = 0 /\ mode = "no" /\ acts = 0 /\ hist = <<>> /\ over = "new"
(* a program is chosen *)
Choose == over = "new" /\ over' = "" /\ \E c \in Progs :
  /\ cfg' = c /\ funs' = Register(c.funs) /\ par' = ParOf(c) /\ mode' = (IF c.ck > 0 THEN "restart" ELSE "no")
  /\ UNCHANGED <<line, pos, stage, ph, i, it, dt, acts, hist>>
(* ---- what a function may do *)
None == [a |-> "-", v |-> 0, p |-> ""]
SetActs == {[a |-> "n", v |-> v, p |-> ""] : v \in {0, 1, 4}} \cup {[a |-> "ft", v |-> v, p |-> ""] : v \in {0, 3, 6, 14}} \cup {[a |-> "dt", v |-> v, p |-> ""] : v \in {3, 8}}
AddActs == {[a |-> "fun", v |-> 0, p |-> p] : p \in Phases}
ErrActs == {[a |-> "err", v |-> 0, p |-> ""]}
Registered == Len(cfg.funs) + Cardinality({k \in 1..Len(hist) : hist[k].act.a = "fun"})
Deeds ==
  LET sets == IF ph = "LAST" \/ mode # "no" \/ cfg.ck > 0 THEN {} ELSE SetActs      \* no parameters are left then
      adds == IF Registered < 40 THEN AddActs ELSE {} IN
  CASE Family = "two" \/ funs[ph][i] \notin {Name(k) : k \in 1..Len(cfg.funs)} -> {None}
    [] acts >= MaxActs -> {None}
    [] Family = "acts" -> {None} \cup ErrActs \cup (IF Len(cfg.funs) > 20 THEN {} ELSE sets \cup {x \in adds : x.p \in {ph, "ANALYZE", "LAST", "PRE_GRID"}})
    [] OTHER -> IF RandomElement(1..7) > 1 THEN {None} ELSE IF RandomElement(1..8) = 1 THEN ErrActs ELSE IF sets = {} \/ RandomElement(1..3) = 1 THEN {RandomElement(adds)} ELSE {RandomElement(sets)}
(* functions are registered in the first run only *)
Call == over = "" /\ ph # "" /\ i <= Len(funs[ph]) /\ \E x \in Deeds :
  /\ hist' = Append(hist, [ph |-> ph, f |-> funs[ph][i], g |-> ph \notin NoGrid, it |-> it, t |-> it * dt, act |-> x])
  /\ i' = i + 1 /\ acts' = IF x.a = "-" THEN acts ELSE acts + 1
  /\ par' = CASE x.a = "n" -> [par EXCEPT !.n = x.v] [] x.a = "ft" -> [par EXCEPT !.ft = x.v] [] x.a = "dt" -> [par EXCEPT !.dt = x.v] [] OTHER -> par
  /\ funs' = IF x.a = "fun" /\ line = 1 /\ ph # "LAST" THEN [funs EXCEPT ![x.p] = Append(@, Name(Registered + 1))] ELSE funs
  /\ over' = IF x.a = "err" THEN "exit 1" ELSE ""
  /\ UNCHANGED <<cfg, line, pos, stage, ph, it, dt, mode>>
(* ---- the schedule *)
Limit == IF par.ft > 0 THEN (2 * par.ft + dt) \div (2 * dt) ELSE par.n
PhaseOver == over = "" /\ i > Len(funs[ph])
Enter(s, k) == stage' = k /\ ph' = s[k] /\ i' = 1
Resumes == mode = "restart" /\ (it = cfg.rit \/ cfg.rit < 0)
AfterSlice(n) ==       \* after the output of a time slice: resume here, then another cycle or the end
  LET k == IF Resumes THEN cfg.ck ELSE n IN
  /\ it' = k /\ mode' = (IF Resumes THEN "yes" ELSE mode)
  /\ IF k < Limit THEN Enter(Cycle, 1) ELSE Enter(Finale, 1)
Part == IF ph \in {"PRE_FINALIZE_GRID", "POST_FINALIZE_GRID"} THEN "finale" ELSE IF ph = "LAST" THEN "last" ELSE IF stage <= 7 /\ ph = Cycle[stage] THEN "cycle" ELSE "setup"
Same == UNCHANGED <<cfg, funs, acts, hist>>
InSetup == PhaseOver /\ Part = "setup" /\ Same /\ UNCHANGED <<line, pos, over, par>> /\
  IF ph = "POST_OUTPUT" THEN AfterSlice(it) /\ dt' = dt
  ELSE /\ Enter(Setup, stage + 1) /\ UNCHANGED <<it, mode>>
       /\ dt' = IF ph = "PRE_GRID" THEN par.dt ELSE dt                     \* the grid is made
InCycle == PhaseOver /\ Part = "cycle" /\ Same /\ UNCHANGED <<line, pos, over, par, dt>> /\
  CASE ph = "POST_OUTPUT" -> AfterSlice(it)
    [] ph = "POST_EVOLVE" -> Enter(Cycle, stage + 1) /\ it' = it + 1 /\ mode' = mode
    [] OTHER -> Enter(Cycle, stage + 1) /\ UNCHANGED <<it, mode>>
InFinale == PhaseOver /\ Part = "finale" /\ Same /\ UNCHANGED <<over, dt, mode>> /\
  IF ph = "PRE_FINALIZE_GRID" THEN Enter(Finale, 2) /\ UNCHANGED <<line, pos, par, it>>
  ELSE /\ it' = 0
       /\ IF pos < cfg.scan THEN Enter(Setup, 1) /\ pos' = pos + 1 /\ UNCHANGED <<line, par>>
          ELSE IF line < cfg.lines THEN Enter(Setup, 1) /\ pos' = 1 /\ line' = line + 1 /\ par' = ParOf(cfg)
          ELSE stage' = 1 /\ ph' = "LAST" /\ i' = 1 /\ UNCHANGED <<line, pos, par>>
InLast == PhaseOver /\ Part = "last" /\ Same /\ over' = "exit 0" /\ UNCHANGED <<line, pos, par, stage, ph, i, it, dt, mode>>
Next == /\ Choose \/ Call \/ InSetup \/ InCycle \/ InFinale \/ InLast
        /\ over' # "" => PrintT("@@" \o ToJson([cfg |-> cfg, hist |-> hist', end |-> over']))
Spec == Init /\ [][Next]_vars
(* ---- properties of the schedule *)
Ev(k) == hist[k]
(* per run, time is iteration times time step; the counter only rises by one, within one run, between POST_EVOLVE and ANALYZE, or by resuming *)
Counts == [][ it' # it => \/ (ph = "POST_EVOLVE" /\ it' = it + 1) \/ (Resumes /\ it' = cfg.ck) \/ (ph = "POST_FINALIZE_GRID" /\ it' = 0) ]_vars
Once == [][ (hist' # hist /\ hist # <<>>) => LET a == hist[Len(hist)] b == hist'[Len(hist')] IN (a.ph = b.ph /\ a.it = b.it /\ a.f = b.f) => Len(funs[a.ph]) = 1 ]_vars
Stops == over = "exit 1" => hist[Len(hist)].act.a = "err"
NeverBeyond == (ph \in {"ANALYZE"} /\ Part = "cycle" /\ acts = 0 /\ cfg.ck = 0) => it <= Limit
LastOnce == Cardinality({k \in 1..Len(hist) : hist[k].ph = "LAST" /\ hist[k].f = Name(1)}) <= 1
==============================================================================
