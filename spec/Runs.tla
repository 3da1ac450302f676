-------------------------------- MODULE Runs --------------------------------
(* Whole runs of sgrid in one place of the file system: what a start does to  *)
(* the output directories of earlier runs, when checkpoints are written, what *)
(* a kill or a failing file operation at any step leaves behind, and how a    *)
(* later run resumes.                                                         *)
(*                                                                            *)
(* One small step of this specification is one step of the program between    *)
(* two points where a crash leaves different things on disk.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Cfgs,        \* vocabulary: sequence of configurations a run may be started with
          MaxHist, MaxLog, MaxIt, Mode, Groups
VARIABLES cur, prev,   \* output directory, its backup: NoDir or [ck, log, par, own]
          run,         \* the running program
          snap,        \* directories when the run began
          safe,        \* a checkpoint has been completed and nobody but the user may lose it
          hist
vars == <<cur, prev, run, snap, safe, hist>>
state == <<cur, prev, run, snap, safe>>
(* ---- vocabularies *)
(* n: iterations, ft: finaltime, dt, dT: in units of 1/40, di: checkpoint_di, rit: checkpoint_restart_it,
   cp: checkpoint_previous, keep: --keep_previous, add: what is saved besides u, ext: verif_r, checkpoint_di
   and checkpoint_previous keep their new values, ck: checkpoint=yes, size: shape of the grid, x: tag kept in parameters p, q, r *)
C(x) == [n |-> 3, ft |-> 0, dt |-> 5, dT |-> 0, di |-> 1, rit |-> 1, cp |-> FALSE, keep |-> FALSE, add |-> "none", ext |-> FALSE,
         ck |-> TRUE, size |-> 1, x |-> x, id |-> x, meth |-> "icn"]
VCrash == << [C(1) EXCEPT !.id = 1, !.n = 2], [C(1) EXCEPT !.id = 2, !.n = 3, !.cp = TRUE], [C(1) EXCEPT !.id = 3, !.n = 3, !.keep = TRUE], [C(1) EXCEPT !.id = 4, !.n = 1, !.ck = FALSE] >>
VCrashq == << [C(1) EXCEPT !.id = 1, !.n = 2], [C(1) EXCEPT !.id = 2, !.n = 3, !.cp = TRUE], [C(1) EXCEPT !.id = 3, !.n = 3, !.keep = TRUE] >>
VCrash0 == << [C(1) EXCEPT !.id = 5, !.n = 2, !.rit = 0, !.di = 2], [C(1) EXCEPT !.id = 6, !.n = 3, !.rit = 0 - 1, !.cp = TRUE, !.ext = TRUE], [C(1) EXCEPT !.id = 7, !.n = 2, !.rit = 2] >>
VResume == << [C(1) EXCEPT !.n = 2, !.add = "w"], [C(2) EXCEPT !.n = 4, !.dt = 4, !.di = 2], [C(3) EXCEPT !.n = 3, !.ext = TRUE, !.add = "all", !.di = 3],
              [C(4) EXCEPT !.ft = 22, !.dt = 4, !.rit = 0], [C(5) EXCEPT !.dT = 10, !.rit = 0 - 1, !.n = 1], [C(6) EXCEPT !.n = 4, !.rit = 2, !.di = 0],
              [C(7) EXCEPT !.n = 2, !.size = 2], [C(8) EXCEPT !.n = 4, !.meth = "rk4"] >>
VDirsq == << [C(1) EXCEPT !.n = 0, !.ck = FALSE], [C(2) EXCEPT !.n = 1, !.ck = FALSE, !.keep = TRUE], [C(3) EXCEPT !.n = 1, !.rit = 0] >>
VDirs == << [C(1) EXCEPT !.n = 0, !.ck = FALSE], [C(2) EXCEPT !.n = 1, !.ck = FALSE, !.keep = TRUE], [C(3) EXCEPT !.n = 1, !.rit = 0],
            [C(4) EXCEPT !.n = 2, !.cp = TRUE], [C(5) EXCEPT !.n = 2, !.keep = TRUE] >>
BigN == {0, 1, 2, 3, 5, 8}
(* in random mode any configuration at all *)
AnyCfg(d) == LET R(S) == RandomElement(S) IN
  [n |-> R(BigN), ft |-> R({0, 0, 0, 11, 25}), dt |-> R({5, 5, 4}), dT |-> R({0, 0, 0, 7, 20}), di |-> R({1, 1, 2, 3, 5, 0}), rit |-> R({1, 1, 1, 0, 2, 0 - 1, 3}),
   cp |-> R(BOOLEAN), keep |-> R({TRUE, FALSE, FALSE}), add |-> R({"none", "w", "all"}), ext |-> R(BOOLEAN), ck |-> R({TRUE, TRUE, TRUE, TRUE, FALSE}),
   size |-> R({1, 1, 1, 1, 1, 1, 2}), x |-> R(1..9), id |-> Len(hist) + 1, meth |-> R({"icn", "icn", "rk4", "rk5", "euler"})]
(* ---- *)
NoDir == [on |-> FALSE]
NoCk == [on |-> FALSE]
Fresh == [on |-> TRUE, ck |-> NoCk, log |-> <<>>, par |-> 0, own |-> {}]
HasCk(d) == d.on /\ d.ck.on
Idle == [pc |-> "idle"]
Keep(h) == IF Mode = "edges" THEN <<>> ELSE h
G(x) == x \in Groups
Live == Len(hist) < MaxHist
Saved(c) == [di |-> c.di, rit |-> c.rit, cp |-> c.cp, add |-> c.add, dT |-> c.dT, dt |-> c.dt, q |-> c.x, p |-> c.x, r |-> c.x, size |-> c.size, meth |-> c.meth]
(* run: pc, c (configuration it was started with), a (parameters in force), it, tok (what u is: after how many steps of which dt and method),
   w (accumulator), z (set once), n, ft (limits in force), mode (what parameter checkpoint says), f (fault so far), ev (events) *)
Disk == UNCHANGED <<cur, prev>>
Same == UNCHANGED <<snap, safe, hist>>
(* the end of a run is what the user sees and what is logged *)
End(code, f, cur1, prev1, saf) ==
  /\ cur' = cur1 /\ prev' = prev1 /\ run' = Idle /\ safe' = saf
  /\ snap' = <<cur1, prev1, saf>>
  /\ hist' = Append(Keep(hist), [op |-> "run", cfg |-> run.c, f |-> f, code |-> code, ev |-> run.ev, cur |-> cur1, prev |-> prev1])
Kill(op, nr, win) == G("kill") /\ run.f = "-" /\ End("sig 9", "kill," \o op \o "," \o nr \o "," \o win, cur, prev, safe)
Torn(nr, win) == G("kill") /\ run.f = "-" /\ End("sig 9", "torn,write," \o nr \o "," \o win, cur, prev, safe)
KillAfter(op, nr, win) == G("kill") /\ run.f = "-" /\ End("sig 9", "after," \o op \o "," \o nr \o "," \o win, cur, prev, safe)
FailExit(how, op, nr, win) == G("fail") /\ run.f = "-" /\ End("exit 1", how \o "," \o op \o "," \o nr \o "," \o win, cur, prev, safe)
At(pc) == run.pc = pc
Go(pc) == run' = [run EXCEPT !.pc = pc]
It == ToString(run.at)
(* ---- the start *)
Begin == At("idle") /\ Live /\ Len(IF cur.on THEN cur.log ELSE <<>>) <= MaxLog /\ (\A d \in {cur, prev} : HasCk(d) => d.ck.it <= MaxIt)
  /\ \E c \in (IF G("any") THEN {AnyCfg(cur)} ELSE {Cfgs[i] : i \in 1..Len(Cfgs)}) :
     run' = [pc |-> "start", c |-> c, a |-> Saved(c), it |-> 0, at |-> 0, tok |-> <<>>, w |-> 0, z |-> 0, n |-> c.n, ft |-> c.ft, mode |-> IF c.ck THEN "yes" ELSE "no", f |-> "-", rat |-> 0 - 1, ev |-> <<>>]
  /\ snap' = <<cur, prev, safe>> /\ Disk /\ safe' = safe /\ hist' = Keep(hist)
(* there may be important data in the previous directory *)
Refuse == At("start") /\ ~run.c.keep /\ HasCk(prev) /\ ~HasCk(cur) /\ End("exit 1", run.f, cur, prev, safe)
Clear ==
  \/ At("start") /\ ~run.c.keep /\ ~(HasCk(prev) /\ ~HasCk(cur)) /\ prev' = NoDir /\ cur' = cur /\ Go("move") /\ Same
  \/ At("start") /\ run.c.keep /\ Disk /\ Go("mkdir") /\ Same
Move == At("move") /\ prev' = cur /\ cur' = NoDir /\ Go("mkdir") /\ Same
Mkdir == At("mkdir") /\ cur' = (IF cur.on THEN cur ELSE Fresh) /\ prev' = prev /\ Go("copy") /\ Same
CopyPar == At("copy") /\ cur' = [cur EXCEPT !.par = run.c.id] /\ prev' = prev /\ Go("init") /\ Same
CrashStart ==
  \/ At("start") /\ ~run.c.keep /\ ~(HasCk(prev) /\ ~HasCk(cur)) /\ prev.on /\ Kill("remove", "1", "start")
  \/ At("move") /\ Kill("rename", "1", "start")
  \/ At("mkdir") /\ ~run.c.keep /\ (KillAfter("rename", "1", "start") \/ Kill("mkdir", "1", "start"))
  \/ At("copy") /\ ~run.c.keep /\ (KillAfter("mkdir", "1", "start") \/ Kill("open", "1", "start"))
(* the backup cannot be removed: the old output directory is left alone *)
FailStartExit(op, nr, win) == (G("fail") \/ G("sfail")) /\ run.f = "-" /\ End("exit 1", "fail," \o op \o "," \o nr \o "," \o win, cur, prev, safe)
CannotRemove == At("start") /\ (G("fail") \/ G("sfail")) /\ run.f = "-" /\ ~run.c.keep /\ ~(HasCk(prev) /\ ~HasCk(cur)) /\ prev.on /\ prev.par # 0 /\
  IF cur.on THEN End("exit 1", "fail,remove,1,start", cur, prev, safe)
  ELSE Disk /\ Same /\ run' = [run EXCEPT !.pc = "mkdir", !.f = "fail,remove,1,start"]
FailStart ==
  \/ At("move") /\ cur.on /\ FailStartExit("rename", "1", "start")
  \/ At("mkdir") /\ ~cur.on /\ FailStartExit("mkdir", "1", "start")
  \/ At("copy") /\ ~run.c.keep /\ FailStartExit("open", "1", "start")
(* ---- phases *)
Ev(r) == [it |-> r.it, dt |-> r.a.dt, tok |-> r.tok, w |-> r.w, z |-> r.z, p |-> r.a.p, q |-> r.a.q, r |-> r.a.r, size |-> r.c.size]
Report(r, k) == [r EXCEPT !.ev = Append(@, [k |-> k] @@ Ev(r)), !.at = r.it, !.pc = "ck"]
Note(d, r) == IF Mode = "edges" THEN d ELSE [d EXCEPT !.log = Append(@, <<r.a.p, r.it>>)]
(* a resume is prepared before the grid is made, at the first phase *)
Initial == At("init") /\ prev' = prev /\ Same /\
  LET m == IF run.mode = "yes" /\ HasCk(prev) THEN "restart" ELSE run.mode
      r == [run EXCEPT !.mode = m, !.tok = <<run.a.dt, 0, run.a.meth, run.c.size>>, !.w = 1, !.z = run.c.x]
  IN run' = Report(r, "init") /\ cur' = Note(cur, r)
Steps(r) == LET m == IF r.ft > 0 THEN (2 * r.ft + r.a.dt) \div (2 * r.a.dt) ELSE r.n IN m
Step == At("loop") /\ run.it < Steps(run)
  /\ prev' = prev /\ Same
  /\ LET r == [run EXCEPT !.it = @ + 1, !.tok = [@ EXCEPT ![2] = @ + 1], !.w = @ + 1] IN run' = Report(r, "step") /\ cur' = Note(cur, r)
Finish == At("loop") /\ run.it >= Steps(run) /\ End("exit 0", run.f, cur, prev, safe)
(* ---- what happens at the end of an iteration *)
Reads == run.mode = "restart" /\ (run.it = run.a.rit \/ run.a.rit < 0)
Writes == run.mode = "yes" /\ run.a.di > 0 /\ run.it % run.a.di = 0 /\ ~(run.it = 0 /\ run.a.rit > 0)
Skip == At("ck") /\ ~Reads /\ ~Writes /\ Disk /\ Go("loop") /\ Same
(* resuming: everything the checkpoint holds replaces what is there *)
Readable == prev.ck.ok /\ prev.ck.size = run.c.size
Read == At("ck") /\ Reads /\ Readable /\ Disk /\ Go("copyback") /\ Same
(* a checkpoint of another grid is refused, as is one that is not complete *)
Other == At("ck") /\ Reads /\ ~Readable /\ End("exit 1", run.f, cur, prev, safe)
Load == At("copyback") /\ Disk /\ Same /\
  LET k == prev.ck  new == run.a  s == k.a
      a == IF run.c.ext THEN [s EXCEPT !.r = new.r, !.di = new.di, !.cp = new.cp] ELSE s IN
  /\ run' = [run EXCEPT !.pc = IF a.cp \/ run.c.keep THEN "cp" ELSE "rmcur", !.a = a, !.it = k.it, !.tok = k.tok, !.w = IF k.w # 0 THEN k.w ELSE @, !.z = IF k.w # 0 THEN k.z ELSE @,
                        !.mode = "yes", !.rat = run.at, !.ft = IF a.dT > 0 THEN k.it * a.dt + a.dT ELSE @]
(* with a copy: made completely under another name first *)
Cp == At("cp") /\ Disk /\ Go("cpdone") /\ Same
CpSwap == At("cpdone") /\ cur' = NoDir /\ prev' = prev /\ Go("cpmove") /\ Same
CpMove == At("cpmove") /\ cur' = prev /\ prev' = prev /\ Go("loop") /\ Same
(* without: the backup becomes the output directory again *)
RmCur == At("rmcur") /\ cur' = NoDir /\ prev' = prev /\ Go("mvprev") /\ Same
MvPrev == At("mvprev") /\ cur' = prev /\ prev' = NoDir /\ Go("loop") /\ Same
CrashRead ==
  \/ At("cp") /\ (Kill("open", "1", It) \/ Kill("write", "2", It) \/ Torn("3", It) \/ FailExit("fail", "write", "1", It) \/ FailExit("fail", "system", "1", It))
  \/ At("cpdone") /\ KillAfter("system", "1", It)
  \/ At("cpmove") /\ (Kill("rename", "1", It) \/ FailExit("fail", "rename", "1", It))
  \/ At("rmcur") /\ Kill("remove", "1", It)
  \/ At("mvprev") /\ (Kill("rename", "1", It) \/ FailExit("fail", "rename", "1", It))
  \/ At("loop") /\ run.ev # <<>> /\ run.at # run.it /\ KillAfter("rename", "1", It)
(* writing *)
Record == [on |-> TRUE, ok |-> TRUE, it |-> run.it, a |-> run.a, tok |-> run.tok, w |-> IF run.a.add = "none" THEN 0 ELSE run.w, z |-> IF run.a.add = "none" THEN 0 ELSE run.z, size |-> run.c.size]
WOpen == At("ck") /\ Writes /\ Disk /\ Go("wopen") /\ Same
WData == At("wopen") /\ Disk /\ Go("wdata") /\ Same
WClose == At("wdata") /\ Disk /\ Go("wclosed") /\ Same
WRename == At("wclosed") /\ cur' = [cur EXCEPT !.ck = Record] /\ prev' = prev /\ safe' = TRUE /\ Go("wdone") /\ UNCHANGED <<snap, hist>>
WDone == At("wdone") /\ Disk /\ Go("loop") /\ Same
(* the new file cannot be moved: the old one stays, the run goes on *)
WStay == At("wclosed") /\ run.rat # run.at /\ G("fail") /\ run.f = "-" /\ Disk /\ run' = [run EXCEPT !.pc = "loop", !.f = "fail,rename,1," \o It] /\ Same
(* faults are counted per iteration: the one where the run resumed is taken *)
CrashWrite == ~At("idle") /\ run.rat # run.at /\
  \/ At("wopen") /\ (Kill("open", "1", It) \/ KillAfter("open", "1", It) \/ FailExit("fail", "open", "1", It))
  \/ At("wdata") /\ (Kill("write", "1", It) \/ Torn("1", It) \/ Torn("3", It) \/ Kill("write", "4", It) \/ Kill("close", "1", It)
                     \/ FailExit("fail", "write", "1", It) \/ FailExit("full", "write", "2", It) \/ FailExit("full", "write", "4", It) \/ FailExit("fail", "close", "1", It))
  \/ At("wclosed") /\ (KillAfter("close", "1", It) \/ Kill("rename", "1", It))
  \/ At("wdone") /\ KillAfter("rename", "1", It)
(* ---- what the user does between runs *)
User(op, c1, p1, s1) == At("idle") /\ Live /\ cur' = c1 /\ prev' = p1 /\ run' = Idle /\ safe' = s1 /\ snap' = <<c1, p1, s1>>
  /\ hist' = Append(Keep(hist), [op |-> op, cur |-> c1, prev |-> p1])
Recover == G("recover") /\ prev.on /\ User("recover", prev, NoDir, HasCk(prev))                  \* rm -rf a; mv a_previous a
DropAll == G("drop") /\ (cur.on \/ prev.on) /\ User("dropall", NoDir, NoDir, FALSE)
DropPrev == G("drop") /\ prev.on /\ User("dropprev", cur, NoDir, HasCk(cur))
Leave == G("leave") /\ cur.on /\ 1 \notin cur.own /\ User("leave", [cur EXCEPT !.own = @ \cup {1}], prev, safe)   \* a file and a directory of the user's own in the output directory
LeavePrev == G("leave") /\ prev.on /\ 2 \notin prev.own /\ User("leaveprev", cur, [prev EXCEPT !.own = @ \cup {2}], safe)
\* what is left of the checkpoint in the output directory is not all of it
Damage(k) == G("damage") /\ HasCk(cur) /\ cur.ck.ok /\ cur' = [cur EXCEPT !.ck.ok = FALSE] /\ prev' = prev /\ run' = Idle /\ safe' = FALSE /\ snap' = <<cur', prev, FALSE>>
  /\ At("idle") /\ Live /\ hist' = Append(Keep(hist), [op |-> "damage", n |-> k, cur |-> cur', prev |-> prev])
(* ---- *)
Init == cur = NoDir /\ prev = NoDir /\ run = Idle /\ safe = FALSE /\ snap = <<NoDir, NoDir, FALSE>> /\ hist = <<>>
Normal == Begin \/ Refuse \/ Clear \/ Move \/ Mkdir \/ CopyPar \/ Initial \/ Step \/ Finish \/ Skip \/ Read \/ Other \/ Load \/ Cp \/ CpSwap \/ CpMove \/ RmCur \/ MvPrev
  \/ WOpen \/ WData \/ WClose \/ WRename \/ WDone
Crash == CrashStart \/ FailStart \/ CannotRemove \/ CrashRead \/ CrashWrite \/ WStay
Acts == Recover \/ DropAll \/ DropPrev \/ Leave \/ LeavePrev \/ \E k \in {5, 60, 400} : Damage(k)
Next == /\ Normal \/ Crash \/ Acts
        /\ CASE Mode = "edges" -> (run'.pc = "idle" => PrintT("@@" \o ToJson([f |-> snap, e |-> hist'[1], t |-> snap'])))
             [] Mode = "random" -> (Len(hist') = MaxHist /\ hist' # hist => PrintT("@@" \o ToJson(hist')))
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_vars
(* ---- properties *)
(* P12: once there is a complete checkpoint, no crash, failing operation or new run makes all complete checkpoints vanish *)
NeverLost == safe => HasCk(cur) \/ HasCk(prev)
(* P13: whatever way it came to be, data after k iterations are the data of k uninterrupted steps *)
Continues == run.pc # "idle" /\ run.tok # <<>> => run.tok[2] = run.it
Stored == \A d \in {cur, prev} : HasCk(d) => d.ck.tok[2] = d.ck.it
(* P04: what an earlier run left is not touched before it is under the backup name, and the backup only goes when something took its place *)
Untouched == [][ (cur.on /\ run.pc \in {"start", "move"} /\ ~run.c.keep /\ cur' # cur) => (cur' = NoDir /\ prev' = cur) ]_vars
KeptPrev == [][ (run.pc # "idle" /\ run.c.keep) => prev' = prev ]_vars
Discard == [][ (prev.on /\ run.pc # "idle" /\ prev' # prev) =>
                 \/ run.pc = "start"                       \* an older backup is dropped
                 \/ (run.pc = "mvprev" /\ cur' = prev)     \* the run resumed from it takes it over
             ]_vars
NoCkDropped == [][ (run.pc = "start" /\ HasCk(prev) /\ prev' # prev) => HasCk(cur) ]_vars
==============================================================================
