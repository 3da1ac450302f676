-------------------------------- MODULE Scan --------------------------------
(* Parameter scans: one run for each position of the listed values.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxHist
VARIABLES dirs, prog, hist
vars == <<dirs, prog, hist>>
state == <<dirs, prog>>
(* a program: lists: sequence of [name, vals] (name: iterated parameter), on: iterate_parameters, keep: --keep_previous, opt: list given as an option *)
Vals == {"1", "2", "x", "1.5"}
Names == {"verif_p", "verif_q", "verif_r"}
Lists(L, K) == [1..L -> {}]
Prog(l, on, keep, opt, n) == [lists |-> l, on |-> on, keep |-> keep, opt |-> opt, n |-> n]
List(n, v) == [name |-> n, vals |-> v]
One == {Prog(<<List("verif_p", v)>>, TRUE, FALSE, FALSE, 0) : v \in UNION {[1..k -> {"1", "x"}] : k \in 0..3}}
Two == {Prog(<<List("verif_p", v), List("verif_q", w)>>, TRUE, FALSE, FALSE, 0) : v \in [1..2 -> {"1", "2"}], w \in [1..2 -> {"1", "x"}]}
Odd == {Prog(<<>>, TRUE, FALSE, FALSE, 0), Prog(<<>>, FALSE, FALSE, FALSE, 0), Prog(<<List("nosuch", <<"1">>)>>, TRUE, FALSE, FALSE, 0),
        Prog(<<List("verif_p", <<"1", "2">>)>>, FALSE, FALSE, FALSE, 0), Prog(<<List("verif_q", <<"1", "2">>)>>, TRUE, TRUE, FALSE, 0),
        Prog(<<List("verif_q", <<"2", "1">>)>>, TRUE, FALSE, TRUE, 0), Prog(<<List("iterations", <<"2", "0", "1">>), List("verif_p", <<"a", "b", "c">>)>>, TRUE, FALSE, FALSE, 1)}
R(S) == RandomElement(S)
Some(d) == LET L == R(1..3)  K == R({1, 2, 2, 3, 5})  ns == R({<<"verif_p", "verif_q", "verif_r">>, <<"verif_r", "verif_p", "iterations">>, <<"iterations", "verif_q", "verif_p">>, <<"verif_q", "nosuch", "verif_p">>, <<"verif_q", "verif_r", "verif_p">>}) IN
  Prog([l \in 1..L |-> List(ns[l], [k \in 1..K |-> IF ns[l] = "iterations" THEN R({"0", "1", "2"}) ELSE R({"1", "2", "x", "1.5", "yes", "-3e-5", "long.name.par", "v.par"})])], R(1..8) # 1, R(1..5) = 1, R(1..4) = 1, R(0..2))
Progs(d) == IF Mode = "pairs" THEN One \cup Two \cup Odd ELSE {Some(d)}
(* ---- *)
Refused(p) == p.on /\ (p.lists = <<>> \/ \E l \in 1..Len(p.lists) : p.lists[l].name = "nosuch" \/ p.lists[l].vals = <<>>)
Positions(p) == IF ~p.on THEN 1 ELSE Len(p.lists[1].vals)
RECURSIVE Suffix(_, _, _)
Suffix(ls, k, l) == IF l > Len(ls) THEN "" ELSE "_" \o ls[l].vals[k] \o Suffix(ls, k, l + 1)
Out(p, k) == IF p.on THEN "a" \o Suffix(p.lists, k, 1) ELSE "a"
(* value of parameter n in the k-th run: that of the list, or that of the file *)
ValueOf(p, n, k, d) == LET S == {l \in 1..Len(p.lists) : p.lists[l].name = n} IN IF ~p.on \/ S = {} THEN d ELSE p.lists[CHOOSE l \in S : TRUE].vals[k]
RunOf(p, k) == [p |-> ValueOf(p, "verif_p", k, "pf"), q |-> ValueOf(p, "verif_q", k, "q0"), r |-> ValueOf(p, "verif_r", k, "rf"),
                n |-> ValueOf(p, "iterations", k, ToString(p.n)), out |-> Out(p, k), before |-> IF k = 1 THEN "~" ELSE Out(p, k - 1)]
(* directories: name -> who wrote into it, in order *)
Put(D, n, v) == (n :> v) @@ D
Del(D, S) == [m \in (DOMAIN D) \ S |-> D[m]]
Fresh(D, n, keep) == IF keep THEN (IF n \in DOMAIN D THEN D ELSE Put(D, n, <<>>))
  ELSE LET B == Del(D, {n \o "_previous", n}) IN
       Put(IF n \in DOMAIN D THEN Put(B, n \o "_previous", D[n]) ELSE B, n, <<>>)
Idle == [on |-> FALSE]
Start == ~prog.on /\ Len(hist) < MaxHist /\ \E p \in Progs(dirs) :
  /\ prog' = [on |-> TRUE, p |-> p, k |-> 0, runs |-> <<>>]
  /\ dirs' = Fresh(dirs, "a", p.keep) /\ hist' = hist
Ended(code, D) == prog' = Idle /\ dirs' = D /\ hist' = Append(hist, [p |-> prog.p, runs |-> prog.runs, end |-> code, dirs |-> D])
Refuse == prog.on /\ prog.k = 0 /\ Refused(prog.p) /\ Ended("exit 1", dirs)
Position == prog.on /\ ~Refused(prog.p) /\ prog.k < Positions(prog.p) /\
  LET k == prog.k + 1  r == RunOf(prog.p, k)  D == IF prog.p.on THEN Fresh(dirs, r.out, prog.p.keep) ELSE dirs IN
  /\ prog' = [prog EXCEPT !.k = k, !.runs = Append(@, r)]
  /\ dirs' = [D EXCEPT ![r.out] = Append(@, r.p)] /\ hist' = hist
Finish == prog.on /\ ~Refused(prog.p) /\ prog.k = Positions(prog.p) /\ Ended("exit 0", dirs)
Clean == Mode # "pairs" /\ ~prog.on /\ Len(hist) < MaxHist /\ R(1..6) = 1 /\ dirs # <<>> /\ dirs' = <<>> /\ prog' = prog /\ hist' = Append(hist, [end |-> "clean"])
Init == dirs = <<>> /\ prog = Idle /\ hist = <<>>
Next == /\ Start \/ Refuse \/ Position \/ Finish \/ Clean
        /\ (Len(hist') = MaxHist /\ hist' # hist => PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
(* ---- properties *)
Each == prog.on => /\ \A k \in 1..Len(prog.runs) : \A l \in 1..Len(prog.p.lists) : prog.p.on /\ prog.p.lists[l].name = "verif_p" => prog.runs[k].p = prog.p.lists[l].vals[k]
                   /\ \A k \in 1..Len(prog.runs) : prog.runs[k].out \in DOMAIN dirs
Own == [][ (prog.on /\ prog'.on /\ prog'.k # prog.k) => \A n \in DOMAIN dirs : (dirs[n] # <<>> /\ ~(\E m \in {"_previous"} : \E q \in DOMAIN dirs : n = q \o m) /\ ~prog.p.keep) =>
            (\/ (n \in DOMAIN dirs' /\ dirs'[n] = dirs[n])
             \/ ((n \o "_previous") \in DOMAIN dirs' /\ dirs'[n \o "_previous"] = dirs[n])
             \/ ~prog.p.on) ]_vars
==============================================================================
