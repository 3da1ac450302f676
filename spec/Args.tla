-------------------------------- MODULE Args --------------------------------
(* What the words on the command line, or the lines of an argument file, mean *)
(* for the parameters of the runs they start.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vocab,      \* words (direct), or pieces of the text of an argument file
          Way,        \* "direct" or "file"
          MaxLen
VARIABLES words, text, dead
vars == <<words, text, dead>>
VDirect == << "--keep_previous", "--foo", "w1", "--modify-par:verif_p=1", "--modify-par:verif_p=two words", "--modify-par:verif_q=a=b", "--modify-par:verif_p=",
              "--modify-par:verif_pq=9", "--modify-par:outdir=zz", "-x", "-", "--modify-par:verif_q", "--modify-par:=3", "--modify-par:verif_q=x--modify-par:verif_p=y",
              "--modify-par:verif_q= lead", "", "--" >>
VDirectq == << "--keep_previous", "w1", "--modify-par:verif_p=1", "--modify-par:verif_p=two words", "--modify-par:verif_q=a=b",
              "--modify-par:verif_pq=9", "--modify-par:outdir=zz", "-x", "--modify-par:verif_q", "--modify-par:verif_q=x--modify-par:verif_p=y" >>
VFile == << "a.par", "b", "--modify-par:verif_p=1", " ", "\n", "#" >>
(* ---- strings *)
Prefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ch(s, k) == SubSeq(s, k, k)
FirstEq(s, from) == LET S == {k \in from..Len(s) : Ch(s, k) = "="} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
RECURSIVE Split(_, _, _, _)
\* pieces of s between separators; keep tells whether empty pieces count
Split(s, sep, keep, acc) ==
  LET S == {k \in 1..Len(s) : Ch(s, k) = sep} IN
  IF S = {} THEN (IF keep \/ s # "" THEN Append(acc, s) ELSE acc)
  ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j  p == SubSeq(s, 1, k - 1) IN
       Split(SubSeq(s, k + 1, Len(s)), sep, keep, IF keep \/ p # "" THEN Append(acc, p) ELSE acc)
(* ---- one run *)
Mod == "--modify-par:"
IsOpt(w) == Prefix(w, "-")
BadOpt(w) == IsOpt(w) /\ (\/ Len(w) = 1 \/ Ch(w, 2) # "-"
                          \/ Prefix(w, Mod) /\ FirstEq(w, Len(Mod) + 1) \in {0, Len(Mod) + 1})
ModName(w) == SubSeq(w, Len(Mod) + 1, FirstEq(w, Len(Mod) + 1) - 1)
ModVal(w) == SubSeq(w, FirstEq(w, Len(Mod) + 1) + 1, Len(w))
ParFiles == {"a.par", "b.par"}
HasPar(s) == \E k \in 1..Len(s) : k + 3 <= Len(s) /\ SubSeq(s, k, k + 3) = ".par"
EndsPar(s) == Len(s) > 4 /\ SubSeq(s, Len(s) - 3, Len(s)) = ".par"
FileOf(w) == IF EndsPar(w) THEN w ELSE w \o ".par"
Defaults(f) == [verif_p |-> "file " \o f, verif_q |-> "q0", verif_pq |-> "~", outdir |-> SubSeq(f, 1, Len(f) - 4), sgrid_options |-> "~", sgrid_arg2 |-> "~", sgrid_arg3 |-> "~"]
RECURSIVE Apply(_, _, _)
Apply(P, ws, n) ==      \* n: number of plain arguments so far
  IF ws = <<>> THEN P
  ELSE LET w == Head(ws) IN
    IF ~IsOpt(w) THEN Apply(IF n < 2 THEN [P EXCEPT ![IF n = 0 THEN "sgrid_arg2" ELSE "sgrid_arg3"] = w] ELSE P, Tail(ws), n + 1)
    ELSE LET Q == [P EXCEPT !.sgrid_options = IF @ = "~" THEN w ELSE @ \o " " \o w] IN
         Apply(IF Prefix(w, Mod) THEN [Q EXCEPT ![ModName(w)] = ModVal(w)] ELSE Q, Tail(ws), n)
Refused == [ok |-> FALSE]
Run(ws) ==      \* ws: parameter file and arguments
  IF ws = <<>> THEN Refused
  ELSE IF (\E k \in 2..Len(ws) : BadOpt(ws[k])) \/ FileOf(ws[1]) \notin ParFiles THEN Refused
  ELSE LET P == Apply(Defaults(FileOf(ws[1])), Tail(ws), 0) IN
       [ok |-> TRUE, par |-> P, keep |-> \E k \in 2..Len(ws) : ws[k] = "--keep_previous"]
(* ---- an argument file: lines that are empty or comments do not count *)
NoWords(l) == \A k \in 1..Len(l) : Ch(l, k) = " "
LinesOf(t) == SelectSeq(Split(t, "\n", FALSE, <<>>), LAMBDA l : ~NoWords(l) /\ ~Prefix(l, "#"))
RECURSIVE Program(_)
\* the runs that happen, and how it ends
Program(ls) ==
  IF ls = <<>> THEN [runs |-> <<>>, end |-> "exit 0"]
  ELSE LET r == Run(Head(ls)) IN
    IF ~r.ok THEN [runs |-> <<>>, end |-> "exit 1"]
    ELSE LET p == Program(Tail(ls)) IN [runs |-> <<r>> \o p.runs, end |-> p.end]
Outcome == IF Way = "direct" THEN Program(<<words>>)
           ELSE LET ls == LinesOf(text) IN IF ls = <<>> THEN Program(<< <<>> >>) ELSE Program([k \in 1..Len(ls) |-> Split(ls[k], " ", FALSE, <<>>)])
(* directories there are in the end *)
RECURSIVE Dirs(_, _)
Dirs(rs, D) == IF rs = <<>> THEN D
  ELSE LET o == Head(rs).par.outdir IN
       Dirs(Tail(rs), IF Head(rs).keep THEN D \cup {o} ELSE (D \ {o \o "_previous"}) \cup {o} \cup (IF o \in D THEN {o \o "_previous"} ELSE {}))
(* ---- *)
Init == words = (IF Way = "direct" THEN <<"a">> ELSE <<>>) /\ text = "" /\ dead = FALSE
More == ~dead /\ \E i \in 1..Len(Vocab) :
  /\ dead' = FALSE
  /\ IF Way = "direct" THEN Len(words) <= MaxLen /\ words' = Append(words, Vocab[i]) /\ text' = text
     ELSE Len(words) < MaxLen /\ words' = Append(words, Vocab[i]) /\ text' = text \o Vocab[i]
\* the behaviour ends here: this is what is started
Start == ~dead /\ dead' = TRUE /\ UNCHANGED <<words, text>>
  /\ LET o == Outcome IN PrintT("@@" \o ToJson([way |-> Way, words |-> words, text |-> text, runs |-> [k \in 1..Len(o.runs) |-> o.runs[k].par], end |-> o.end, dirs |-> Dirs(o.runs, {})]))
Next == More \/ Start
Spec == Init /\ [][Next]_vars
(* ---- properties *)
Touched(ws) == {ModName(ws[k]) : k \in {k \in 2..Len(ws) : Prefix(ws[k], Mod) /\ ~BadOpt(ws[k])}}
(* an option changes the parameters it names, and no others *)
Exactly == Way = "direct" => LET r == Run(words)  d == Defaults("a.par") IN
  r.ok => \A n \in {"verif_p", "verif_q", "verif_pq", "outdir"} : (n \notin Touched(words) => r.par[n] = d[n])
(* the order of options that name different parameters, and where plain words stand between them, does not matter *)
Swap(ws, k) == [ws EXCEPT ![k] = ws[k+1], ![k+1] = ws[k]]
OrderFree == Way = "direct" => \A k \in 2..Len(words) - 1 :
  LET a == Run(words)  b == Run(Swap(words, k)) IN
  (a.ok # b.ok => FALSE) /\ (a.ok /\ Prefix(words[k], Mod) /\ Prefix(words[k+1], Mod) /\ ModName(words[k]) # ModName(words[k+1])
     => [a.par EXCEPT !.sgrid_options = ""] = [b.par EXCEPT !.sgrid_options = ""])
(* leading, trailing and repeated blanks in an argument file do not matter *)
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF SubSeq(s, 1, 2) = "  " THEN Squeeze(SubSeq(s, 2, Len(s))) ELSE Ch(s, 1) \o Squeeze(SubSeq(s, 2, Len(s)))
BlankFree == Way = "file" => LET w(t) == [k \in 1..Len(LinesOf(t)) |-> Split(LinesOf(t)[k], " ", FALSE, <<>>)] IN w(text) = w(Squeeze(text))
==============================================================================
