------------------------------- MODULE Output -------------------------------
(* Output of grid variables: which records are appended to which files at     *)
(* which iterations, and which points a record holds in which order.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Family       \* set of runs: "sched", "format", "norm", "pick", "random"
VARIABLES cfg,         \* the run
          par,         \* output parameters in force
          it,          \* iteration
          files,       \* records written so far, in order; a record names its file
          over
vars == <<cfg, par, it, files, over>>
(* ---- the grid: two boxes; sizes and variables.  times in eighths *)
Sizes == <<(<<3, 4, 2>>), (<<2, 3, 5>>)>>
Boxes == 0..1
Components(v) == CASE v \in {"wx", "wy", "wz"} -> <<"wx", "wy", "wz">> [] v \in {"sxx", "sxy", "sxz", "syy", "syz", "szz"} -> <<"sxx", "sxy", "sxz", "syy", "syz", "szz">>
   [] v \in {"cx", "cy", "cz"} -> <<"cx", "cy", "cz">> [] v \in {"u", "k", "zz", "q", "p"} -> <<v>> [] OTHER -> <<>>
Known(v) == Components(v) # <<>>
Constant(v) == v \in {"k", "cx", "cy", "cz"}                  \* written at iteration 0 only
(* zz never has storage, q from iteration qon to qoff - 1 on, p in box 1 only *)
Stored(v, b, i) == CASE v = "zz" -> FALSE [] v = "q" -> i >= cfg.qon /\ i < cfg.qoff [] v = "p" -> b = 1 [] OTHER -> TRUE
(* ---- when: every di iterations, and at the iteration nearest to every multiple of dT *)
DueIt(di, i) == di > 0 /\ i % di = 0
Near(dT, i) == LET t == i * cfg.dt IN {m \in 0..(t \div dT + 1) : 2 * (t - m * dT) > 0 - cfg.dt /\ 2 * (t - m * dT) <= cfg.dt}
DueT(dT, i) == dT > 0 /\ Near(dT, i) # {}
Due(o, i) == DueIt(o.di, i) \/ DueT(o.dT, i)
(* outputs are numbered: those by iterations from 0, those by time by the multiple they belong to *)
Nearest(dT, i) == LET t == i * cfg.dt  N == Near(dT, i)  D(m) == IF t > m * dT THEN t - m * dT ELSE m * dT - t IN
   CHOOSE m \in N : \A k \in N : D(m) < D(k) \/ (D(m) = D(k) /\ m >= k)
Number(o, i) == IF DueIt(o.di, i) THEN i \div o.di ELSE Nearest(o.dT, i)
(* ---- what: the listed variables, with all their components if asked to *)
Flat(s) == FlattenSeq(s)
Listed(o, i, all) == Flat([k \in 1..Len(o.words) |-> IF ~Known(o.words[k]) \/ (Constant(o.words[k]) /\ i > 0) THEN <<>>
                                                    ELSE IF all THEN Components(o.words[k]) ELSE <<o.words[k]>>])
(* ---- points of a record, in groups.  c: the point (i,j,k) lines and planes go through *)
Up(n) == [x \in 1..n |-> x - 1]
Points(kind, n, c) ==
  CASE kind = "X" -> <<[x \in 1..n[1] |-> <<x - 1, c[2], c[3]>>]>>
    [] kind = "Y" -> <<[x \in 1..n[2] |-> <<c[1], x - 1, c[3]>>]>>
    [] kind = "Z" -> <<[x \in 1..n[3] |-> <<c[1], c[2], x - 1>>]>>
    [] kind = "XY" -> [y \in 1..n[2] |-> [x \in 1..n[1] |-> <<x - 1, y - 1, c[3]>>]]
    [] kind = "XZ" -> [z \in 1..n[3] |-> [x \in 1..n[1] |-> <<x - 1, c[2], z - 1>>]]
    [] kind = "YZ" -> [z \in 1..n[3] |-> [y \in 1..n[2] |-> <<c[1], y - 1, z - 1>>]]
    [] OTHER -> <<Flat([z \in 1..n[3] |-> Flat([y \in 1..n[2] |-> [x \in 1..n[1] |-> <<x - 1, y - 1, z - 1>>]])])>>
Kinds(d, fmt) == CASE d = 0 -> <<"max", "min", "rms", "meanAbs", "mean", "VolInt">> [] d = 1 -> <<"X", "Y", "Z">> [] d = 2 -> <<"XY", "XZ", "YZ">>
   [] OTHER -> (IF "dump" \in fmt THEN <<"dump">> ELSE <<>>) \o (IF "vtk" \in fmt THEN <<IF "addpoints" \in fmt /\ "fakepoints" \notin fmt THEN "vtkxyz" ELSE "vtk">> ELSE <<>>)
Shapes == [b \in {"0", "1"} |-> [k \in {"X", "Y", "Z", "XY", "XZ", "YZ", "all"} |-> Points(k, Sizes[IF b = "0" THEN 1 ELSE 2], cfg.at[IF b = "0" THEN 1 ELSE 2])]]
(* what a minimum, maximum, mean ... of c X^p Y^q Z^r over [0,X1]x[0,Y1]x[0,Z1] is: fractions.  Data go up in all directions from 0 *)
Pow(b, n) == b^n
Vol(x) == x[1] * x[2] * x[3]
MeanN(x, p) == Pow(x[1], p[1]) * Pow(x[2], p[2]) * Pow(x[3], p[3])
MeanD(p) == (p[1] + 1) * (p[2] + 1) * (p[3] + 1)
Twice(p) == [k \in 1..3 |-> 2 * p[k]]
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Least(a, b) == IF a < b THEN a ELSE b
Reduced(m) == LET x == m.x  p == m.p  top == m.c * MeanN(x, p)  bot == IF p = <<0, 0, 0>> THEN m.c ELSE 0 IN
  [max |-> <<IF m.c > 0 THEN top ELSE bot, 1>>, min |-> <<IF m.c > 0 THEN bot ELSE top, 1>>, mean |-> <<m.c * MeanN(x, p), MeanD(p)>>, meanAbs |-> <<Abs(m.c) * MeanN(x, p), MeanD(p)>>,
   VolInt |-> <<m.c * MeanN(x, p) * Vol(x), MeanD(p)>>, square |-> <<m.c * m.c * MeanN(x, Twice(p)), MeanD(Twice(p))>>]
(* ---- the records of one iteration *)
Records(P, i, time, number) ==
  Flat([d \in 1..4 |-> IF ~Due(P.d[d], number) THEN <<>> ELSE
    Flat([b \in 1..2 |-> LET L == Listed(P.d[d], number, P.all \/ P.d[d].all) IN
      Flat([k \in 1..Len(L) |-> IF ~Stored(L[k], b - 1, i) THEN <<>> ELSE
        [m \in 1..Len(Kinds(d - 1, P.fmt)) |-> [k |-> Kinds(d - 1, P.fmt)[m], v |-> L[k], b |-> b - 1, it |-> i, t |-> time, fmt |-> P.fmt,
                                                n |-> IF d = 4 THEN Number(P.d[4], number) ELSE 0]]])])])
Quick(q, P) == [P EXCEPT !.fmt = {"vtk", "text", "double"}, !.d = [d \in 1..4 |-> [P.d[d] EXCEPT !.di = 1, !.words = q.words]]]
(* ---- runs *)
Off == [di |-> 0 - 1, dT |-> 0 - 1, words |-> <<>>, all |-> FALSE]
Par0 == [d |-> <<Off, Off, Off, Off>>, all |-> FALSE, fmt |-> {"dump", "float", "binary"}]
NoQuick == [it |-> 0 - 1, words |-> <<>>, fi |-> 0, ft |-> 0]
Cfg0 == [n |-> 3, dt |-> 4, par |-> Par0, at |-> <<(<<1, 2, 1>>), (<<1, 0, 3>>)>>, side |-> <<(<<0, 0, 0>>), (<<0, 0, 0>>)>>, qon |-> 0, qoff |-> 99, set |-> <<>>, quick |-> NoQuick,
         mono |-> <<>>, blanks |-> 1, norm |-> "L2norm"]
With(d, o) == [Par0 EXCEPT !.d[d] = o]
(* the schedule of every dimension, all intervals *)
Sched == {[Cfg0 EXCEPT !.n = 7, !.dt = dt, !.par = [With(d, [Off EXCEPT !.di = di, !.dT = dT, !.words = <<"u">>]) EXCEPT !.fmt = IF di > 0 /\ dT > 0 THEN {"dump"} ELSE {"vtk", "text", "double"}]] :
           d \in 1..4, di \in {0 - 1, 0, 1, 2, 3, 5}, dT \in (0 - 1)..12 \cup {16, 27}, dt \in {2, 3, 4}}
(* every 3d format *)
Formats == {[Cfg0 EXCEPT !.n = 1, !.par = [With(4, [Off EXCEPT !.di = 1, !.words = <<"u", "sxy">>]) EXCEPT !.fmt = f]] :
            f \in {a \cup b \cup c \cup e : a \in {{"dump"}, {"vtk"}, {"dump", "vtk"}}, b \in {{"text"}, {"binary"}, {}}, c \in {{"float"}, {"double"}, {}}, e \in {{}, {"fakepoints"}, {"fakepoints", "arrange_as_1d"}, {"addpoints"}}}}
(* reductions of monomials; boxes big enough to integrate their squares *)
Monos == {[Cfg0 EXCEPT !.n = 0, !.norm = nt, !.par = With(1, [Off EXCEPT !.di = 1, !.words = <<"u">>]), !.mono = <<[x |-> x, p |-> p, c |-> c]>>] :
          x \in {<<1, 1, 1>>, <<2, 1, 3>>, <<4, 3, 2>>}, p \in {<<a, b, e>> : a \in 0..2, b \in 0..2, e \in 0..2}, c \in {0 - 3, 1, 2}, nt \in {"integral"}}
(* every point lines and planes can go through, and beyond the ends of the box *)
Picks == {[Cfg0 EXCEPT !.n = 0, !.par = [With(2, [Off EXCEPT !.di = 1, !.words = <<"u">>]) EXCEPT !.d[3] = [Off EXCEPT !.di = 1, !.words = <<"wy">>]],
           !.at = <<(<<a, b, e>>), (<<Least(a, 1), b % 3, e + 3>>)>>, !.side = <<(<<s, t, w>>), (<<t, w, s>>)>>] : a \in 0..2, b \in 0..3, e \in 0..1, s \in (0 - 1)..1, t \in (0 - 1)..1, w \in (0 - 1)..1}
(* 3d files by iterations and by time at once: two records may want one file *)
Both == {[Cfg0 EXCEPT !.n = 5, !.par = [With(4, [Off EXCEPT !.di = 2, !.dT = 20, !.words = <<"u">>]) EXCEPT !.fmt = {"vtk", "text", "double"}]]}
R(S) == RandomElement(S)
Pool == {"u", "wx", "wy", "sxx", "syz", "k", "cy", "zz", "q", "p", "nosuch"}
Words(x) == LET F[n \in 0..5] == IF n = 0 THEN <<>> ELSE LET v == R(Pool)  s == F[n-1] IN
                IF R(1..3) = 1 \/ \E j \in 1..Len(s) : s[j] = v \/ (Known(v) /\ Components(s[j]) = Components(v)) THEN s ELSE Append(s, v) IN F[5]
RndD(x) == [di |-> R({0 - 1, 0, 1, 1, 2, 3}), dT |-> R({0 - 1, 0 - 1, 0, 3, 4, 5, 8, 10}), words |-> Words(x), all |-> R(1..4) = 1]
OneWay(o) == IF o.di > 0 /\ o.dT > 0 THEN [o EXCEPT !.dT = 0 - 1] ELSE o
Sets(x) == R({<<>>, <<>>, <<[it |-> R(0..3), d |-> R(1..4), what |-> "di", v |-> R({0 - 1, 1, 2}), words |-> <<>>]>>,
              <<[it |-> R(0..3), d |-> R(1..4), what |-> "words", v |-> 0, words |-> Words(x)]>>,
              <<[it |-> R(0..3), d |-> R(1..4), what |-> "all", v |-> R({0, 1}), words |-> <<>>]>>})
Rnd(x) == LET fmt == R({{"dump"}, {"vtk", "text"}, {"vtk", "dump", "double"}, {"vtk", "binary", "float"}, {"vtk", "text", "double", "fakepoints"}})
              d == [k \in 1..4 |-> IF k = 4 /\ "vtk" \in fmt THEN OneWay(RndD(k)) ELSE RndD(k)] IN
  [Cfg0 EXCEPT !.n = R(0..5), !.dt = R({2, 3, 4}), !.par = [d |-> d, all |-> R(1..5) = 1, fmt |-> fmt],
   !.at = <<(<<R(0..2), R(0..3), R(0..1)>>), (<<R(0..1), R(0..2), R(0..4)>>)>>, !.side = <<(<<R((0-1)..1), R((0-1)..1), R((0-1)..1)>>), (<<R((0-1)..1), R((0-1)..1), R((0-1)..1)>>)>>,
   !.qon = R({0, 1, 2, 9}), !.qoff = R({2, 3, 99}), !.blanks = R({1, 1, 2, 3}),
   !.set = IF "vtk" \in fmt THEN <<>> ELSE Sets(x),
   !.quick = IF "vtk" \in fmt \/ R(1..3) > 1 THEN NoQuick ELSE [it |-> R(0..2), words |-> Words(x), fi |-> R(0..5), ft |-> R({0, 7, 100})]]
Runs == CASE Family = "sched" -> Sched [] Family = "format" -> Formats [] Family = "norm" -> Monos [] Family = "pick" -> Picks [] Family = "both" -> Both [] OTHER -> {Rnd(over)}
Init == cfg = Cfg0 /\ par = Par0 /\ it = 0 - 1 /\ files = <<>> /\ over = "new"
Choose == over = "new" /\ over' = "" /\ \E c \in Runs : cfg' = c /\ par' = c.par /\ UNCHANGED <<it, files>>
(* a time slice: parameters set before it, output, then output asked for by hand *)
Applied(P, s) == CASE s.what = "di" -> [P EXCEPT !.d[s.d].di = s.v] [] s.what = "words" -> [P EXCEPT !.d[s.d].words = s.words] [] OTHER -> [P EXCEPT !.d[s.d].all = s.v = 1]
Slice == over = "" /\ it < cfg.n /\ LET i == it + 1  P == IF cfg.set # <<>> /\ cfg.set[1].it = i THEN Applied(par, cfg.set[1]) ELSE par  q == cfg.quick IN
  /\ it' = i /\ par' = P
  /\ files' = files \o (IF q.it = i THEN Records(Quick(q, P), i, q.ft, q.fi) ELSE <<>>) \o Records(P, i, i * cfg.dt, i)
  /\ UNCHANGED <<cfg, over>>
Stop == over = "" /\ it = cfg.n /\ over' = "done" /\ UNCHANGED <<cfg, par, it, files>>
Next == Choose \/ Slice \/ Stop
Spec == Init /\ [][Next]_vars
(* ---- what holds *)
(* every multiple of dT that is reached gets exactly one iteration when dT >= dt, and there is no output else *)
OncePerMultiple == over = "done" => \A d \in 1..4 : LET o == cfg.par.d[d] IN o.dT >= cfg.dt =>
  \A m \in 0..20 : 2 * m * o.dT < (2 * cfg.n + 1) * cfg.dt => Cardinality({i \in 0..cfg.n : m \in Near(o.dT, i)}) = 1
(* a vtk file is written once *)
FileOf(r) == <<r.k, r.v, r.b, r.n>>
NoFileTwice == over = "done" /\ cfg.quick.it < 0 => \A a, b \in 1..Len(files) : a < b /\ files[a].k \in {"vtk", "vtkxyz"} => FileOf(files[a]) # FileOf(files[b])
(* records of one file are in the order of time *)
InOrder == over = "done" /\ cfg.quick.it < 0 => \A a, b \in 1..Len(files) : a < b /\ <<files[a].k, files[a].v, files[a].b>> = <<files[b].k, files[b].v, files[b].b>> => files[a].t < files[b].t
Emit == over = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, files |-> files, shapes |-> Shapes, reduced |-> IF cfg.mono = <<>> THEN <<>> ELSE <<Reduced(cfg.mono[1])>>]))
=============================================================================
