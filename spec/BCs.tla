---------------------------------- MODULE BCs ----------------------------------
(* Conditions between boxes.  Every box has a shape, fields psi and dpsi[1..3],   *)
(* the residual fpsi, variables w that hold coordinates of its points in other    *)
(* boxes, and a list of face entries.  An entry names a plane f of its box, some   *)
(* points of that plane, the other box ob with its entry ofi, and flags.           *)
(* The condition at the i-th point of an entry is                                  *)
(*    fpsi = psi - psi of the other box,  or  fpsi = n.(dpsi - dpsi of the other)  *)
(* with n the outward unit normal; the value of the other box comes from           *)
(*   copy   : the i-th point of the other entry,                                   *)
(*   line   : the point of the other plane with the same two other indices,        *)
(*   plane  : interpolation within the plane of the other entry (only at points    *)
(*            whose coordinates lie in the other box),                             *)
(*   volume : interpolation in all of the other box.                               *)
(* Values are integers, normals have integer length: fpsi is a pair <<num, den>>.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS NB, MaxN, Calls, Kinds,
          Sloppy        \* allow conditions that end the run
VARIABLES n, lo, hi, kind, hasH, A, psi, dpsi, w, F, fpsi, hist, phase
vars == <<n, lo, hi, kind, hasH, A, psi, dpsi, w, F, fpsi, hist, phase>>
Dirs == 1..3
Boxes == 1..NB
Rnd(S, k) == RandomElement(S)
Line(b, d) == 0..(n[b][d] - 1)
IndexIn(s, p) == p[1] + s[1] * (p[2] + s[2] * p[3])
PointIn(s, i) == <<i % s[1], (i \div s[1]) % s[2], i \div (s[1] * s[2])>>
SizeOf(s) == s[1] * s[2] * s[3]
(* ---- normals *)
Vecs == <<<<3, 4, 0>>, <<2, 0 - 1, 2>>, <<0, 0, 0 - 2>>, <<0, 0, 0>>, <<0 - 6, 2, 3>>, <<1, 0, 0>>, <<0, 0 - 4, 3>>>>
Norms == <<5, 3, 2, 1, 7, 1, 5>>
Pick(i) == [v |-> Vecs[1 + (i % 7)], len |-> Norms[1 + (i % 7)]]
DirOf(f) == 1 + (f \div 2)
Side(f) == 2 * (f % 2) - 1
Unit(d) == [v |-> [j \in Dirs |-> IF j = d THEN 1 ELSE 0], len |-> 1]
Out(f, g) == [v |-> [j \in Dirs |-> Side(f) * g.v[j]], len |-> g.len]
NormalFun(b, f, i) == Out(f, IF kind[b] = "cart" THEN Unit(DirOf(f)) ELSE Pick(i + DirOf(f)))
Normal(b, f, i) == IF kind[b] = "vars" THEN Out(f, Pick(i + 2 * DirOf(f))) ELSE NormalFun(b, f, i)
AlongFun(b, f, i) == IF kind[b] # "cart" /\ hasH[b] THEN Out(f, Pick(i + 3 + DirOf(f))) ELSE NormalFun(b, f, i)
AlongIjk(b, f, i) == IF kind[b] # "cart" /\ hasH[b] THEN Out(f, Pick(i + 3 + DirOf(f))) ELSE Normal(b, f, i)
(* ---- interpolation in box b; a field is a list, its entry i+1 belongs to point i *)
Basis(b, d, k, X) == ((k + 1) * X + k * k + lo[b][d] + 2 * hi[b][d] + n[b][d]) % 7
SumOver(S, g(_)) == MapThenSumSet(g, S)
(* value at X = sum over lines of (basis . matrix): weights per grid index *)
Weights(b, X) == TLCEval([d \in Dirs |-> [x \in Line(b, d) |-> SumOver(Line(b, d), LAMBDA k : Basis(b, d, k, X[d]) * A[b][d][k + 1][x + 1])]])
Volume(b, q, X) == LET W == Weights(b, X) IN
   SumOver(Line(b, 1) \X Line(b, 2) \X Line(b, 3), LAMBDA p : W[1][p[1]] * W[2][p[2]] * W[3][p[3]] * q[IndexIn(n[b], p) + 1])
InPlane(b, q, f, X) == LET W == Weights(b, X) N == DirOf(f) x == IF f % 2 = 0 THEN 0 ELSE n[b][N] - 1 IN
   SumOver({p \in Line(b, 1) \X Line(b, 2) \X Line(b, 3) : p[N] = x},
           LAMBDA p : (IF N = 1 THEN 1 ELSE W[1][p[1]]) * (IF N = 2 THEN 1 ELSE W[2][p[2]]) * (IF N = 3 THEN 1 ELSE W[3][p[3]]) * q[IndexIn(n[b], p) + 1])
(* ---- conditions *)
Other(e) == F[e.ob][e.ofi]
Flags(e) == {d \in Dirs : e.same[d]}
Way(e) == IF e.ob = 0 THEN "none"
          ELSE IF ~e.touch THEN "volume"
          ELSE IF e.fpts THEN "copy"
          ELSE IF Cardinality(Flags(e)) = 3 THEN "line"
          ELSE IF Cardinality(Flags(e)) = 2 THEN "cross"
          ELSE IF Cardinality(Flags(e)) = 1 THEN "plane" ELSE "unknown"
Coord(b, e, i) == [d \in Dirs |-> IF e.o[d] = 0 THEN 0 ELSE w[b][e.o[d]][e.pts[i] + 1]]
(* conditions the code cannot impose: it ends the run *)
Bad(b, e) == CASE Way(e) = "none" -> FALSE
               [] Way(e) = "volume" -> e.nd \/ \E d \in Dirs : e.o[d] = 0
               [] Way(e) \in {"copy", "line"} -> FALSE
               [] Way(e) = "unknown" -> TRUE
               [] Way(e) = "plane" -> \E d \in Dirs \ Flags(e) : e.o[d] = 0
               [] Way(e) = "cross" -> LET d == CHOOSE d \in Dirs : d \notin Flags(e) IN
                     e.pts # <<>> \/ d = DirOf(Other(e).f) \/ e.o[d] = 0
Inside(b, e, i) == \A d \in Dirs \ Flags(e) : Coord(b, e, i)[d] >= lo[e.ob][d] /\ Coord(b, e, i)[d] <= hi[e.ob][d]
Sets(b, e, i) == CASE Way(e) \in {"none", "cross"} -> FALSE [] Way(e) = "plane" -> Inside(b, e, i) [] OTHER -> TRUE
There(b, e, i, q) == LET o == e.ob IN       \* q: field of the other box
   CASE Way(e) = "copy" -> q[Other(e).pts[i] + 1]
     [] Way(e) = "line" -> LET d == DirOf(Other(e).f) p == PointIn(n[b], e.pts[i]) IN
          q[IndexIn(n[o], [p EXCEPT ![d] = IF Other(e).f % 2 = 0 THEN 0 ELSE n[o][d] - 1]) + 1]
     [] Way(e) = "plane" -> InPlane(o, q, Other(e).f, Coord(b, e, i))
     [] Way(e) = "volume" -> Volume(o, q, Coord(b, e, i))
Residual(b, e, i, u, du) ==
   IF ~e.nd THEN <<u[b][e.pts[i] + 1] - There(b, e, i, u[e.ob]), 1>>
   ELSE LET g == Normal(b, e.f, e.pts[i]) IN
        <<SumOver(Dirs, LAMBDA j : g.v[j] * (du[b][j][e.pts[i] + 1] - There(b, e, i, du[e.ob][j]))), g.len>>
Impose(b, e, u, du, old) ==
   TLCEval([x \in DOMAIN old |-> LET I == {i \in 1..Len(e.pts) : e.pts[i] = x - 1 /\ Sets(b, e, i)} IN
        IF I = {} THEN old[x] ELSE Residual(b, e, CHOOSE i \in I : \A j \in I : j <= i, u, du)])
ImposeAll(b, es, u, du, old) == FoldLeft(LAMBDA g, e : Impose(b, e, u, du, g), old, es)
(* ---- behaviours *)
Init == /\ n = <<>> /\ lo = <<>> /\ hi = <<>> /\ kind = <<>> /\ hasH = <<>> /\ A = <<>> /\ psi = <<>> /\ dpsi = <<>> /\ w = <<>>
        /\ F = <<>> /\ fpsi = <<>> /\ hist = <<>> /\ phase = "new"
Nums(m, S) == TLCEval([i \in 1..m |-> Rnd(S, i)])
Per(g(_)) == TLCEval([b \in Boxes |-> TLCEval(g(b))])
Raw(b, s, i) == [f |-> Rnd(0..5, i), ob |-> Rnd(1..(NB + 1), i) % (NB + 1), ofi |-> Rnd(0..5, i), touch |-> Rnd({TRUE, TRUE, FALSE}, i) \/ Rnd(1..2, i) = 1,
                 wish |-> Rnd({"copy", "copy2", "line", "plane", "plane2", "none", "cross"}, i), two |-> Rnd(Dirs, i), nd |-> Rnd({TRUE, FALSE}, i),
                 m |-> Rnd({0, 2, 3, 3}, i), seed |-> Nums(9, 0..99), o |-> Nums(3, 1..6), miss |-> Rnd(1..12, i), off |-> Rnd({TRUE, FALSE}, i)]
PtsOf(s, r) == LET N == DirOf(r.f) x == IF r.f % 2 = 0 THEN 0 ELSE s[N] - 1 IN
   [i \in 1..r.m |-> IndexIn(s, [d \in Dirs |-> IF d = N THEN x ELSE r.seed[3 * (i - 1) + d] % s[d]])]
(* flags that fit the faces: see the requirements of each way *)
Entry(s, R, b, r) ==
   LET ob == r.ob has == ob # 0 /\ Len(R[ob]) > 0
       ofi == IF has THEN 1 + (r.ofi % Len(R[ob])) ELSE 0
       touch == r.touch /\ has /\ ~(ob = b /\ R[ob][ofi] = r /\ FALSE)
       of == IF has THEN R[ob][ofi].f ELSE 0
       pts == PtsOf(s[b], r)
       fit == has /\ R[ob][ofi].m = r.m
       even == has /\ \A d \in Dirs \ {DirOf(of)} : s[b][d] = s[ob][d]
       way == IF ~touch THEN "volume"
              ELSE IF r.wish \in {"copy", "copy2"} /\ fit THEN "copy"
              ELSE IF r.wish = "line" /\ even THEN "line"
              ELSE IF r.wish \in {"cross", "none"} /\ Sloppy THEN r.wish ELSE "plane"
       nd == r.nd /\ (way # "volume" \/ (Sloppy /\ r.miss < 4))
       mo == IF Sloppy /\ r.miss <= 3 /\ (way # "cross" \/ r.miss = r.two) THEN r.miss ELSE 0
   IN [f |-> r.f, ob |-> IF Sloppy \/ ob # 0 THEN ob ELSE 0, ofi |-> IF touch THEN ofi ELSE 0, touch |-> touch, fpts |-> way = "copy",
       same |-> [d \in Dirs |-> CASE way = "copy" -> r.seed[d] % 2 = 0 [] way = "line" -> TRUE [] way = "plane" -> d = DirOf(of) [] way = "cross" -> d # r.two [] OTHER -> FALSE],
       off |-> r.off, nd |-> nd, o |-> [d \in Dirs |-> IF d = mo THEN 0 ELSE r.o[d]], pts |-> pts]
Setup ==
   /\ phase = "new" /\ phase' = "go"
   /\ \E s \in {Per(LAMBDA b : LET z == Nums(3, 2..MaxN) IN IF Rnd(1..2, b) = 1 THEN z ELSE <<2, 3, 2>>)} : \E l \in {Per(LAMBDA b : Nums(3, 0..5))} : \E h \in {Per(LAMBDA b : Nums(3, 1..9))} :
      \E kd \in {Per(LAMBDA b : Rnd(Kinds, b))} : \E hh \in {Per(LAMBDA b : Rnd({TRUE, FALSE}, b))} :
      \E a \in {Per(LAMBDA b : [d \in Dirs |-> TLCEval([i \in 1..s[b][d] |-> Nums(s[b][d], (0 - 2)..2)])])} :
      \E u \in {Per(LAMBDA b : Nums(SizeOf(s[b]), (0 - 9)..9))} : \E du \in {Per(LAMBDA b : <<Nums(SizeOf(s[b]), (0 - 9)..9), Nums(SizeOf(s[b]), (0 - 9)..9), Nums(SizeOf(s[b]), (0 - 9)..9)>>)} :
      \E ww \in {Per(LAMBDA b : TLCEval([i \in 1..6 |-> Nums(SizeOf(s[b]), 0..14)]))} :
      \E R \in {Per(LAMBDA b : LET k == Rnd({0, 1, 2, 2, 3, 3}, b) IN TLCEval([i \in 1..k |-> Raw(b, s[b], i)]))} :
        /\ n' = s /\ lo' = l /\ hi' = [b \in Boxes |-> [d \in Dirs |-> l[b][d] + h[b][d]]] /\ kind' = kd /\ hasH' = hh /\ A' = a /\ psi' = u /\ dpsi' = du /\ w' = ww
        /\ F' = [b \in Boxes |-> [i \in 1..Len(R[b]) |-> Entry(s, R, b, R[b][i])]]
        /\ fpsi' = [b \in Boxes |-> [x \in 1..SizeOf(s[b]) |-> <<1000 * b + x, 1>>]]
   /\ UNCHANGED hist
Keep == UNCHANGED <<n, lo, hi, kind, hasH, A, psi, dpsi, w, F>>
Do(op, a, b, es) ==
   IF \E i \in 1..Len(es) : Bad(b, es[i]) THEN
        /\ hist' = Append(hist, [op |-> op, a |-> a, ends |-> TRUE, f |-> <<>>]) /\ phase' = "over" /\ UNCHANGED fpsi
   ELSE \E g \in {[fpsi EXCEPT ![b] = ImposeAll(b, es, psi, dpsi, fpsi[b])]} :
        /\ fpsi' = g /\ hist' = Append(hist, [op |-> op, a |-> a, ends |-> FALSE, f |-> g]) /\ UNCHANGED phase
AllOf(b) == F[b]
OnFace(b, f, nd) == LET S == SelectSeq(F[b], LAMBDA e : e.f = f) IN [i \in 1..Len(S) |-> IF nd = 0 - 1 THEN S[i] ELSE [S[i] EXCEPT !.nd = (nd = 1)]]
Call == /\ phase = "go" /\ Len(hist) < Calls /\ Keep
        /\ \E op \in {Rnd({"box", "box", "face", "dir"}, Len(hist))} : \E b \in {Rnd(Boxes, Len(hist))} :
             CASE op = "box" -> Do(op, <<b - 1>>, b, AllOf(b))
               [] op = "face" -> \E f \in {IF F[b] # <<>> /\ Rnd(1..4, b) > 1 THEN F[b][Rnd(1..Len(F[b]), b)].f ELSE Rnd(0..5, b)} : \E nd \in {Rnd(IF Sloppy THEN {0 - 1, 0, 1} ELSE
                                     {0 - 1, 0} \cup (IF \A i \in 1..Len(F[b]) : F[b][i].f = f => Way(F[b][i]) # "volume" THEN {1} ELSE {}), b)} :
                                  Do(op, <<b - 1, f, nd>>, b, OnFace(b, f, nd))
               [] op = "dir" -> \E f \in {Rnd(0..5, b)} : \E i \in {Rnd(0..(SizeOf(n[b]) - 1), b)} :
                    /\ hist' = Append(hist, [op |-> op, a |-> <<b - 1, f, i>>, ends |-> FALSE, f |-> <<Normal(b, f, i), AlongIjk(b, f, i), NormalFun(b, f, i), AlongFun(b, f, i)>>])
                    /\ UNCHANGED <<fpsi, phase>>
End == /\ phase = "go" /\ Len(hist) >= Calls /\ phase' = "over" /\ Keep /\ UNCHANGED <<fpsi, hist>>
Next == Setup \/ Call \/ End
Spec == Init /\ [][Next]_vars
(* ---- properties, looked at once per behaviour *)
Ready == phase = "go" /\ hist = <<>>
Good(b, e) == ~Bad(b, e) /\ e.ob # 0
EachEntry(P(_, _)) == Ready => \A b \in Boxes : \A i \in 1..Len(F[b]) : Good(b, F[b][i]) => P(b, F[b][i])
(* only the points of the entry change *)
OnlyListed == EachEntry(LAMBDA b, e : LET g == Impose(b, e, psi, dpsi, fpsi[b]) IN
   \A x \in DOMAIN g : (\A i \in 1..Len(e.pts) : e.pts[i] # x - 1) => g[x] = fpsi[b][x])
(* the condition is linear in the fields *)
Thrice(q) == [i \in DOMAIN q |-> 3 * q[i]]
Linear == EachEntry(LAMBDA b, e : \A i \in 1..Len(e.pts) : Sets(b, e, i) =>
   LET r == Residual(b, e, i, psi, dpsi) IN
   Residual(b, e, i, [c \in Boxes |-> Thrice(psi[c])], [c \in Boxes |-> [j \in Dirs |-> Thrice(dpsi[c][j])]]) = <<3 * r[1], r[2]>>)
(* touching faces only feel the plane of the other face *)
OffPlane(b, f, q) == LET N == DirOf(f) x == IF f % 2 = 0 THEN 0 ELSE n[b][N] - 1 IN [i \in DOMAIN q |-> IF PointIn(n[b], i - 1)[N] = x THEN q[i] ELSE 77]
Local == EachEntry(LAMBDA b, e : (e.touch /\ e.ob # b) => \A i \in 1..Len(e.pts) : Sets(b, e, i) =>
   Residual(b, e, i, [psi EXCEPT ![e.ob] = OffPlane(e.ob, Other(e).f, psi[e.ob])], [dpsi EXCEPT ![e.ob] = [j \in Dirs |-> OffPlane(e.ob, Other(e).f, dpsi[e.ob][j])]])
      = Residual(b, e, i, psi, dpsi))
(* a condition and its opposite face agree: both sides have the same field and copy each other, nothing is left *)
Mutual == EachEntry(LAMBDA b, e : (Way(e) = "copy" /\ ~e.nd /\ e.ob # b /\ Way(Other(e)) = "copy" /\ Other(e).ob = b /\ ~Other(e).nd /\ F[b][Other(e).ofi] = e) =>
   \A i \in 1..Len(e.pts) : Residual(b, e, i, psi, dpsi)[1] = 0 - Residual(e.ob, Other(e), i, psi, dpsi)[1])
Behaviour == [n |-> n, lo |-> lo, hi |-> hi, kind |-> kind, hasH |-> hasH, A |-> A, psi |-> psi, dpsi |-> dpsi, w |-> w, F |-> F, hist |-> hist]
Report == phase = "over" => PrintT("@@" \o ToJson(Behaviour))
================================================================================
