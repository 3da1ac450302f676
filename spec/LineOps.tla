-------------------------------- MODULE LineOps --------------------------------
(* A box of n1 x n2 x n3 points, fields on it, and the operations that act along *)
(* grid lines: derivatives, coefficients, evaluation, filters, integrals and     *)
(* interpolation, on the whole box or within one plane.  Points are triples; the *)
(* running index of a point is its rank when the first index runs fastest.       *)
(* Every operation along direction d replaces each line in direction d by a      *)
(* matrix times that line; fields, matrices and basis functions are integers, so *)
(* that the code has to reproduce them exactly.                                  *)
(* The second part is the double covering of spherical coordinates: point        *)
(* <<i,j,k>> with angles theta = (2j+1) pi/n2, phi = 2 pi k/n3 has a partner.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Family,       \* "index", "ops", "twice"
          MaxN,         \* longest line
          Steps         \* operations in a behaviour
VARIABLES f0,           \* registers at first, as lists
          n,            \* <<n1,n2,n3>>
          lo, w,        \* lower end and width / 60 of the box in each direction
          fft,          \* direction -> TRUE: transforms, FALSE: matrices
          kind,         \* direction -> "cheb" or "four", used by integrals
          m,            \* role -> direction -> matrix
          f,            \* register -> field
          hist, phase
vars == <<n, lo, w, fft, kind, m, f, f0, hist, phase>>
Dirs == 1..3
Regs == {"u", "v", "c", "q"}
Roles == {"D", "DD", "A", "S", "F", "I", "tA", "tD", "tS"}
Abs(k) == IF k < 0 THEN 0 - k ELSE k
SumOf(S, g(_)) == MapThenSumSet(g, S)
Line(s, d) == 0..(s[d] - 1)
PointsOf(s) == Line(s, 1) \X Line(s, 2) \X Line(s, 3)
Points == PointsOf(n)
Before(p, r) == \/ p[3] < r[3] \/ (p[3] = r[3] /\ p[2] < r[2]) \/ (p[3] = r[3] /\ p[2] = r[2] /\ p[1] < r[1])
IndexOf(s, p) == p[1] + s[1] * (p[2] + s[2] * p[3])
Sorted(s, P) == SortSeq(SetToSeq({IndexOf(s, p) : p \in P}), LAMBDA x, y : x < y)
Place(s, i) == CHOOSE p \in PointsOf(s) : IndexOf(s, p) = i
Flat(s, g) == [i \in 1..(s[1] * s[2] * s[3]) |-> g[<<(i - 1) % s[1], ((i - 1) \div s[1]) % s[2], (i - 1) \div (s[1] * s[2])>>]]
Move(p, d, x) == [p EXCEPT ![d] = x]
Plane(s, d, x) == {p \in PointsOf(s) : p[d] = x}
Inner(s, d, x) == {p \in Plane(s, d, x) : \A e \in Dirs \ {d} : p[e] \in 1..(s[e] - 2)}
(* ---- lines *)
Along(d, A, g) == TLCEval([p \in DOMAIN g |-> SumOf(Line(n, d), LAMBDA x : A[p[d] + 1][x + 1] * g[Move(p, d, x)])])
Within(P, new, old) == TLCEval([p \in DOMAIN old |-> IF p \in P THEN new[p] ELSE old[p]])
Scale(k, g) == TLCEval([p \in DOMAIN g |-> k * g[p]])
Ana(d, g) == IF fft[d] THEN Along(d, m.tA[d], g) ELSE Along(d, m.A[d], g)
Syn(d, g) == IF fft[d] THEN Along(d, m.tS[d], g) ELSE Along(d, m.S[d], g)
Slope(d, g) == Scale(w[d], Along(d, m.tD[d], g))
Deriv(d, g) == IF fft[d] THEN Along(d, m.tS[d], Slope(d, Along(d, m.tA[d], g))) ELSE Along(d, m.D[d], g)
Deriv2(d, g) == IF fft[d] THEN Along(d, m.tS[d], Slope(d, Slope(d, Along(d, m.tA[d], g)))) ELSE Along(d, m.DD[d], g)
Others(N) == CASE N = 1 -> <<2, 3>> [] N = 2 -> <<1, 3>> [] N = 3 -> <<1, 2>>
Coeffs(g) == Ana(3, Ana(2, Ana(1, g)))
Eval(g) == Syn(3, Syn(2, Syn(1, g)))
InPlane(N, x, new, old) == Within(Plane(n, N, x), new, old)
CoeffsIn(N, x, g, old) == InPlane(N, x, Ana(Others(N)[2], Ana(Others(N)[1], g)), old)
EvalIn(N, x, g, old) == InPlane(N, x, Syn(Others(N)[2], Syn(Others(N)[1], g)), old)
Cut(g, k) == TLCEval([p \in DOMAIN g |-> IF \E d \in Dirs : p[d] >= k[d] THEN 0 ELSE g[p]])
(* value of basis function k of direction d at X *)
Basis(d, k, X) == ((k + 1) * X + k * k + lo[d] + w[d] + n[d]) % 7
Whole(d, c0) == w[d] * 60 * c0
Over(d, g) == LET a == Along(d, m.A[d], g) IN
   TLCEval([p \in DOMAIN g |-> IF kind[d] = "four" THEN (Whole(d, a[Move(p, d, 0)]) \div n[d])
                       ELSE (Whole(d, a[Move(p, d, 0)]) \div 2) + SumOf({x \in Line(n, d) : x >= 2 /\ x % 2 = 0}, LAMBDA x : 0 - (Whole(d, a[Move(p, d, x)]) \div (x * x - 1)))])
At(g, X) == SumOf(DOMAIN g, LAMBDA p : g[p] * Basis(1, p[1], X[1]) * Basis(2, p[2], X[2]) * Basis(3, p[3], X[3]))
AtIn(N, x, g, X) == SumOf(Plane(n, N, x), LAMBDA p : g[p] * Basis(Others(N)[1], p[Others(N)[1]], X[1]) * Basis(Others(N)[2], p[Others(N)[2]], X[2]))
On(d, a, b, x) == CASE d = 1 -> <<x, a, b>> [] d = 2 -> <<a, x, b>> [] d = 3 -> <<a, b, x>>
AtLine(d, a, b, g, X) == SumOf(Line(n, d), LAMBDA x : g[On(d, a, b, x)] * Basis(d, x, X))
LineAt(d, a, b, g) == [x \in 1..n[d] |-> g[On(d, a, b, x - 1)]]
(* ---- points covered twice *)
Partner(s, p) == <<p[1], s[2] - 1 - p[2], (p[3] + s[3] \div 2) % s[3]>>
TwiceOK(s) == s[2] % 2 = 0 /\ s[3] % 2 = 0
Mean(s, g) == TLCEval([p \in DOMAIN g |-> (g[p] + g[Partner(s, p)]) \div 2])
CopyOver(s, g) == TLCEval([p \in DOMAIN g |-> IF p[2] >= s[2] \div 2 THEN g[Partner(s, p)] ELSE g[p]])
(* ---- random values *)
Rnd(S, k) == RandomElement({x \in S : k = k})
RndField(s, V, k) == TLCEval([p \in PointsOf(s) |-> Rnd(V, k)])
RndMat(l, k) == TLCEval([a \in 1..l |-> TLCEval([b \in 1..l |-> Rnd({0 - 1, 0, 0, 1, 1, 2}, k)])])
RndAll(s, k) == TLCEval([r \in Roles |-> TLCEval([d \in Dirs |-> RndMat(s[d], k)])])
Top(g) == LET S == {Abs(g[p]) : p \in DOMAIN g} IN CHOOSE x \in S : \A y \in S : y <= x
(* ---- behaviours *)
Sizes == 1..MaxN
RndSize(k) == IF Rnd(1..8, k) = 1 THEN 1 ELSE Rnd(2..MaxN, k)
Lo == <<3, 40, 500>>
Init == /\ n \in (IF Family = "index" THEN Sizes \X Sizes \X Sizes ELSE {<<1, 1, 1>>})
        /\ lo = <<0, 0, 0>> /\ w = <<1, 1, 1>> /\ fft = <<FALSE, FALSE, FALSE>> /\ kind = <<"cheb", "cheb", "cheb">>
        /\ m = <<>> /\ f = <<>> /\ f0 = <<>> /\ hist = <<>> /\ phase = "new"
Setup(k) == /\ phase = "new" /\ Family \in {"ops", "twice"} /\ phase' = "go" /\ UNCHANGED hist
        /\ n' = (IF Family = "ops" THEN <<RndSize(k), RndSize(k), RndSize(k)>> ELSE <<Rnd(1..3, k), Rnd(Sizes, k), Rnd(Sizes, k)>>)
        /\ lo' = <<Rnd(0..20, k), Rnd(0..20, k), Rnd(0..20, k)>> /\ w' = <<Rnd(1..3, k), Rnd(1..3, k), Rnd(1..3, k)>>
        /\ fft' = <<Rnd({TRUE, FALSE}, k), Rnd({TRUE, FALSE}, k), Rnd({TRUE, FALSE}, k)>> /\ kind' = <<Rnd({"cheb", "four"}, k), Rnd({"cheb", "four"}, k), Rnd({"cheb", "four"}, k)>>
        /\ m' = (IF Family = "ops" THEN RndAll(n', k) ELSE <<>>)
        /\ f' = TLCEval([r \in Regs |-> RndField(n', IF Family = "ops" THEN (0 - 4)..9 ELSE {0 - 4, 0, 2, 4, 8, 40, 1000}, k)])
        /\ f0' = [r \in Regs |-> Flat(n', f'[r])]
Same == UNCHANGED <<n, lo, w, fft, kind, m, f0>>
Note(op, args, reg, g, ret) == /\ f' = (IF reg = "" THEN f ELSE [f EXCEPT ![reg] = g])
                               /\ hist' = Append(hist, [op |-> op, a |-> args, reg |-> reg, g |-> IF reg = "" THEN <<>> ELSE Flat(n, g), ret |-> ret])
                               /\ Same
(* sources small enough for whatever the operation makes of them *)
Mild(r) == Top(f[r]) <= 500
Tame(r) == Top(f[r]) <= 20
Orders == {123, 132, 213, 231, 312, 321}
Step(k) ==
  \E o \in {Rnd({"Deriv", "Deriv2", "All", "Ana", "Syn", "AnaM", "SynM", "AnaIn", "SynIn", "Coeffs", "Eval", "CoeffsIn", "EvalIn", "Filter", "Filter3",
                 "Over", "Over2", "Over3", "At", "AtIn", "AtLine", "Get", "Put", "Fill", "Int", "List", "Regrid", "Fail"}, k)} :
  \E s \in {Rnd(Regs, k)} : \E t \in {Rnd(Regs, k)} : \E d \in {Rnd(Dirs, k)} : \E N \in {Rnd(Dirs \ {d}, k)} :
  \E x \in {Rnd(Line(n, N), k)} : \E X \in {<<Rnd(0..9, k), Rnd(0..9, k), Rnd(0..9, k)>>} :
  \E a \in {Rnd(Line(n, Others(d)[1]), k)} : \E b \in {Rnd(Line(n, Others(d)[2]), k)} :
  \E e \in {Rnd(Regs \ {s}, k)} :       \* result of operations that need a second field
    CASE ~Mild(s) \/ o = "Fill" -> \E g \in {RndField(n, (0 - 4)..9, k)} : Note("Fill", <<s, Flat(n, g)>>, s, g, <<>>) /\ UNCHANGED phase
      [] o = "Deriv" -> Note(o, <<d, s, e>>, e, Deriv(d, f[s]), <<>>) /\ UNCHANGED phase
      [] o = "Deriv2" -> Note(o, <<d, s, e>>, e, Deriv2(d, f[s]), <<>>) /\ UNCHANGED phase
      [] o = "All" /\ Tame(s) -> \E ord \in {Rnd(IF \E c \in Dirs : fft[c] THEN {123} ELSE Orders, k)} :
           LET D == [c \in Dirs |-> Deriv(c, f[s])] IN
           Note(o, <<ord, s>>, "", <<>>, [z \in 1..9 |-> Flat(n, CASE z <= 3 -> D[z] [] z = 4 -> Deriv2(1, f[s]) [] z = 5 -> Deriv(2, D[1]) [] z = 6 -> Deriv(3, D[1])
                                                                  [] z = 7 -> Deriv2(2, f[s]) [] z = 8 -> Deriv(3, D[2]) [] z = 9 -> Deriv2(3, f[s]))]) /\ UNCHANGED phase
      [] o = "Ana" -> Note(o, <<d, s, t>>, t, Ana(d, f[s]), <<>>) /\ UNCHANGED phase
      [] o = "Syn" -> Note(o, <<d, s, t>>, t, Syn(d, f[s]), <<>>) /\ UNCHANGED phase
      [] o = "AnaM" -> Note(o, <<d, s, t>>, t, Along(d, m.F[d], f[s]), <<>>) /\ UNCHANGED phase
      [] o = "SynM" -> Note(o, <<d, s, t>>, t, Along(d, m.F[d], f[s]), <<>>) /\ UNCHANGED phase
      [] o = "AnaIn" -> Note(o, <<d, N, x, s, t>>, t, InPlane(N, x, Ana(d, f[s]), f[t]), <<>>) /\ UNCHANGED phase
      [] o = "SynIn" -> Note(o, <<d, N, x, s, t>>, t, InPlane(N, x, Syn(d, f[s]), f[t]), <<>>) /\ UNCHANGED phase
      [] o \in {"Coeffs", "List"} -> Note(o, <<s, t>>, t, Coeffs(f[s]), <<>>) /\ UNCHANGED phase
      [] o = "Eval" -> Note(o, <<s, t>>, t, Eval(f[s]), <<>>) /\ UNCHANGED phase
      [] o = "CoeffsIn" -> Note(o, <<N, x, s, t>>, t, CoeffsIn(N, x, f[s], f[t]), <<>>) /\ UNCHANGED phase
      [] o = "EvalIn" -> Note(o, <<N, x, s, t>>, t, EvalIn(N, x, f[s], f[t]), <<>>) /\ UNCHANGED phase
      [] o = "Filter" -> Note(o, <<d, s>>, s, Along(d, m.F[d], f[s]), <<>>) /\ UNCHANGED phase
      [] o = "Filter3" -> \E cut \in {<<Rnd(0..(MaxN + 1), k), Rnd(0..(MaxN + 1), k), Rnd(0..(MaxN + 1), k)>>} :
           \* the coefficients are left in the second field
           LET c == Cut(Coeffs(f[s]), cut) g == Eval(c) IN
           /\ f' = [f EXCEPT ![s] = g, ![e] = c] /\ Same /\ UNCHANGED phase
           /\ hist' = Append(hist, [op |-> o, a |-> <<s, e, cut[1], cut[2], cut[3]>>, reg |-> s, g |-> Flat(n, g), ret |-> Flat(n, c)])
      [] o = "Over" -> Note(o, <<d, s, t, kind[1], kind[2], kind[3]>>, t, Over(d, f[s]), <<>>) /\ UNCHANGED phase
      [] o = "Over2" /\ Tame(s) -> Note(o, <<d, s, t, kind[1], kind[2], kind[3]>>, t, Over(Others(d)[2], Over(Others(d)[1], f[s])), <<>>) /\ UNCHANGED phase
      [] o = "Over3" /\ Top(f[s]) <= 4 /\ \A c \in Dirs : n[c] <= 3 /\ w[c] = 1 -> LET g == Over(3, Over(2, Over(1, f[s]))) IN Note(o, <<s, t, kind[1], kind[2], kind[3]>>, t, g, <<g[<<0, 0, 0>>]>>) /\ UNCHANGED phase
      [] o = "At" -> Note(o, <<s, X[1], X[2], X[3]>>, "", <<>>, <<At(f[s], X)>>) /\ UNCHANGED phase
      [] o = "AtIn" -> Note(o, <<N, x, s, X[1], X[2]>>, "", <<>>, <<AtIn(N, x, f[s], X)>>) /\ UNCHANGED phase
      [] o = "AtLine" -> Note(o, <<d, a, b, s, X[1]>>, "", <<>>, <<AtLine(d, a, b, f[s], X[1])>>) /\ UNCHANGED phase
      [] o = "Get" -> Note(o, <<d, a, b, s>>, "", <<>>, LineAt(d, a, b, f[s])) /\ UNCHANGED phase
      [] o = "Regrid" /\ Tame(s) -> \E pts \in {[y \in 1..(Rnd(1..4, k)) |-> <<Rnd(0..9, y), Rnd(0..9, y), Rnd(0..9, y)>>]} : LET c == Coeffs(f[s]) IN
           Note(o, <<s, e, pts>>, e, c, [y \in 1..Len(pts) |-> At(c, pts[y])]) /\ UNCHANGED phase
      [] o = "Put" -> \E l \in {[y \in 1..n[d] |-> Rnd((0 - 9)..99, k)]} :
           Note(o, <<d, a, b, s, l>>, s, [p \in Points |-> IF \A c \in Dirs : c = d \/ p[c] = On(d, a, b, 0)[c] THEN l[p[d] + 1] ELSE f[s][p]], <<>>) /\ UNCHANGED phase
      [] o = "Int" -> Note(o, <<d, s, e>>, e, Along(d, m.I[d], f[s]), <<>>) /\ UNCHANGED phase
      [] o = "Fail" /\ Len(hist) >= Steps - 2 -> \E what \in {Rnd({<<"Deriv", 0>>, <<"Deriv", 4>>, <<"Deriv2", 0>>, <<"Ana", 4>>, <<"Syn", 0>>, <<"AnaIn", d>>, <<"SynIn", d>>, <<"AnaIn", 4>>, <<"SynIn", 0>>, <<"CoeffsIn", 0>>, <<"EvalIn", 4>>,
                                               <<"Filter", 4>>, <<"Over", 0>>, <<"AtIn", 4>>, <<"AtLine", 0>>, <<"Get", 4>>, <<"Put", 0>>, <<"Int", 4>>, <<"All", 124>>}, k)} :
           Note("Fail", <<what[1], what[2], d>>, "", <<>>, <<>>) /\ phase' = "over"
      [] OTHER -> Note("Get", <<d, a, b, s>>, "", <<>>, LineAt(d, a, b, f[s])) /\ UNCHANGED phase
Twice(k) == \E o \in {Rnd({"Mean", "Copy", "Fill"}, k)} : \E s \in {Rnd(Regs, k)} :
    CASE o = "Fill" -> \E g \in {RndField(n, {0 - 4, 0, 2, 4, 8, 40, 1000}, k)} : Note("Fill", <<s, Flat(n, g)>>, s, g, <<>>) /\ UNCHANGED phase
      [] ~TwiceOK(n) -> Note(o, <<s>>, "", <<>>, <<>>) /\ phase' = "over"
      [] o = "Copy" -> Note(o, <<s>>, s, CopyOver(n, f[s]), <<>>) /\ UNCHANGED phase
      [] o = "Mean" /\ \A p \in Points : (f[s][p] + f[s][Partner(n, p)]) % 2 = 0 -> Note(o, <<s>>, s, Mean(n, f[s]), <<>>) /\ UNCHANGED phase
      [] OTHER -> \E g \in {RndField(n, {0 - 4, 0, 2, 4, 8, 40, 1000}, k)} : Note("Fill", <<s, Flat(n, g)>>, s, g, <<>>) /\ UNCHANGED phase
Go == /\ phase = "go" /\ Len(hist) < Steps /\ (IF Family = "ops" THEN Step(Len(hist)) ELSE Twice(Len(hist)))
End == /\ phase \in {"go", "new"} /\ (Family = "index" \/ (phase = "go" /\ Len(hist) >= Steps)) /\ phase' = "over" /\ UNCHANGED <<n, lo, w, fft, kind, m, f, f0, hist>>
Next == (\E k \in {0} : Setup(k)) \/ Go \/ End
Spec == Init /\ [][Next]_vars
(* ---- properties *)
(* the index of a point is its rank, and every number below the size is taken *)
IndexIsRank == Family = "index" =>
   /\ \A p \in Points : IndexOf(n, p) = Cardinality({r \in Points : Before(r, p)})
   /\ {IndexOf(n, p) : p \in Points} = 0..(n[1] * n[2] * n[3] - 1)
   /\ \A d \in Dirs : \A x, y \in Line(n, d) : x # y => Plane(n, d, x) \cap Plane(n, d, y) = {}
   /\ \A d \in Dirs : UNION {Plane(n, d, x) : x \in Line(n, d)} = Points
InvolutionOK == Family = "index" /\ TwiceOK(n) => \A p \in Points :
   /\ Partner(n, p) \in Points /\ Partner(n, p) # p /\ Partner(n, Partner(n, p)) = p
   \* theta' = 2 pi - theta and phi' = phi + pi: the same direction in space
   /\ (2 * Partner(n, p)[2] + 1) = 2 * n[2] - (2 * p[2] + 1)
   /\ (2 * Partner(n, p)[3] - 2 * p[3] - n[3]) % (2 * n[3]) = 0
   /\ (p[2] < n[2] \div 2) # (Partner(n, p)[2] < n[2] \div 2)
(* operations along different directions commute; a line only feels itself *)
Commute == (Family = "ops" /\ phase = "go" /\ Len(hist) = 1) =>
   /\ Deriv(2, Deriv(1, f["u"])) = Deriv(1, Deriv(2, f["u"]))
   /\ Ana(3, Ana(1, f["v"])) = Ana(1, Ana(3, f["v"]))
Separate == (Family = "ops" /\ phase = "go" /\ Len(hist) = 1) =>
   \A d \in Dirs : LET p == CHOOSE p \in Points : p = [e \in Dirs |-> n[e] - 1]
                       g == [f["u"] EXCEPT ![p] = 77]
                       c == {r \in Points : Deriv(d, g)[r] # Deriv(d, f["u"])[r]} IN
                   \A r \in c : \A e \in Dirs \ {d} : r[e] = p[e]
MeanOK == (Family = "twice" /\ phase = "go" /\ TwiceOK(n) /\ hist # <<>> /\ hist[Len(hist)].op \in {"Mean", "Copy"}) =>
   \A p \in Points : f[hist[Len(hist)].reg][p] = f[hist[Len(hist)].reg][Partner(n, p)]
Behaviour == IF Family = "index" THEN [n |-> n, plane |-> [d \in Dirs |-> [x \in 1..n[d] |-> Sorted(n, Plane(n, d, x - 1))]],
                                       inner |-> [d \in Dirs |-> [x \in 1..n[d] |-> Sorted(n, Inner(n, d, x - 1))]],
                                       pts |-> [i \in 1..(n[1] * n[2] * n[3]) |-> <<(i - 1) % n[1], ((i - 1) \div n[1]) % n[2], (i - 1) \div (n[1] * n[2])>>],
                                       partner |-> IF TwiceOK(n) THEN [i \in 1..(n[1] * n[2] * n[3]) |-> IndexOf(n, Partner(n, <<(i - 1) % n[1], ((i - 1) \div n[1]) % n[2], (i - 1) \div (n[1] * n[2])>>))] ELSE <<>>]
             ELSE [n |-> n, lo |-> lo, w |-> w, fft |-> fft, m |-> m, f |-> f0, hist |-> hist]
Dump == phase = "over" => PrintT("@@" \o ToJson(Behaviour))
================================================================================
