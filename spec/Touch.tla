------------------------------- MODULE Touch -------------------------------
(* Which faces of boxes touch which (property P16).

   A grid is a set of axis-parallel boxes with integer corners (or, in the
   family of curved grids, boxes known only by the places of their points).
   Family "make" generates arrangements of boxes.  Family "check" judges what
   the real code recorded for an arrangement: the list of face entries of each
   box, each with its points, the other box and entry it touches, and flags.
   Places of points are numbers given by the recorder: two points have the
   same number iff they are the same place; at[b][p+1] is the place of point p
   of box b, -1 inside the box.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Functions

CONSTANTS Family, Many

R3 == 1..3
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

------------------------------------------------------------------------------
(* arrangements: cells of a lattice, cut at Cut[d][1..]; box k is the block of cells labelled k *)
VARIABLES st, arr

Block(C) == \E lo, hi \in [R3 -> 1..3] : C = {c \in [R3 -> 1..3] : \A d \in R3 : lo[d] <= c[d] /\ c[d] <= hi[d]}
Lo(C) == [d \in R3 |-> MinOf({c[d] : c \in C})]
Hi(C) == [d \in R3 |-> MaxOf({c[d] : c \in C})]
IsBlock(C) == C # {} /\ Cardinality(C) = (Hi(C)[1] - Lo(C)[1] + 1) * (Hi(C)[2] - Lo(C)[2] + 1) * (Hi(C)[3] - Lo(C)[3] + 1)

Cells221 == {c \in [R3 -> 1..2] : c[3] = 1}
\* every labelling of four cells whose labels are blocks 1..k
Labelled == {l \in [Cells221 -> 0..4] : LET U == {l[c] : c \in Cells221} \ {0} IN
               /\ U # {} /\ \A k \in U : \A j \in 1..k : j \in U
               /\ \A k \in U : IsBlock({c \in Cells221 : l[c] = k})}
Cut1 == <<<<0, 4, 8>>, <<0, 4, 16>>, <<0, 4>>>>
BoxOf(C, cut, n, basis) == [lo |-> [d \in R3 |-> cut[d][Lo(C)[d]]], hi |-> [d \in R3 |-> cut[d][Hi(C)[d] + 1]], n |-> n, basis |-> basis]
Bases == <<<<"c","c","c">>, <<"c","c","f">>>>
Ns == <<<<4,4,4>>, <<3,4,5>>>>
SmallArr == {[boxes |-> [k \in 1..Cardinality({l[c] : c \in Cells221} \ {0}) |->
                  BoxOf({c \in Cells221 : l[c] = k}, Cut1, IF v = 1 THEN Ns[1] ELSE IF v = 2 THEN Ns[2] ELSE Ns[1 + (k % 2)], Bases[z])],
              opt |-> opt, over |-> FALSE, conf |-> FALSE, b0 |-> 0] :
                 l \in Labelled, v \in 1..3, z \in 1..2, opt \in {"order1", "order4"}}

Rnd(S) == RandomElement(S)
\* random arrangements: boxes are blocks of a 3x2x2 lattice with random widths (periodic directions are spanned by all)
Pick(i) == LET W(x) == <<Rnd({4, 8, 12}), Rnd({4, 8, 12}), Rnd({4, 8, 12})>>
               w == TLCEval(<<W(1), W(2), W(3)>>)
               cut == TLCEval([d \in R3 |-> <<0, w[d][1], w[d][1] + w[d][2], w[d][1] + w[d][2] + w[d][3]>>])
               off == TLCEval(<<Rnd({-8, 0, 3}), Rnd({-8, 0, 3}), Rnd({-8, 0, 3})>>)
               m == Rnd(2..6)
               over == Rnd(1..4) = 1
               lim == <<3, 2, 2>>
               a == TLCEval([k \in 1..m |-> <<Rnd(1..3), Rnd(1..2), Rnd(1..2)>>])
               Sz(x) == LET r == Rnd(1..5) IN IF r <= 3 THEN 1 ELSE r - 2
               z == TLCEval([k \in 1..m |-> <<Sz(1), Sz(2), Sz(3)>>])
               up(k, d) == MinOf({lim[d], a[k][d] + z[k][d] - 1})
               raw == TLCEval([k \in 1..m |-> [lo |-> a[k], hi |-> <<up(k, 1), up(k, 2), up(k, 3)>>]])
               clash(x, y) == \A d \in R3 : raw[x].lo[d] <= raw[y].hi[d] /\ raw[y].lo[d] <= raw[x].hi[d]
               same(x, y) == raw[x] = raw[y]
               keep == {k \in 1..m : \A j \in 1..k-1 : IF over THEN ~same(j, k) ELSE ~clash(j, k)}
               ks == SetToSortSeq(keep, <)
               nn == TLCEval(<<Rnd(3..6), Rnd(3..6), Rnd(3..6)>>)
               eq == Rnd(1..3) > 1
               n == TLCEval([k \in 1..m |-> IF eq THEN nn ELSE <<Rnd(3..5), Rnd(3..5), Rnd(3..5)>>])
               per == TLCEval(<<Rnd(1..8) = 1, Rnd(1..8) = 1, Rnd(1..8) = 1>>)
               f(k) == [d \in R3 |-> IF per[d] /\ \A j \in keep : raw[j].lo[d] = 1 /\ raw[j].hi[d] = lim[d] THEN "f" ELSE "c"]
           IN [boxes |-> [k \in 1..Len(ks) |-> [lo |-> [d \in R3 |-> cut[d][raw[ks[k]].lo[d]] + off[d]], hi |-> [d \in R3 |-> cut[d][raw[ks[k]].hi[d] + 1] + off[d]],
                                                n |-> n[ks[k]], basis |-> f(ks[k])]],
               opt |-> Rnd({"order0", "order1", "order2", "order3", "order4"}), conf |-> FALSE, b0 |-> 0, over |-> \E j, k \in keep : j # k /\ clash(j, k)]
\* products of cuts with holes: every contact is a whole face with the same points
Product(i) == LET W(x) == <<Rnd({4, 8, 12}), Rnd({4, 8, 12}), Rnd({4, 8, 12})>>
               w == TLCEval(<<W(1), W(2), W(3)>>)
                  cut == TLCEval([d \in R3 |-> <<0, w[d][1], w[d][1] + w[d][2], w[d][1] + w[d][2] + w[d][3]>>])
                  Nn(x) == <<Rnd(3..6), Rnd(3..6), Rnd(3..6)>>
                  n == TLCEval(<<Nn(1), Nn(2), Nn(3)>>)
                  per == Rnd(1..4) = 1
                  C == TLCEval({c \in [R3 -> 1..3] : (c[2] <= 2 /\ c[3] <= 2 /\ (per => c[3] = 1)) /\ Rnd(1..3) = 1})
                  D == IF C = {} THEN {<<1, 1, 1>>} ELSE C
                  os == TLCEval(SetToSeq(D))
                  sh == TLCEval(LET k == Rnd(0..Len(os) - 1) IN [j \in 1..Len(os) |-> os[1 + ((j - 1 + k) % Len(os))]])
              IN [boxes |-> [k \in 1..Len(sh) |-> [lo |-> [d \in R3 |-> cut[d][sh[k][d]]], hi |-> [d \in R3 |-> cut[d][sh[k][d] + 1]],
                                                   n |-> [d \in R3 |-> n[d][sh[k][d]]], basis |-> IF per THEN <<"c","c","f">> ELSE <<"c","c","c">>]],
                  opt |-> Rnd({"order0", "order1", "order2", "order3", "order4", "populate", "same", "same"}), over |-> FALSE, conf |-> TRUE, b0 |-> Rnd(0..Len(sh) - 1)]

\* cubes filled with a box and two layers of curved boxes, spheres around two such cubes
Cubes(i) == LET k == TLCEval(Rnd(<<13, 26, 13, 26, 32, 38>>[1 + (i % 6)] .. <<13, 26, 13, 26, 32, 38>>[1 + (i % 6)]))
                dc == TLCEval(Rnd({5, 6, 8}))   \* eighths
                in1 == TLCEval(Rnd(1..2))  in2 == TLCEval(Rnd(1..2))
                m == TLCEval(Rnd(3..5))
                eq == TLCEval(Rnd(1..4) > 1 \/ m = 4)
                \* the sphere in between encloses the inner box
                mid(a) == TLCEval(Rnd({x \in 1..dc - 1 : x * x > 3 * a * a}))
            IN [kind |-> k, b0 |-> Rnd({0, 0, 1, 2}), dc |-> dc, din1 |-> in1, dmid1 |-> mid(in1),
                din2 |-> in2, dmid2 |-> IF k = 13 THEN dc ELSE mid(in2), r0 |-> 4 * dc + Rnd({0, 7}), r1 |-> 9 * dc,
                n |-> <<Rnd(3..5), m, IF eq THEN m ELSE 8 - m>>, conf |-> k <= 26 /\ eq,
                opt |-> Rnd({"order0", "order1", "order2", "order3", "order4"}), over |-> FALSE]

MakeInit == st = 0 /\ arr = <<>>
MakeNext == \/ /\ Family = "small" /\ st = 0 /\ st' = 1 /\ \E a \in SmallArr : arr' = a /\ PrintT("@@" \o ToJson(a))
            \/ /\ Family = "random" /\ st < Many /\ st' = st + 1 /\ \E a \in {Pick(st)} : arr' = a /\ PrintT("@@" \o ToJson(a))
            \/ /\ Family = "cubes" /\ st < Many /\ st' = st + 1 /\ \E a \in {Cubes(st)} : arr' = a /\ PrintT("@@" \o ToJson(a))
            \/ /\ Family = "product" /\ st < Many /\ st' = st + 1 /\ \E a \in {Product(st)} : arr' = a /\ PrintT("@@" \o ToJson(a))

------------------------------------------------------------------------------
(* judging a record *)
Traces == IF Family = "check" THEN ndJsonDeserialize(IOEnv.TRACES) ELSE <<>>

Dir(f) == 1 + (f \div 2)
IJK(n, p) == <<p % n[1], (p \div n[1]) % n[2], p \div (n[1] * n[2])>>
Ind(n, x) == x[1] + n[1] * (x[2] + n[2] * x[3])
Plane(n, f) == IF f % 2 = 0 THEN 0 ELSE n[Dir(f)] - 1
OnFace(n, f) == {p \in 0..(n[1] * n[2] * n[3] - 1) : IJK(n, p)[Dir(f)] = Plane(n, f)}
\* one step away from edges, within the face
Inward(n, f, p) == LET x == IJK(n, p) IN
  Ind(n, [d \in R3 |-> IF d = Dir(f) THEN x[d] ELSE IF x[d] = 0 THEN 1 ELSE IF x[d] = n[d] - 1 THEN n[d] - 2 ELSE x[d]])
IsEdge(n, f, p) == Inward(n, f, p) # p
PSet(e) == {e.p[i] : i \in 1..Len(e.p)}

Pow2(k) == IF k = 0 THEN 1 ELSE 2 ^ k
SumBits(S) == LET RECURSIVE s(_) s(T) == IF T = {} THEN 0 ELSE LET x == MaxOf(T) IN Pow2(x + 1) + s(T \ {x}) IN s(S)

Judge(t) ==
  LET nb == Len(t.boxes)
      N(b) == t.boxes[b].n
      At(b, p) == t.boxes[b].at[p + 1]
      E(b) == t.faces[b]
      X(b, p) == t.xyz[At(b, p) + 1]                    \* thousandths
      lat == t.lat                                       \* corners known
      L(b, d) == 1000 * t.boxes[b].lo[d]
      H(b, d) == 1000 * t.boxes[b].hi[d]
      Per(b, f) == t.boxes[b].per[Dir(f)] = 1
      Beyond(b, f, q) == {o \in 1..nb : o # b /\ \A d \in R3 :
            LET x == X(b, q)[d] IN IF d = Dir(f) THEN IF f % 2 = 1 THEN L(o, d) <= x + 2 /\ x + 2 < H(o, d) ELSE L(o, d) < x - 2 /\ x - 2 <= H(o, d)
                                   ELSE L(o, d) - 2 <= x /\ x <= H(o, d) + 2}
      \* is the place of p in the plane of face g of box o
      Inplane(b, p, o, g) == LET x == X(b, p)[Dir(g)]  y == IF g % 2 = 0 THEN L(o, Dir(g)) ELSE H(o, Dir(g)) IN x - 2 <= y /\ y <= x + 2
      FaceIds(b, f) == {At(b, p) : p \in OnFace(N(b), f)}
      BF == {<<b, f>> : b \in (t.b0 + 1)..nb, f \in 0..5}
      Ids == TLCEval([x \in BF |-> FaceIds(x[1], x[2])])
      wt == t.alg = "wt"
      Ents == {<<b, i>> : b \in 1..nb, i \in 1..MaxOf({0} \cup {Len(t.faces[c]) : c \in 1..nb})}
      All == {x \in Ents : x[2] <= Len(t.faces[x[1]])}
      e(x) == t.faces[x[1]][x[2]]
      Back(x) == {i \in 0..(Len(E(e(x).ob)) - 1) : E(e(x).ob)[i + 1].ob = x[1]}     \* entries of the other box that refer to this box
      HasPartner(x) == e(x).ob > 0 /\ e(x).ofi >= 0 /\ e(x).ofi < Len(E(e(x).ob))
      Par(x) == <<e(x).ob, e(x).ofi + 1>>
      Mutual(x) == HasPartner(x) /\ HasPartner(Par(x)) /\ Par(Par(x)) = x
      later(x, p) == \E j \in (x[2] + 1)..Len(E(x[1])) : E(x[1])[j].o = 1 /\ p \in PSet(E(x[1])[j])
      IdSet(x) == {At(x[1], p) : p \in PSet(e(x))}
      \* in the plane of the other face (points at an edge may stick out over the other box)
      TouchSpec(x) == HasPartner(x) /\ e(Par(x)).ofi >= 0 /\ \A p \in PSet(e(x)) : Inplane(x[1], p, e(x).ob, e(Par(x)).f)
      bad == {
        <<"entry", x>> : x \in {y \in All : ~(e(y).ok = 1 /\ Len(e(y).p) > 0 /\ (t.alg = "ar" \/ Cardinality(PSet(e(y))) = Len(e(y).p)) /\ e(y).f \in 0..5
                                               /\ PSet(e(y)) \subseteq OnFace(N(y[1]), e(y).f))}}
       \cup {<<"outer", x>> : x \in {y \in All : (e(y).ob = 0) # (e(y).out = 1) \/ e(y).ob = y[1] \/ e(y).ob > nb
                                                \/ (e(y).ob = 0 /\ ~(e(y).ofi = -1 /\ e(y).touch = 0 /\ e(y).fpts = 0 /\ e(y).o = 0))}}
       \cup {<<"periodic", x>> : x \in {y \in All : Per(y[1], e(y).f) /\ t.alg # "same"}}
       \cup {<<"not asked for", b>> : b \in {z \in 1..t.b0 : Len(E(z)) > 0}}
       \* every point of every face is in an entry of this face, or, if dropped there, in one of another face
       \cup {<<"cover", y>> : y \in {z \in BF : ~Per(z[1], z[2]) /\
                \E p \in OnFace(N(z[1]), z[2]) : LET c == {i \in 1..Len(E(z[1])) : E(z[1])[i].f = z[2] /\ p \in PSet(E(z[1])[i])} IN
                   IF Cardinality(c) = 1 THEN FALSE ELSE IF c = {} THEN ~(IsEdge(N(z[1]), z[2], p) /\ \E i \in 1..Len(E(z[1])) : p \in PSet(E(z[1])[i])) ELSE wt}}
       \cup (IF ~lat THEN {} ELSE
         {<<"neighbour", x>> : x \in {y \in All : ~\A p \in PSet(e(y)) : LET B == Beyond(y[1], e(y).f, Inward(N(y[1]), e(y).f, p)) IN
                  IF t.alg = "same" THEN TRUE
                  ELSE IF wt THEN (IF e(y).ob = 0 THEN B = {} ELSE e(y).ob \in B)
                  ELSE IF IsEdge(N(y[1]), e(y).f, p) THEN TRUE ELSE IF e(y).ob = 0 THEN B = {} ELSE e(y).ob \in B}})
       \* the entry of the other box
       \cup {<<"back", x>> : x \in {y \in All : e(y).ob > 0 /\
                   LET S == Back(y) IN IF wt THEN e(y).ofi # (IF S = {} THEN -1 ELSE IF Cardinality(S) = 1 THEN CHOOSE s \in S : TRUE ELSE -SumBits(S))
                                       ELSE ~(e(y).ofi \in S) /\ ~(S = {} /\ e(y).ofi = -1)}}
       \cup {<<"mutual", x>> : x \in {y \in All : HasPartner(y) /\ HasPartner(Par(y)) /\ ~Mutual(y) /\ ~t.over}}
       \cup (IF ~lat THEN {} ELSE {<<"opposite", x>> : x \in {y \in All : e(y).touch = 1 /\ HasPartner(y) /\ Dir(e(Par(y)).f) # Dir(e(y).f)}})
       \* touching and equal lists of points
       \cup {<<"touch", x>> : x \in {y \in All : e(y).ob > 0 /\ ((e(y).touch = 1 /\ ~HasPartner(y)) \/ (Mutual(y) /\ e(y).touch # e(Par(y)).touch)
                     \/ (lat /\ (e(y).touch = 1) # TouchSpec(y)))}}
       \cup {<<"same points", x>> : x \in {y \in All : e(y).ob > 0 /\
                     IF e(y).fpts = 1 THEN ~(Mutual(y) /\ e(y).touch = 1 /\ e(Par(y)).fpts = 1 /\ Len(e(y).p) = Len(e(Par(y)).p)
                                             /\ \A i \in 1..Len(e(y).p) : At(y[1], e(y).p[i]) = At(Par(y)[1], e(Par(y)).p[i]))
                     ELSE Mutual(y) /\ IdSet(y) = IdSet(Par(y))}}
       \cup {<<"kind", x>> : x \in {y \in All : e(y).ob > 0 /\
                     IF e(y).touch = 1 /\ e(y).fpts = 0 THEN ~(HasPartner(y) /\ e(y).same[Dir(e(Par(y)).f)] = 1 /\ (wt => \A d \in R3 : d # Dir(e(Par(y)).f) => e(y).same[d] = 0))
                     ELSE wt /\ e(y).same # <<0, 0, 0>>}}
       \* of two that touch one sets the value, the other the derivative
       \cup {<<"normal", x>> : x \in {y \in All : e(y).ob > 0 /\
                     IF e(y).touch = 1 THEN Mutual(y) /\ e(y).der + e(Par(y)).der # 1
                     ELSE e(y).der # 0}}
       \cup {<<"other coordinates", x>> : x \in {y \in All : e(y).ob > 0 /\ t.alg # "same" /\
                     (e(y).o # (IF e(y).fpts = 1 THEN 0 ELSE 1) \/
                      (e(y).o = 1 /\ (Len(e(y).map) # Len(e(y).p) \/ \E i \in 1..Len(e(y).p) : e(y).map[i] = 0 /\ ~later(y, e(y).p[i]))))}}
       \* a face that is, point for point, also a face of one other box is one entry paired with it
       \cup {<<"whole face", y>> : y \in {z \in BF : t.alg # "ar" /\ ~t.over /\
                LET Q == {w \in BF : w[1] # z[1] /\ Ids[w] = Ids[z]} IN
                (Cardinality(Q) = 1 /\ ~Per(z[1], z[2])) /\ LET w == CHOOSE w \in Q : TRUE
                                          c == {i \in 1..Len(E(z[1])) : E(z[1])[i].f = z[2]} IN
                   ~(Cardinality(c) = 1 /\ LET x == <<z[1], CHOOSE i \in c : TRUE>> IN
                        e(x).ob = w[1] /\ HasPartner(x) /\ e(Par(x)).f = w[2] /\ e(x).fpts = 1 /\ PSet(e(x)) = OnFace(N(z[1]), z[2]))}}
       \* where all contacts are such, any other face is outside
       \cup {<<"outside", y>> : y \in {z \in BF : t.conf /\ ~Per(z[1], z[2]) /\ t.alg # "ar" /\
                {w \in BF : w[1] # z[1] /\ Ids[w] = Ids[z]} = {} /\
                LET c == {i \in 1..Len(E(z[1])) : E(z[1])[i].f = z[2]} IN \E i \in c : E(z[1])[i].ob # 0}}
  IN bad

CheckInit == st = 0 /\ arr = <<>>
CheckNext == /\ st < Len(Traces) /\ st' = st + 1 /\ arr' = <<>>
             /\ LET j == Judge(Traces[st + 1]) IN PrintT("@@" \o ToJson([t |-> st + 1, bad |-> SetToSeq(j)]))

Init == IF Family = "check" THEN CheckInit ELSE MakeInit
Next == IF Family = "check" THEN CheckNext ELSE MakeNext
Spec == Init /\ [][Next]_<<st, arr>>
=============================================================================
