---------------------------- MODULE PatternCore ----------------------------
(* Periodic pattern trees.  A leaf is [r |-> 0, ev |-> event]; a block is     *)
(* [r |-> repetitions, p |-> period, ch |-> << [d |-> distance, n |-> node] >>]*)
(* where the distance of the first child is 0.                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Bags, Log2

IsLeaf(n) == n.r = 0
Abs(x) == IF x < 0 THEN -x ELSE x
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* ---- how many occurrences, how deep, how wide ---- *)
RECURSIVE NbOccs(_), Leaves(_), Depth(_), Alphabet(_)
NbOccs(n) == IF IsLeaf(n) THEN 1 ELSE n.r * SumSeq([j \in DOMAIN n.ch |-> NbOccs(n.ch[j].n)])
Leaves(n) == IF IsLeaf(n) THEN 1 ELSE SumSeq([j \in DOMAIN n.ch |-> Leaves(n.ch[j].n)])
Depth(n) == IF IsLeaf(n) THEN 0 ELSE 1 + Max({Depth(n.ch[j].n) : j \in DOMAIN n.ch})
Alphabet(n) == IF IsLeaf(n) THEN {n.ev} ELSE UNION {Alphabet(n.ch[j].n) : j \in DOMAIN n.ch}

(* ---- the perfect (uncorrected) occurrences, in construction order:       *)
(* start plus the periods and inner distances along the path.               *)
(* key: path from the root, <<child, repetition>> pairs                     *)
RECURSIVE Star(_, _, _)
Star(n, t, key) ==
  IF IsLeaf(n) THEN << [t |-> t, ev |-> n.ev, key |-> key] >>
  ELSE Cat([i \in 1 .. n.r |->
         Cat([j \in DOMAIN n.ch |->
           Star(n.ch[j].n, t + (i - 1) * n.p + SumSeq([k \in 1 .. j |-> n.ch[k].d]), Append(key, <<j, i>>))])])

(* ---- corrections accumulate along the path: the correction of an          *)
(* occurrence is its own plus those of the first leaf of every earlier       *)
(* sibling and of every earlier repetition of each block on its path         *)
RECURSIVE FirstKey(_, _)
FirstKey(n, key) == IF IsLeaf(n) THEN key ELSE FirstKey(n.ch[1].n, Append(key, <<1, 1>>))
RECURSIVE NodeAt(_, _)
NodeAt(n, key) == IF key = <<>> THEN n ELSE NodeAt(n.ch[Head(key)[1]].n, Tail(key))
CorrKeys(root, key) ==
  UNION {LET pre == SubSeq(key, 1, m - 1)
             blk == NodeAt(root, pre)
             j == key[m][1]
             i == key[m][2]
         IN {FirstKey(blk.ch[k].n, Append(pre, <<k, i>>)) : k \in 1 .. j - 1}
            \cup {FirstKey(blk.ch[1].n, Append(pre, <<1, k>>)) : k \in 1 .. i - 1}
         : m \in DOMAIN key}
\* E: corrections in construction order, the first one (of the root) being 0
AccTimes(root, t0, E) ==
  LET st == Star(root, t0, <<>>)
      pos(k) == CHOOSE i \in DOMAIN st : st[i].key = k
  IN [i \in DOMAIN st |-> [t |-> st[i].t + E[i] + FoldSet(LAMBDA k, a : a + E[pos(k)], 0, CorrKeys(root, st[i].key)),
                            ev |-> st[i].ev]]

(* ---- the same occurrences described by reference: each block repetition   *)
(* starts one period after the first event of the previous one, each child   *)
(* one distance after the first event of its left sibling                    *)
RECURSIVE Exp(_, _, _, _), ExpReps(_, _, _, _, _), ExpCh(_, _, _, _, _)
Exp(n, start, E, off) ==
  IF IsLeaf(n) THEN << [t |-> start + E[off + 1], ev |-> n.ev] >> ELSE ExpReps(n, start, E, off, 1)
ExpReps(n, start, E, off, i) ==
  LET blk == ExpCh(n, start, E, off, 1)
  IN IF i = n.r THEN blk ELSE blk \o ExpReps(n, blk[1].t + n.p, E, off + Len(blk), i + 1)
ExpCh(n, start, E, off, j) ==
  LET s == Exp(n.ch[j].n, start, E, off)
  IN IF j = Len(n.ch) THEN s ELSE s \o ExpCh(n, s[1].t + n.ch[j + 1].d, E, off + Len(s), j + 1)
Expand(root, t0, E) == Exp(root, t0, E, 0)

(* ---- the inverse: the corrections that yield given times O ---- *)
RECURSIVE Inv(_, _, _, _), InvReps(_, _, _, _, _), InvCh(_, _, _, _, _)
Inv(n, start, O, off) == IF IsLeaf(n) THEN << O[off + 1] - start >> ELSE InvReps(n, start, O, off, 1)
InvReps(n, start, O, off, i) ==
  LET blk == InvCh(n, start, O, off, 1)
  IN IF i = n.r THEN blk ELSE blk \o InvReps(n, O[off + 1] + n.p, O, off + Len(blk), i + 1)
InvCh(n, start, O, off, j) ==
  LET s == Inv(n.ch[j].n, start, O, off)
  IN IF j = Len(n.ch) THEN s ELSE s \o InvCh(n, O[off + 1] + n.ch[j + 1].d, O, off + Len(s), j + 1)
Corrections(root, O) == Inv(root, O[1], O, 0)

Zero(n) == [i \in 1 .. n |-> 0]
EventBag(s) == FoldLeft(LAMBDA b, x : b (+) SetToBag({<<x.t, x.ev>>}), EmptyBag, s)
EventSet(s) == {<<s[i].t, s[i].ev>> : i \in DOMAIN s}

(* ---- operations on trees ---- *)
Leaf(e) == [r |-> 0, ev |-> e]
Cycle(e, r, p) == [r |-> r, p |-> p, ch |-> << [d |-> 0, n |-> Leaf(e)] >>]
Add(n, d, child) == [n EXCEPT !.ch = Append(@, [d |-> d, n |-> child])]
\* at an inner block: path of child indices
RECURSIVE AddAt(_, _, _, _)
AddAt(n, path, d, child) ==
  IF path = <<>> THEN Add(n, d, child)
  ELSE [n EXCEPT !.ch[Head(path)].n = AddAt(n.ch[Head(path)].n, Tail(path), d, child)]
RECURSIVE BlockPaths(_, _)
BlockPaths(n, path) ==
  IF IsLeaf(n) THEN {} ELSE {path} \cup UNION {BlockPaths(n.ch[j].n, Append(path, j)) : j \in DOMAIN n.ch}
Wrap(n, r, p) == [r |-> r, p |-> p, ch |-> << [d |-> 0, n |-> n] >>]
\* children that are single-child blocks of the same length and period can be merged into one block
Factorisable(n) ==
  /\ ~IsLeaf(n) /\ Len(n.ch) > 1
  /\ \A j \in DOMAIN n.ch : ~IsLeaf(n.ch[j].n) /\ Len(n.ch[j].n.ch) = 1
  /\ \A j \in DOMAIN n.ch : n.ch[j].n.r = n.ch[1].n.r /\ n.ch[j].n.p = n.ch[1].n.p
Factorise(n) ==
  [r |-> n.r, p |-> n.p,
   ch |-> << [d |-> 0, n |-> [r |-> n.ch[1].n.r, p |-> n.ch[1].n.p,
                             ch |-> [j \in DOMAIN n.ch |-> [d |-> n.ch[j].d, n |-> n.ch[j].n.ch[1].n]]]] >>]
RECURSIVE FactorAt(_, _)
FactorAt(n, path) ==  \* path: child indices
  IF path = <<>> THEN Factorise(n)
  ELSE [n EXCEPT !.ch[Head(path)].n = FactorAt(n.ch[Head(path)].n, Tail(path))]
RECURSIVE FactorPaths(_, _)
FactorPaths(n, path) ==
  IF IsLeaf(n) THEN {}
  ELSE (IF Factorisable(n) THEN {path} ELSE {})
       \cup UNION {FactorPaths(n.ch[j].n, Append(path, j)) : j \in DOMAIN n.ch}

(* ---- code length, in 1/65536 bit ---- *)
(* dd: [nb |-> [event -> occurrences], tot, dt |-> time span, end |-> last time] *)
LgP(x) == IF x <= 0 THEN 0 ELSE Lg(x)
RECURSIVE ClEvents(_, _), ClR(_, _), MinOcc(_, _), ClPD(_, _)
ClEvents(n, dd) ==
  IF IsLeaf(n) THEN Lg(3 * dd.tot) - Lg(dd.nb[n.ev])
  ELSE 2 * Lg(3) + SumSeq([j \in DOMAIN n.ch |-> ClEvents(n.ch[j].n, dd)])
MinOcc(n, dd) == IF IsLeaf(n) THEN dd.nb[n.ev] ELSE Min({MinOcc(n.ch[j].n, dd) : j \in DOMAIN n.ch})
ClR(n, dd) == IF IsLeaf(n) THEN 0 ELSE Lg(MinOcc(n, dd)) + SumSeq([j \in DOMAIN n.ch |-> ClR(n.ch[j].n, dd)])
\* periods and distances below a child that may span T time units
ClPDch(n, T, dd) ==
  (Len(n.ch) - 1) * LgP(T + 1)
  + SumSeq([j \in DOMAIN n.ch |-> ClPD(n.ch[j].n, T - SumSeq([k \in 1 .. j |-> n.ch[k].d]))])
ClPD(n, T) == IF IsLeaf(n) THEN 0 ELSE LgP(T \div (n.r - 1)) + ClPDch(n, T - n.r + 1, 0)
Nested(n) == Len(n.ch) > 1 \/ ~IsLeaf(n.ch[1].n)
\* keys of the last occurrence of each child subtree's right-most leaf
RECURSIVE RightLeaves(_, _)
RightLeaves(n, key) ==
  IF IsLeaf(n) THEN {key}
  ELSE UNION {LET m == n.ch[j].n IN
                IF IsLeaf(m) THEN (IF j = Len(n.ch) THEN {Append(key, <<j, n.r>>)} ELSE {})
                ELSE RightLeaves(m, Append(key, <<j, n.r>>)) : j \in DOMAIN n.ch}
ClParts(root, t0, E, dd) ==
  LET st == Star(root, t0, <<>>)
      ex == Expand(root, t0, E)
      pos(k) == CHOOSE i \in DOMAIN st : st[i].key = k
      shift(k) == ex[pos(k)].t - st[pos(k)].t
      za == FirstKey(root.ch[1].n, << <<1, root.r>> >>)
      sig == shift(za)
      span == dd.end - t0 - root.p * (root.r - 1) - Min({shift(k) : k \in RightLeaves(root, <<>>)})
      val == Max({st[i].t : i \in DOMAIN st}) - st[pos(za)].t
  IN [ ev |-> ClEvents(root, dd), r |-> ClR(root, dd),
       p |-> LgP((dd.dt - sig) \div (root.r - 1)),
       t0 |-> LgP(dd.dt - sig - root.p * (root.r - 1) + 1),
       pd |-> IF Nested(root) THEN ClPDch(root, val, dd) + LgP(span + 1) ELSE 0,
       e |-> BIT * SumSeq([i \in 1 .. Len(E) - 1 |-> 2 + Abs(E[i + 1])]) ]
CodeLength(root, t0, E, dd) ==
  LET q == ClParts(root, t0, E, dd) IN q.ev + q.r + q.p + q.t0 + q.pd + q.e
CostOne(dd, ev) == Lg(dd.dt + 1) + Lg(dd.tot) - Lg(dd.nb[ev])
=============================================================================
