---------------------------- MODULE GrammarRulesMC ---------------------------
(* Every small aligned sentence pair and every choice of own words: what     *)
(* GrammarRules lets an occurrence yield is a hierarchical phrase pair of    *)
(* the textbook definition, with the smallest edge nonterminals; and the     *)
(* growing of a span, one link at a time in any order, ends at the smallest  *)
(* consistent span.                                                          *)
EXTENDS GrammarRules, TLC
CONSTANTS NF, NE, MaxLinks, Span, Gap, Nt, Sym, Variant
VARIABLES A, W, tight, ph, s, y, ctx
vars == <<A, W, tight, ph, s, y, ctx>>
O == [span |-> Span, gap |-> Gap, sym |-> Sym, nt |-> Nt, tight |-> tight]
\* the pattern and the starts of its chunks for a set of own positions
Starts(w) == {i \in w : i = 0 \/ i - 1 \notin w}
PatOf(w) == LET seq == SetToSortSeq(w, <) IN
   FoldLeft(LAMBDA a, i : (IF a # <<>> /\ i \in Starts(w) THEN Append(a, 0) ELSE a) \o <<i + 1>>, <<>>, seq)
StartSeq(w) == SetToSortSeq(Starts(w), <)
GapsWide(w) == LET p == SetToSortSeq(w, <) IN \A i \in 1..(Len(p) - 1) : p[i + 1] = p[i] + 1 \/ p[i + 1] - p[i] - 1 >= Gap
Cells == (0..(NF - 1)) \X (0..(NE - 1))
Init == /\ A \in {x \in SUBSET Cells : Cardinality(x) <= MaxLinks}
        /\ tight \in BOOLEAN /\ W = {} /\ ph = "own" /\ s = None /\ y = {} /\ ctx = None
Own == /\ ph = "own"
       /\ W' \in {w \in (SUBSET (0..(NF - 1))) \ {{}} : GapsWide(w) /\ Cardinality(Starts(w)) - 1 <= Nt /\ Len(PatOf(w)) <= Sym /\ HighOf(w) - LowOf(w) + 1 <= Span}
       /\ s' = <<LowOf(W'), HighOf(W') + 1>> /\ ph' = "grow"
       /\ y' = TLCEval(Yield(IF Variant = "misslink" /\ A # {} THEN A \ {CHOOSE x \in A : TRUE} ELSE A, PatOf(W'), StartSeq(W'), NF, IF Variant = "slack" THEN [O EXCEPT !.sym = @ + 1, !.nt = @ + 1] ELSE O))
       /\ UNCHANGED <<A, tight, ctx>>
\* one link pulls one more word in
Grow1 == /\ ph = "grow"
         /\ \E a, b \in A : /\ a[2] = b[2] \/ (Variant # "sameword" /\ LET t == Proj(A, s) IN b[2] >= t[1] /\ b[2] < t[2])
                            /\ a[1] >= s[1] /\ a[1] < s[2] /\ (b[1] < s[1] \/ b[1] >= s[2])
                            /\ s' = <<Min2(s[1], b[1]), Max2(s[2], b[1] + 1)>>
         /\ UNCHANGED <<A, W, tight, ph, y, ctx>>
Stable == LET t == Proj(A, s) IN IF Variant = "sameword" THEN \A a, b \in A : (a[2] = b[2] /\ a[1] >= s[1] /\ a[1] < s[2]) => (b[1] >= s[1] /\ b[1] < s[2])
          ELSE t = None \/ Join(Back(A, t), s) = s
Done == ph = "grow" /\ Stable /\ ph' = "done" /\ UNCHANGED <<A, W, tight, s, y, ctx>>
Next == Own \/ Grow1 \/ Done
Spec == Init /\ [][Next]_vars
\* ---- the textbook: a pair of spans such that some link is inside and none leaves
PhrasePair(f, e) == /\ f[1] < f[2] /\ e[1] < e[2]
                    /\ \E x \in A : x[1] >= f[1] /\ x[1] < f[2] /\ x[2] >= e[1] /\ x[2] < e[2]
                    /\ \A x \in A : (x[1] >= f[1] /\ x[1] < f[2]) <=> (x[2] >= e[1] /\ x[2] < e[2])
Tight(f, e) == FAligned(A, f[1]) /\ FAligned(A, f[2] - 1) /\ EAligned(A, e[1]) /\ EAligned(A, e[2] - 1)
H == <<LowOf(W), HighOf(W) + 1>>
Inner == LET st == StartSeq(W)  p == PatOf(W)  ch == Chunks(p) IN [i \in 1..(Len(st) - 1) |-> <<st[i] + Len(ch[i]), st[i + 1]>>]
GapsOf(z) == (IF z[1] THEN <<<<z[3][1], H[1]>>>> ELSE <<>>) \o Inner \o (IF z[2] THEN <<<<H[2], z[3][2]>>>> ELSE <<>>)
OneSound(z) ==
  LET g == GapsOf(z) IN
  /\ PhrasePair(z[3], z[4]) /\ (tight => Tight(z[3], z[4]))
  /\ z[3][1] >= 0 /\ z[3][2] <= NF /\ Width(z[3]) <= Span /\ Width(z[4]) <= Span
  /\ z[1] = (z[3][1] < H[1]) /\ z[2] = (z[3][2] > H[2])
  /\ Len(g) <= Nt /\ Len(PatOf(W)) + (IF z[1] THEN 1 ELSE 0) + (IF z[2] THEN 1 ELSE 0) <= Sym
  /\ Len(z[5]) = Len(g)
  /\ \A i \in DOMAIN g : Width(g[i]) >= Gap /\ PhrasePair(g[i], z[5][i]) /\ (tight => Tight(g[i], z[5][i])) /\ z[5][i][1] >= z[4][1] /\ z[5][i][2] <= z[4][2]
  /\ \A i, j \in DOMAIN g : i # j => (z[5][i][2] <= z[5][j][1]) \/ z[5][j][2] <= z[5][i][1]
  \* own words carry a link of their own
  /\ \E x \in A : x[1] \in W
Sound == ph # "grow" \/ \A z \in y : OneSound(z)
\* a phrase pair over exactly the own words is never missed
FullTight(f) == LET t == Proj(A, f) IN t # None /\ Width(t) <= Span /\ PhrasePair(f, t) /\ (tight => Tight(f, t))
Complete == ph # "grow" \/ ((FullTight(H) /\ (\E x \in A : x[1] \in W) /\ \A i \in DOMAIN Inner : FullTight(Inner[i])) => \E z \in y : ~z[1] /\ ~z[2] /\ z[3] = H)
\* no shorter edge nonterminals would do
Smallest == ph # "grow" \/ \A z \in y : \A l \in z[3][1]..H[1] : \A h \in H[2]..z[3][2] :
    (<<l, h>> # z[3] /\ (l < H[1]) = z[1] /\ (h > H[2]) = z[2]) =>
       ~(/\ FullTight(<<l, h>>) /\ (z[1] => H[1] - l >= Gap /\ FullTight(<<l, H[1]>>)) /\ (z[2] => h - H[2] >= Gap /\ FullTight(<<H[2], h>>)))
\* growing: the least span that contains the own words and is closed
ClosedSpan(f) == LET t == Proj(A, f) IN t = None \/ Join(Back(A, t), f) = f
Least == ph # "done" \/ (ClosedSpan(s) /\ \A l \in s[1]..H[1] : \A h \in H[2]..s[2] : <<l, h>> # s => ~ClosedSpan(<<l, h>>))
SameAsClosure == ph # "done" \/ LET c == Closure(A, H, TRUE, TRUE, O) IN c = None \/ c = s
\* target sides: every word of the target span is either in a chunk or in a gap, only unaligned ones move
TargetsOk == ph # "grow" \/ \A z \in y : LET v == Variants(A, z[4], z[5], NE, O) IN
    /\ v.chunks # {}
    /\ \A c \in v.chunks : LET n == Len(c) IN
         /\ n = Len(z[5]) + 1 /\ \A i \in 1..n : c[i][1] <= c[i][2] /\ c[i][1] >= 0 /\ c[i][2] <= NE
         /\ \A i \in 1..(n - 1) : LET g == <<c[i][2], c[i + 1][1]>> f == GapsOf(z)[v.ord[i]] IN PhrasePair(f, g) /\ (tight => g = z[5][v.ord[i]])
         /\ PhrasePair(z[3], <<c[1][1], c[n][2]>>) /\ (tight => <<c[1][1], c[n][2]>> = z[4])
=============================================================================
