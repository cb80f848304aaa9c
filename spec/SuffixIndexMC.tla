---------------------------- MODULE SuffixIndexMC ----------------------------
(* How the extractor answers: suffixes sorted by prefix doubling, phrases    *)
(* found by narrowing a range of the sorted suffixes word by word, gaps by   *)
(* extending known placements to either side, frequent combinations read     *)
(* from an index built sentence by sentence.  Every corpus up to Size words, *)
(* every pattern, every order of extension.                                  *)
EXTENDS SuffixIndex, TLC
CONSTANTS Words, Size, Two, MaxPat, Span, MinGap, Freq, Super, Variant
VARIABLES c, ph, h, g, sa, p, lo, hi, i, j, loc
vars == <<c, ph, h, g, sa, p, lo, hi, i, j, loc>>
Sents(n) == UNION {[1..k -> 1..Words] : k \in 0..n}
Corpora == (IF ~Two THEN {} ELSE {x \in {<<s, t>> : s \in Sents(Size), t \in Sents(Size)} : Len(x[1]) + Len(x[2]) <= Size}) \cup {<<s>> : s \in Sents(Size)}
Pats == {x \in UNION {[1..k -> 0..Words] : k \in 1..MaxPat} : x[1] # 0 /\ x[Len(x)] # 0 /\ (\A k \in 1..(Len(x) - 1) : x[k] # 0 \/ x[k + 1] # 0)
          /\ Cardinality({k \in DOMAIN x : x[k] = 0}) <= 2}
D == DataOf(c)
N == Len(D)
\* ---- sorting: g[t]: the last place of t's group when suffixes are grouped by their first h words
Key(t) == IF t = N THEN -1 ELSE D[t + 1]
GroupBy(less(_, _)) == [t \in 0..N |-> Cardinality({u \in 0..N : ~less(t, u)}) - 1]
Step == IF Variant = "samestep" THEN 1 ELSE h
GAt(gg, t) == IF t > N THEN -1 ELSE gg[t]
Init == c \in Corpora /\ ph = "sort" /\ h = 1 /\ g = <<>> /\ sa = <<>> /\ p = <<>> /\ lo = 0 /\ hi = 0 /\ i = 0 /\ j = 0 /\ loc = {}
Same == UNCHANGED <<c, p, lo, hi, i, j, loc>>
Bucket == ph = "sort" /\ g = <<>> /\ g' = GroupBy(LAMBDA a, b : Key(a) < Key(b)) /\ h' = 1 /\ UNCHANGED <<ph, sa>> /\ Same
Sorted == \A a, b \in 0..N : a # b => g[a] # g[b]
Double == /\ ph = "sort" /\ g # <<>> /\ ~Sorted
          /\ g' = GroupBy(LAMBDA a, b : g[a] < g[b] \/ (g[a] = g[b] /\ GAt(g, a + Step) < GAt(g, b + Step)))
          /\ h' = 2 * h /\ UNCHANGED <<ph, sa>> /\ Same
Finish == ph = "sort" /\ g # <<>> /\ Sorted /\ ph' = "pick" /\ sa' = [k \in 1..(N + 1) |-> CHOOSE t \in 0..N : g[t] = k - 1] /\ UNCHANGED <<h, g>> /\ Same
\* ---- looking up
Pick == /\ ph = "pick" /\ ph' = "find" /\ p' \in Pats
        /\ \E k \in DOMAIN p' : p'[k] # 0 /\ i' = k /\ j' = k
        /\ lo' = 0 /\ hi' = N + 1 /\ loc' = {} /\ UNCHANGED <<c, h, g, sa>>
RECURSIVE Start(_, _, _, _, _)
Start(a, b, w, off, res) == IF a >= b THEN res ELSE LET m == a + (b - a) \div 2  t == sa[m + 1] + off IN
     IF t >= N \/ Key(t) < w THEN Start(m + 1, b, w, off, res) ELSE Start(a, m, w, off, m)
Look(a, b, w, off) == <<Start(a, b, w, off, b), Start(a, b, w + 1, off, b)>>
Cur == SubSeq(p, i, j)
\* the first word; from the whole range
First == /\ ph = "find" /\ i = j /\ lo = 0 /\ hi = N + 1 /\ loc = {}
         /\ lo' = Look(0, N + 1, p[i], 0)[1] /\ hi' = Look(0, N + 1, p[i], 0)[2] /\ ph' = "ext" /\ UNCHANGED <<c, h, g, sa, p, i, j, loc>>
Contig == \A k \in i..j : p[k] # 0
Places1 == IF Contig THEN {<<sa[k]>> : k \in (lo + 1)..hi} ELSE loc
Narrow == /\ ph = "ext" /\ Contig /\ j < Len(p) /\ p[j + 1] # 0
          /\ LET r == Look(lo, hi, p[j + 1], j - i + 1) IN lo' = r[1] /\ hi' = r[2]
          /\ j' = j + 1 /\ UNCHANGED <<c, ph, h, g, sa, p, i, loc>>
SentEnd(t) == CHOOSE e \in t..(N - 1) : D[e + 1] = 0 /\ \A k \in t..(e - 1) : D[k + 1] # 0
SentBegin(t) == CHOOSE b \in 0..t : (b = 0 \/ D[b] = 0) /\ \A k \in b..(t - 1) : D[k + 1] # 0
LastLen(q) == LET ch == Chunks(q) IN Len(ch[Len(ch)])
Over == IF Variant = "span" THEN 1 ELSE 0
\* placements of Cur extended by the word (after a gap if there is one) to the right
RightOf == LET gap == p[j + 1] = 0  k == IF gap THEN j + 2 ELSE j + 1 IN
  UNION {LET s0 == m[Len(m)] + LastLen(Cur)
             from == IF gap THEN s0 + MinGap + (IF Variant = "gap" THEN -1 ELSE 0) ELSE s0
             to == IF gap THEN m[1] + Span - 1 + Over ELSE s0
             end == SentEnd(m[1]) - (IF Variant = "lastword" THEN 1 ELSE 0) IN
         {IF gap THEN Append(m, t) ELSE m : t \in {u \in from..to : u < end /\ u - m[1] < Span + Over /\ D[u + 1] = p[k]}} : m \in Places1}
LeftOf == LET gap == p[i - 1] = 0  k == IF gap THEN i - 2 ELSE i - 1 IN
  UNION {LET to == IF gap THEN m[1] - 1 - MinGap + (IF Variant = "gap" THEN 1 ELSE 0) ELSE m[1] - 1
             last == m[Len(m)] + LastLen(Cur) - 1
             from == IF gap THEN last - Span + 1 - Over ELSE to
             begin == SentBegin(m[1]) IN
         {IF gap THEN <<t>> \o m ELSE [m EXCEPT ![1] = t] : t \in {u \in from..to : u >= begin /\ last - u < Span + Over /\ D[u + 1] = p[k]}} : m \in Places1}
Right == /\ ph = "ext" /\ j < Len(p) /\ ~(Contig /\ p[j + 1] # 0)
         /\ loc' = RightOf /\ j' = (IF p[j + 1] = 0 THEN j + 2 ELSE j + 1) /\ UNCHANGED <<c, ph, h, g, sa, p, lo, hi, i>>
\* contiguous phrases are only found from the left; a word before placements that have a gap
Left == /\ ph = "ext" /\ i > 1 /\ (p[i - 1] = 0 \/ ~Contig)
        /\ loc' = LeftOf /\ i' = (IF p[i - 1] = 0 THEN i - 2 ELSE i - 1) /\ UNCHANGED <<c, ph, h, g, sa, p, lo, hi, j>>
\* ---- the index of frequent combinations
AllPhrases == {SubSeq(D, a + 1, b + 1) : a \in 0..(N - 1), b \in 0..(N - 1)}
Phrases == {x \in AllPhrases : x # <<>> /\ Len(x) <= Freq /\ \A k \in DOMAIN x : x[k] # 0}
SuperOk(x) == Len(x) <= Super
Cuts == {a \in 0..(N - 1) : TRUE}
\* matchings of a sentence in order: <<start, phrase>>
RowsOf(s) == LET b == StartsOf(c)[s]  e == StartsOf(c)[s + 1] - 2
                 all == {<<t, n>> \in (b..e) \X (1..Freq) : t + n - 1 <= e} IN
             SetToSortSeq(all, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
Ph(x) == SubSeq(D, x[1] + 1, x[1] + x[2])
\* the key is built in one buffer; appending the third phrase is undone afterwards
Rest(k, n) == IF Variant = "erase" THEN SubSeq(k, 1, Len(k) - n) \o SubSeq(k, Len(k) - n + 2, Len(k)) ELSE SubSeq(k, 1, Len(k) - n)
Rows3(rows, x, y, yi, base) ==
   FoldLeft(LAMBDA a, k : IF k <= yi THEN a ELSE LET z == rows[k] IN
        IF z[1] - y[1] - y[2] >= MinGap /\ z[1] + z[2] - x[1] <= Span /\ (SuperOk(Ph(x)) \/ SuperOk(Ph(z)))
        THEN LET key == a.key \o Ph(z) IN [key |-> Rest(key, z[2]), out |-> a.out \cup {<<key, <<x[1], y[1], z[1]>>>>}]
        ELSE a, [key |-> base, out |-> {}], [k \in DOMAIN rows |-> k]).out
Index == UNION {LET rows == RowsOf(s) IN UNION {UNION {LET x == rows[a]  y == rows[b] IN
      IF b > a /\ y[1] - x[1] - x[2] >= MinGap /\ y[1] + y[2] - x[1] <= Span
      THEN {<<Ph(x) \o <<0>> \o Ph(y), <<x[1], y[1]>>>>} \cup (IF SuperOk(Ph(y)) THEN Rows3(rows, x, y, b, Ph(x) \o <<0>> \o Ph(y) \o <<0>>) ELSE {})
      ELSE {} : b \in DOMAIN rows} : a \in DOMAIN rows} : s \in 1..Len(c)}
Next == Bucket \/ Double \/ Finish \/ Pick \/ First \/ Narrow \/ Right \/ Left
\* ---- properties
\* groups are the classes of equal first h words, in order
At(k) == IF k > N THEN -1 ELSE D[k]
SortInv == (ph = "sort" /\ g # <<>>) => \A a, b \in 0..N : (g[a] = g[b]) = (\A k \in 1..h : At(a + k) = At(b + k))
Terminates == h <= 2 * (N + 1)
ArrayOk == ph = "pick" => IsSuffixArray(D, [w \in 0..Words |-> w], sa)
\* whatever was extended first, the placements are those of the definition
LocOk == ph = "ext" => Places1 = Occ(D, Cur, Span, MinGap)
IndexOk == ph = "pick" => LET ix == Index IN \A e \in ix : {f[2] : f \in {u \in ix : u[1] = e[1]}} = Occ(D, e[1], Span, MinGap)
=============================================================================
