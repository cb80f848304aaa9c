----------------------------- MODULE SuffixIndex -----------------------------
(* What an index over a corpus has to answer.                                *)
(* A corpus is a sequence of sentences, a sentence a sequence of positive    *)
(* words; 0 ends a line.  A pattern is a sequence of words and gaps (0); it  *)
(* neither begins nor ends with a gap, and no two gaps are neighbours.       *)
(* Positions count from 0 over the corpus with its line ends.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
DataOf(c) == FoldLeft(LAMBDA a, s : a \o s \o <<0>>, <<>>, c)
StartsOf(c) == FoldLeft(LAMBDA a, s : Append(a, a[Len(a)] + Len(s) + 1), <<0>>, c)
SentIds(c) == FoldLeft(LAMBDA a, i : a \o [j \in 1..(Len(c[i]) + 1) |-> i - 1], <<>>, [i \in DOMAIN c |-> i])
\* the chunks of a pattern: the stretches of words between gaps
Chunks(p) == FoldLeft(LAMBDA a, x : IF x = 0 THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, x)], <<<<>>>>, p)
Matches(d, ch, t) == t + Len(ch) <= Len(d) /\ \A k \in DOMAIN ch : d[t + k] = ch[k]
Places(d, ch) == {t \in 0..(Len(d) - 1) : Matches(d, ch, t)}
\* every way to place the chunks in order within one sentence, gaps at least minGap and at most
\* span words over all; a pattern without gaps may be of any length
OccFrom(d, chs, span, minGap) ==
  LET Add(acc, k) == UNION {{Append(m, t) : t \in {u \in Places(d, chs[k]) :
          /\ u >= m[k - 1] + Len(chs[k - 1]) + minGap
          /\ u + Len(chs[k]) - m[1] <= span
          /\ \A v \in (m[1] + 1)..(u + Len(chs[k])) : d[v] # 0}} : m \in acc}
  IN FoldLeft(Add, {<<t>> : t \in Places(d, chs[1])}, [k \in 1..(Len(chs) - 1) |-> k + 1])
Occ(d, p, span, minGap) == OccFrom(d, Chunks(p), span, minGap)
\* suffixes of the corpus ordered word by word; rank orders the words; the empty suffix is position Len(d)
RECURSIVE SufLess(_, _, _, _)
SufLess(d, rank, i, j) ==
  IF j >= Len(d) THEN FALSE ELSE IF i >= Len(d) THEN TRUE
  ELSE IF d[i + 1] = d[j + 1] THEN SufLess(d, rank, i + 1, j + 1) ELSE rank[d[i + 1]] < rank[d[j + 1]]
RECURSIVE Common(_, _, _)
Common(d, i, j) == IF i >= Len(d) \/ j >= Len(d) THEN 0 ELSE IF d[i + 1] = d[j + 1] THEN 1 + Common(d, i + 1, j + 1) ELSE 0
IsSuffixArray(d, rank, sa) ==
  /\ Len(sa) = Len(d) + 1 /\ {sa[i] : i \in DOMAIN sa} = 0..Len(d)
  /\ \A i \in 1..(Len(sa) - 1) : SufLess(d, rank, sa[i], sa[i + 1])
=============================================================================
