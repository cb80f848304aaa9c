--------------------------- MODULE SuffixIndexTrace --------------------------
(* Recorded indexes and their answers.                                       *)
EXTENDS SuffixIndex, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
TChunks == 1..((Len(Trace) + 31) \div 32)
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in TChunks : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E i \in ((l - 1) * 32 + 1)..(l * 32) : i <= Len(Trace) /\ l' = i /\ st' = "case"
\* ids: the internal numbers of the words along the corpus, words: the words they stand for
DataOk(r, d) ==
  /\ r.words = d /\ Len(r.ids) = Len(d)
  /\ \A i \in DOMAIN d : \A j \in DOMAIN d : (r.ids[i] = r.ids[j]) = (d[i] = d[j])
  /\ r.sid = SentIds(r.c) /\ r.ss = StartsOf(r.c) /\ r.sl = [i \in DOMAIN r.c |-> Len(r.c[i])]
ArrayOk(r, d) ==
  LET rank == [w \in {d[i] : i \in DOMAIN d} |-> r.ids[CHOOSE i \in DOMAIN d : d[i] = w]]  sa == r.sa IN
  /\ IsSuffixArray(d, rank, sa)
  /\ Len(r.lcp) = Len(sa) /\ \A i \in 2..Len(sa) : r.lcp[i] = Common(d, sa[i - 1], sa[i])
AnswerOk(a, occ) == Len(a.at) = Cardinality(occ) /\ {a.at[k] : k \in DOMAIN a.at} = occ
RecOk(r) == LET d == TLCEval(DataOf(r.c)) IN
  /\ DataOk(r, d) /\ ArrayOk(r, d)
  /\ \A q \in DOMAIN r.q : LET occ == TLCEval(Occ(d, r.q[q], r.span, r.gap)) IN \A m \in DOMAIN r.r : AnswerOk(r.r[m][q], occ)
Accepted == st # "case" \/ LET r == Trace[l] IN ("crash" \notin DOMAIN r) /\ RecOk(r)
=============================================================================
