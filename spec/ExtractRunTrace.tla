---------------------------- MODULE ExtractRunTrace --------------------------
(* r.lines: the input, as characters; r.loo: leave one out; r.runs: what the *)
(* programs did: in: numbers of the input lines given, path: of the grammar  *)
(* files, segs: lines printed, gram: rules of each grammar, race: reports of *)
(* conflicting accesses outside any lock.  The first run is the reference.   *)
EXTENDS ExtractRun, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
TChunks == 1..((Len(Trace) + 15) \div 16)
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in TChunks : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E i \in ((l - 1) * 16 + 1)..(l * 16) : i <= Len(Trace) /\ l' = i /\ st' = "case"
SetOf(s) == {s[i] : i \in DOMAIN s}
RunOk(r, x) ==
  /\ x.race = 0 /\ x.rc = 0
  /\ Len(x.segs) = Len(x.in) /\ Len(x.gram) = Len(x.in)
  /\ \A k \in DOMAIN x.in :
       /\ x.segs[k] = Seg(x.path[k], x.id[k], r.lines[x.in[k]])
       \* sentences keep their number only if they keep their place
       /\ (r.loo => k = x.in[k]) => /\ Len(x.gram[k]) = Len(r.runs[1].gram[x.in[k]])
                                    /\ SetOf(x.gram[k]) = SetOf(r.runs[1].gram[x.in[k]])
Accepted == st # "case" \/ LET r == Trace[l] IN
   /\ "crash" \notin DOMAIN r
   /\ \A i \in DOMAIN r.runs : RunOk(r, r.runs[i])
   \* equal sentences, equal grammars
   /\ r.loo \/ \A i, j \in DOMAIN r.lines : Sentence(r.lines[i]) = Sentence(r.lines[j]) => SetOf(r.runs[1].gram[i]) = SetOf(r.runs[1].gram[j])
=============================================================================
