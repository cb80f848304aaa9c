----------------------------- MODULE MetricJudge -----------------------------
(* Which sentence statistics and which corpus scores a metric admits.        *)
EXTENDS Metrics, EditDist
\* ---- sentence statistics.  rw/hw: words; rc/hc: characters
RECURSIVE StatsOk(_, _, _, _, _, _)
StatsOk(m, rw, hw, rc, hc, s) ==
   CASE m.t = "bleu" -> IF m.chars THEN BleuOk(m.kind, m.N, rc, hc, s) ELSE BleuOk(m.kind, m.N, rw, hw, s)
     [] m.t = "wer" -> WerOk(rw, hw, s)
     [] m.t = "oldwer" -> OldWerOk(rw, hw, s)
     [] m.t = "cer" -> WerOk(rc, hc, s)
     [] m.t = "ter" -> TerOk(rw, hw, s, m.deep)
     [] m.t = "ser" -> s = <<>>
     [] m.t = "comb" -> /\ Len(s) = m.size
                        /\ \A p \in 1..Len(m.parts) :
                             StatsOk(m.parts[p].m, rw, hw, rc, hc, SubSeq(s, m.parts[p].off + 1, m.parts[p].off + m.parts[p].size))

\* ---- scores
NoScore == 1999999999
RECURSIVE Expected(_, _)
Expected(m, s) ==
   CASE m.t = "bleu" -> IF m.old THEN (IF s[2 * m.N + 1] = 0 THEN NoScore ELSE OldBleuScore(m.N, s)) ELSE BleuScore(m.kind, m.N, s)
     [] m.t \in {"wer", "cer", "oldwer"} -> IF s[2] = 0 THEN NoScore ELSE ((s[1] \div 1000) * 1000000) \div (s[2] \div 1000)
     [] m.t = "ter" -> IF s[5] = 0 THEN NoScore ELSE (((s[1] + s[2] + s[3] + s[4]) \div 1000) * 1000000) \div (s[5] \div 1000)
     [] m.t = "comb" ->
          LET part(p) == Expected(m.parts[p].m, SubSeq(s, m.parts[p].off + 1, m.parts[p].off + m.parts[p].size)) IN
          IF \E p \in 1..Len(m.parts) : part(p) = NoScore THEN NoScore
          ELSE LET v == [p \in 1..Len(m.parts) |-> Div(part(p), 100) * m.parts[p].coef] IN SumF(v, 1..Len(m.parts))
\* averaged reference lengths are recorded in thousandths, which the brevity penalty divides by the length
RECURSIVE Tol(_, _)
Tol(m, s) == IF m.t = "comb"
     THEN 400 + SumF([p \in 1..Len(m.parts) |-> Tol(m.parts[p].m, SubSeq(s, m.parts[p].off + 1, m.parts[p].off + m.parts[p].size))], 1..Len(m.parts))
   ELSE IF m.t = "bleu" /\ m.kind = "KOEHN" /\ s[2 * m.N + 1] > 0 THEN 60 + 600000 \div s[2 * m.N + 1]
   ELSE 60
ScoreOk(m, s, x) == LET e == Expected(m, s) IN e = NoScore \/ AbsM(x - e) <= Tol(m, s)

=============================================================================
