---------------------------- MODULE AlignerTrace ----------------------------
(* Recorded runs of the aligner against Aligner.                             *)
EXTENDS Aligner, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 32
TInit == l = 0 /\ st = "start"
PickChunk == st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
PickCase == st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
TNext == PickChunk \/ PickCase

Turn(r, p) == IF r.rev THEN [s |-> p.t, t |-> p.s] ELSE p
Range1(s) == {s[i] : i \in 1..Len(s)}
\* the links of a pair as they are printed: at most one for every target word, in its order; positions from 1, 0: the null word
From(r, links, j) == LET S == {x \in Range1(links) : (IF r.rev THEN x[1] ELSE x[2]) = j - 1} IN
   IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 1 + (IF r.rev THEN x[2] ELSE x[1])
Ordered(r, p, links) ==
   /\ \A i \in 1..Len(links) : LET j == IF r.rev THEN links[i][1] ELSE links[i][2]  s == IF r.rev THEN links[i][2] ELSE links[i][1] IN
        j \in 0..(Len(p.t) - 1) /\ s \in 0..(Len(p.s) - 1)
   /\ \A i \in 2..Len(links) : LET c == IF r.rev THEN 1 ELSE 2 IN links[i][c] > links[i - 1][c]
LinksOk(r, T, p, links, tol) == /\ Ordered(r, p, links)
                                /\ \A j \in 1..Len(p.t) : LinkOk(T, r.cfg, p, j, From(r, links, j), tol)
Near(a, b, tol) == AbsA(a - b) <= tol
TestOk(r, T, tests, tol) == \A i \in 1..Len(tests) : LET q == tests[i]  p == Turn(r, [s |-> q.s, t |-> q.t]) IN
   /\ q.echo
   /\ q.shown => LinksOk(r, T, p, q.links, tol)
   /\ Near(q.g, IF T = Flat THEN 0 ELSE Given(T, r.cfg, p), tol * Len(p.t))
\* parameters: those within the beam of the best for the source word, and what the best alignments of the corpus use
ParamsOk(r, T, C, tol) ==
   LET es == {w[1] : w \in DOMAIN T}
       top == TLCEval([e \in es |-> Max0({T[w] : w \in {q \in DOMAIN T : q[1] = e}})])
       listed == {<<x.e, x.f>> : x \in Range1(r.params)}
       cut(e) == CASE r.beam = -10000 -> 0 [] r.beam = 0 -> top[e] [] r.beam = -1 -> top[e] \div 10 [] r.beam = -2 -> top[e] \div 100 [] OTHER -> top[e] \div 10000
       could(w) == \E x \in Tokens(C) : C[x[1]].t[x[2]] = w[2] /\ \E i \in 0..Len(C[x[1]].s) : Word(C[x[1]], i) = w[1] /\ LinkOk(T, r.cfg, C[x[1]], x[2], i, tol)
       sure(w) == \E x \in Tokens(C) : C[x[1]].t[x[2]] = w[2] /\ \E i \in 0..Len(C[x[1]].s) : Word(C[x[1]], i) = w[1] /\
                     LET q == Joint(T, r.cfg, C[x[1]], x[2]) IN \A k \in DOMAIN q \ {i} : q[k] < q[i] - tol IN
   /\ Cardinality(listed) = Len(r.params)
   /\ listed \subseteq DOMAIN T
   /\ \A i \in 1..Len(r.params) : Near(r.params[i].p, T[<<r.params[i].e, r.params[i].f>>], tol)
   /\ \A w \in DOMAIN T : (T[w] >= cut(w[1]) + tol \/ (r.beam = -10000 /\ T[w] > tol) \/ (r.beam = 0 /\ \A v \in DOMAIN T : (v[1] = w[1] /\ v # w) => T[v] < T[w] - tol)) => w \in listed
   /\ \A w \in listed : T[w] >= cut(w[1]) - tol \/ (r.viterbi /\ could(w))
   /\ (r.viterbi /\ ~r.tension) => \A w \in DOMAIN T : sure(w) => w \in listed
   \* the words of a source word that are kept at all include its best
   /\ r.beam < 0 => \A e \in es : top[e] > tol => \E w \in listed : w[1] = e /\ T[w] >= top[e] - tol
TrainOk(r) ==
   LET C == [i \in 1..Len(r.C) |-> Turn(r, r.C[i])]
       toks == Cardinality(Tokens(C))
       tol == (IF r.cfg.vb THEN 150 ELSE 40) * r.iters
       prec == TLCEval([k \in 1..r.iters |-> AllPrecise(Flat, r.cfg, C, k - 1)])
       Tab == [k \in 1..r.iters |-> IF prec[k] THEN TLCEval(Train(Flat, r.cfg, C, k - 1)) ELSE Flat]       \* used by iteration k
       exact(k) == prec[k] /\ (~r.tension \/ k <= 2)
       judged == prec[r.iters]
       T == Tab[r.iters] IN
   /\ Len(r.it) = r.iters
   /\ Near(r.mult, SumSeq([i \in 1..Len(C) |-> (10000 * Len(C[i].t)) \div Len(C[i].s)]) \div Len(C), 3)
   /\ \A k \in 1..r.iters :
        LET o == r.it[k] IN
        /\ k < r.iters =>
             (exact(k) => LET PP == AllPost(Tab[k], r.cfg, C) IN
                /\ Near(o.p0 * toks, NullMass(PP, r.cfg, C), tol + 2 * toks)
                /\ Near(o.feat * toks, PostDist(PP, r.cfg, C), tol + 4 * toks))
        /\ (k >= 3 /\ ~r.tension /\ ~r.cfg.vb) => o.lik >= r.it[k - 1].lik - 2
        /\ (k >= 2 /\ exact(k) /\ ~r.tension /\ o.prod >= 0) => Near(o.prod, FoldLeft(LAMBDA a, p : Mul(a, Given(Tab[k], r.cfg, p)), One, C), tol * 4)
        \* the tension follows the difference of the two expectations
        /\ LET steps == o.mod IN
           /\ Len(steps) = (IF r.tension /\ r.cfg.diag /\ k > 1 /\ k < r.iters THEN 8 ELSE 0)
           /\ steps # <<>> => /\ k = 2 => Near(steps[1].mod * toks, 10 * ModelDist(r.cfg, C), 40 * toks)
                              /\ \A i \in 1..8 : LET next == IF i < 8 THEN steps[i + 1].ten ELSE o.final
                                                     want == steps[i].ten + 20 * (steps[i].mod - o.feat5)
                                                     w1 == IF want <= 10000 THEN 10000 ELSE IF want > 1400000 THEN 1400000 ELSE want IN
                                   \/ Near(next, w1, 60)
                                   \/ AbsA(want - 10000) <= 60 /\ Near(next, 10000, 120)
                              /\ \A i \in 1..7 : (steps[i].ten < steps[i + 1].ten - 5 => steps[i].mod >= steps[i + 1].mod - 2)
   /\ Len(r.aligns) = (IF r.hide THEN 0 ELSE Len(C))
   /\ (judged /\ ~r.tension) => \A i \in 1..Len(r.aligns) : LinksOk(r, T, C[i], r.aligns[i], tol)
   /\ (judged /\ ~r.tension) => TestOk(r, T, r.test, tol)
   /\ (r.out /\ r.iters > 1 /\ judged) => ParamsOk(r, T, C, tol)
   /\ (r.out /\ r.iters = 1) => r.params = <<>>
   \* alignment with the stored parameters
   /\ r.forced # <<>> => LET S == {<<x.e, x.f>> : x \in Range1(r.params)}
                             T2 == TLCEval([w \in S |-> (CHOOSE x \in Range1(r.params) : x.e = w[1] /\ x.f = w[2]).p]) IN
                         TestOk(r, T2, r.forced, 40)
Accepts(r) == IF "crash" \in DOMAIN r THEN FALSE ELSE TrainOk(r)
Accepted == st = "case" => Accepts(Trace[l])
=============================================================================
