--------------------------- MODULE LexAlignTrace ---------------------------
(* Judges recorded lexical-model decodings with a reference.                *)
EXTENDS LexAlign, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
Feats(fs) == {x \in Rng(fs) : x[2] # 0}
CountOf(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == \A x \in Rng(s) \cup Rng(t) : CountOf(s, x) = CountOf(t, x)
NDeriv(F) == FoldLeft(LAMBDA T, v : Append(T, FoldLeft(LAMBDA s, x : s + FoldLeft(LAMBDA p, y : p * T[y + 1], 1, F.E[x].t), 0, F.in[v])), <<>>, [v \in 1..F.n |-> v])[F.n]
Leaves(F) == SelectSeq(F.E, LAMBDA e : Len(e.t) = 0)
RECURSIVE ProdCard(_)
ProdCard(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdCard(Tail(s))
\* unconstrained: leaf for every option, i: source, prev: target position
LeavesF(F) == [k \in 1..Len(Leaves(F)) |-> LET e == Leaves(F)[k] IN <<e.i, e.pi, e.f[1][2], e.e[1], Feats(e.fs)>>]
LeavesA(A) == [k \in 1..Len(Leaves(A)) |-> LET e == Leaves(A)[k] IN <<e.pi, e.i, e.e[1], e.f[1][2], Feats(e.fs)>>]
Content(r, i, o) == <<o[1], i, WordAt(r.src, o[1]), r.rules[o[2]].t, Feats(r.rules[o[2]].fs)>>
OptSeq(r, tlen, opts(_)) == LET all == UNION {{<<i, o>> : o \in opts(i)} : i \in 0..(tlen - 1)}
                                s == SetToSeq(all) IN [k \in 1..Len(s) |-> Content(r, s[k][1], s[k][2])]
W(r, fs) == FoldSet(LAMBDA x, s : s + x[2] * (IF \E q \in 1..Len(r.w) : r.w[q][1] = x[1] THEN r.w[CHOOSE q \in 1..Len(r.w) : r.w[q][1] = x[1]][2] ELSE 0), 0, Feats(fs))
Score(r, d) == FoldLeft(LAMBDA s, o : s + W(r, r.rules[o[2]].fs), 0, d)
Accepted ==
  st = "case" =>
    LET r == Trace[l]
        vocab == {r.rules[k].t : k \in 1..Len(r.rules)}
        only == IF r.only THEN Rng(r.ref) ELSE vocab
        tlen == IF r.mode = "tag" THEN Len(r.src) ELSE Len(r.ref)
        opts(i) == IF r.mode = "align" THEN RefOptions(r.src, r.rules, r.mode, r.null, only, r.ref, i) ELSE Options(r.src, r.rules, r.mode, r.null, only, i)
        ropts(i) == RefOptions(r.src, r.rules, r.mode, r.null, only, r.ref, i) IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE IF Fails(r.src, r.rules, r.mode, r.null) THEN r.ok = 0
    ELSE /\ r.ok = 1
         /\ SameBag(LeavesF(r.F), OptSeq(r, tlen, opts))
         /\ NDeriv(r.F) = ProdCard([i \in 1..tlen |-> Cardinality(opts(i - 1))])
         /\ IF ~Reaches(r.src, r.rules, r.mode, r.null, only, r.ref) THEN r.al = 0
            ELSE /\ r.al = 1
                 /\ SameBag(LeavesA(r.AF), OptSeq(r, tlen, ropts))
                 /\ NDeriv(r.AF) = ProdCard([i \in 1..tlen |-> Cardinality(ropts(i - 1))])
                 /\ r.trg = r.ref /\ r.shown = r.src
                 /\ CASE r.show = "map" ->
                           LET cnt(i, j) == Cardinality({o \in ropts(i) : o[1] = j})
                               js == {-1} \cup 0..(Len(r.src) - 1)
                               best(i) == {j \in js : cnt(i, j) > 0 /\ \A q \in js : cnt(i, q) <= cnt(i, j)} IN
                           /\ \A x \in Rng(r.links[1]) : x[2] \in 0..(tlen - 1) /\ x[1] \in best(x[2])
                           /\ \A i \in 0..(tlen - 1) : -1 \in best(i) \/ \E x \in Rng(r.links[1]) : x[2] = i
                      [] r.show = "kbest" ->
                           LET ds == Derivs(r.src, r.rules, r.mode, r.null, only, r.ref)
                               sc == SetToSortSeq({<<Score(r, d), d>> : d \in ds}, LAMBDA a, b : a[1] > b[1]) IN
                           /\ Len(r.links) = (IF r.k < Len(sc) THEN r.k ELSE Len(sc))
                           /\ \A m \in 1..Len(r.links) : \E q \in 1..Len(sc) : sc[q][1] = sc[m][1] /\ LinksOf(sc[q][2]) = Rng(r.links[m])
=============================================================================
