----------------------------- MODULE InternTrace -----------------------------
(* Recorded histories of name tables and weight files.                       *)
EXTENDS Intern, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == 1..((Len(Trace) + 31) \div 32)
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in Chunks : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E i \in ((l - 1) * 32 + 1)..(l * 32) : i <= Len(Trace) /\ l' = i /\ st' = "case"
\* state of a process: tables d (its own), t (words), f (features), weight vectors; ok: nothing wrong so far
Fresh(files) == [d |-> <<>>, t |-> <<>>, f |-> <<>>, fz |-> FALSE, w |-> <<<<>>, <<>>, <<>>>>, files |-> files, ok |-> TRUE]
Table(s, o) == CASE o.d = "d" -> s.d [] o.d = "t" -> s.t [] OTHER -> s.f
WithTable(s, o, t) == CASE o.d = "d" -> [s EXCEPT !.d = t] [] o.d = "t" -> [s EXCEPT !.t = t] [] OTHER -> [s EXCEPT !.f = t]
Frozen(s, o) == (o.d = "f" /\ s.fz) \/ (o.d = "d" /\ o.fz)
Is(s, b) == [s EXCEPT !.ok = b]
NameAt(t, i) == IF i = 0 THEN <<0>> ELSE t[i]
Interned(s, o, xs) == LET t == InternAll(Table(s, o), xs, Frozen(s, o)) IN [s |-> WithTable(s, o, t), ids |-> Ids(t, xs)]
Pairs(e) == {<<e[i][1], e[i][2]>> : i \in DOMAIN e}
File(s, n) == IF n \in DOMAIN s.files THEN s.files[n] ELSE <<>>
\* words may be split over names: the tags of a name given as parts
Step1(s, o) ==
   CASE o.o \in {"conv", "vec"} -> LET c == Interned(s, o, <<o.n>>) IN Is(c.s, o.r = c.ids[1])
     [] o.o = "name" -> Is(s, o.r = NameAt(Table(s, o), o.i))
     [] o.o = "asvec" -> Is(s, o.r = NameAt(s.d, o.i))
     [] o.o = "max" -> Is(s, o.r = Len(Table(s, o)))
     [] o.o \in {"line", "words"} -> LET xs == [i \in DOMAIN Words(o.p) |-> <<Words(o.p)[i]>>]  c == Interned(s, o, xs) IN
                                     Is(c.s, o.r = c.ids /\ (o.d = "t" => o.s = Words(o.p)))
     [] o.o = "clear" -> [s EXCEPT !.d = <<>>]
     [] o.o = "freeze" -> [s EXCEPT !.fz = TRUE]
     [] o.o = "esc" -> Is(s, o.r = EscapeOf(o.c))
     [] o.o = "file" -> [s EXCEPT !.files = (o.f :> o.e) @@ @]
     [] o.o = "init" -> LET t == ReadTable(s.f, File(s, o.f), s.fz) IN
           Is([s EXCEPT !.f = t, !.w[o.w + 1] = ReadWeights(t, @, File(s, o.f))],
              "fl" \notin DOMAIN o \/ (Len(o.fl) = Len(File(s, o.f)) /\ \A i \in DOMAIN o.fl : o.fl[i] = File(s, o.f)[i][1]))
     [] o.o = "write" -> LET e == Written(s.f, s.w[o.w + 1], o.hide) IN Is([s EXCEPT !.files = (o.f :> e) @@ @], Len(o.r) = Len(e) /\ Pairs(o.r) = Pairs(e))
     [] o.o = "getstr" -> LET e == Written(s.f, s.w[o.w + 1], o.hide) IN Is(s, Len(o.r) = Len(e) /\ Pairs(o.r) = Pairs(e))
     [] o.o = "update" -> LET t == ReadTable(s.f, o.e, s.fz) IN [s EXCEPT !.f = t, !.w[o.w + 1] = ReadWeights(t, @, o.e)]
     [] o.o = "sparse" -> LET v == s.w[o.w + 1] IN Is(s, Pairs(o.r) = {<<i, v[i]>> : i \in {j \in DOMAIN v : ~IsZero(v[j])}})
     [] o.o = "set" -> [s EXCEPT !.w[o.w + 1] = SetAt(@, o.i, o.v)]
     [] o.o = "copy" -> [s EXCEPT !.w[o.w + 1] = s.w[o.from + 1]]
     [] OTHER -> Is(s, FALSE)
\* o.w: the vector the operation is about, o.now: what it holds afterwards
Step(s, o) == IF ~s.ok THEN s ELSE LET n == TLCEval(Step1(s, o)) IN [n EXCEPT !.ok = @ /\ SameWeights(n.w[o.w + 1], o.now)]
Run(files, ops) == FoldLeft(LAMBDA s, o : TLCEval(Step(s, o)), Fresh(files), ops)
RECURSIVE RunAll(_, _)
RunAll(files, ps) == IF ps = <<>> THEN TRUE ELSE LET s == Run(files, Head(ps)) IN s.ok /\ RunAll(s.files, Tail(ps))
Accepted == st # "case" \/ LET r == Trace[l] IN ("crash" \notin DOMAIN r) /\ RunAll([x \in {} |-> <<>>], r.procs)
=============================================================================
