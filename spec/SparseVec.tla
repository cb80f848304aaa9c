------------------------------ MODULE SparseVec ------------------------------
(***************************************************************************)
(* Sparse vectors as finite maps, small vectors as sequences.              *)
(* A store is a sequence of three of them; an operation is a record        *)
(* [o |-> name, x |-> target, y, z |-> operands, k |-> key, v |-> value,   *)
(*  s |-> scalar, ...].  Values of sparse vectors are in units of 1/U.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Rng(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x

(* ------------------------------ finite maps ----------------------------- *)
Nothing == [k \in {} |-> 0]
Val(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 0
Put(m, k, v) == [q \in DOMAIN m \cup {k} |-> IF q = k THEN v ELSE m[q]]
Drop(m, K) == [q \in DOMAIN m \ K |-> m[q]]
Lin(a, m, b, n) == [q \in DOMAIN m \cup DOMAIN n |-> a * Val(m, q) + b * Val(n, q)]
Each(m, f(_)) == [q \in DOMAIN m |-> f(m[q])]
FromPairs(p) == FoldLeft(LAMBDA m, x : Put(m, x[1], x[2]), Nothing, p)
SumM(m, f(_)) == FoldSet(LAMBDA q, s : s + f(q), 0, DOMAIN m)
DotM(m, n) == SumM(m, LAMBDA q : m[q] * Val(n, q))
SameValues(m, n) == \A q \in DOMAIN m \cup DOMAIN n : Val(m, q) = Val(n, q)
Clean(m, eps) == Drop(m, {q \in DOMAIN m : Abs(m[q]) <= eps})

\* effect of an operation on the target (and, for swap, the operand)
MapStep(S, o) ==
  LET X == S[o.x]
      Y == IF "y" \in DOMAIN o THEN S[o.y] ELSE Nothing
      Z == IF "z" \in DOMAIN o THEN S[o.z] ELSE Nothing
      to(m) == [S EXCEPT ![o.x] = m] IN
  CASE o.o \in {"set", "brk"} -> to(Put(X, o.k, o.v))
    [] o.o = "add" -> to(Put(X, o.k, Val(X, o.k) + o.v))
    [] o.o = "touch" -> to(Put(X, o.k, Val(X, o.k)))
    [] o.o = "erase" -> to(Drop(X, {o.k}))
    [] o.o = "clear" -> to(Nothing)
    [] o.o \in {"asg", "copy", "ser", "serb", "b64"} -> to(Y)
    [] o.o = "b64f" -> to(Clean(Y, 0))
    [] o.o = "range" -> to(FromPairs(o.p))
    [] o.o \in {"pluseq", "pluseqf"} -> to(Lin(1, X, 1, Y))
    [] o.o = "minuseq" -> to(Lin(1, X, -1, Y))
    [] o.o = "axpy" -> to(Lin(1, X, o.s, Y))
    [] o.o = "muleq" -> to(Each(X, LAMBDA v : v * o.s))
    [] o.o = "diveq" -> to(Each(X, LAMBDA v : v \div o.s))
    [] o.o = "plus" -> to(Lin(1, Y, 1, Z))
    [] o.o = "minus" -> to(Lin(1, Y, -1, Z))
    [] o.o = "times" -> to(Each(Y, LAMBDA v : v * o.s))
    [] o.o = "over" -> to(Each(Y, LAMBDA v : v \div o.s))
    [] o.o = "swap" -> [S EXCEPT ![o.x] = Y, ![o.y] = X]
    [] o.o = "erasez" -> to(Clean(Y, IF "v" \in DOMAIN o THEN o.v ELSE 0))
    [] o.o = "itset" -> IF o.k \in DOMAIN X THEN to(Put(X, o.k, o.v)) ELSE S
    [] o.o = "itscale" -> to(Each(X, LAMBDA v : -v))
    [] OTHER -> S
\* the answer r of an operation; S before, T after; u values per unit
Near(r, sq) == (r < 0 /\ FALSE) \/ ((IF r = 0 THEN 0 ELSE (r - 1) * (r - 1)) <= sq /\ sq <= (r + 1) * (r + 1))
MapAnswer(S, T, o, r, u) ==
  LET X == S[o.x]
      Y == IF "y" \in DOMAIN o THEN S[o.y] ELSE Nothing IN
  CASE o.o \in {"add", "touch"} -> r = Val(T[o.x], o.k)
    [] o.o \in {"b64", "b64f"} -> r = 1
    [] o.o = "itset" -> r = (IF o.k \in DOMAIN X THEN 1 ELSE 0)
    [] o.o = "eq" -> \/ X = Y /\ r = 1                       \* the same map
                     \/ ~SameValues(X, Y) /\ r = 0           \* some key has different values
                     \/ X # Y /\ SameValues(X, Y) /\ r \in {0, 1}  \* they differ in explicit zeros only
    [] o.o = "dot" -> r = DotM(X, Y)
    [] o.o = "dotv" -> r = SumM(X, LAMBDA q : IF q < Len(o.p) THEN X[q] * o.p[q + 1] ELSE 0)
    [] o.o = "nsq" -> r = DotM(X, X)
    [] o.o = "nnz" -> r = Cardinality({q \in DOMAIN X : X[q] # 0})
    [] o.o = "single" -> r = (IF Cardinality(DOMAIN X) = 1 THEN X[CHOOSE q \in DOMAIN X : TRUE] ELSE 0)
    [] o.o \in {"l2", "l2p"} -> Near(r, DotM(X, X))
    [] o.o = "l1" -> r = SumM(X, LAMBDA q : Abs(X[q]))
    [] o.o = "tani" -> LET w(m, n) == DotM(m, n) \div (u * u)  d == w(X, X) + w(Y, Y) - w(X, Y) IN
                       d > 0 => Abs(r * d - 1000 * w(X, Y)) <= d
    [] OTHER -> TRUE

(* ------------------------------- sequences ------------------------------ *)
Fill(n, v) == [i \in 1..n |-> v]
SeqStep(S, o) ==
  LET X == S[o.x]
      Y == IF "y" \in DOMAIN o THEN S[o.y] ELSE <<>>
      to(m) == [S EXCEPT ![o.x] = m] IN
  CASE o.o \in {"new", "clear"} -> to(<<>>)
    [] o.o = "newn" -> to(Fill(o.n, 0))
    [] o.o = "newv" -> to(Fill(o.n, o.v))
    [] o.o = "newr" -> to(o.p)
    [] o.o \in {"copy", "asg", "ser", "serb"} -> to(Y)
    [] o.o = "push" -> to(Append(X, o.v))
    [] o.o = "pushi" -> to(Append(X, X[o.i + 1]))
    [] o.o = "pushb" -> to(Append(X, X[Len(X)]))
    [] o.o = "pop" -> to(SubSeq(X, 1, Len(X) - 1))
    [] o.o = "erase" -> to(SubSeq(X, 1, o.i) \o SubSeq(X, o.i + 2, Len(X)))
    [] o.o = "erase2" -> to(SubSeq(X, 1, o.i) \o SubSeq(X, o.j + 1, Len(X)))
    [] o.o \in {"resize", "resizev"} -> to(IF o.n <= Len(X) THEN SubSeq(X, 1, o.n) ELSE X \o Fill(o.n - Len(X), IF o.o = "resize" THEN 0 ELSE o.v))
    [] o.o = "compact" -> to(SubSeq(X, 1, o.n))
    [] o.o = "put" -> to([X EXCEPT ![o.i + 1] = o.v])
    [] o.o = "putb" -> to([X EXCEPT ![Len(X)] = o.v])
    [] o.o = "putf" -> to([X EXCEPT ![1] = o.v])
    [] o.o \in {"swap", "swap2"} -> [S EXCEPT ![o.x] = Y, ![o.y] = X]
    [] o.o = "grow" -> to(X \o Fill(o.n, o.v))
    [] OTHER -> S
SeqAnswer(S, o, r) ==
  LET X == S[o.x]
      Y == IF "y" \in DOMAIN o THEN S[o.y] ELSE <<>> IN
  CASE o.o \in {"erase", "erase2"} -> r = o.i
    [] o.o = "eq" -> r = (IF X = Y THEN 1 ELSE 2)
    [] o.o = "hash" -> X = Y => r = 1
    [] o.o = "mem" -> r = 1
    [] OTHER -> TRUE
=============================================================================
