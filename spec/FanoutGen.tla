------------------------------ MODULE FanoutGen ------------------------------
(***************************************************************************)
(* Scenarios for the real Repository.  Exhaustive: two saves in a row with *)
(* every vector of outcomes over up to four storages, a storage being      *)
(* added in between or not.  Random: up to MaxStores storages, saves that  *)
(* overlap, storages added meanwhile, calls returning in any order.        *)
(***************************************************************************)
EXTENDS Bytes, Json
CONSTANTS Seed, OutFile, NRand, MaxStores, Full
Flat(s) == FoldLeft(LAMBDA a, x : a \o x, << >>, s)
Op(a) == [a |-> a]
Adds(n) == [i \in 1..n |-> Op("add")]
Rets(m, n, bits) == [i \in 1..n |-> [a |-> "ret", m |-> m, ok |-> Bit(bits, i - 1)]]
One(m, n, bits) == << [a |-> "begin", m |-> m] >> \o Rets(m, n, bits) \o << [a |-> "end", m |-> m] >>
Exhaustive ==
  Flat([n1 \in 1..(Full + 1) |->
    LET n == n1 - 1 IN
    Flat([x1 \in 1..Pow2[n] |-> [y1 \in 1..Pow2[n] |-> Adds(n) \o One(1, n, x1 - 1) \o One(2, n, y1 - 1)]])
    \o [x1 \in 1..Pow2[n] |-> Adds(n) \o One(1, n, x1 - 1) \o Adds(1) \o One(2, n + 1, (x1 - 1) * 2)]])
(* overlapping saves: a random walk over what is possible *)
RECURSIVE Walk(_, _, _, _)
Walk(k, st, left, acc) ==
  IF left = 0 THEN acc
  ELSE LET w == Rnd(Key(k, left), 10) m == 1 + Rnd(Key(k, 1000 + left), 6) IN
       IF w = 0 /\ st.n < MaxStores THEN Walk(k, [st EXCEPT !.n = @ + 1], left - 1, Append(acc, Op("add")))
       ELSE IF st.at[m] = -1 THEN Walk(k, [st EXCEPT !.at[m] = 0], left - 1, Append(acc, [a |-> "begin", m |-> m, n |-> st.n]))
       ELSE IF st.at[m] < 1000 THEN Walk(k, [st EXCEPT !.at[m] = 1000], left - 1,
              acc \o Rets(m, st.n, Rnd(Key(k, 2000 + left), Pow2[st.n])) \o << [a |-> "end", m |-> m] >>)
       ELSE Walk(k, st, left - 1, acc)
Random(k) ==
  LET n == Rnd(Key(k, 1), MaxStores) IN
  Adds(n) \o Walk(k, [n |-> n, at |-> [m \in 1..6 |-> -1]], 25, << >>)
Scenarios == LET e == Exhaustive IN
  [i \in 1..(Len(e) + NRand) |-> [sc |-> i, steps |-> IF i <= Len(e) THEN e[i] ELSE Random(Key(Key(Seed, 5), i))]]
ASSUME ndJsonSerialize(OutFile, Scenarios)
=============================================================================
