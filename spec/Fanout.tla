------------------------------- MODULE Fanout -------------------------------
(***************************************************************************)
(* The repository of storages: any number of saves at a time, each offered *)
(* to every storage, storages being added meanwhile.                       *)
(*                                                                         *)
(* History events: [k |-> "add", s], [k |-> "begin", m], [k |-> "call", m, *)
(* s, same], [k |-> "ret", m, s, ok], [k |-> "end", m, err].               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Msgs, MaxStores, Bug
VARIABLES n, at, bad, hist

(*------------------------- the promises, on a history --------------------*)
At(h, k, m) == {x \in DOMAIN h : h[x].k = k /\ (IF h[x].k = k THEN h[x].m = m ELSE FALSE)}
Adds(h) == {x \in DOMAIN h : h[x].k = "add"}
FaultsOf(h, m) ==
  LET b == CHOOSE x \in At(h, "begin", m) : TRUE
      es == At(h, "end", m)
      e == IF es = {} THEN Len(h) + 1 ELSE CHOOSE x \in es : TRUE
      calls == At(h, "call", m)
      due == {h[x].s : x \in {y \in Adds(h) : y < b}}
      some == {h[x].s : x \in {y \in Adds(h) : y < e}}
      times(s) == Cardinality({x \in calls : h[x].s = s})
      refused == {x \in At(h, "ret", m) : h[x].ok = 0}
  IN (IF es # {} /\ \E s \in due : times(s) = 0 THEN {"a storage was not offered the record"} ELSE {})
     \cup (IF \E s \in some : times(s) > 1 THEN {"a storage was offered the record more than once"} ELSE {})
     \cup (IF \E x \in calls : h[x].s \notin some \/ x < b THEN {"a call that belongs to no save"} ELSE {})
     \cup (IF \E x \in calls : h[x].same = 0 THEN {"a storage was offered something other than the record"} ELSE {})
     \cup (IF es # {} /\ (\E x \in calls : x > e) THEN {"a storage was offered the record after the save returned"} ELSE {})
     \cup (IF es # {} /\ (IF es = {} THEN FALSE ELSE h[e].err = 0) /\ (\E x \in refused : TRUE) THEN {"the failure of a storage was not reported"} ELSE {})
     \cup (IF es # {} /\ (IF es = {} THEN FALSE ELSE h[e].err = 1) /\ refused = {} THEN {"a failure was reported although every storage accepted"} ELSE {})
SavesIn(h) == {h[x].m : x \in {y \in DOMAIN h : h[y].k = "begin"}}
FanFaults(h) == UNION {FaultsOf(h, m) : m \in SavesIn(h)}
               \cup (IF \E x \in DOMAIN h : h[x].k = "late" THEN {"a save or an offer did not come"} ELSE {})

(*------------------------------- the design ------------------------------*)
vars == << n, at, bad, hist >>
Log(e) == hist' = Append(hist, e)
Init == n = 0 /\ at = [m \in Msgs |-> -1] /\ bad = [m \in Msgs |-> FALSE] /\ hist = << >>
Add == /\ n < MaxStores /\ n' = n + 1 /\ Log([k |-> "add", s |-> n + 1]) /\ UNCHANGED << at, bad >>
(* at: -1 not begun, 2s-1 about to call store s, 2s in the call, 1000 ended *)
Begin(m) == /\ at[m] = -1 /\ at' = [at EXCEPT ![m] = 1] /\ Log([k |-> "begin", m |-> m]) /\ UNCHANGED << n, bad >>
Cur(m) == (at[m] + 1) \div 2
Call(m) == /\ at[m] \in 1..999 /\ (at[m] % 2) = 1 /\ Cur(m) <= (IF Bug = "skiplast" THEN n - 1 ELSE n)
           /\ at' = [at EXCEPT ![m] = @ + 1]
           /\ Log([k |-> "call", m |-> m, s |-> Cur(m), same |-> 1]) /\ UNCHANGED << n, bad >>
Ret(m, ok) == /\ at[m] \in 1..999 /\ (at[m] % 2) = 0
              /\ at' = [at EXCEPT ![m] = IF Bug = "stopfirst" /\ ok = 0 THEN 999
                                         ELSE IF Bug = "retry" /\ ok = 0 /\ ~bad[m] THEN @ - 1 ELSE @ + 1]
              /\ bad' = [b \in Msgs |-> IF b = m THEN (IF Bug = "losterr" THEN ok = 0 ELSE bad[m] \/ ok = 0)
                                        ELSE IF Bug = "shared" THEN bad[b] \/ ok = 0 ELSE bad[b]]
              /\ Log([k |-> "ret", m |-> m, s |-> at[m] \div 2, ok |-> ok]) /\ UNCHANGED n
End(m) == /\ at[m] \in 1..999 /\ (at[m] % 2) = 1 /\ (Cur(m) > (IF Bug = "skiplast" THEN n - 1 ELSE n) \/ at[m] = 999)
          /\ at' = [at EXCEPT ![m] = 1000]
          /\ Log([k |-> "end", m |-> m, err |-> IF bad[m] THEN 1 ELSE 0]) /\ UNCHANGED << n, bad >>
Next == Add \/ \E m \in Msgs : Begin(m) \/ Call(m) \/ Ret(m, 0) \/ Ret(m, 1) \/ End(m)
Spec == Init /\ [][Next]_vars
Kept == FanFaults(hist) = {}
=============================================================================
