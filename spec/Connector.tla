------------------------------ MODULE Connector ------------------------------
(***************************************************************************)
(* A storage connector between its caller and its broker.  Init connects   *)
(* (or only prepares to), Save hands one record to the broker and reports  *)
(* what became of it, several saves at a time.  The broker accepts a       *)
(* record, refuses it, or breaks the connection before or after accepting  *)
(* it; it can be down altogether, and connections can be cut.              *)
(*                                                                         *)
(* History events, in the order they happened:                             *)
(*   init, inited res       Init was called, has returned (ok, err, panic, *)
(*                          hang)                                          *)
(*   save m, saved m res    Save of record m was called, has returned      *)
(*   deliver m dest cred    the broker has accepted a record: m, or        *)
(*                          something that is no record (m = 0), for this  *)
(*                          destination, from a client with these          *)
(*                          credentials                                    *)
(*   refused                the broker has refused a record                *)
(*   broke                  a connection was broken, or the broker is down *)
(*   sick                   from now on connections are not served         *)
(*   close res, crash       Close has returned; the process has died       *)
(*                                                                         *)
(* x describes the scenario: can (1: the configuration and credentials     *)
(* are right, 0: they are not, 2: it depends), dest and cred the ones      *)
(* configured, pay[m] "good", "bad" (cannot be serialised), "nil".         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Msgs, MaxEnv, Bug

(*------------------------- the promises, on a history --------------------*)
Is(h, z, k, m) == IF h[z].k = k THEN h[z].m = m ELSE FALSE
Some(h, lo, hi, ks) == \E z \in lo..hi : h[z].k \in ks
Dels(h, m) == {z \in DOMAIN h : Is(h, z, "deliver", m)}
BeginOf(h, z) == LET b == {y \in 1..z : Is(h, y, "save", h[z].m)} IN CHOOSE y \in b : \A w \in b : w <= y
SavedFaults(h, x, z) ==
  LET m == h[z].m b == BeginOf(h, z) res == h[z].res d == Dels(h, m) IN
  IF res \in {"panic", "hang"} THEN {"Save panicked or did not return"}
  ELSE IF res = "ok" THEN
       (IF x.pay[m] # "good" THEN {"success although there was nothing to deliver"} ELSE {})
       \cup (IF x.pay[m] = "good" /\ ~\E y \in d : y > b /\ y < z THEN {"success although the broker has not accepted the record"} ELSE {})
       \cup (IF Cardinality(d) > 1 /\ ~Some(h, b, z, {"broke", "sick"}) THEN {"the record was delivered more than once"} ELSE {})
  ELSE IF x.can = 1 /\ x.pay[m] = "good" /\ ~Some(h, 1, z, {"broke", "sick", "refused"})
       THEN {"an error although nothing hindered the delivery"} ELSE {}
ConnFaults(h, x) ==
  UNION {
    LET e == h[z] IN
    CASE e.k = "saved" -> SavedFaults(h, x, z)
      [] e.k = "deliver" ->
           (IF e.m = 0 THEN {"something that is no record was delivered"}
            ELSE (IF ~\E y \in 1..z : Is(h, y, "save", e.m) THEN {"a record was delivered before Save"} ELSE {})
                 \cup (IF x.pay[e.m] # "good" THEN {"something that cannot be serialised was delivered"} ELSE {}))
           \cup (IF e.dest # x.dest THEN {"delivered to another destination than the configured one"} ELSE {})
           \cup (IF e.cred # x.cred THEN {"delivered with other credentials than the configured ones"} ELSE {})
      [] e.k = "inited" ->
           (IF e.res \in {"panic", "hang"} THEN {"Init panicked or did not return"} ELSE {})
           \cup (IF e.res = "err" /\ x.can = 1 /\ ~Some(h, 1, z, {"broke", "sick"}) THEN {"Init fails although the broker is there and the configuration right"} ELSE {})
           \cup (IF e.res = "ok" /\ x.nil = 1 THEN {"Init succeeds without a configuration"} ELSE {})
      [] e.k = "close" -> IF e.res \in {"panic"} THEN {"Close panicked"} ELSE {}
      [] e.k = "crash" -> {"the process died"}
      [] OTHER -> {}
    : z \in DOMAIN h}

(*-------------------------------- the design -----------------------------*)
VARIABLES x,     \* the scenario
          lazy,  \* Init does not contact the broker
          ph,    \* "new", "ready", "failed"
          up, env,
          st,    \* of each save: "idle", "called", "sent", "stored", "refused", "lost", "failed", "done"
          again, \* the library has tried again
          hq,    \* how the broker treats the records that arrive next
          hist
vars == << x, lazy, ph, up, env, st, again, hq, hist >>
Log(e) == hist' = Append(hist, e)
Hows == {"ok", "refuse", "dropbefore", "dropafter"}
CInit == /\ lazy \in BOOLEAN /\ ph = "new" /\ up = TRUE /\ env = 0 /\ st = [m \in Msgs |-> "idle"]
         /\ again = [m \in Msgs |-> FALSE] /\ hq = << >> /\ hist = << >>
Init == CInit /\ x \in [can : {0, 1}, nil : {0, 1}, dest : {"d"}, cred : {"c"}, pay : [Msgs -> {"good", "bad", "nil"}]] /\ (x.nil = 1 => x.can = 0)
Start == /\ ph = "new"
         /\ LET ok == (x.nil = 0 \/ Bug = "nilok") /\ (lazy \/ (x.can = 1 /\ up) \/ Bug = "nilok") IN
            /\ ph' = IF ok THEN "ready" ELSE "failed"
            /\ hist' = hist \o << [k |-> "init"], [k |-> "inited", res |-> IF ok THEN "ok" ELSE "err"] >>
         /\ UNCHANGED << x, lazy, up, env, st, again, hq >>
Call(m) == /\ ph = "ready" /\ st[m] = "idle" /\ st' = [st EXCEPT ![m] = "called"] /\ Log([k |-> "save", m |-> m])
           /\ UNCHANGED << x, lazy, ph, up, env, again, hq >>
Send(m) == /\ st[m] = "called"
           /\ st' = [st EXCEPT ![m] = IF x.pay[m] # "good" THEN (IF Bug = "emptyonbad" /\ x.can = 1 /\ up THEN "sent" ELSE "failed")
                                      ELSE IF x.can = 1 /\ up THEN "sent" ELSE "failed"]
           /\ UNCHANGED << x, lazy, ph, up, env, again, hq, hist >>
Deliver(m) == [k |-> "deliver", m |-> IF x.pay[m] # "good" THEN 0 ELSE m, dest |-> IF Bug = "wrongdest" THEN "e" ELSE x.dest, cred |-> IF Bug = "wrongcred" THEN "e" ELSE x.cred]
Next1 == IF hq = << >> THEN "ok" ELSE Head(hq)
Broker(m) == /\ st[m] = "sent"
             /\ hq' = IF hq = << >> THEN hq ELSE Tail(hq)
             /\ CASE ~up -> st' = [st EXCEPT ![m] = "lost"] /\ hist' = hist
                  [] up /\ Next1 \in {"ok", "slow"} -> st' = [st EXCEPT ![m] = "stored"] /\ Log(Deliver(m))
                  [] up /\ Next1 = "refuse" -> st' = [st EXCEPT ![m] = "refused"] /\ Log([k |-> "refused"])
                  [] up /\ Next1 = "dropbefore" -> st' = [st EXCEPT ![m] = "lost"] /\ Log([k |-> "broke"])
                  [] up /\ Next1 = "dropafter" -> st' = [st EXCEPT ![m] = "lost"] /\ hist' = hist \o << Deliver(m), [k |-> "broke"] >>
             /\ UNCHANGED << x, lazy, ph, up, env, again >>
(* libraries send again what was on its way when the connection broke *)
Retry(m) == /\ ~again[m] /\ up /\ (st[m] = "lost" \/ (Bug = "resend" /\ st[m] = "stored"))
            /\ st' = [st EXCEPT ![m] = "sent"] /\ again' = [again EXCEPT ![m] = TRUE]
            /\ UNCHANGED << x, lazy, ph, up, env, hq, hist >>
Finish(m) == /\ st[m] \in {"stored", "refused", "lost", "failed"} \cup (IF Bug = "async" THEN {"sent"} ELSE {})
             /\ LET ok == st[m] \in {"stored", "sent"} \/ (Bug = "ignoreerr" /\ st[m] = "refused") \/ (Bug = "ignorelost" /\ st[m] = "lost")
                          \/ (Bug = "ignorebad" /\ st[m] = "failed" /\ x.pay[m] = "bad")
                IN Log([k |-> "saved", m |-> m, res |-> IF Bug = "nilpanic" /\ x.pay[m] = "nil" THEN "panic" ELSE IF ok THEN "ok" ELSE "err"])
             /\ st' = [st EXCEPT ![m] = IF Bug = "async" /\ st[m] = "sent" THEN "late" ELSE "done"]
             /\ UNCHANGED << x, lazy, ph, up, env, again, hq >>
Late(m) == /\ st[m] = "late" /\ up /\ st' = [st EXCEPT ![m] = "done"] /\ Log(Deliver(m)) /\ UNCHANGED << x, lazy, ph, up, env, again, hq >>
Hinder(h) == /\ env < MaxEnv /\ env' = env + 1 /\ hq' = Append(hq, h) /\ UNCHANGED << x, lazy, ph, up, st, again, hist >>
Down == /\ env < MaxEnv /\ env' = env + 1 /\ up /\ up' = FALSE /\ Log([k |-> "broke"]) /\ UNCHANGED << x, lazy, ph, st, again, hq >>
Up == /\ ~up /\ up' = TRUE /\ UNCHANGED << x, lazy, ph, env, st, again, hq, hist >>
Work == \E m \in Msgs : Send(m) \/ Broker(m) \/ Retry(m) \/ Finish(m) \/ Late(m)
Next == Start \/ Work \/ Down \/ Up \/ (\E m \in Msgs : Call(m)) \/ \E h \in Hows : Hinder(h)
Spec == Init /\ [][Next]_vars
Kept == ConnFaults(hist, x) = {}
=============================================================================
