-------------------------------- MODULE Startup --------------------------------
(***************************************************************************)
(* The receiver from its start to its work: read the configuration, load   *)
(* the storages it names (in any order), serve.  When loading fails the    *)
(* receiver serves all the same and writes what it receives to its log.    *)
(*                                                                         *)
(* x describes the scenario: file "good" or else; level; ttl in seconds;   *)
(* secs, the storage sections, each with acc: 1 it can be loaded, 0 not,   *)
(* 2 that depends on the client library.                                   *)
(*                                                                         *)
(* History events:                                                         *)
(*   exit code      the process has ended by itself                        *)
(*   up at          connections are accepted at the configured address     *)
(*                  (1) or another one (0)                                 *)
(*   loaded err     (repository alone) loading has returned                *)
(*   rec            a record has been sent to the receiver                 *)
(*   deliver s par  the broker of section s has accepted that record, by   *)
(*                  the parameters of the section (1) or others (0)        *)
(*   logged         the record is in the log                               *)
(*   answer ok      the record's packet was answered with (no) success;    *)
(*                  (repository alone) saving has returned                 *)
(*   silence        the packet was not answered                            *)
(*   lines l        the log has lines of level l                           *)
(*   idle ms        after the answer nothing was sent; the connection was  *)
(*                  closed after that time (-1: it was not)                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Stores, Bug

(*------------------------- the promises, on a history --------------------*)
Ev(h, k) == {z \in DOMAIN h : h[z].k = k}
Broken(x) == x.secs = << >> \/ \E i \in DOMAIN x.secs : x.secs[i].acc = 0
Shaky(x) == \E i \in DOMAIN x.secs : x.secs[i].acc = 2
Depends(x) == ~Broken(x) /\ Shaky(x)
LevelsBelow(l) == CASE l = "DEBUG" -> {} [] l = "WARN" -> {"debug", "info"} [] l = "ERROR" -> {"debug", "info", "warning"} [] OTHER -> {"debug"}
StartFaults(h, x) ==
  LET ups == Ev(h, "up") exits == Ev(h, "exit") dels == Ev(h, "deliver") logs == Ev(h, "logged")
      del(s) == Cardinality({z \in dels : h[z].s = s}) binary == x.mode = "binary" IN
  IF x.file # "good"
  THEN (IF ups # {} THEN {<< "C15", "the receiver serves without a configuration" >>} ELSE {})
       \cup (IF exits = {} \/ \E z \in exits : h[z].code = 0 THEN {<< "C15", "a missing or malformed configuration is no error for the receiver" >>} ELSE {})
  ELSE (IF exits # {} THEN {<< "C13", "the receiver does not run" >>} ELSE {})
       \cup (IF binary /\ exits = {} /\ ~\E z \in ups : h[z].at = 1 THEN {<< "C15", "the receiver does not listen on host:port" >>} ELSE {})
       \cup (IF \E z \in ups : h[z].at = 0 THEN {<< "C15", "the receiver listens elsewhere than on host:port" >>} ELSE {})
       \cup (IF \E z \in Ev(h, "loaded") : h[z].err = 1 /\ ~Broken(x) /\ ~Depends(x) THEN {<< "C13", "storages that can be loaded are not" >>} ELSE {})
       \cup (IF \E z \in Ev(h, "loaded") : h[z].err = 0 /\ Broken(x) THEN {<< "C13", "loading an empty, unknown or rejected storage is reported as success" >>} ELSE {})
       \cup (IF Ev(h, "stray") # {} THEN {<< "C13", "a storage is handed something else than the record" >>} ELSE {})
       \cup (IF \E z \in dels : h[z].par = 0 THEN {<< "C13", "a storage works with other parameters than its own" >>} ELSE {})
       \cup (IF \E s \in DOMAIN x.secs : del(s) > 1 THEN {<< "C13", "a storage became active twice" >>} ELSE {})
       \cup (IF Ev(h, "rec") # {} /\ ~Broken(x) /\ ~Depends(x) /\ \E s \in DOMAIN x.secs : del(s) = 0 THEN {<< "C13", "a configured storage is not active" >>} ELSE {})
       \cup (IF binary /\ Ev(h, "rec") # {} /\ Broken(x) /\ x.level \notin {"WARN", "ERROR"} /\ logs = {} THEN {<< "C13", "without its storages the receiver loses records silently" >>} ELSE {})
       \cup (IF Ev(h, "silence") # {} THEN {<< "C13", "the receiver does not serve its clients" >>} ELSE {})
       \cup (IF \E z \in Ev(h, "answer") : h[z].ok = 0 /\ ~Shaky(x) THEN {<< "C13", "a record is refused although the storages that are active accept it" >>} ELSE {})
       \cup {<< "C15", "the log has lines below the configured level" >> : z \in {y \in Ev(h, "lines") : h[y].l \in LevelsBelow(x.level)}}
       \cup (IF binary /\ Ev(h, "answer") # {} /\ x.level = "DEBUG" /\ ~\E z \in Ev(h, "lines") : h[z].l = "debug" THEN {<< "C15", "the log lacks the lines of the configured level" >>} ELSE {})
       \cup (IF binary /\ Ev(h, "answer") # {} /\ x.level \notin {"WARN", "ERROR"} /\ ~\E z \in Ev(h, "lines") : h[z].l = "info" THEN {<< "C15", "the log lacks the lines of the configured level" >>} ELSE {})
       \cup (IF \E z \in Ev(h, "idle") : x.ttl > 0 /\ (h[z].ms = -1 \/ h[z].ms > 1000 * x.ttl + 3000) THEN {<< "C15", "an idle connection is not closed after conn_ttl seconds" >>} ELSE {})
       \cup (IF \E z \in Ev(h, "idle") : h[z].ms # -1 /\ (x.ttl <= 0 \/ h[z].ms < 1000 * x.ttl - 100) THEN {<< "C15", "an idle connection is closed before conn_ttl seconds" >>} ELSE {})
       \cup (IF Ev(h, "crash") # {} THEN {<< "C13", "starting panicked" >>} ELSE {})

(*-------------------------------- the design -----------------------------*)
VARIABLES x, ph, todo, active, failed, todeliver, hist
vars == << x, ph, todo, active, failed, todeliver, hist >>
Log(e) == hist' = Append(hist, e)
Kinds == {"known", "unknown", "rejected"}
Init == /\ \E f \in {"good", "bad"}, l \in {"DEBUG", "INFO", "WARN", "ERROR", "other"}, n \in 0..Cardinality(Stores) :
             \E a \in [1..n -> Kinds] :
               x = [mode |-> "binary", file |-> f, level |-> l, ttl |-> 1, secs |-> [i \in 1..n |-> [acc |-> IF a[i] = "known" THEN 1 ELSE 0, unknown |-> a[i] = "unknown"]]]
        /\ ph = "start" /\ todo = {} /\ active = {} /\ failed = FALSE /\ todeliver = {} /\ hist = << >>
Read == /\ ph = "start"
        /\ IF x.file # "good" /\ Bug # "nofile" THEN /\ ph' = "ended" /\ Log([k |-> "exit", code |-> IF Bug = "exit0" THEN 0 ELSE 1]) /\ todo' = {}
           ELSE /\ ph' = "loading" /\ todo' = DOMAIN x.secs /\ hist' = hist
        /\ UNCHANGED << x, active, failed, todeliver >>
Load(s) == /\ ph = "loading" /\ s \in todo /\ ~failed
           /\ LET good == x.secs[s].acc = 1 \/ (Bug = "skipunknown" /\ x.secs[s].unknown) IN
              /\ failed' = ~good
              /\ active' = IF x.secs[s].acc = 1 THEN (IF Bug = "lastonly" THEN {s} ELSE active \cup {s}) ELSE active
           /\ todo' = todo \ {s} /\ UNCHANGED << x, ph, todeliver, hist >>
Loaded == /\ ph = "loading" /\ (todo = {} \/ failed)
          /\ LET err == failed \/ (x.secs = << >> /\ Bug # "emptyok") IN
             /\ failed' = err
             /\ IF err /\ Bug = "fatal" THEN ph' = "ended" /\ Log([k |-> "exit", code |-> 1]) ELSE ph' = "up" /\ Log([k |-> "loaded", err |-> IF err THEN 1 ELSE 0])
          /\ UNCHANGED << x, todo, active, todeliver >>
Up == /\ ph = "up" /\ ph' = "serving" /\ Log([k |-> "up", at |-> IF Bug = "elsewhere" THEN 0 ELSE 1]) /\ UNCHANGED << x, todo, active, failed, todeliver >>
Visible(l) == l \notin LevelsBelow(IF Bug = "level" THEN "INFO" ELSE x.level)
Rec == /\ ph = "serving" /\ ph' = "saving" /\ todeliver' = active
       /\ hist' = hist \o << [k |-> "rec"] >> \o (IF failed /\ Bug # "silent" /\ x.level \in {"DEBUG", "INFO", "other"} THEN << [k |-> "logged"] >> ELSE << >>)
                  \o (IF x.level = "DEBUG" THEN << [k |-> "lines", l |-> "debug"] >> ELSE << >>) \o (IF x.level \in {"DEBUG", "INFO", "other"} \/ Bug = "level" THEN << [k |-> "lines", l |-> "info"] >> ELSE << >>)
       /\ UNCHANGED << x, todo, active, failed >>
Del(s) == /\ ph = "saving" /\ s \in todeliver /\ todeliver' = todeliver \ {s} /\ Log([k |-> "deliver", s |-> s, par |-> IF Bug = "shared" /\ s > 1 THEN 0 ELSE 1])
          /\ UNCHANGED << x, ph, todo, active, failed >>
Answer == /\ ph = "saving" /\ todeliver = {} /\ ph' = "idle" /\ Log([k |-> "answer", ok |-> 1]) /\ UNCHANGED << x, todo, active, failed, todeliver >>
Idle == /\ ph = "idle" /\ ph' = "ended" /\ Log([k |-> "idle", ms |-> IF Bug = "nottl" THEN -1 ELSE 1000 * x.ttl]) /\ UNCHANGED << x, todo, active, failed, todeliver >>
Next == Read \/ Loaded \/ Up \/ Rec \/ Answer \/ Idle \/ \E s \in Stores : Load(s) \/ Del(s)
Spec == Init /\ [][Next]_vars
(* what holds at the end *)
Kept == ph = "ended" => StartFaults(hist, x) = {}
=============================================================================
