------------------------------ MODULE PacketGen ------------------------------
(***************************************************************************)
(* packet-gen: sends one packet, waits for the answer until its time is up *)
(* and exits.  The model has a clock of whole seconds; the server answers  *)
(* with any of the abstract answers, in any second or never, in one piece  *)
(* or two, or ends the connection.  `Acked' decides what is success, here  *)
(* and for the runs of the real program (PacketGenTrace).                  *)
(***************************************************************************)
EXTENDS GateHist
CONSTANTS Limit, Bug
VARIABLES phase, clock, valid, sent, ans, parts, code

(* an answer acknowledges packet pid with the records rns *)
Acked(r, pid, rns) ==
  /\ r.k = "resp" /\ r.whole /\ r.rpid = pid /\ Success(r)
  /\ \A n \in rns : \E i \in DOMAIN r.confs : r.confs[i][1] = n
AnswerOf(k, rpid, pr, confs) == [k |-> k, whole |-> k # "cut", rpid |-> rpid, pr |-> pr, confs |-> confs, lib |-> 0, plain |-> TRUE, b |-> << >>]
Confs == {<< 1, 0 >>, << 1, 1 >>, << 2, 0 >>, << 2, 1 >>}
ConfSeqs == {<< >>} \cup {<< a >> : a \in Confs} \cup {<< a, b >> : a \in Confs, b \in Confs}
Answers2 == {AnswerOf("resp", rpid, pr, cs) : rpid \in {1, 2}, pr \in {0, 1}, cs \in ConfSeqs}
           \cup {AnswerOf("junk", 1, 0, << >>), AnswerOf("result", 1, 0, << >>)}
None == AnswerOf("none", 1, 0, << >>)
Closed == AnswerOf("closed", 1, 0, << >>)

Init == /\ phase = "start" /\ clock = 0 /\ sent = 0 /\ ans = None /\ parts = 0 /\ code = -1
        /\ valid \in BOOLEAN
Vars == << phase, clock, valid, sent, ans, parts, code >>
Exit(c) == phase' = "done" /\ code' = c
Launch == /\ phase = "start"
          /\ IF valid \/ Bug = "sendall" THEN phase' = "sent" /\ sent' = sent + (IF Bug = "twice" THEN 2 ELSE 1) /\ code' = code
             ELSE Exit(1) /\ sent' = sent
          /\ UNCHANGED << clock, valid, ans, parts >>
(* the server *)
Answer == /\ phase = "sent" /\ ans = None /\ clock < Limit + 1
          /\ ans' \in Answers2 \cup {Closed}
          /\ parts' \in (IF ans' = Closed THEN {2} ELSE {1, 2})
          /\ UNCHANGED << phase, clock, valid, sent, code >>
Rest == /\ phase = "sent" /\ ans # None /\ parts = 1 /\ parts' = 2
        /\ UNCHANGED << phase, clock, valid, sent, ans, code >>
Tick == /\ phase = "sent" /\ clock < Limit + 1 /\ (IF ans = None \/ parts < 2 THEN clock < Limit ELSE FALSE)
        /\ clock' = clock + 1
        /\ UNCHANGED << phase, valid, sent, ans, parts, code >>
(* the program *)
Judge(r) ==
  LET ok == CASE Bug = "ignorerst" -> r.k = "resp" /\ r.rpid = 1 /\ r.pr = 0
              [] Bug = "anyrpid" -> r.k = "resp" /\ Success(r) /\ \E i \in DOMAIN r.confs : r.confs[i][1] = 1
              [] Bug = "lastrst" -> r.k = "resp" /\ r.rpid = 1 /\ r.pr = 0 /\ r.confs # << >> /\ r.confs[Len(r.confs)] = << 1, 0 >>
              [] OTHER -> Acked(r, 1, {1})
  IN IF ok THEN (IF Bug = "neverzero" THEN 1 ELSE 0) ELSE 1
Receive == /\ phase = "sent" /\ ans # None /\ (parts = 2 \/ Bug = "firstpart")
           /\ Exit(IF ans = Closed \/ (parts = 1) THEN 1 ELSE Judge(ans))
           /\ UNCHANGED << clock, valid, sent, ans, parts >>
Expire == /\ phase = "sent" /\ (clock >= Limit \/ Bug = "impatient") /\ (ans = None \/ parts < 2)
          /\ Exit(1) /\ UNCHANGED << clock, valid, sent, ans, parts >>
Next == Launch \/ Answer \/ Rest \/ Tick \/ Receive \/ Expire
Spec == Init /\ [][Next]_Vars /\ WF_Vars(Launch) /\ WF_Vars(Tick) /\ WF_Vars(Receive) /\ WF_Vars(Expire)

Reports == phase = "done" => ((code = 0) <=> (valid /\ Acked(ans, 1, {1}) /\ parts = 2))
          \/ (code = 1 /\ clock >= Limit /\ parts < 2)
SendsOnce == phase = "done" => sent = (IF valid THEN 1 ELSE 0)
Patient == phase = "done" /\ valid /\ (ans = None \/ parts < 2) => clock >= Limit
Ends == <>(phase = "done")
=============================================================================
