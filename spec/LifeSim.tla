------------------------------- MODULE LifeSim -------------------------------
(***************************************************************************)
(* Behaviours of Life as scripts for the real server.  A client of the     *)
(* model stands for a group of plan.size connections; a churn is a crowd of *)
(* further ones that come, are served and go one after the other.  Clients  *)
(* leave in different ways: they close, they reset the connection, they     *)
(* stop in the middle of a packet, they send something that is not EGTS, or *)
(* a damaged packet first.                                                  *)
(***************************************************************************)
EXTENDS Life, GatePk, Json
CONSTANTS Seed, Sizes, Churns
VARIABLES script, plan
Note(s) == script' = Append(script, s) /\ plan' = plan
SInit == /\ Init /\ script = << >>
         /\ plan \in [addr : {"127.0.0.1:", "127.0.0.2:", "localhost:", "0.0.0.0:", ":"}, runAt : 0..2, stopAt : 3..(MaxLen - 1),
                      len : (MaxLen - 4)..MaxLen, size : Sizes, starve : BOOLEAN, churn : Churns]
Specific == plan.addr \in {"127.0.0.1:", "127.0.0.2:"}
Ways == << "close", "abort", "half", "alien", "bad" >>
L == Len(script)
More == L < plan.len
SNext ==
  \/ More /\ L >= plan.runAt /\ Run /\ Note([a |-> "run"])
  \/ More /\ (L >= plan.stopAt \/ (run = "no" /\ plan.runAt > 0)) /\ Stop /\ Note([a |-> "stop"])
  \/ Return /\ UNCHANGED << script, plan >>
  \/ \E c \in Conns : Accept(c) /\ UNCHANGED << script, plan >>
  \/ More /\ L >= plan.runAt /\ run # "no" /\ \E c \in Conns :
       \/ Use(c) /\ Note([a |-> "use", c |-> c])
       \/ Leave(c) /\ Note([a |-> "leave", c |-> c, how |-> Ways[1 + ((3 * L + c + plan.runAt) % 5)]])
       \/ Dial(c, 1) /\ Note([a |-> "dial", c |-> c, at |-> 1])
  \/ More /\ run = "no" /\ Dial(1, 1) /\ Note([a |-> "dial", c |-> 1, at |-> 1])
  \/ More /\ Specific /\ run # "no" /\ Dial(1, 0) /\ Note([a |-> "dial", c |-> 1, at |-> 0])
  \/ More /\ plan.starve /\ Starve /\ Note([a |-> IF starved THEN "feed" ELSE "starve"])
  \/ More /\ L > 2 /\ run # "no" /\ script[L].a # "cpu" /\ Look /\ Note([a |-> "cpu"])
  \/ More /\ plan.churn > 0 /\ L > plan.runAt + 1 /\ run = "listen" /\ lis /\ ~starved /\ Settled /\ script[L].a # "churn" /\ Note([a |-> "churn", c |-> 7, n |-> plan.churn])
     /\ hist' = hist \o << [k |-> "dial", c |-> 7, ok |-> 1, at |-> 1], [k |-> "use", c |-> 7, ok |-> 1], [k |-> "leave", c |-> 7] >> /\ UNCHANGED << run, lis, con, starved >>
SSpec == SInit /\ [][SNext]_<< vars, script, plan >>
Done == ~More /\ Settled
Key0 == FoldLeft(LAMBDA a, x : Key(a, Len(x.a)), Key(Seed, 5), script)
(* at the end descriptors are available again, everything still open is used once more, and a new client comes *)
Tail1 == (IF starved THEN << [a |-> "feed"] >> ELSE << >>)
         \o SetToSeq({[a |-> "use", c |-> c] : c \in {x \in Conns : con[x] = "served"}})
         \o << [a |-> "dial", c |-> 9, at |-> 1] >> \o (IF lis THEN << [a |-> "use", c |-> 9] >> ELSE << >>) \o << [a |-> "cpu"] >>
         \o (IF run = "listen" THEN << [a |-> "stop"], [a |-> "dial", c |-> 8, at |-> 1] >> ELSE << >>)
Timed == [addr |-> plan.addr, size |-> plan.size, pid |-> 77, b |-> Small(Key0, 77, 1), steps |-> script \o Tail1]
ShowScenario == Done => PrintT("SCENARIO " \o ToJson(Timed))
=============================================================================
