------------------------------ MODULE GateSim -------------------------------
(***************************************************************************)
(* Behaviours of the design model Gate, made concrete: TLC simulates Gate, *)
(* and every finished behaviour is printed as a scenario in which clients  *)
(* send, storage calls are held until the behaviour lets them return       *)
(* (accepting or refusing), and answers are awaited, all in the order of   *)
(* the behaviour.                                                          *)
(***************************************************************************)
EXTENDS Gate, GatePk, Json
CONSTANTS Seed
VARIABLES script, lim

SInit == Init /\ script = << >> /\ lim \in [Conns -> 1..MaxPk]
Note(s) == script' = Append(script, s) /\ lim' = lim
Frames1(c) == Len(Ev(hist[c], "reply")) + 1
SNext == \E c \in Conns :
  \/ \E kind \in Kinds : Len(sent[c]) < lim[c] /\ Send(c, kind) /\ Note([t |-> "send", c |-> c, j |-> Len(sent[c]) + 1, kind |-> kind])
  \/ Len(sent[c]) = lim[c] /\ Eof(c) /\ Note([t |-> "eof", c |-> c])
  \/ Len(sent[c]) = lim[c] /\ SendAlien(c) /\ Note([t |-> "alien", c |-> c])
  \/ Take(c) /\ UNCHANGED << script, lim >>
  \/ SaveBegin(c) /\ Note([t |-> "save", c |-> c, j |-> cur[c]])
  \/ \E ok \in {0, 1, 1 - (Len(script) % 2)} : SaveEnd(c, ok) /\ Note([t |-> "release", c |-> c, j |-> cur[c]])
  \/ (Reply(c) \/ Result(c) \/ Refuse(c)) /\ Note([t |-> "reply", c |-> c, n |-> Frames1(c)])
  \/ Close(c) /\ Note([t |-> "closed", c |-> c])
SSpec == SInit /\ [][SNext]_<< vars, script, lim >>

Key0 == FoldLeft(LAMBDA a, x : Key(a, 7 * x.c + Len(x.t)), Key(Seed, 31), script)
Bytes(s) ==
  LET k == Key(Key0, 100 * s.c + s.j) pid == 10 * s.c + s.j nn == 10 * s.c + s.j IN
  CASE s.kind = "pos" -> IF Rnd(k, 2) = 0 THEN Small(k, pid, nn) ELSE Tele(k, pid, nn)
    [] s.kind = "nopos" -> Quiet(k, pid)
    [] s.kind = "ident" -> App(k, pid, << Rec(Key(k, 1), 9, Zero4, 0, << IF Rnd(Key(k, 2), 2) = 0 THEN Auth(Key(k, 3)) ELSE Ident(Key(k, 3), TRUE) >>) >>)
    [] s.kind = "mixed" -> MixedOf(k, pid, nn, TRUE)
    [] s.kind = "conf" -> Confs(k, pid)
    [] s.kind = "resp" -> Resp(k, pid)
    [] s.kind = "bad" -> Damage(k, Tele(Key(k, 1), pid, nn), Pick(Key(k, 2), << "hcs", "crc", "data", "type", "nobody", "unsub" >>))
Refusers(s) == SelectSeq([x \in 1..Stores |-> x], LAMBDA x : \E y \in DOMAIN hist[s.c] : IsSaved(hist[s.c][y], s.j, x, 0))
Concrete(s) ==
  CASE s.t = "send" -> << [a |-> "send", c |-> s.c, p |-> 10 * s.c + s.j, b |-> Bytes(s), tag |-> Tag(10 * s.c + s.j),
                           hold |-> IF s.kind \in {"pos", "mixed"} THEN 1 ELSE 0, fails |-> Refusers(s)] >>
    [] s.t = "save" -> << [a |-> "save", p |-> 10 * s.c + s.j, ms |-> 3] >>
    [] s.t = "release" -> << [a |-> "release", p |-> 10 * s.c + s.j] >>
    [] s.t = "reply" -> << [a |-> "reply", c |-> s.c, n |-> s.n, iso |-> 0] >>
    [] s.t = "eof" -> << [a |-> "eof", c |-> s.c] >>
    [] s.t = "alien" -> << [a |-> "send", c |-> s.c, b |-> << 3 + Rnd(Key(Key0, s.c), 250) >> \o RBytes(Key0, 14)] >>
    [] s.t = "closed" -> << [a |-> "closed", c |-> s.c] >>
Scenario == [kind |-> "sim", stores |-> Stores, nc |-> Cardinality(Conns), ttl |-> 30000,
             steps |-> SetToSeq({[a |-> "open", c |-> c] : c \in Conns}) \o Flat([x \in 1..Len(script) |-> Concrete(script[x])])]
ShowScenario == (\A c \in Conns : pc[c] = "closed") => PrintT("SCENARIO " \o ToJson(Scenario))
=============================================================================
