----------------------------- MODULE ConnectorSim -----------------------------
(***************************************************************************)
(* Behaviours of Connector as scripts for the real connectors against a    *)
(* stand-in of each broker, with configurations of every kind.             *)
(***************************************************************************)
EXTENDS Connector, ConnCfg, Json
CONSTANTS Seed, Kinds, Plans
VARIABLES plan, script

(* what a record looks like; << >> stands for a large one *)
Bodies(k, m) == CASE x.pay[m] = "bad" -> << -1 >> [] x.pay[m] = "nil" -> << -2 >>
                  [] Rnd(k, 12) = 0 -> << >>
                  [] OTHER -> << 123, 34, 109, 34, 58, 48 + m >> \o [i \in 1..Rnd(Key(k, 1), 40) |-> Rnd(Key(k, 10 + i), 256)] \o << 125 >>

L == Len(script)
More == L < plan.len
Note(s) == script' = Append(script, s) /\ plan' = plan
Kinds2 == SetToSeq(Kinds)
Vars == << "full", "full", "full", "full", "full", "open", "denied", "lacks", "number", "nil", "full", "full" >>
KindOf(n) == Kinds2[1 + (n % Len(Kinds2))]
VarOf(n) == Vars[1 + ((n \div Len(Kinds2)) % Len(Vars))]
SecretOf(n) == 1 + ((n \div (Len(Kinds2) * Len(Vars))) % Len(Secrets))
SInit == /\ CInit /\ script = << >>
         /\ \E n \in 1..Plans : plan = [n |-> n, len |-> 3 + Rnd(Key(Key(Seed, n), 40), 8), early |-> Rnd(Key(Key(Seed, n), 41), 10), calm |-> Rnd(Key(Key(Seed, n), 42), 2)]
         /\ x = LET k == Key(Seed, plan.n)
                    s == Setup(KindOf(plan.n), VarOf(plan.n), SecretOf(plan.n), k)
                IN [can |-> s.can, nil |-> s.nil, dest |-> s.dest, cred |-> s.cred,
                    pay |-> [m \in Msgs |-> LET r == Rnd(Key(k, 30 + m), 10) IN IF r = 0 THEN "bad" ELSE IF r = 1 THEN "nil" ELSE "good"]]
Quiet == \A m \in Msgs : st[m] \in {"idle", "done"}
Fresh == {m \in Msgs : st[m] = "idle"}
FirstFresh == CHOOSE m \in Fresh : \A o \in Fresh : m <= o
Calls(S) == /\ st' = [m \in Msgs |-> IF m \in S THEN "called" ELSE st[m]]
            /\ hist' = hist \o [i \in 1..Cardinality(S) |-> [k |-> "save", m |-> SetToSeq(S)[i]]]
            /\ UNCHANGED << x, lazy, ph, up, env, again >>
(* how much the broker hinders: not at all in half of the behaviours *)
Calm == plan.calm = 0
SNext ==
  \/ ph = "new" /\ plan.early = 0 /\ L = 0 /\ Down /\ Note([a |-> "down"])
  \/ ph = "new" /\ (plan.early = 0 => L > 0) /\ Start /\ Note([a |-> "init"])
  \/ Work /\ UNCHANGED << plan, script >>
  \/ ph = "ready" /\ More /\ Quiet /\ Fresh # {} /\ \E how \in (IF Calm THEN {"ok", "slow"} ELSE Hows \cup {"slow"}) :
       /\ hq' = << how >> /\ Calls({FirstFresh}) /\ Note([a |-> "save", m |-> FirstFresh, how |-> how])
  \/ ph = "ready" /\ More /\ Quiet /\ Cardinality(Fresh) > 3 /\ \E n \in 2..4, h1 \in (IF Calm THEN {"ok", "slow"} ELSE Hows), h2 \in (IF Calm THEN {"ok"} ELSE Hows) :
       LET S == {m \in Fresh : m < FirstFresh + n} IN
       /\ hq' = << h1, h2 >> /\ Calls(S) /\ Note([a |-> "saves", ms |-> SetToSeq(S), hs |-> << h1, h2 >>])
  \/ ph = "ready" /\ More /\ Quiet /\ ~Calm /\ Down /\ Note([a |-> "down"])
  \/ More /\ Quiet /\ ph # "new" /\ Up /\ Note([a |-> "up"])
  \/ ph = "ready" /\ More /\ Quiet /\ ~Calm /\ up /\ env < MaxEnv /\ env' = env + 1 /\ Log([k |-> "broke"]) /\ UNCHANGED << x, lazy, ph, up, st, again, hq >>
       /\ Note([a |-> "cut"])
  \/ ph = "ready" /\ More /\ Quiet /\ ~Calm /\ up /\ env < MaxEnv /\ env' = env + 1 /\ Log([k |-> "sick"]) /\ UNCHANGED << x, lazy, ph, up, st, again, hq >>
       /\ \E how \in {"close", "handshake", "ok"} : Note([a |-> "conn", how |-> how])
SSpec == SInit /\ [][SNext]_<< vars, plan, script >>
Done == (~More \/ Fresh = {} \/ ph = "failed") /\ Quiet
(* the model's "slow" is "ok" *)
Scenario ==
  LET k == Key(Seed, plan.n) kind == KindOf(plan.n) var == VarOf(plan.n) s == Setup(kind, var, SecretOf(plan.n), k) IN
  [kind |-> kind, var |-> var, cfg |-> s.cfg, nil |-> s.nil, user |-> s.user, pass |-> s.pass, x |-> x,
   pay |-> [m \in Msgs |-> Bodies(Key(k, 50 + m), m)], steps |-> script]
ShowScenario == Done => PrintT("SCENARIO " \o ToJson(Scenario))
=============================================================================
