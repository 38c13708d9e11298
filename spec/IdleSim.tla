------------------------------ MODULE IdleSim -------------------------------
(***************************************************************************)
(* Behaviours of the idle model as timed scripts: TLC simulates Idle and   *)
(* prints each behaviour that came to its end as a list of steps with the  *)
(* tick at which each is due.  Parts sends complete one packet.            *)
(***************************************************************************)
EXTENDS Idle, GatePk, Json
CONSTANTS Seed
VARIABLES script, plan
svars == << vars, script, plan >>
Step(s) == script' = Append(script, [at |-> now] @@ s)
(* plan: how long the client stays active before it falls silent or ends;
   base keeps the packets of connections that share a gateway apart *)
SInit == Init /\ script = << >> /\ plan \in [stop : 1..(MaxNow - Ttl - 2), how : {"silent", "eof", "stay", "silent"}, base : {0, 40}]
Count1 == Cardinality({x \in DOMAIN hist : hist[x].k = "data"}) + 1
Saves == Cardinality({x \in DOMAIN hist : hist[x].k = "save"})
Act ==
  \/ /\ Data /\ (now <= plan.stop \/ plan.how = "stay")
     /\ Step([s |-> "data", n |-> Count1, end |-> part' = 0, hold |-> busy' /\ ~busy, held |-> busy, free |-> ~busy'])
  \/ Release /\ Step([s |-> "release"])
  \/ Silent /\ now >= plan.stop /\ plan.how = "silent" /\ Step([s |-> "silent"])
  \/ Eof /\ now >= plan.stop /\ plan.how = "eof" /\ Step([s |-> "eof"])
  \/ Expire /\ Step([s |-> "closed"])
(* a client that is to stay active does not let the limit pass; a call is held for some ticks at most *)
Must == /\ up = "open" /\ Ttl > 0 /\ ~busy /\ (plan.how = "stay" \/ now < plan.stop) /\ now + 1 >= last + Ttl - 1
MustStop == now >= plan.stop /\ up = "open" /\ plan.how \in {"silent", "eof"} /\ ~busy
Go == Tick /\ ~(Must /\ open) /\ ~(MustStop /\ open) /\ UNCHANGED script
SNext == /\ plan' = plan /\ open /\ (Act \/ Go)
SSpec == SInit /\ [][SNext]_svars
Done == ~open \/ (now >= MaxNow /\ ~busy)

(* the bytes: every Parts sends make one packet, cut in Parts pieces *)
Key0 == FoldLeft(LAMBDA a, x : Key(a, 7 * x.at + Len(x.s)), Key(Seed, 77), script)
(* packets whose storage call is held *)
HoldOf(p) == \E x \in DOMAIN script : IF script[x].s # "data" THEN FALSE ELSE script[x].hold /\ 1 + ((script[x].n - 1) \div Parts) = p
Final == 1 + ((Count1 - 1) \div Parts)
(* whatever arrives is a sign of life: telemetry, packets without it, confirmations (which are not answered),
   identifications (answered twice), damaged packets *)
Kind(p) == IF HoldOf(p) \/ p = Final THEN "small"
           ELSE IF plan.base = 40 /\ Rnd(Key(Key0, 31), 3) = 0 THEN Pick(Key(Key0, 32), << "harm", "conf", "quiet" >>)  \* the same all the time
           ELSE Pick(Key(Key(Key0, 33), p), << "small", "harm", "conf", "quiet", "ident" >>)
Weight(p) == LET w == Kind(p) IN IF w = "conf" THEN 0 ELSE IF w = "ident" THEN 2 ELSE 1
Pkt(p) ==
  LET k == Key(Key0, p) w == Kind(p) small == Small(k, 100 + p, p + plan.base) IN
  CASE w = "small" -> small [] w = "conf" -> Confs(k, 100 + p) [] w = "quiet" -> Quiet(k, 100 + p) [] w = "ident" -> Idents(k, 100 + p, p + plan.base)
    [] w = "harm" -> Damage(Key(k, 1), small, Pick(Key(k, 3), << "hcs", "crc", "data", "type", "nobody", "unsub" >>))
Piece(n) ==
  LET p == 1 + ((n - 1) \div Parts) i == 1 + ((n - 1) % Parts) b == Pkt(p)
      (* one cut inside the header or shortly after it, the others later *)
      cut(x) == IF x = 0 THEN 0 ELSE IF x = Parts THEN Len(b)
                ELSE IF Len(b) < 40 THEN (x * Len(b)) \div Parts
                ELSE IF x = 1 THEN 1 + Rnd(Key(Key(Key0, 50), p), 16) ELSE 16 + (x - 1) * ((Len(b) - 17) \div Parts) IN
  SubSeq(b, cut(i - 1) + 1, cut(i))
(* frames sent in answer to the packets completed up to step x *)
Due(x) == FoldLeft(LAMBDA a, y : a + (IF script[y].s # "data" THEN 0 ELSE IF script[y].end THEN Weight(1 + ((script[y].n - 1) \div Parts)) ELSE 0), 0, [y \in 1..x |-> y])
Line(x) ==
  LET s == script[x] p == 1 + ((s.n - 1) \div Parts)
      send == [at |-> s.at, a |-> "send", b |-> Piece(s.n), p |-> p + plan.base, tag |-> Tag(p + plan.base), hold |-> IF HoldOf(p) THEN 1 ELSE 0]
  IN IF s.s # "data" THEN << [at |-> s.at, a |-> s.s] >>
     ELSE << send >> \o (IF s.hold THEN << [at |-> s.at, a |-> "save", p |-> p + plan.base] >> ELSE << >>)
          \o (IF s.end /\ s.free THEN << [at |-> s.at, a |-> "reply", n |-> Due(x)] >> ELSE << >>)
Lines ==
  [x \in DOMAIN script |->
     IF script[x].s = "data" THEN Line(x)
     ELSE IF script[x].s = "release"
     THEN LET hs == {y \in 1..x : IF script[y].s # "data" THEN FALSE ELSE script[y].hold}
              y == CHOOSE m \in hs : \A o \in hs : o <= m IN
          << [at |-> script[x].at, a |-> "release", p |-> plan.base + 1 + ((script[y].n - 1) \div Parts)],
             [at |-> script[x].at, a |-> "reply", n |-> Due(x)] >>
     ELSE << [at |-> script[x].at, a |-> script[x].s] >>]
(* a connection that was kept is still served: the packet begun, or a new one, is completed and answered *)
Finish ==
  IF open /\ (up = "open" \/ (Ttl <= 0 /\ up = "silent"))
  THEN LET n == Count1 p == 1 + ((n - 1) \div Parts) IN
       << [at |-> now, a |-> "send", b |-> Flat([x \in 1..(p * Parts - n + 1) |-> Piece(n + x - 1)]), p |-> p + plan.base, tag |-> Tag(p + plan.base), hold |-> 0],
          [at |-> now, a |-> "reply", n |-> 1 + Due(Len(script))] >>
  ELSE << >>
Timed == [steps |-> Flat(Lines) \o Finish, parts |-> Parts, ttl |-> Ttl, at |-> now, how |-> plan.how, base |-> plan.base]
ShowScenario == Done => PrintT("SCENARIO " \o ToJson(Timed))
=============================================================================
