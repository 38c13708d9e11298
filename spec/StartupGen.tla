------------------------------ MODULE StartupGen ------------------------------
(***************************************************************************)
(* Starts of the real receiver and loads of the real repository: every set *)
(* of storages that work; sets with unknown, rejected and unreachable      *)
(* ones; every log level, host and idle limit; configurations that are no  *)
(* configurations.                                                         *)
(***************************************************************************)
EXTENDS Config, ConnCfg, GatePk, Json
CONSTANTS Seed, OutFile, NBin, NLoad
KindList == << "redis", "nats", "nsq", "postgresql", "rabbitmq", "tarantool_queue" >>
Unknown == << "rabbit", "Redis", "postgres", "log", "kafka", "NATS", "tarantool", "default", "storage" >>
Eager == {"nats", "postgresql", "rabbitmq"}
Place(v, i) == LET p == "$PORT" \o ToString(i) IN
  CASE v = "$PORT" -> p [] v = "$HOST:$PORT" -> "127.0.0.1:" \o p [] v = "nats://$HOST:$PORT" -> "nats://127.0.0.1:" \o p [] v = "$HOST" -> "127.0.0.1"
    [] v = "nats://$HOST:$PORT, nats://$HOST:$PORT" -> "nats://127.0.0.1:" \o p \o ", nats://127.0.0.1:" \o p
    [] v = "nats://127.0.0.1:1,nats://$HOST:$PORT" -> "nats://127.0.0.1:1,nats://127.0.0.1:" \o p [] OTHER -> v
(* section i: a storage of a kind in a condition *)
Section(kind, cond, i, k) ==
  LET var == CASE cond = "ok" -> OneOf(Key(k, 1), << "full", "full", "open" >>) [] cond = "down" -> "full" [] cond = "unknown" -> "full" [] OTHER -> cond
      s == Setup(kind, var, 1 + Rnd(Key(k, 2), Len(Secrets)), Key(k, 3))
      cfg == [z \in DOMAIN s.cfg |-> Place(s.cfg[z], i)]
      ks == SetToSeq(DOMAIN cfg)
  IN [kind |-> kind, name |-> IF cond = "unknown" THEN OneOf(Key(k, 4), Unknown) ELSE kind, user |-> s.user, pass |-> s.pass, down |-> IF cond = "down" THEN 1 ELSE 0,
      ps |-> IF s.nil = 1 THEN << >> ELSE [j \in 1..Len(ks) |-> [k |-> ks[j], v |-> cfg[ks[j]], st |-> IF SingleOK(cfg[ks[j]]) /\ Rnd(Key(k, 10 + j), 2) = 0 THEN "single" ELSE "double"]],
      dest |-> s.dest, cred |-> s.cred,
      acc |-> CASE cond = "ok" -> 1 [] cond \in {"nil", "unknown"} -> 0
                [] cond \in {"denied", "down"} -> IF kind \in Eager THEN 0 ELSE IF cond = "denied" /\ kind = "nsq" THEN 1 ELSE 2
                [] cond \in {"lacks", "number"} /\ kind = "redis" -> 0
                [] cond = "number" /\ kind \in {"nats", "nsq"} -> 1
                [] OTHER -> 2]
Conds == << "ok", "ok", "ok", "ok", "ok", "ok", "nil", "unknown", "denied", "down", "lacks", "number" >>
(* sections for a set of kinds given by its bits *)
Sections(bits, worse, k) ==
  LET kinds == SelectSeq([i \in 1..6 |-> i], LAMBDA i : Bit(bits, i - 1) = 1) off == Rnd(Key(k, 1), 6)
      n == Len(kinds) ord == [j \in 1..n |-> kinds[1 + ((j + off) % n)]] IN
  [j \in 1..n |-> Section(KindList[ord[j]], IF worse THEN OneOf(Key(k, 10 + j), Conds) ELSE "ok", j, Key(k, 20 + j))]
Distinct(secs) == SelectSeq([i \in DOMAIN secs |-> << i, secs[i] >>], LAMBDA p : \A j \in 1..(p[1]-1) : secs[j].name # p[2].name)
Only(secs) == LET d == Distinct(secs) IN [i \in DOMAIN d |-> d[i][2]]
Levels == << "DEBUG", "INFO", "WARN", "ERROR", "verbose", "DEBUG", "INFO", "INFO", "DEBUG", "INFO" >>
HostNames == << "127.0.0.1", "127.0.0.2", "localhost", "0.0.0.0", "" >>
Ttls == << "1", "2", "0", "1" >>
Bads == << "missing", "dir", "malformed", "noflag" >>
Scenario(mode, secs0, n, k) ==
  LET secs == Only(secs0) level == Levels[1 + (n % Len(Levels))] host == HostNames[1 + ((n \div 2) % Len(HostNames))] ttl == Ttls[1 + ((n \div 3) % Len(Ttls))]
      bad == mode = "binary" /\ (n % 9) = 0
      file == IF bad THEN Bads[1 + ((n \div 9) % Len(Bads))] ELSE "good"
      q(kk, v) == [k |-> kk, v |-> v, st |-> "double"]
      c == [ents |-> << q("host", host), q("port", "$LISTEN"), [k |-> "conn_ttl", v |-> ttl, st |-> "plain"], q("log_level", level) >>,
            has |-> IF secs = << >> THEN Rnd(Key(k, 5), 2) ELSE 1, secs |-> secs, first |-> Rnd(Key(k, 6), 2), noise |-> Rnd(Key(k, 7), 2), eol |-> 0]
      oid == << RndByte(Key(k, 8)), RndByte(Key(k, 9)), RndByte(Key(k, 10)), 0 >>
      pid == 1000 + n
  IN [mode |-> mode, file |-> file, level |-> level, host |-> host, text |-> Text(c) \o (IF file = "malformed" THEN "host: \"\n" ELSE ""),
      ttl |-> NumberOf(ttl), secs |-> secs, pid |-> pid,
      marks |-> << "\"client_id\":" \o ToString(oid[1] + 256 * oid[2] + 65536 * oid[3]), "\"navigation_unix_time\":" \o ToString(1262304000 + 200000000 + 1000 * n), "\"packet_id\":" \o ToString(pid) >>,
      b |-> WritePacket(Hdr(Key(k, 11), 1, pid, FALSE), WriteRecords(SetFirst(<< Rec(Key(k, 12), R16(Key(k, 13)), oid, 1, << PosSub2(Key(k, 14)) >>) >>, n)))]
Base(j) == Key(Key(Seed, 40 + j), 1)
Loads == [i \in 1..63 |-> LET k == Key(Base(1), i) IN Scenario("load", Sections(i, FALSE, k), i, k)]
         \o [i \in 1..NLoad |-> LET k == Key(Base(2), i) IN Scenario("load", Sections(Rnd(Key(k, 1), 64), TRUE, k), i, k)]
Bins == [i \in 1..NBin |-> LET k == Key(Base(3), i) w == i % 4 IN
          Scenario("binary", CASE w = 0 -> << >> [] w = 1 -> Sections(1 + Rnd(Key(k, 1), 63), FALSE, k) [] OTHER -> Sections(1 + Rnd(Key(k, 1), 63), TRUE, k), i, k)]
ASSUME ndJsonSerialize(OutFile, Loads \o Bins)
=============================================================================
