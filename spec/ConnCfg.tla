------------------------------- MODULE ConnCfg -------------------------------
(***************************************************************************)
(* Configurations of the storage connectors and what they mean: where a    *)
(* record has to arrive and with which credentials.                        *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

Secrets == << "secret", "", "p w", "a@b/c:d", "50%2F#?&=", "back\\slash", "quo'te\"d", "'", " lead", "x=y z='w'", "+plus+", "\\" >>
Users == << "user", "a@b", "x y", "o'neil", "dom\\usr", "per%cent", "eq=ual" >>
NeededKeys == [redis |-> {"server", "queue"}, nats |-> {"topic"}, nsq |-> {"topic", "server"}, postgresql |-> {"table"},
           rabbitmq |-> {"port"}, tarantool_queue |-> {"port", "queue", "max_recons", "timeout", "reconnect"}]
NumberKeys == [redis |-> {"db"}, nats |-> {}, nsq |-> {}, postgresql |-> {"port"}, rabbitmq |-> {"port"}, tarantool_queue |-> {"max_recons", "timeout", "reconnect", "port"}]
NoKeys(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
SetKey(f, k, v) == [z \in DOMAIN f \cup {k} |-> IF z = k THEN v ELSE f[z]]
OneOf(k, s) == s[1 + Rnd(k, Len(s))]

(* a configuration and what it means *)
Setup(kind, var, sec, k) ==
  LET user == IF kind \in {"redis", "nsq"} THEN "" ELSE OneOf(Key(k, 1), Users)
      pass == IF kind = "nsq" THEN "" ELSE Secrets[sec]
      open == var = "open" /\ kind \in {"redis", "nats", "tarantool_queue"}   \* a broker that wants no credentials
      wu == IF open THEN "" ELSE user wp == IF open THEN "" ELSE pass
      name == OneOf(Key(k, 3), << "receiver", "points", "q1", "a_b" >>)
      free == OneOf(Key(k, 15), << name, name, " lead", "a:b {c}", "Trail ", "x/y?z", "%d%s" >>)
      db == OneOf(Key(k, 4), << "0", "3", "15" >>)
      dbn == OneOf(Key(k, 5), << "receiver", "my db", "d'b", "b\\d" >>)
      key == OneOf(Key(k, 6), << "k", "egts.points", "", "#x" >>)
      creds == SetKey(SetKey([z \in {} |-> ""], "user", user), "password", pass)
      base == CASE kind = "redis" -> [server |-> "$HOST:$PORT", queue |-> free, password |-> pass, db |-> db]
                [] kind = "nats" -> [servers |-> OneOf(Key(k, 7), << "nats://$HOST:$PORT", "nats://$HOST:$PORT, nats://$HOST:$PORT", "nats://127.0.0.1:1,nats://$HOST:$PORT", "$HOST:$PORT" >>),
                                     topic |-> OneOf(Key(k, 8), << name, "egts.points", "a.b.c" >>), user |-> user, password |-> pass]
                [] kind = "nsq" -> [server |-> "$HOST:$PORT", topic |-> name]
                [] kind = "postgresql" -> [host |-> "$HOST", port |-> "$PORT", user |-> user, password |-> pass, database |-> dbn,
                                           table |-> OneOf(Key(k, 9), << name, "tele.points", "\"Points\"" >>), sslmode |-> "disable"]
                [] kind = "rabbitmq" -> [host |-> "$HOST", port |-> "$PORT", user |-> user, password |-> pass, exchange |-> free, key |-> key, exchange_type |-> "topic"]
                [] kind = "tarantool_queue" -> [host |-> "$HOST", port |-> "$PORT", user |-> user, password |-> pass, max_recons |-> OneOf(Key(k, 9), << "2", "5" >>),
                                                timeout |-> "1", reconnect |-> "1", queue |-> name]
      nodb == kind = "redis" /\ Rnd(Key(k, 10), 2) = 0
      bare == IF open THEN NoKeys(base, {"user", "password"} \cup (IF nodb THEN {"db"} ELSE {})) ELSE base
      gone == OneOf(Key(k, 11), SetToSeq(NeededKeys[kind]))
      bad == IF NumberKeys[kind] = {} THEN "" ELSE OneOf(Key(k, 12), SetToSeq(NumberKeys[kind]))
      cfg == CASE var = "lacks" -> NoKeys(base, {gone})
               [] var = "number" /\ bad # "" -> SetKey(base, bad, OneOf(Key(k, 13), << "x", "", "1x", "0x1", "1 0" >>))
               [] OTHER -> bare
      trim(t) == IF t = "\"Points\"" THEN "Points" ELSE t
      usedb == IF "db" \in DOMAIN cfg THEN db ELSE "0"
      cred == CASE kind = "redis" -> wp \o "|" \o usedb [] kind = "nsq" -> "" [] kind = "postgresql" -> wu \o "|" \o wp \o "|" \o dbn [] OTHER -> wu \o "|" \o wp
      dest == CASE kind = "redis" -> base.queue [] kind \in {"nats", "nsq"} -> base.topic [] kind = "postgresql" -> trim(base.table)
                [] kind = "rabbitmq" -> base.exchange \o "|" \o base.key [] OTHER -> base.queue
      denied == var = "denied" /\ kind # "nsq"
  IN [cfg |-> cfg, nil |-> IF var = "nil" THEN 1 ELSE 0, user |-> IF denied /\ wu # "" /\ Rnd(Key(k, 14), 2) = 0 THEN wu \o "x" ELSE wu,
      pass |-> IF denied THEN wp \o "x" ELSE wp,
      can |-> IF denied \/ var \in {"lacks", "nil"} \/ (var = "number" /\ bad # "") THEN 0
              ELSE 1,
      (* where the configuration is not right nothing may arrive anywhere *)
      dest |-> IF denied \/ var \in {"lacks", "nil"} \/ (var = "number" /\ bad # "") THEN "nowhere" ELSE dest, cred |-> cred]
=============================================================================
