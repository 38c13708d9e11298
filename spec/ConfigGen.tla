------------------------------- MODULE ConfigGen -------------------------------
(* Configuration files: every top-level key present or absent, in every quoting, every level, and random ones; malformed ones. *)
EXTENDS Config, ConnCfg, Json
CONSTANTS Seed, OutFile, NRand
Styles(v) == IF v \in PlainOK THEN << "plain", "single", "double" >> ELSE IF SingleOK(v) THEN << "single", "double" >> ELSE << "double" >>
Ent(k, v, key) == [k |-> k, v |-> v, st |-> OneOf(key, Styles(v))]
Hosts == << "127.0.0.1", "0.0.0.0", "localhost", "", "gate.example.org" >>
Ports == << "6000", "5672", "010", "", "0" >>
Ttls == << "0", "1", "10", "300", "86400", "-5" >>
Levels == << "DEBUG", "INFO", "WARN", "ERROR", "debug", "TRACE", "Warn", "INFORMATION", "", "true" >>
Names == << "rabbitmq", "postgresql", "nats", "nsq", "tarantool_queue", "redis", "clickhouse", "x-1" >>
Keys == << "host", "port", "user", "password", "database", "table", "exchange", "key", "queue", "topic", "servers", "db", "Extra_Key" >>
Texts == << "localhost", "5672", "010", "1e3", "3.14", "0", "true", "a@b", "p w", "", "null", "~", "yes", "a: b", "# no comment", "- x", "{a}", "[1]", "&x", "*x", "!t", "%d", "@at", "`",
            "back\\slash", "quo'te\"d", "'", " lead", "trail ", "x=y z='w'", "\\", "o'neil", "nats://a:1", "a#b", "tab\there", "two\nlines", "key:", ": v", "?", ",", "db=1",
            "$HOME", "pa$$word", "${PATH}", "%s%d", "%HOME%", "TRUE", "No", "off", "1_000", "0x1F", "12:30:45", "2020-01-01", ".5", "+1", "1.", "1.0", "0o17", ".inf", "NaN", "<<", "=", "5672 # x", "a,b", "a\\tb", "~/x", "()", "|", ">", "-", "--", "---", "...",
            "verylongverylongverylongverylongverylongverylongverylongverylongverylongverylongverylong verylongverylongverylongverylongverylong" >>
Number(t) == [k |-> "conn_ttl", v |-> t, st |-> "plain"]
Shuffle(s, k) == LET n == Len(s) r == Rnd(k, IF n = 0 THEN 1 ELSE n) IN [i \in 1..n |-> s[1 + ((i + r) % n)]]
Sec(name, k) ==
  LET n == Rnd(Key(k, 1), 6) off == Rnd(Key(k, 2), Len(Keys)) IN
  [name |-> name, ps |-> [i \in 1..n |-> Ent(Keys[1 + ((off + i) % Len(Keys))], OneOf(Key(k, 10 + i), Texts), Key(k, 20 + i))]]
Opt(yes, s) == IF yes THEN s ELSE << >>
Conf(k, present, host, port, ttl, level, nsec) ==
  [ents |-> Shuffle(Opt(Bit(present, 0) = 1, << Ent("host", host, Key(k, 1)) >>) \o Opt(Bit(present, 1) = 1, << Ent("port", port, Key(k, 2)) >>)
                    \o Opt(Bit(present, 2) = 1, << Number(ttl) >>) \o Opt(Bit(present, 3) = 1, << Ent("log_level", level, Key(k, 4)) >>), Key(k, 5)),
   has |-> IF nsec >= 0 THEN 1 ELSE 0,
   secs |-> IF nsec <= 0 THEN << >> ELSE LET off == Rnd(Key(k, 6), Len(Names)) IN [i \in 1..nsec |-> Sec(Names[1 + ((off + i) % Len(Names))], Key(k, 30 + i))],
   first |-> Rnd(Key(k, 7), 2), noise |-> Rnd(Key(k, 8), 2), eol |-> IF Rnd(Key(k, 9), 4) = 0 THEN 1 ELSE 0]
(* all combinations of present keys with every level; every value of every list; each text as the one value of one section *)
Systematic ==
  [i \in 1..160 |-> LET k == Key(Key(Seed, 1), i) IN
     Conf(k, (i - 1) % 16, OneOf(Key(k, 61), Hosts), OneOf(Key(k, 62), Ports), OneOf(Key(k, 63), Ttls), Levels[1 + ((i - 1) \div 16)], Rnd(Key(k, 60), 5) - 1)]
Each ==
  [i \in 1..Len(Hosts) |-> Conf(Key(Key(Seed, 2), i), 15, Hosts[i], "6000", "10", "INFO", 1)]
  \o [i \in 1..Len(Ports) |-> Conf(Key(Key(Seed, 3), i), 15, "localhost", Ports[i], "10", "INFO", 1)]
  \o [i \in 1..Len(Ttls) |-> Conf(Key(Key(Seed, 4), i), 15, "localhost", "6000", Ttls[i], "INFO", 1)]
  \o [i \in 1..Len(Names) |-> [Conf(Key(Key(Seed, 5), i), 15, "localhost", "6000", "10", "INFO", 1) EXCEPT !.secs = << Sec(Names[i], Key(Key(Seed, 6), i)) >>]]
EachText ==
  [i \in 1..(3 * Len(Texts)) |-> LET v == Texts[1 + ((i - 1) % Len(Texts))] ss == Styles(v) IN
     [Conf(Key(Key(Seed, 7), i), 15, "localhost", "6000", "10", "INFO", 1) EXCEPT
       !.secs = << [name |-> "redis", ps |-> << [k |-> "queue", v |-> v, st |-> ss[1 + (((i - 1) \div Len(Texts)) % Len(ss))]], [k |-> "after", v |-> "0", st |-> "plain"] >>] >>]]
Random == [i \in 1..NRand |-> LET k == Key(Key(Seed, 8), i) IN
  Conf(k, IF Rnd(Key(k, 64), 3) = 0 THEN Rnd(Key(k, 65), 16) ELSE 15, OneOf(Key(k, 61), Hosts), OneOf(Key(k, 62), Ports), OneOf(Key(k, 63), Ttls), OneOf(Key(k, 66), Levels), Rnd(Key(k, 60), 8) - 1)]
Good == Systematic \o Each \o EachText \o Random
BadTails == << "host: \"127", "port: [1, 2", "\thost: x", "storage: 5", "conn_ttl: abc", "conn_ttl: [1]", "conn_ttl: 99999999999999999999", "storage:\n  redis: text", "host: {a: 1}",
               "storage:\n  - redis", "storage:\n  redis:\n    queue: [a, b]", "storage:\n  redis:\n    queue: {a: b}", "port: 'x", "}", "host: a: b", "log_level: *nowhere", "storage:\n  redis:\n   queue: a\n  bad" >>
BadWhole == << "just text", "- a\n- b", "{", "host: \"a\"\n  port: b", "\"host", "[]" >>
Bad == [i \in 1..Len(BadTails) |-> LET c == Conf(Key(Key(Seed, 9), i), 0, "", "", "", "", -1) IN
          [g |-> "bad", file |-> "text", text |-> (IF (i % 2) = 0 THEN "" ELSE "# comment\n") \o BadTails[i] \o "\n"]]
       \o [i \in 1..Len(BadWhole) |-> [g |-> "bad", file |-> "text", text |-> BadWhole[i]]]
       \o << [g |-> "bad", file |-> "missing", text |-> ""], [g |-> "bad", file |-> "dir", text |-> ""] >>
AsJson(c) == LET m == Meaning(c) IN
  [g |-> "good", file |-> "text", text |-> Text(c), conf |-> c]
ASSUME ndJsonSerialize(OutFile, [i \in 1..Len(Good) |-> AsJson(Good[i])] \o Bad)
=============================================================================
