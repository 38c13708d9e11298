-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* The configuration file of the receiver: how abstract settings are       *)
(* written down in YAML, what they mean, and the promises on what the real *)
(* reader makes of a file.                                                 *)
(*                                                                         *)
(* A configuration: ents, the top-level entries [k, v, st] in order (st:   *)
(* "plain", "single" or "double" quoted); has, whether there is a storage  *)
(* section; secs, its sections [name, ps]; first, whether it comes first;  *)
(* noise, whether there are comments and blank lines; eol, the line end.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

(* strings whose quoted forms differ from the string in quotes *)
DQ(v) == "\"" \o (CASE v = "back\\slash" -> "back\\\\slash" [] v = "quo'te\"d" -> "quo'te\\\"d" [] v = "\\" -> "\\\\" [] v = "dom\\usr" -> "dom\\\\usr"
                    [] v = "b\\d" -> "b\\\\d" [] v = "\"Points\"" -> "\\\"Points\\\"" [] v = "a\\tb" -> "a\\\\tb" [] v = "tab\there" -> "tab\\there" [] v = "two\nlines" -> "two\\nlines"
                    [] OTHER -> v) \o "\""
SQ(v) == "'" \o (CASE v = "quo'te\"d" -> "quo''te\"d" [] v = "'" -> "''" [] v = "x=y z='w'" -> "x=y z=''w''" [] v = "o'neil" -> "o''neil" [] v = "d'b" -> "d''b"
                   [] OTHER -> v) \o "'"
Quoted(v, st) == CASE st = "plain" -> v [] st = "single" -> SQ(v) [] OTHER -> DQ(v)
(* values that mean themselves without quotes *)
PlainOK == {"localhost", "127.0.0.1", "0.0.0.0", "6000", "5672", "010", "1e3", "3.14", "0", "5", "true", "a@b", "per%cent", "p w", "DEBUG", "INFO", "WARN", "ERROR", "debug", "TRACE", "Warn", "INFORMATION",
            "egts.points", "nats://a:1", "x/y", "guest", "secret", "a#b", "db=1",
            "$HOME", "pa$$word", "${PATH}", "TRUE", "No", "off", "1_000", "0x1F", "12:30:45", "2020-01-01", ".5", "+1", "1.", "1.0", "0o17", ".inf", "NaN", "a,b", "~/x", "()", "--",
            "verylongverylongverylongverylongverylongverylongverylongverylongverylongverylongverylong verylongverylongverylongverylongverylong"}
SingleOK(v) == v \notin {"tab\there", "two\nlines"}

Eol(c) == IF c.eol = 1 THEN "\r\n" ELSE "\n"
Lines(ls, eol) == FoldLeft(LAMBDA a, l : a \o l \o eol, "", ls)
EntLine(e) == e.k \o ": " \o Quoted(e.v, e.st)
SecLines(s) == << "  " \o s.name \o ":" >> \o [i \in DOMAIN s.ps |-> "    " \o s.ps[i].k \o ": " \o Quoted(s.ps[i].v, s.ps[i].st)]
StorageLines(c) == IF c.has = 0 THEN << >> ELSE << "storage:" >> \o FoldLeft(LAMBDA a, s : a \o SecLines(s), << >>, c.secs)
Noise(c) == IF c.noise = 1 THEN << "# a comment: \"with quotes", "" >> ELSE << >>
Text(c) ==
  LET e == [i \in DOMAIN c.ents |-> EntLine(c.ents[i])] s == StorageLines(c) IN
  Lines(Noise(c) \o (IF c.first = 1 THEN s \o Noise(c) \o e ELSE e \o Noise(c) \o s) \o Noise(c), Eol(c))

(*--------------------------------- meaning -------------------------------*)
Get(c, k, d) == LET is == {i \in DOMAIN c.ents : c.ents[i].k = k} IN IF is = {} THEN d ELSE c.ents[CHOOSE i \in is : TRUE].v
LevelOf(n) == CASE n = "DEBUG" -> "debug" [] n = "WARN" -> "warning" [] n = "ERROR" -> "error" [] OTHER -> "info"
NumberOf(t) == CASE t = "" -> 0 [] t = "0" -> 0 [] t = "1" -> 1 [] t = "2" -> 2 [] t = "10" -> 10 [] t = "300" -> 300 [] t = "86400" -> 86400 [] t = "-5" -> -5 [] OTHER -> -1000
Meaning(c) ==
  [addr |-> Get(c, "host", "") \o ":" \o Get(c, "port", ""), ttl |-> NumberOf(Get(c, "conn_ttl", "")), level |-> LevelOf(Get(c, "log_level", "")),
   store |-> IF c.has = 0 THEN {} ELSE {<< c.secs[i].name, {<< p.k, p.v >> : p \in Range(c.secs[i].ps)} >> : i \in DOMAIN c.secs}]

(*------------------- the promises, on what was made of it ----------------*)
(* r: ok, addr, ttl (seconds), level, store ([name, [key, value]...]...)   *)
StoreOf(r) == {<< s.n, {<< p[1], p[2] >> : p \in Range(s.ps)} >> : s \in Range(r.store)}
ReadFaults(m, r) ==
  IF r.ok = 0 THEN {"a correct configuration file is refused"}
  ELSE (IF r.addr # m.addr THEN {"the listen address is not host:port"} ELSE {})
       \cup (IF r.ttl # m.ttl THEN {"the idle limit is not conn_ttl seconds"} ELSE {})
       \cup (IF r.level # m.level THEN {"the log level is not the one configured"} ELSE {})
       \cup (IF StoreOf(r) # m.store \/ Len(r.store) # Cardinality(m.store) THEN {"the storage sections are not the ones configured"} ELSE {})
BadFaults(r) == IF r.ok = 1 THEN {"a missing or malformed file is not an error"} ELSE {}
(* a sample: each top-level key was given another value; did it matter? and each storage section was used *)
KeyFaults(r) == IF r.changed = 1 THEN {} ELSE {"a key of the sample configuration has no effect: " \o r.key}
(* a storage section of a sample, used with a broker that is where the section says *)
P(r, k) == IF k \in DOMAIN r.params THEN r.params[k] ELSE ""
DestOf(r) == CASE r.kind = "redis" -> P(r, "queue") [] r.kind \in {"nats", "nsq"} -> P(r, "topic") [] r.kind = "postgresql" -> P(r, "table")
               [] r.kind = "rabbitmq" -> P(r, "exchange") \o "|" \o P(r, "key") [] r.kind = "tarantool_queue" -> P(r, "queue") [] OTHER -> "?"
CredOf(r) == CASE r.kind = "redis" -> P(r, "password") \o "|" \o (IF P(r, "db") = "" THEN "0" ELSE P(r, "db")) [] r.kind = "nsq" -> ""
               [] r.kind = "postgresql" -> P(r, "user") \o "|" \o P(r, "password") \o "|" \o P(r, "database") [] OTHER -> P(r, "user") \o "|" \o P(r, "password")
SectionFaults(r) ==
  IF r.known = 0 THEN {"the sample configuration names a storage that does not exist"}
  ELSE IF r.init # "ok" \/ r.save # "ok" THEN {"a storage section of the sample configuration does not work: " \o r.kind}
  ELSE IF r.dest # DestOf(r) \/ r.cred # CredOf(r) THEN {"keys of a storage section of the sample configuration have no effect: " \o r.kind} ELSE {}
=============================================================================
