package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/config"
	logrus "github.com/sirupsen/logrus"
)

// config IN OUT REPO: read each configuration of IN with the real reader, and
// the samples shipped in REPO, and write what came of it.
func init() { extraCmds["config"] = cmdConfig }

// what a settings value is, through the accessors
func readConfig(path string) (res obj, raw string, store map[string]map[string]string, crash int) {
	defer func() {
		if recover() != nil {
			crash = 1
			res = obj{"ok": 0}
		}
	}()
	s, err := config.New(path)
	if err != nil {
		return obj{"ok": 0, "err": err.Error()}, "", nil, 0
	}
	st := []obj{}
	var names []string
	for n := range s.Store {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ps := [][]string{}
		for k, v := range s.Store[n] {
			ps = append(ps, []string{k, v})
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
		st = append(st, obj{"n": n, "ps": ps})
	}
	ttl := s.GetEmptyConnTTL()
	sec := int(ttl / time.Second)
	if ttl%time.Second != 0 {
		sec = -999999
	}
	res = obj{"ok": 1, "addr": s.GetListenAddress(), "ttl": sec, "level": s.GetLogLevel().String(), "store": st}
	return res, fmt.Sprintf("%v", res), s.Store, 0
}

func cmdConfig(a []string) {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	out := newLineWriter(a[1])
	dir, err := os.MkdirTemp("", "cfg")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	n := 0
	file := func(text string) string {
		n++
		p := filepath.Join(dir, strconv.Itoa(n)+".yaml")
		if err := os.WriteFile(p, []byte(text), 0600); err != nil {
			fatal(err)
		}
		return p
	}
	readLines(a[0], func(l []byte) {
		var o map[string]interface{}
		if err := json.Unmarshal(l, &o); err != nil {
			fatal(err)
		}
		p := ""
		switch o["file"] {
		case "text":
			p = file(o["text"].(string))
		case "missing":
			p = filepath.Join(dir, "none", "none.yaml")
		case "dir":
			p = dir
		}
		res, _, _, crash := readConfig(p)
		o["res"], o["crash"] = res, crash
		out.put(o)
	})
	// the samples
	sample := func(name, text string) {
		base, was, store, crash := readConfig(file(text))
		out.put(obj{"g": "sample", "name": name, "ok": base["ok"], "text": text, "crash": crash})
		if base["ok"] != 1 {
			return
		}
		lines := strings.Split(text, "\n")
		top := regexp.MustCompile(`^(\w+):[ \t]*(.*?)[ \t]*$`)
		for i, l := range lines {
			m := top.FindStringSubmatch(l)
			if m == nil || m[2] == "" {
				continue
			}
			v := strings.Trim(m[2], `"'`)
			num, numErr := strconv.Atoi(v)
			switch {
			case v != m[2] && numErr == nil:
				v = strconv.Quote(strconv.Itoa(num + 7))
			case numErr == nil:
				v = strconv.Itoa(num + 7)
			case v == "ERROR":
				v = "WARN"
			case v == "DEBUG" || v == "INFO" || v == "WARN":
				v = "ERROR"
			default:
				v = `"` + v + `0"`
			}
			mod := append([]string{}, lines...)
			mod[i] = m[1] + ": " + v
			_, now, _, crash := readConfig(file(strings.Join(mod, "\n")))
			changed := 0
			if now != was {
				changed = 1
			}
			out.put(obj{"g": "key", "name": name, "key": m[1], "changed": changed, "crash": crash})
		}
		if strings.Contains(text, "storage:") && len(store) > 0 {
			for _, k := range sortedKeys(store) {
				out.put(useSection(name, k, store[k]))
			}
		}
	}
	b, err := os.ReadFile(filepath.Join(a[2], "configs", "receiver.yaml"))
	if err != nil {
		fatal(err)
	}
	sample("configs/receiver.yaml", string(b))
	sample("configs/receiver.yaml with its storage sections enabled", regexp.MustCompile(`(?m)^#(  )`).ReplaceAllString(string(b), "$1"))
	b, err = os.ReadFile(filepath.Join(a[2], "README.md"))
	if err != nil {
		fatal(err)
	}
	for _, m := range regexp.MustCompile("(?s)```yaml\n(.*?)```").FindAllStringSubmatch(string(b), -1) {
		if strings.Contains(m[1], "host:") && strings.Contains(m[1], "port:") {
			sample("README.md", m[1])
		}
	}
	out.close()
}

func sortedKeys(m map[string]map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// useSection runs a connector with the parameters of the sample, except that
// the broker is where ours is.
func useSection(name, kind string, ps map[string]string) obj {
	res := obj{"g": "section", "name": name, "kind": kind, "params": ps, "crash": 0, "init": "unknown", "save": "none", "dest": "", "cred": "", "known": 1}
	known := false
	for _, k := range []string{"redis", "nats", "nsq", "postgresql", "rabbitmq", "tarantool_queue"} {
		known = known || k == kind
	}
	if !known {
		res["known"] = 0
		return res
	}
	b := newBroker(kind, ps["user"], ps["password"])
	var mu sync.Mutex
	b.got = func(dest, cred string, body []byte) {
		mu.Lock()
		defer mu.Unlock()
		if string(body) == `{"a":1}` {
			res["dest"], res["cred"] = dest, cred
		}
	}
	b.up()
	defer b.down()
	cfg := map[string]string{}
	for k, v := range ps {
		switch k {
		case "host":
			v = "127.0.0.1"
		case "port":
			v = strconv.Itoa(b.port)
		case "server":
			v = "127.0.0.1:" + strconv.Itoa(b.port)
		case "servers":
			v = "nats://127.0.0.1:" + strconv.Itoa(b.port)
		}
		cfg[k] = v
	}
	call := func(f func() error) string {
		c := make(chan string, 1)
		go func() {
			defer func() {
				if recover() != nil {
					c <- "panic"
				}
			}()
			if err := f(); err != nil {
				c <- "err"
			} else {
				c <- "ok"
			}
		}()
		select {
		case r := <-c:
			return r
		case <-time.After(20 * time.Second):
			return "hang"
		}
	}
	con := newConnector(kind)
	in := call(func() error { return con.Init(cfg) })
	sv := "none"
	if in == "ok" {
		sv = call(func() error { return con.Save(payload{b: []byte(`{"a":1}`)}) })
	}
	mu.Lock()
	res["init"], res["save"] = in, sv
	mu.Unlock()
	return res
}
