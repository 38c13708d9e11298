package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nats"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nsq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/postgresql"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/rabbitmq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/redis"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/tarantool_queue"
	logrus "github.com/sirupsen/logrus"
)

// conn IN OUT WORKERS: play the scenarios of IN, each a real connector against
// a broker, and write each history as one line of OUT.
func init() {
	extraCmds["conn"] = cmdConn
	extraCmds["connchild"] = cmdConnChild
}

type connScenario struct {
	Kind  string            `json:"kind"`
	Cfg   map[string]string `json:"cfg"`
	Nil   int               `json:"nil"`  // no configuration at all
	User  string            `json:"user"` // what the broker wants
	Pass  string            `json:"pass"`
	Pay   [][]int           `json:"pay"` // payload: bytes; <<>> stands for a large one, <<-1>> for failing serialisation, <<-2>> for a nil record
	Steps []struct {
		A   string   `json:"a"`
		M   int      `json:"m"`
		How string   `json:"how"`
		Ms  []int    `json:"ms"`
		Hs  []string `json:"hs"`
	} `json:"steps"`
}

// a child plays a few scenarios, so that one that dies takes few along
func cmdConn(a []string) {
	var lines []string
	readLines(a[0], func(b []byte) { lines = append(lines, string(b)) })
	workers, _ := strconv.Atoi(a[2])
	res := make([]string, len(lines))
	next := make(chan int)
	go func() {
		for i := range lines {
			next <- i
		}
		close(next)
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				c := exec.Command(os.Args[0], "connchild")
				c.Stdin = strings.NewReader(lines[i])
				var out bytes.Buffer
				var errBuf tailBuffer
				c.Stdout, c.Stderr = &out, &errBuf
				if err := c.Start(); err != nil {
					fatal(err)
				}
				t := time.AfterFunc(150*time.Second, func() { c.Process.Kill() })
				err := c.Wait()
				t.Stop()
				evs := strings.Split(strings.TrimSpace(out.String()), "\n")
				if err != nil {
					if len(evs) < 2 && strings.Contains(errBuf.String(), "scenario") {
						fatal(errBuf.String())
					}
					b, _ := json.Marshal(obj{"k": "crash", "msg": errBuf.String()})
					evs = append(evs, string(b))
				}
				res[i] = "[" + strings.Trim(strings.Join(evs, ","), ",") + "]"
			}
		}()
	}
	wg.Wait()
	out := newLineWriter(a[1])
	for i, r := range res {
		var h []interface{}
		if err := json.Unmarshal([]byte(r), &h); err != nil {
			fatal(err, r)
		}
		var s map[string]interface{}
		json.Unmarshal([]byte(lines[i]), &s)
		out.put(obj{"n": i + 1, "kind": s["kind"], "x": s["x"], "h": h})
	}
	out.close()
}

type payload struct {
	b   []byte
	bad bool
}

func (p payload) ToBytes() ([]byte, error) {
	if p.bad {
		return nil, errors.New("cannot be serialised")
	}
	return append([]byte{}, p.b...), nil
}

func newConnector(kind string) storage.Store {
	switch kind {
	case "redis":
		return &redis.Connector{}
	case "nats":
		return &nats.Connector{}
	case "nsq":
		return &nsq.Connector{}
	case "postgresql":
		return &postgresql.Connector{}
	case "rabbitmq":
		return &rabbitmq.Connector{}
	case "tarantool_queue":
		return &tarantool_queue.Connector{}
	}
	fatal("no connector", kind)
	return nil
}

func cmdConnChild(a []string) {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	var s connScenario
	if err := json.NewDecoder(os.Stdin).Decode(&s); err != nil {
		fatal("scenario:", err)
	}
	var mu sync.Mutex
	say := func(o obj) {
		mu.Lock()
		b, _ := json.Marshal(o)
		fmt.Printf("%s\n", b)
		mu.Unlock()
	}
	pays := make([]payload, len(s.Pay))
	for i, p := range s.Pay {
		switch {
		case len(p) == 0:
			b := make([]byte, 300000)
			for j := range b {
				b[j] = byte(j*j + i)
			}
			pays[i] = payload{b: b}
		case p[0] == -1:
			pays[i] = payload{bad: true}
		default:
			pays[i] = payload{b: toBytesInts(p)}
		}
	}
	b := newBroker(s.Kind, s.User, s.Pass)
	var hmu sync.Mutex
	hows := []string{}
	b.onPub = func(string) string {
		hmu.Lock()
		defer hmu.Unlock()
		how := "ok"
		if len(hows) > 0 {
			how = hows[0]
			hows = hows[1:]
		}
		if how == "refuse" {
			say(obj{"k": "refused"})
		}
		return how
	}
	b.got = func(dest, cred string, body []byte) {
		m := 0
		for i, p := range pays {
			if !p.bad && bytes.Equal(p.b, body) {
				m = i + 1
			}
		}
		say(obj{"k": "deliver", "m": m, "dest": dest, "cred": cred, "len": len(body)})
	}
	b.event = func(what string) { say(obj{"k": what}) }
	b.up()
	var cfg map[string]string
	if s.Nil == 0 {
		cfg = map[string]string{}
		for k, v := range s.Cfg {
			v = strings.Replace(v, "$PORT", strconv.Itoa(b.port), -1)
			cfg[k] = strings.Replace(v, "$HOST", "127.0.0.1", -1)
		}
	}
	con := newConnector(s.Kind)
	call := func(f func() error) string {
		res := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					res <- "panic"
				}
			}()
			if err := f(); err != nil {
				res <- "err"
			} else {
				res <- "ok"
			}
		}()
		select {
		case r := <-res:
			return r
		case <-time.After(45 * time.Second):
			return "hang"
		}
	}
	save := func(m int) {
		say(obj{"k": "save", "m": m})
		r := call(func() error {
			if s.Pay[m-1] != nil && len(s.Pay[m-1]) > 0 && s.Pay[m-1][0] == -2 {
				return con.Save(nil)
			}
			return con.Save(pays[m-1])
		})
		say(obj{"k": "saved", "m": m, "res": r})
	}
	ready := false
	for _, st := range s.Steps {
		switch st.A {
		case "init":
			say(obj{"k": "init"})
			r := call(func() error { return con.Init(cfg) })
			say(obj{"k": "inited", "res": r})
			ready = r == "ok"
		case "save":
			if ready {
				hmu.Lock()
				hows = []string{st.How}
				hmu.Unlock()
				save(st.M)
				hmu.Lock()
				hows = nil
				hmu.Unlock()
			}
		case "saves": // at the same time
			if ready {
				hmu.Lock()
				hows = append([]string{}, st.Hs...)
				hmu.Unlock()
				var wg sync.WaitGroup
				for _, m := range st.Ms {
					wg.Add(1)
					go func(m int) { defer wg.Done(); save(m) }(m)
				}
				wg.Wait()
				hmu.Lock()
				hows = nil
				hmu.Unlock()
			}
		case "conn": // how connections are treated from now on
			b.mu.Lock()
			b.onConn = st.How
			b.mu.Unlock()
			if st.How != "ok" {
				say(obj{"k": "sick"})
			}
		case "down":
			say(obj{"k": "broke"})
			b.down()
		case "cut":
			say(obj{"k": "broke"})
			b.cut()
		case "up":
			b.up()
		case "wait":
			time.Sleep(time.Duration(st.M) * time.Millisecond)
		default:
			fatal("scenario: unknown step", st.A)
		}
	}
	if ready {
		say(obj{"k": "close", "res": call(con.Close)})
	}
}
