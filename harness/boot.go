package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/sirupsen/logrus"
)

// boot EXE IN OUT WORKERS: start the receiver EXE, or load a repository, for
// each scenario of IN, with a broker for each storage section; write each
// history as one line of OUT.
func init() {
	extraCmds["boot"] = cmdBoot
	extraCmds["loadchild"] = cmdLoadChild
}

type bootSec struct {
	Kind string              `json:"kind"`
	Name string              `json:"name"`
	User string              `json:"user"`
	Pass string              `json:"pass"`
	Down int                 `json:"down"`
	Ps   []map[string]string `json:"ps"`
	Dest string              `json:"dest"`
	Cred string              `json:"cred"`
	Acc  int                 `json:"acc"`
}

type bootScenario struct {
	Mode  string    `json:"mode"`
	File  string    `json:"file"`
	Level string    `json:"level"`
	Host  string    `json:"host"`
	Text  string    `json:"text"`
	TTL   int       `json:"ttl"`
	Secs  []bootSec `json:"secs"`
	Pid   int       `json:"pid"`
	Marks []string  `json:"marks"`
	B     []int     `json:"b"`
}

func cmdBoot(a []string) {
	var lines [][]byte
	readLines(a[1], func(b []byte) { lines = append(lines, append([]byte{}, b...)) })
	workers, _ := strconv.Atoi(a[3])
	res := make([]obj, len(lines))
	next := make(chan int)
	go func() {
		for i := range lines {
			next <- i
		}
		close(next)
	}()
	dir, err := os.MkdirTemp("", "boot")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			port := 15000 + 200*w
			for i := range next {
				var s bootScenario
				if err := json.Unmarshal(lines[i], &s); err != nil {
					fatal(err)
				}
				for try := 0; ; try++ {
					p := &boot{s: s, dir: filepath.Join(dir, strconv.Itoa(i)+"-"+strconv.Itoa(try))}
					os.Mkdir(p.dir, 0700)
					p.run(a[0], &port)
					secs := []obj{}
					for _, x := range s.Secs {
						secs = append(secs, obj{"kind": x.Kind, "name": x.Name, "acc": x.Acc})
					}
					res[i] = obj{"n": i + 1, "x": obj{"mode": s.Mode, "file": s.File, "level": s.Level, "ttl": s.TTL, "host": s.Host, "secs": secs}, "h": p.hist, "log": p.tail}
					if try == 4 || !p.taken {
						break
					}
				}
			}
		}(w)
	}
	wg.Wait()
	out := newLineWriter(a[2])
	for _, r := range res {
		out.put(r)
	}
	out.close()
}

type boot struct {
	s     bootScenario
	dir   string
	mu    sync.Mutex
	hist  []obj
	over  bool
	taken bool // the port was someone else's
	tail  string
}

func (p *boot) say(o obj) {
	p.mu.Lock()
	if !p.over {
		p.hist = append(p.hist, o)
	}
	p.mu.Unlock()
}

var squeeze = strings.NewReplacer(" ", "", "\\", "", "\n", "")

func (p *boot) marked(t string) bool {
	t = squeeze.Replace(t)
	for _, m := range p.s.Marks {
		if !strings.Contains(t, m) {
			return false
		}
	}
	return true
}

func (p *boot) run(exe string, port *int) {
	p.hist = []obj{}
	var bs []*broker
	text := p.s.Text
	for i := range p.s.Secs {
		i, sec := i, p.s.Secs[i]
		b := newBroker(sec.Kind, sec.User, sec.Pass)
		b.got = func(dest, cred string, body []byte) {
			if !p.marked(string(body)) {
				p.say(obj{"k": "stray", "s": i + 1})
				return
			}
			par := 0
			if dest == sec.Dest && cred == sec.Cred {
				par = 1
			}
			p.say(obj{"k": "deliver", "s": i + 1, "par": par})
		}
		b.up()
		if sec.Down == 1 {
			b.down()
		}
		bs = append(bs, b)
		ph, ps := "$PORT"+strconv.Itoa(i+1), strconv.Itoa(b.port)
		text = strings.Replace(text, ph, ps, -1)
		for _, kv := range sec.Ps {
			kv["v"] = strings.Replace(kv["v"], ph, ps, -1)
		}
	}
	listen := freePort(port)
	text = strings.Replace(text, "$LISTEN", strconv.Itoa(listen), -1)
	if p.s.Mode == "load" {
		p.load()
	} else {
		p.start(exe, text, listen)
	}
	p.mu.Lock()
	p.over = true
	p.mu.Unlock()
	for _, b := range bs {
		b.down()
	}
}

func (p *boot) load() {
	c := exec.Command(os.Args[0], "loadchild")
	in, _ := json.Marshal(p.s)
	c.Stdin = bytes.NewReader(in)
	so, _ := c.StdoutPipe()
	var errBuf tailBuffer
	c.Stderr = &errBuf
	if err := c.Start(); err != nil {
		fatal(err)
	}
	t := time.AfterFunc(120*time.Second, func() { c.Process.Kill() })
	d := json.NewDecoder(so)
	done := false
	for {
		var o obj
		if d.Decode(&o) != nil {
			break
		}
		if o["k"] == "done" {
			done = true
			continue
		}
		p.say(o)
	}
	c.Wait()
	t.Stop()
	if !done {
		p.say(obj{"k": "crash", "msg": errBuf.String()})
	}
}

func cmdLoadChild(a []string) {
	logrus.SetOutput(io.Discard)
	stdlog.SetOutput(io.Discard)
	var s bootScenario
	if err := json.NewDecoder(os.Stdin).Decode(&s); err != nil {
		fatal("scenario:", err)
	}
	say := func(o obj) {
		b, _ := json.Marshal(o)
		fmt.Printf("%s\n", b)
	}
	cfg := map[string]map[string]string{}
	for _, sec := range s.Secs {
		var ps map[string]string
		for _, kv := range sec.Ps {
			if ps == nil {
				ps = map[string]string{}
			}
			ps[kv["k"]] = kv["v"]
		}
		cfg[sec.Name] = ps
	}
	repo := storage.NewRepository()
	flag := func(err error) int {
		if err != nil {
			return 1
		}
		return 0
	}
	say(obj{"k": "loaded", "err": flag(repo.LoadStorages(cfg))})
	say(obj{"k": "rec"})
	say(obj{"k": "answer", "ok": 1 - flag(repo.Save(payload{b: []byte("{" + strings.Join(s.Marks, ",") + "}")}))})
	say(obj{"k": "done"})
}

var levelRe = regexp.MustCompile(`level="?(\w+)`)

func (p *boot) start(exe, text string, port int) {
	cfg := filepath.Join(p.dir, "c.yaml")
	switch p.s.File {
	case "missing":
	case "dir":
		os.Mkdir(cfg, 0700)
	default:
		if err := os.WriteFile(cfg, []byte(text), 0600); err != nil {
			fatal(err)
		}
	}
	args := []string{"-c", cfg}
	if p.s.File == "noflag" {
		args = nil
	}
	c := exec.Command(exe, args...)
	c.Dir = p.dir
	lf, err := os.Create(filepath.Join(p.dir, "log"))
	if err != nil {
		fatal(err)
	}
	c.Stdout, c.Stderr = lf, lf
	if err := c.Start(); err != nil {
		fatal(err)
	}
	ended := make(chan int, 1)
	go func() {
		c.Wait()
		ended <- c.ProcessState.ExitCode()
	}()
	p.serve(c, port, ended)
	c.Process.Kill()
	time.Sleep(10 * time.Millisecond)
	lf.Close()
	b, _ := os.ReadFile(filepath.Join(p.dir, "log"))
	lt := string(b)
	p.taken = strings.Contains(lt, "address already in use")
	if strings.Contains(lt, "panic:") || strings.Contains(lt, "fatal error:") {
		p.say(obj{"k": "crash"})
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(lt, "\n") {
		m := levelRe.FindStringSubmatch(l)
		if m != nil && !seen[m[1]] {
			seen[m[1]] = true
			p.say(obj{"k": "lines", "l": m[1]})
		}
	}
	if p.marked(lt) {
		p.say(obj{"k": "logged"})
	}
	if len(lt) > 1500 {
		lt = lt[len(lt)-1500:]
	}
	p.tail = lt
}

func (p *boot) serve(c *exec.Cmd, port int, ended chan int) {
	limit := time.Now().Add(40 * time.Second)
	for !ownListening(c.Process.Pid, port) {
		select {
		case code := <-ended:
			p.say(obj{"k": "exit", "code": code})
			return
		default:
		}
		if time.Now().After(limit) {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	host := p.s.Host
	other := ""
	switch host {
	case "127.0.0.1":
		other = "127.0.0.2"
	case "127.0.0.2":
		other = "127.0.0.1"
	default:
		host = "127.0.0.1"
	}
	dial := func(h string) net.Conn {
		nc, err := net.DialTimeout("tcp", net.JoinHostPort(h, strconv.Itoa(port)), 8*time.Second)
		if err != nil {
			return nil
		}
		return nc
	}
	if other != "" {
		if nc := dial(other); nc != nil {
			nc.Close()
			p.say(obj{"k": "up", "at": 0})
		}
	}
	nc := dial(host)
	if nc == nil {
		return
	}
	defer nc.Close()
	p.say(obj{"k": "up", "at": 1})
	if p.s.File != "good" {
		return
	}
	p.say(obj{"k": "rec"})
	t0 := time.Now()
	if _, err := nc.Write(toBytesInts(p.s.B)); err != nil {
		p.say(obj{"k": "silence"})
		return
	}
	nc.SetReadDeadline(time.Now().Add(60 * time.Second))
	head := make([]byte, 10)
	rest := []byte{}
	_, err := io.ReadFull(nc, head)
	if err == nil {
		rest = make([]byte, int(head[3])-10+2+int(head[5])+256*int(head[6]))
		_, err = io.ReadFull(nc, rest)
	}
	if err != nil || len(rest) < 4 || head[9] != 0 || int(rest[1])+256*int(rest[2]) != p.s.Pid {
		p.say(obj{"k": "silence"})
		return
	}
	ok := 0
	if rest[3] == 0 {
		ok = 1
	}
	p.say(obj{"k": "answer", "ok": ok})
	if time.Since(t0) > 500*time.Millisecond {
		return
	}
	wait := 2500 * time.Millisecond
	if p.s.TTL > 0 {
		wait = time.Duration(p.s.TTL)*time.Second + 3500*time.Millisecond
	}
	nc.SetReadDeadline(time.Now().Add(wait))
	_, err = io.Copy(io.Discard, nc)
	ms := int(time.Since(t0) / time.Millisecond)
	if e, isNet := err.(net.Error); isNet && e.Timeout() {
		ms = -1
	}
	p.say(obj{"k": "idle", "ms": ms})
	select {
	case code := <-ended:
		p.say(obj{"k": "exit", "code": code})
	default:
	}
}

// does this process listen on that port?
func ownListening(pid, port int) bool {
	want := fmt.Sprintf(":%04X", port)
	ino := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], want) {
				ino["socket:["+w[9]+"]"] = true
			}
		}
	}
	if len(ino) == 0 {
		return false
	}
	d := fmt.Sprintf("/proc/%d/fd", pid)
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if l, err := os.Readlink(filepath.Join(d, e.Name())); err == nil && ino[l] {
			return true
		}
	}
	return false
}
