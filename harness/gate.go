package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/libs/egts"
	log "github.com/sirupsen/logrus"
)

// gate IN OUT WORKERS [PER]: play the scenarios of IN (one JSON object per line)
// into real servers, each scenario in a child process that survives or not,
// and write the recorded events, scenario after scenario, to OUT.  A child
// plays PER scenarios.
//
// Steps of a scenario:
//
//	open c            connect
//	send c b seg tag hold fails   write bytes, cut at the offsets in seg
//	                  (par: when the next fire comes, all connections at once)
//	fire              write what was kept for it
//	save p            wait until a storage call for packet p (its tag) is pending
//	release p         let the pending storage call of packet p return
//	reply c n         wait until connection c has received n frames in total
//	closed c          wait until the gateway has closed connection c
//	answer c          wait until c has one more frame than before, or is closed
//	eof c             close the writing side
//	abort c           reset the connection
//	pause/resume c    stop / continue reading
//	stall c b n p ms  write b (packet p) n times without reading for ms, then read the answers
//	flood c b n       keep writing b until the peer stops taking it
//	wait ms           let time pass
//	until ms          let time pass until ms after the start
func init() {
	extraCmds["gate"] = cmdGate
	extraCmds["gatechild"] = cmdGateChild
}

type step struct {
	A     string `json:"a"`
	C     int    `json:"c"`
	P     int    `json:"p"`
	N     int    `json:"n"`
	B     []int  `json:"b"`
	Seg   []int  `json:"seg"`
	Tag   []int  `json:"tag"`
	Hold  int    `json:"hold"`
	Fails []int  `json:"fails"`
	Iso   int    `json:"iso"`
	Ms    int    `json:"ms"`
	Par   int    `json:"par"`
}

type scenario struct {
	Sc     int    `json:"sc"`
	Kind   string `json:"kind"`
	Stores int    `json:"stores"`
	NC     int    `json:"nc"`
	TTL    int    `json:"ttl"` // milliseconds
	Steps  []step `json:"steps"`
}

// ------------------------------------------------------------------ parent

func cmdGate(a []string) {
	var lines []string
	readLines(a[0], func(b []byte) { lines = append(lines, string(b)) })
	workers, _ := strconv.Atoi(a[2])
	per := 8
	if len(a) > 3 {
		per, _ = strconv.Atoi(a[3])
	}
	res := make([][]string, len(lines))
	var wg sync.WaitGroup
	next := make(chan int)
	// scenarios are dealt out in runs of a few, so that a child serves several
	go func() {
		for i := 0; i < len(lines); i += per {
			next <- i
		}
		close(next)
	}()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := range next {
				for j := i; j < len(lines) && j < i+per; {
					hi := i + per
					if hi > len(lines) {
						hi = len(lines)
					}
					done := runChild(w, lines[j:hi], res[j:hi])
					j += done
				}
			}
		}(w)
	}
	wg.Wait()
	f, err := os.Create(a[1])
	if err != nil {
		fatal(err)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	for _, evs := range res {
		for _, l := range evs {
			bw.WriteString(l)
			bw.WriteByte('\n')
		}
	}
	bw.Flush()
	f.Close()
}

// runChild plays scenarios until all are played or the child dies; returns
// how many are finished (a scenario the child died in counts).
func runChild(w int, lines []string, out [][]string) int {
	c := exec.Command(os.Args[0], "gatechild", strconv.Itoa(w))
	c.Stdin = strings.NewReader(strings.Join(lines, "\n") + "\n")
	var errBuf tailBuffer
	c.Stderr = &errBuf
	so, err := c.StdoutPipe()
	if err != nil {
		fatal(err)
	}
	if err := c.Start(); err != nil {
		fatal(err)
	}
	cur := 0
	var mu sync.Mutex
	last := time.Now()
	stop := make(chan struct{})
	go func() { // a child that says nothing for very long hangs
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				mu.Lock()
				old := time.Since(last) > 120*time.Second
				mu.Unlock()
				if old {
					c.Process.Kill()
					return
				}
			}
		}
	}()
	sc := bufio.NewScanner(so)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		mu.Lock()
		last = time.Now()
		mu.Unlock()
		if cur >= len(lines) {
			break
		}
		if l == "END" {
			cur++
			continue
		}
		out[cur] = append(out[cur], l)
	}
	c.Wait()
	close(stop)
	if cur < len(lines) {
		if len(out[cur]) == 0 {
			fatal("gate child did not start:", errBuf.String())
		}
		msg := errBuf.String()
		if strings.Contains(msg, "address already in use") {
			out[cur] = nil // the port was taken by someone else in between
			return cur
		}
		ev := func(o obj) {
			b, _ := json.Marshal(o)
			out[cur] = append(out[cur], string(b))
		}
		ev(obj{"e": "crash", "msg": msg})
		ev(obj{"e": "end"})
		cur++
	}
	return cur
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string {
	if len(t.b) > 2000 {
		return string(t.b[:2000])
	}
	return string(t.b)
}

// ------------------------------------------------------------------- child

var slowAwaits int // awaits that ran into their limit, in this child

func awaitLimit() time.Duration {
	if slowAwaits >= 2 {
		return 1500 * time.Millisecond
	}
	return 15 * time.Second
}

func cmdGateChild(a []string) {
	log.SetLevel(log.FatalLevel)
	w, _ := strconv.Atoi(a[0])
	port := 12000 + 400*w
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fatal("scenario:", err)
		}
		playScenario(s, &port, out)
		out.WriteString("END\n")
		out.Flush()
	}
}

func freePort(port *int) int {
	for i := 0; i < 2000; i++ {
		*port++
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", *port))
		if err == nil {
			l.Close()
			return *port
		}
	}
	fatal("no free port")
	return 0
}

type play struct {
	mu      sync.Mutex
	cond    *sync.Cond
	out     *bufio.Writer
	t0      time.Time
	nsave   int
	pending []*pend
	free    bool // storage calls return at once
	fails   map[string][]int
	hold    map[string]bool
	conns   map[int]*cl
	over    bool
	timed   bool // events carry the milliseconds since the start
}

type pend struct {
	k, s     int
	tag      string
	released bool
	ch       chan bool
}

type cl struct {
	c       net.Conn
	frames  int
	closed  bool
	paused  bool
	eofSent bool
	flooded bool // what it receives is not recorded
	mark    int
	expect  int // the packet the answers after a stall are for
	odd     int // answers that are not for it
}

func (p *play) logLocked(o obj) {
	if p.over {
		return
	}
	if p.timed {
		o["t"] = int(time.Since(p.t0) / time.Millisecond)
	}
	b, err := json.Marshal(o)
	if err != nil {
		fatal(err)
	}
	p.out.Write(b)
	p.out.WriteByte('\n')
	p.out.Flush()
}

func (p *play) log(o obj) {
	p.mu.Lock()
	p.logLocked(o)
	p.mu.Unlock()
}

// wait until cond holds or the limit passes
func (p *play) await(limit time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(limit)
	p.mu.Lock()
	defer p.mu.Unlock()
	for !cond() {
		if time.Now().After(deadline) {
			return false
		}
		t := time.AfterFunc(20*time.Millisecond, p.cond.Broadcast)
		p.cond.Wait()
		t.Stop()
	}
	return true
}

// ---- recorder storage

type recorder struct {
	p *play
	s int
}

// errors of every kind a storage may return; none of them means anything else than the others
var storeErrs = []error{errors.New("storage refused the record"), io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, net.ErrClosed,
	context.DeadlineExceeded, context.Canceled, errors.New(""), fmt.Errorf("wrapped: %w", io.EOF), tmpErr{}, &net.OpError{Op: "write", Err: syscall.ECONNRESET},
	syscall.EPIPE, syscall.EAGAIN, os.ErrNotExist}

// tmpErr is a net.Error that calls itself temporary
type tmpErr struct{}

func (tmpErr) Error() string   { return "try again" }
func (tmpErr) Timeout() bool   { return true }
func (tmpErr) Temporary() bool { return true }

func (r recorder) Save(m interface{ ToBytes() ([]byte, error) }) error {
	p := r.p
	js, err := m.ToBytes()
	rec, tag := recordOut(js, err, p.t0)
	p.mu.Lock()
	p.nsave++
	k := p.nsave
	p.logLocked(obj{"e": "save", "k": k, "s": r.s, "rec": rec})
	ok := true
	for _, f := range p.fails[tag] {
		if f == r.s {
			ok = false
		}
	}
	q := &pend{k: k, s: r.s, tag: tag, ch: make(chan bool, 1)}
	if p.free || !p.hold[tag] {
		q.released = true
		q.ch <- true
	}
	p.pending = append(p.pending, q)
	p.cond.Broadcast()
	p.mu.Unlock()
	<-q.ch
	js2, _ := m.ToBytes()
	same := 1
	if string(js2) != string(js) {
		same = 0
	}
	p.mu.Lock()
	okn := 0
	if ok {
		okn = 1
	}
	p.logLocked(obj{"e": "saved", "k": k, "ok": okn, "same": same})
	p.mu.Unlock()
	if !ok {
		return storeErrs[(k+r.s)%len(storeErrs)]
	}
	return nil
}

// recordOut turns the serialised record into the specification's terms.
func recordOut(js []byte, err error, t0 time.Time) (obj, string) {
	bad := func(why string) (obj, string) {
		return obj{"ok": 0, "why": why, "pos": []interface{}{}, "pkid": []int{-1}}, "?"
	}
	if err != nil {
		return bad(err.Error())
	}
	dec := json.NewDecoder(strings.NewReader(string(js)))
	dec.UseNumber()
	var m map[string]interface{}
	if err := dec.Decode(&m); err != nil {
		return bad(err.Error())
	}
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	num := func(v interface{}) interface{} { // unsigned 32-bit number
		n, ok := v.(json.Number)
		if !ok {
			return []int{-1}
		}
		u, err := strconv.ParseUint(string(n), 10, 32)
		if err != nil {
			return []int{-2}
		}
		return le4(uint32(u))
	}
	small := func(v interface{}) int {
		n, ok := v.(json.Number)
		if !ok {
			return -1
		}
		i, err := strconv.ParseInt(string(n), 10, 31)
		if err != nil {
			return -2
		}
		return int(i)
	}
	str := func(v interface{}) []int {
		s, ok := v.(string)
		if !ok {
			return []int{-1}
		}
		return ints([]byte(s))
	}
	fl := func(v interface{}) float64 {
		n, ok := v.(json.Number)
		if !ok {
			return math.NaN()
		}
		f, err := n.Float64()
		if err != nil {
			return math.NaN()
		}
		return f
	}
	sgn := func(f float64) int {
		if f < 0 {
			return 1
		}
		return 0
	}
	since2010 := func(v interface{}) interface{} {
		s, _ := v.(string)
		t, err := time.Parse(time.RFC3339, s)
		if err != nil {
			return []int{-1}
		}
		return rawTime(t)
	}
	list := func(v interface{}) []map[string]interface{} {
		a, _ := v.([]interface{})
		r := []map[string]interface{}{}
		for _, x := range a {
			o, _ := x.(map[string]interface{})
			r = append(r, o)
		}
		return r
	}
	pos := []interface{}{}
	tag := "?"
	for i, l := range list(m["loc_states"]) {
		la, lo := fl(l["lat"]), fl(l["lng"])
		t := since2010(l["navigation_dt"])
		if i == 0 {
			tag = fmt.Sprint(t)
		}
		pos = append(pos, obj{"lat": rawCoord(math.Abs(la), 90), "lats": sgn(la), "lon": rawCoord(math.Abs(lo), 180), "lons": sgn(lo),
			"spd": small(l["speed"]), "t": t, "n": len(l)})
	}
	an := []interface{}{}
	for _, l := range list(m["an_sensors"]) {
		an = append(an, obj{"n": small(l["sensor_number"]), "v": num(l["value"])})
	}
	liq := []interface{}{}
	for _, l := range list(m["liquid_sensors"]) {
		// litres in tenths
		lit := fl(l["value_l"]) * 10
		var lv interface{} = []int{-1}
		if lit >= 0 && lit <= 0xFFFFFFFF && math.Abs(lit-math.Round(lit)) < 1e-4 {
			lv = le4(uint32(math.Round(lit)))
		}
		liq = append(liq, obj{"n": small(l["sensor_number"]), "m": small(l["module_number"]), "e": str(l["error_flag"]),
			"u": str(l["value_unit"]), "mm": num(l["value_mm"]), "l": lv})
	}
	var nav interface{} = []int{-1}
	if n, ok := m["navigation_unix_time"].(json.Number); ok {
		if i, err := n.Int64(); err == nil {
			nav = rawTime(time.Unix(i, 0))
		}
	}
	rcv := 0
	if s, ok := m["received_dt"].(string); ok {
		if t, err := time.Parse(time.RFC3339, s); err == nil && t.Location() == time.UTC &&
			t.After(t0.Add(-3*time.Second)) && t.Before(time.Now().Add(3*time.Second)) {
			rcv = 1
		}
	}
	return obj{"ok": 1, "why": "", "keys": strings.Join(keys, ","), "srv": str(m["server_id"]), "imei": str(m["IMEI"]), "cid": num(m["client_id"]),
		"rcv": rcv, "pkid": num(m["packet_id"]), "nav": nav, "an": an, "liq": liq, "pos": pos, "cnt": small(m["loc_states_count"])}, tag
}

// ---- client side

func (p *play) reader(id int, c *cl) {
	var buf []byte
	tmp := make([]byte, 1<<16)
	for {
		p.mu.Lock()
		for c.paused {
			p.cond.Wait()
		}
		p.mu.Unlock()
		n, err := c.c.Read(tmp)
		buf = append(buf, tmp[:n]...)
		p.mu.Lock()
		for {
			if len(buf) < 10 || buf[0] != 1 {
				break
			}
			sz := int(buf[3])
			if f := int(buf[5]) | int(buf[6])<<8; f > 0 {
				sz += f + 2
			}
			if sz < 11 || len(buf) < sz {
				break
			}
			p.recv(id, c, buf[:sz])
			buf = buf[sz:]
		}
		if err != nil {
			if len(buf) > 0 {
				p.recv(id, c, buf)
			}
			c.closed = true
			how := "eof"
			if err != io.EOF {
				how = "reset"
			}
			late := 0
			if c.eofSent {
				late = 1
			}
			p.logLocked(obj{"e": "closed", "c": id, "how": how, "aftereof": late})
			p.cond.Broadcast()
			p.mu.Unlock()
			return
		}
		p.cond.Broadcast()
		p.mu.Unlock()
	}
}

func (p *play) recv(id int, c *cl, b []byte) {
	c.frames++
	if c.flooded {
		// after a stall: a whole answer to the packet, reporting success
		if c.expect > 0 && !(len(b) > 16 && b[9] == 0 && int(b[3])+5 <= len(b) && int(b[b[3]])|int(b[b[3]+1])<<8 == c.expect && b[b[3]+2] == 0) {
			c.odd++
		}
		return
	}
	lib := -1
	func() {
		defer func() { recover() }()
		q := egts.Package{}
		code, err := q.Decode(append([]byte{}, b...))
		lib = int(code)
		if err != nil && code == 0 {
			lib = -2
		}
	}()
	p.logLocked(obj{"e": "recv", "c": id, "b": ints(b), "lib": lib})
}

func playScenario(s scenario, port *int, out *bufio.Writer) {
	p := &play{out: out, t0: time.Now(), fails: map[string][]int{}, hold: map[string]bool{}, conns: map[int]*cl{}}
	p.cond = sync.NewCond(&p.mu)
	p.timed = s.Kind == "idle"
	p.log(obj{"e": "begin", "sc": s.Sc, "kind": s.Kind, "stores": s.Stores, "nc": s.NC, "ttl": s.TTL})
	repo := storage.NewRepository()
	for i := 1; i <= s.Stores; i++ {
		repo.AddStore(recorder{p, i})
	}
	ttl := time.Duration(s.TTL) * time.Millisecond
	addr := fmt.Sprintf("127.0.0.1:%d", freePort(port))
	srv := server.New(addr, ttl, repo)
	ran := make(chan struct{})
	go func() { srv.Run(); close(ran) }()
	dial := func() net.Conn {
		for i := 0; ; i++ {
			c, err := net.DialTimeout("tcp", addr, 5*time.Second)
			if err == nil {
				return c
			}
			if i > 2000 {
				p.log(obj{"e": "nodial", "err": err.Error()})
				return nil
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	tags := map[int]string{}
	kept := map[int][][]byte{}
	baseline := 0
	aborted := false
	for i, st := range s.Steps {
		_ = i
		if aborted && (st.A == "save" || st.A == "release" || st.A == "reply" || st.A == "closed" || st.A == "answer" || st.A == "wait") {
			continue
		}
		c := p.conns[st.C]
		late := func(what string) {
			slowAwaits++
			p.log(obj{"e": "late", "c": st.C, "what": what, "iso": st.Iso})
			aborted = true
			p.mu.Lock()
			p.goFree()
			p.mu.Unlock()
		}
		switch st.A {
		case "open":
			nc := dial()
			if nc == nil {
				aborted = true
				break
			}
			c = &cl{c: nc}
			p.conns[st.C] = c
			p.log(obj{"e": "open", "c": st.C})
			go p.reader(st.C, c)
		case "send":
			if c == nil {
				break
			}
			tag := fmt.Sprint(le4FromInts(st.Tag))
			if len(st.Tag) == 4 {
				p.mu.Lock()
				tags[st.P] = tag
				if len(st.Fails) > 0 {
					p.fails[tag] = st.Fails
				}
				if st.Hold == 1 && !p.free {
					p.hold[tag] = true
				}
				p.mu.Unlock()
			}
			b := toBytesInts(st.B)
			p.log(obj{"e": "send", "c": st.C, "b": st.B})
			if st.Par == 1 {
				kept[st.C] = append(kept[st.C], b)
				break
			}
			sendCut(c.c, b, st.Seg)
			if p.timed {
				p.log(obj{"e": "sent", "c": st.C})
			}
		case "fire":
			var wg sync.WaitGroup
			start := make(chan bool)
			for id, bs := range kept {
				wg.Add(1)
				go func(c *cl, bs [][]byte) {
					defer wg.Done()
					<-start
					for _, b := range bs {
						sendCut(c.c, b, nil)
					}
				}(p.conns[id], bs)
			}
			close(start)
			wg.Wait()
			kept = map[int][][]byte{}
		case "save":
			ok := p.await(awaitLimit(), func() bool {
				for _, q := range p.pending {
					if !q.released && q.tag == tags[st.P] {
						return true
					}
				}
				return false
			})
			if !ok {
				late("save")
			} else if st.Ms > 0 {
				time.Sleep(time.Duration(st.Ms) * time.Millisecond)
			}
			if p.timed {
				p.log(obj{"e": "held", "c": st.C})
			}
		case "release":
			p.mu.Lock()
			if p.timed {
				p.logLocked(obj{"e": "released", "c": st.C})
			}
			for _, q := range p.pending {
				if !q.released && q.tag == tags[st.P] {
					q.released = true
					q.ch <- true
					break
				}
			}
			p.mu.Unlock()
		case "reply":
			if c != nil && !p.await(awaitLimit(), func() bool { return c.frames >= st.N }) {
				late("reply")
			}
		case "mark":
			if c != nil {
				p.mu.Lock()
				c.mark = c.frames
				p.mu.Unlock()
			}
		case "answer":
			if c != nil && !p.await(awaitLimit(), func() bool { return c.closed || c.frames > c.mark }) {
				late("answer")
			}
		case "closed":
			if c != nil && !p.await(awaitLimit(), func() bool { return c.closed }) {
				late("closed")
			}
		case "eof":
			p.closeWrite(st.C, c)
		case "abort":
			if c != nil {
				p.log(obj{"e": "abort", "c": st.C})
				if t, ok := c.c.(*net.TCPConn); ok {
					t.SetLinger(0)
				}
				c.c.Close()
			}
		case "pause":
			p.mu.Lock()
			c.paused = true
			if t, ok := c.c.(*net.TCPConn); ok {
				t.SetReadBuffer(4096)
			}
			p.mu.Unlock()
		case "resume":
			p.mu.Lock()
			c.paused = false
			p.cond.Broadcast()
			p.mu.Unlock()
		case "flood":
			p.mu.Lock()
			c.flooded = true
			p.logLocked(obj{"e": "flood", "c": st.C})
			p.mu.Unlock()
			b := toBytesInts(st.B)
			n := 0
			for ; n < st.N; n++ {
				c.c.SetWriteDeadline(time.Now().Add(700 * time.Millisecond))
				if _, err := c.c.Write(b); err != nil {
					break
				}
			}
			c.c.SetWriteDeadline(time.Time{})
			p.log(obj{"e": "flooded", "c": st.C, "writes": n, "of": st.N})
		case "stall":
			p.mu.Lock()
			c.flooded, c.paused = true, true
			p.logLocked(obj{"e": "flood", "c": st.C})
			p.mu.Unlock()
			b, conn, n := toBytesInts(st.B), c.c, st.N
			first, t0 := c.frames, time.Now()
			go func() {
				for i := 0; i < n; i++ {
					if _, err := conn.Write(b); err != nil {
						return
					}
				}
			}()
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
			p.mu.Lock()
			c.paused, c.expect = false, st.P
			p.cond.Broadcast()
			p.mu.Unlock()
			p.await(2*awaitLimit(), func() bool { return c.closed || c.frames-first >= n })
			p.mu.Lock()
			p.logLocked(obj{"e": "stalled", "c": st.C, "got": c.frames - first - c.odd, "of": n, "odd": c.odd, "closed": c.closed, "ms": int(time.Since(t0) / time.Millisecond)})
			p.mu.Unlock()
		case "until":
			time.Sleep(time.Until(p.t0.Add(time.Duration(st.Ms) * time.Millisecond)))
		case "silent":
		case "wait":
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		case "baseline":
			time.Sleep(30 * time.Millisecond)
			baseline = runtime.NumGoroutine()
		case "goroutines":
			left := 0
			ok := p.await(6*time.Second, func() bool { left = runtime.NumGoroutine() - baseline; return left <= 0 })
			if ok {
				left = 0
			}
			p.log(obj{"e": "goroutines", "left": left})
		default:
			fatal("unknown step", st.A)
		}
	}
	// let everything finish: storage calls return, clients close their side,
	// the gateway then closes each connection
	p.mu.Lock()
	p.goFree()
	for _, c := range p.conns {
		c.paused = false
	}
	p.cond.Broadcast()
	p.mu.Unlock()
	ids := []int{}
	for id := range p.conns {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if c := p.conns[id]; c.flooded {
			if t, ok := c.c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			c.c.Close()
		}
		p.closeWrite(id, p.conns[id])
	}
	lim := awaitLimit()
	if lim > 8*time.Second {
		lim = 8 * time.Second
	}
	if !p.await(lim, func() bool {
		for _, c := range p.conns {
			if !c.closed {
				return false
			}
		}
		return true
	}) {
		slowAwaits++
		for _, id := range ids {
			if !p.conns[id].closed {
				p.log(obj{"e": "undrained", "c": id})
			}
		}
	}
	srv.Stop()
	p.mu.Lock()
	p.logLocked(obj{"e": "end"})
	p.over = true
	p.mu.Unlock()
	for _, c := range p.conns {
		c.c.Close()
	}
}

func (p *play) goFree() {
	p.free = true
	for _, q := range p.pending {
		if !q.released {
			q.released = true
			q.ch <- true
		}
	}
}

func (p *play) closeWrite(id int, c *cl) {
	if c == nil {
		return
	}
	p.mu.Lock()
	if !c.eofSent && !c.closed {
		c.eofSent = true
		p.logLocked(obj{"e": "eof", "c": id})
	}
	p.mu.Unlock()
	if t, ok := c.c.(*net.TCPConn); ok {
		t.CloseWrite()
	}
}

func sendCut(c net.Conn, b []byte, seg []int) {
	at := 0
	for _, s := range seg {
		if s <= at || s >= len(b) {
			continue
		}
		c.Write(b[at:s])
		at = s
		time.Sleep(1500 * time.Microsecond)
	}
	c.Write(b[at:])
}

func toBytesInts(a []int) []byte {
	r := make([]byte, len(a))
	for i, x := range a {
		r[i] = byte(x)
	}
	return r
}

func le4FromInts(a []int) []int {
	if a == nil {
		return []int{}
	}
	return a
}
