package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	log "github.com/sirupsen/logrus"
)

// life IN OUT WORKERS: play the scenarios of IN, each with a real server in
// a child process, and write each history as one line of OUT.
//
// lifechild ADDR: the server; obeys run, stop, starve, feed, cpu on its input.
func init() {
	extraCmds["life"] = cmdLife
	extraCmds["lifechild"] = cmdLifeChild
}

type lifeScenario struct {
	Addr  string `json:"addr"`
	Size  int    `json:"size"`
	Pid   int    `json:"pid"`
	B     []int  `json:"b"`
	Steps []struct {
		A  string `json:"a"`
		C  int    `json:"c"`
		At int    `json:"at"`
		N  int    `json:"n"`
		// how the clients leave
		How string `json:"how"`
	} `json:"steps"`
}

func cmdLife(a []string) {
	var lines [][]byte
	readLines(a[0], func(b []byte) { lines = append(lines, append([]byte{}, b...)) })
	workers, _ := strconv.Atoi(a[2])
	res := make([]obj, len(lines))
	next := make(chan int)
	go func() {
		for i := range lines {
			next <- i
		}
		close(next)
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			port := 25000 + 300*w
			for i := range next {
				var s lifeScenario
				if err := json.Unmarshal(lines[i], &s); err != nil {
					fatal(err)
				}
				for try := 0; ; try++ {
					res[i] = playLife(s, freePort(&port))
					b, _ := json.Marshal(res[i])
					if try == 5 || !strings.Contains(string(b), "address already in use") {
						break // the port was taken by someone else in between
					}
				}
			}
		}(w)
	}
	wg.Wait()
	out := newLineWriter(a[1])
	for _, r := range res {
		out.put(r)
	}
	out.close()
}

func listening(port int) bool {
	want := fmt.Sprintf(":%04X ", port)
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			p := strings.Fields(l)
			if len(p) > 3 && p[3] == "0A" && strings.HasSuffix(p[1]+" ", want) {
				return true
			}
		}
	}
	return false
}

func playLife(s lifeScenario, port int) obj {
	host := strings.TrimSuffix(s.Addr, ":")
	addr := s.Addr + strconv.Itoa(port)
	c := exec.Command(os.Args[0], "lifechild", addr)
	in, _ := c.StdinPipe()
	so, _ := c.StdoutPipe()
	var errBuf tailBuffer
	c.Stderr = &errBuf
	if err := c.Start(); err != nil {
		fatal(err)
	}
	hist := []obj{}
	says := make(chan string, 100)
	go func() {
		sc := bufio.NewScanner(so)
		for sc.Scan() {
			says <- sc.Text()
		}
		close(says)
	}()
	dead := false
	// tell the child and take what it says until it says done
	tell := func(cmd string) {
		if dead {
			return
		}
		io.WriteString(in, cmd+"\n")
		limit := time.After(30 * time.Second)
		for {
			select {
			case l, ok := <-says:
				if !ok {
					dead = true
					hist = append(hist, obj{"k": "crash", "msg": errBuf.String()})
					return
				}
				if l == "done" {
					return
				}
				var o obj
				if json.Unmarshal([]byte(l), &o) != nil {
					fatal("child says", l)
				}
				hist = append(hist, o)
			case <-limit:
				dead = true
				hist = append(hist, obj{"k": "crash", "msg": "no answer to " + cmd})
				return
			}
		}
	}
	dialHost, other := host, "127.0.0.2"
	if host == "" || host == "0.0.0.0" || host == "localhost" {
		dialHost = "127.0.0.1"
	}
	if host == "127.0.0.2" {
		other = "127.0.0.1"
	}
	b := toBytesInts(s.B)
	groups := map[int][]net.Conn{}
	begin, lost := time.Now(), false
	for _, st := range s.Steps {
		if dead {
			break
		}
		if lost && time.Since(begin) > 40*time.Second {
			// connections hang: what has been seen is enough to judge
			break
		}
		switch st.A {
		case "run":
			tell("run")
			hist = append(hist, obj{"k": "run"})
			for i := 0; i < 500 && !listening(port); i++ {
				time.Sleep(10 * time.Millisecond)
			}
			time.Sleep(30 * time.Millisecond)
		case "stop", "starve", "feed", "cpu":
			tell(st.A)
		case "dial":
			tell("look")
			h := dialHost
			if st.At == 0 {
				h = other
			}
			n := s.Size
			if st.At == 0 {
				n = 1
			}
			cs := make([]net.Conn, n)
			var wg sync.WaitGroup
			for i := range cs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					if nc, err := net.DialTimeout("tcp", net.JoinHostPort(h, strconv.Itoa(port)), 8*time.Second); err == nil {
						cs[i] = nc
					}
				}(i)
			}
			wg.Wait()
			got := 0
			var kept []net.Conn
			for _, nc := range cs {
				if nc != nil {
					got++
					kept = append(kept, nc)
				}
			}
			ok := 0
			if got == n || (got > 0 && st.At == 0) {
				ok = 1
			}
			if got > 0 && got < n && !listening(port) {
				ok = 1 // some were accepted by a stopped gateway
			}
			if st.At == 1 {
				groups[st.C] = kept
			} else {
				for _, nc := range kept {
					nc.Close()
				}
			}
			hist = append(hist, obj{"k": "dial", "c": st.C, "at": st.At, "ok": ok, "got": got})
		case "use":
			cs := groups[st.C]
			if len(cs) == 0 {
				break
			}
			var mu sync.Mutex
			good := 0
			var wg sync.WaitGroup
			for _, nc := range cs {
				wg.Add(1)
				go func(nc net.Conn) {
					defer wg.Done()
					if used(nc, b, s.Pid) {
						mu.Lock()
						good++
						mu.Unlock()
					}
				}(nc)
			}
			wg.Wait()
			ok := 0
			if good == len(cs) {
				ok = 1
			}
			tell("look")
			hist = append(hist, obj{"k": "use", "c": st.C, "ok": ok, "good": good, "of": len(cs)})
			lost = lost || ok == 0
			if ok == 0 {
				// a half-read answer would spoil later uses
				for _, nc := range cs {
					nc.Close()
				}
				groups[st.C] = nil
			}
		case "leave":
			leaveAll(groups[st.C], b, st.How)
			groups[st.C] = nil
			hist = append(hist, obj{"k": "leave", "c": st.C})
		case "churn":
			tell("look")
			hows := []string{"close", "abort", "half", "alien", "bad"}
			var mu sync.Mutex
			got, good := 0, 0
			turns := make(chan int)
			var wg sync.WaitGroup
			for w := 0; w < 20; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := range turns {
						nc, err := net.DialTimeout("tcp", net.JoinHostPort(dialHost, strconv.Itoa(port)), 8*time.Second)
						if err != nil {
							continue
						}
						ok := i%4 == 0 || used(nc, b, s.Pid)
						leave(nc, b, hows[i%len(hows)])
						mu.Lock()
						got++
						if ok {
							good++
						}
						mu.Unlock()
						if !ok {
							break
						}
					}
					for range turns {
					}
				}()
			}
			for i := 0; i < st.N; i++ {
				turns <- i
			}
			close(turns)
			wg.Wait()
			tell("look")
			lost = lost || good < got
			hist = append(hist, obj{"k": "dial", "c": st.C, "at": 1, "ok": b2i(got == st.N || good < got), "got": got},
				obj{"k": "use", "c": st.C, "ok": b2i(good == got), "good": good, "of": got}, obj{"k": "leave", "c": st.C})
		default:
			fatal("unknown step", st.A)
		}
	}
	tell("look")
	for _, cs := range groups {
		for _, nc := range cs {
			nc.Close()
		}
	}
	in.Close()
	c.Process.Kill()
	c.Wait()
	return obj{"h": hist, "addr": addr, "size": s.Size}
}

func b2i(x bool) int {
	if x {
		return 1
	}
	return 0
}

// used: a packet sent on the connection is answered
func used(nc net.Conn, b []byte, pid int) bool {
	nc.SetDeadline(time.Now().Add(6 * time.Second))
	if _, err := nc.Write(b); err != nil {
		return false
	}
	head := make([]byte, 10)
	if _, err := io.ReadFull(nc, head); err != nil {
		return false
	}
	rest := make([]byte, int(head[3])-10+2+int(head[5])+256*int(head[6]))
	if _, err := io.ReadFull(nc, rest); err != nil {
		return false
	}
	return head[9] == 0 && len(rest) >= 3 && int(rest[1])+256*int(rest[2]) == pid
}

// leaveAll: many clients end their connections, a hundred at a time
func leaveAll(cs []net.Conn, b []byte, how string) {
	var wg sync.WaitGroup
	turn := make(chan bool, 100)
	for _, nc := range cs {
		wg.Add(1)
		turn <- true
		go func(nc net.Conn) {
			defer wg.Done()
			leave(nc, b, how)
			<-turn
		}(nc)
	}
	wg.Wait()
}

// leave: the client ends its connection
func leave(nc net.Conn, b []byte, how string) {
	nc.SetDeadline(time.Now().Add(6 * time.Second))
	switch how {
	case "abort":
		if t, ok := nc.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
	case "half":
		nc.Write(b[:len(b)/2])
	case "alien":
		nc.Write([]byte("GET / HTTP/1.1\r\nHost: gate\r\n\r\n"))
		// the gateway closes first
		for x := make([]byte, 100); ; {
			if _, err := nc.Read(x); err != nil {
				break
			}
		}
	case "bad":
		bad := append([]byte{}, b...)
		bad[len(bad)-1] ^= 0x55
		nc.Write(bad)
	}
	nc.Close()
}

type nullStore struct{}

func (nullStore) Save(m interface{ ToBytes() ([]byte, error) }) error { return nil }

func cmdLifeChild(a []string) {
	log.SetLevel(log.FatalLevel)
	repo := storage.NewRepository()
	repo.AddStore(nullStore{})
	srv := server.New(a[0], 60*time.Second, repo)
	say := func(o obj) {
		b, _ := json.Marshal(o)
		fmt.Printf("%s\n", b)
	}
	ran := make(chan struct{})
	running, told := false, false
	check := func() {
		select {
		case <-ran:
			if !told {
				told = true
				say(obj{"k": "ran"})
			}
		default:
		}
	}
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		fatal(err)
	}
	cpu := func() time.Duration {
		var r syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &r)
		return time.Duration(r.Utime.Nano() + r.Stime.Nano())
	}
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		check()
		switch sc.Text() {
		case "run":
			running = true
			go func() { srv.Run(); close(ran) }()
		case "stop":
			res := make(chan int, 1)
			go func() {
				defer func() {
					if recover() != nil {
						res <- 1
					}
				}()
				srv.Stop()
				res <- 0
			}()
			bad := 1
			select {
			case bad = <-res:
			case <-time.After(5 * time.Second):
			}
			say(obj{"k": "stop", "bad": bad})
			if running && !told {
				select {
				case <-ran:
				case <-time.After(3 * time.Second):
					say(obj{"k": "kept"})
					told = true
				}
				check()
			}
		case "starve":
			used := map[string]bool{}
			d, err := os.Open("/proc/self/fd")
			if err != nil {
				fatal(err)
			}
			names, _ := d.Readdirnames(-1)
			self := strconv.Itoa(int(d.Fd()))
			d.Close()
			for _, n := range names {
				used[n] = n != self
			}
			n := 0
			for used[strconv.Itoa(n)] {
				n++
			}
			low := lim
			low.Cur = uint64(n)
			if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
				fatal(err)
			}
			say(obj{"k": "starve"})
		case "feed":
			if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
				fatal(err)
			}
			say(obj{"k": "feed"})
		case "cpu":
			time.Sleep(250 * time.Millisecond)
			t0 := cpu()
			time.Sleep(400 * time.Millisecond)
			used := cpu() - t0
			busy := 0
			if used > 120*time.Millisecond {
				busy = 1
			}
			check()
			say(obj{"k": "cpu", "busy": busy, "ms": int(used / time.Millisecond)})
		}
		fmt.Println("done")
	}
}
