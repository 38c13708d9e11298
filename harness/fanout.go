package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
)

// fanout IN OUT: play save scenarios into the real Repository.
func init() { extraCmds["fanout"] = cmdFanout }

type fanMsg struct{ m int }

func (f *fanMsg) ToBytes() ([]byte, error) { return []byte(fmt.Sprintf("record %d", f.m)), nil }

type fanPlay struct {
	mu      sync.Mutex
	cond    *sync.Cond
	h       []obj
	pending []*fanCall
	ended   map[int]bool
	free    bool
	over    bool
}
type fanCall struct {
	m    int
	done chan int // 1 accept, 0 refuse
	rel  bool
}
type fanStore struct {
	p *fanPlay
	s int
}

func (f fanStore) Save(x interface{ ToBytes() ([]byte, error) }) error {
	p := f.p
	m, same := 0, 0
	if fm, ok := x.(*fanMsg); ok {
		m = fm.m
		same = 1
	} else if b, err := x.ToBytes(); err == nil { // wrapped: recognise it by its content
		if n, _ := fmt.Sscanf(string(b), "record %d", &m); n == 1 {
			same = 1
		}
	}
	c := &fanCall{m: m, done: make(chan int, 1)}
	p.mu.Lock()
	p.log(obj{"k": "call", "m": m, "s": f.s, "same": same})
	if p.free {
		c.rel = true
		c.done <- 1
	}
	p.pending = append(p.pending, c)
	p.cond.Broadcast()
	p.mu.Unlock()
	ok := <-c.done
	p.mu.Lock()
	p.log(obj{"k": "ret", "m": m, "s": f.s, "ok": ok})
	p.mu.Unlock()
	if ok == 0 {
		return storeErrs[(7*m+f.s)%len(storeErrs)]
	}
	return nil
}

func (p *fanPlay) log(o obj) {
	if !p.over {
		p.h = append(p.h, o)
	}
}

func (p *fanPlay) await(cond func() bool) bool {
	deadline := time.Now().Add(3 * time.Second)
	for !cond() {
		if time.Now().After(deadline) {
			return false
		}
		t := time.AfterFunc(10*time.Millisecond, p.cond.Broadcast)
		p.cond.Wait()
		t.Stop()
	}
	return true
}

func cmdFanout(a []string) {
	var lines [][]byte
	readLines(a[0], func(b []byte) { lines = append(lines, append([]byte{}, b...)) })
	res := make([]obj, len(lines))
	sem := make(chan bool, 32)
	var wg sync.WaitGroup
	for i := range lines {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			res[i] = playFanout(lines[i])
		}(i)
	}
	wg.Wait()
	out := newLineWriter(a[1])
	for _, r := range res {
		out.put(r)
	}
	out.close()
}

func playFanout(line []byte) obj {
	var s struct {
		Sc    int
		Steps []struct {
			A     string
			M, Ok int
		}
	}
	if err := json.Unmarshal(line, &s); err != nil {
		fatal(err)
	}
	p := &fanPlay{ended: map[int]bool{}}
	p.cond = sync.NewCond(&p.mu)
	repo := storage.NewRepository()
	stores := 0
	crash := 0
	var wg sync.WaitGroup
	p.mu.Lock()
	defer p.mu.Unlock()
	late := false
	for _, st := range s.Steps {
		if late {
			break
		}
		switch st.A {
		case "add":
			// only between saves: the repository is set up before it is used
			if running := len(p.ended); running > 0 {
				all := true
				for _, e := range p.ended {
					all = all && e
				}
				if !all {
					continue
				}
			}
			stores++
			p.mu.Unlock()
			repo.AddStore(fanStore{p, stores})
			p.mu.Lock()
			p.log(obj{"k": "add", "s": stores})
		case "begin":
			m := st.M
			p.ended[m] = false
			p.log(obj{"k": "begin", "m": m})
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := func() (err error) {
					defer func() {
						if r := recover(); r != nil {
							crash = 1
							err = fmt.Errorf("%v", r)
						}
					}()
					return repo.Save(&fanMsg{m})
				}()
				p.mu.Lock()
				e := 0
				if err != nil {
					e = 1
				}
				p.log(obj{"k": "end", "m": m, "err": e})
				p.ended[m] = true
				p.cond.Broadcast()
				p.mu.Unlock()
			}()
		case "ret":
			var c *fanCall
			if !p.await(func() bool {
				for _, x := range p.pending {
					if !x.rel && x.m == st.M {
						c = x
						return true
					}
				}
				return p.ended[st.M]
			}) {
				p.log(obj{"k": "late"})
				late = true
			} else if c != nil {
				c.rel = true
				c.done <- st.Ok
			}
		case "end":
			p.await(func() bool { // offers the scenario did not foresee are accepted
				for _, x := range p.pending {
					if !x.rel && x.m == st.M {
						x.rel = true
						x.done <- 1
					}
				}
				return p.ended[st.M]
			})
		}
	}
	p.free = true
	p.await(func() bool {
		all := true
		for _, x := range p.pending {
			if !x.rel {
				x.rel = true
				x.done <- 1
			}
		}
		for _, e := range p.ended {
			all = all && e
		}
		return all
	})
	for _, e := range p.ended {
		if !e {
			p.log(obj{"k": "late"})
		}
	}
	p.mu.Unlock()
	time.Sleep(2 * time.Millisecond) // offers made behind the caller's back
	p.mu.Lock()
	p.over = true
	return obj{"sc": s.Sc, "h": p.h, "crash": crash}
}
