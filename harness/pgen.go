package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"os/exec"
	"strconv"
	"sync"
	"time"
)

// pgen EXE VEC OUT: run the packet generator once per vector against a server
// that answers as the vector says.
func init() { extraCmds["pgen"] = cmdPgen }

type pgArg struct {
	N, K, S string
	B       []int
	Neg     int
	Full    int
	Tz      int
}
type pgPiece struct {
	Ms int
	B  []int
}
type pgVec struct {
	Id    int
	Args  []pgArg
	Reply []pgPiece
	End   string
	Dest  string
	Limit int
}

func u32of(b []int) uint32 {
	var x uint32
	for i := len(b) - 1; i >= 0; i-- {
		x = x<<8 | uint32(b[i])
	}
	return x
}

func (a pgArg) text() string {
	switch a.K {
	case "u32":
		return strconv.FormatUint(uint64(u32of(a.B)), 10)
	case "deg":
		f := float64(u32of(a.B)) * float64(a.Full) / math.MaxUint32
		if a.Neg == 1 {
			f = -f
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	case "time":
		z := time.UTC
		if a.Tz != 0 {
			z = time.FixedZone("", a.Tz*60)
		}
		return epoch2010.Add(time.Duration(u32of(a.B)) * time.Second).In(z).Format(time.RFC3339)
	}
	return a.S
}

func cmdPgen(a []string) {
	var lines [][]byte
	readLines(a[1], func(b []byte) { lines = append(lines, append([]byte{}, b...)) })
	res := make([]obj, len(lines))
	idx := make(chan int)
	go func() {
		for i := range lines {
			idx <- i
		}
		close(idx)
	}()
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				res[i] = runPgen(a[0], lines[i])
			}
		}()
	}
	wg.Wait()
	out := newLineWriter(a[2])
	for _, r := range res {
		out.put(r)
	}
	out.close()
}

func runPgen(exe string, line []byte) obj {
	var v pgVec
	if err := json.Unmarshal(line, &v); err != nil {
		fatal(err)
	}
	res := obj{}
	if err := json.Unmarshal(line, &res); err != nil {
		fatal(err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal(err)
	}
	addr := l.Addr().String()
	if v.Dest == "nobody" {
		l.Close()
	}
	var mu sync.Mutex
	got := []byte{}
	conns := 0
	var wg sync.WaitGroup
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns++
			first := conns == 1
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer c.Close()
				answered := !first
				buf := make([]byte, 65536)
				for {
					n, err := c.Read(buf)
					mu.Lock()
					got = append(got, buf[:n]...)
					ready := !answered && len(got) >= 11
					if ready {
						if size := int(got[3]) + (int(got[5]) | int(got[6])<<8) + 2; len(got) < size {
							ready = false
						}
					}
					mu.Unlock()
					if ready {
						answered = true
						go func() {
							for _, p := range v.Reply {
								time.Sleep(time.Duration(p.Ms) * time.Millisecond)
								c.Write(toBytesInts(p.B))
							}
							switch v.End {
							case "close":
								c.(*net.TCPConn).CloseWrite()
							case "reset":
								c.(*net.TCPConn).SetLinger(0)
								c.Close()
							}
						}()
					}
					if err != nil {
						return
					}
				}
			}()
		}
	}()
	args, names := []string{"-server", addr}, []string{}
	for _, x := range v.Args {
		names = append(names, x.N)
		args = append(args, "-"+x.N+"="+x.text())
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(v.Limit+20000)*time.Millisecond)
	defer cancel()
	c := exec.CommandContext(ctx, exe, args...)
	var eb, ob bytes.Buffer
	c.Stderr, c.Stdout = &eb, &ob
	t := time.Now()
	err = c.Run()
	ms := time.Since(t).Milliseconds()
	code := 0
	if err != nil {
		code = 999
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		} else {
			fatal("packet-gen did not run:", err)
		}
	}
	panicked := 0
	if bytes.Contains(eb.Bytes(), []byte("goroutine ")) || code < 0 && ctx.Err() == nil {
		panicked = 1
	}
	l.Close()
	<-done
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	res["got"] = ints(got)
	res["conns"] = conns
	res["exit"] = code
	res["ms"] = ms
	res["panic"] = panicked
	res["names"] = names
	res["cmd"] = fmt.Sprint(args[2:])
	res["says"] = firstLine(ob.Bytes())
	return res
}

func firstLine(b []byte) string {
	if i := bytes.IndexByte(b, '\n'); i >= 0 {
		b = b[:i]
	}
	if len(b) > 200 {
		b = b[:200]
	}
	return string(bytes.ToValidUTF8(b, []byte("?")))
}

var _ = io.EOF
