package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
)

// codec IN OUT: run every vector against the library.
//
//	op dec   t b        decode one subrecord, re-encode twice
//	op decr / decrd     decode a record set / a subrecord set
//	op decresp b        decode a response body
//	op decp  b          decode a packet, re-encode twice
//	op enc   t v        encode a value twice, decode it back
//	op encp  h recs | rpid pr sdr,  auto   encode a packet twice, decode it back
//	op decseq bs        decode several packets one after another into separate values
func cmdCodec(a []string) {
	var lines [][]byte
	readLines(a[0], func(line []byte) { lines = append(lines, append([]byte{}, line...)) })
	results := make([][]byte, len(lines))
	todo := make([]int, len(lines))
	for i := range todo {
		todo[i] = i
	}
	deaths := 0
	lost := func(i int) {
		o := decodeJSON(lines[i])
		res := newRes()
		res["panicked"], res["stage"], res["panic"] = 1, "process", "the process died or hung"
		o["out"] = res
		results[i], _ = json.Marshal(o)
	}
	for len(todo) > 0 {
		flying := codecChild(lines, todo, results, 8)
		if flying != nil {
			deaths++
			alone := false
			for _, i := range flying {
				if codecChild(lines, []int{i}, results, 1) != nil {
					alone = true
					deaths++
					lost(i)
				}
				if deaths > 6 {
					break
				}
			}
			if !alone {
				// only together
				for _, i := range flying {
					lost(i)
				}
			}
		}
		var rest []int
		for _, i := range todo {
			if results[i] == nil {
				if deaths > 6 {
					lost(i)
				} else {
					rest = append(rest, i)
				}
			}
		}
		if len(rest) == len(todo) {
			fatal("codec child made no progress")
		}
		todo = rest
	}
	f, err := os.Create(a[1])
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	for _, r := range results {
		w.Write(r)
		w.WriteByte('\n')
	}
	w.Flush()
	f.Close()
}

// codecChild runs the vectors todo in a process of their own, workers at a
// time, and returns those that were under way when it died (nil: it did not).
func codecChild(lines [][]byte, todo []int, results [][]byte, workers int) []int {
	cmd := exec.Command(os.Args[0], "codec1", fmt.Sprint(workers))
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	go func() {
		w := bufio.NewWriterSize(in, 1<<20)
		for _, i := range todo {
			fmt.Fprintf(w, "%d %s\n", i, lines[i])
		}
		w.Flush()
		in.Close()
	}()
	flying := map[int]bool{}
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Bytes()
		var i int
		x := bytes.IndexByte(l, ' ')
		if x < 2 {
			continue
		}
		i, err := strconv.Atoi(string(l[1:x]))
		if err != nil {
			continue
		}
		if l[0] == 'S' {
			flying[i] = true
		} else if l[0] == 'R' {
			results[i] = append([]byte{}, l[x+1:]...)
			delete(flying, i)
		}
	}
	if cmd.Wait() == nil && len(flying) == 0 {
		return nil
	}
	res := []int{}
	for i := range flying {
		res = append(res, i)
	}
	sort.Ints(res)
	return res
}

func cmdCodec1(a []string) {
	workers, _ := strconv.Atoi(a[0])
	var mu sync.Mutex
	w := bufio.NewWriterSize(os.Stdout, 1<<16)
	say := func(k string, i int, b []byte) {
		mu.Lock()
		fmt.Fprintf(w, "%s%d %s\n", k, i, b)
		w.Flush()
		mu.Unlock()
	}
	since := make([]int64, workers) // start of what each worker does, 0: idle
	go func() {
		for {
			time.Sleep(time.Second)
			for k := range since {
				if t := atomic.LoadInt64(&since[k]); t != 0 && time.Now().UnixNano()-t > 30e9 {
					os.Exit(3)
				}
			}
		}
	}()
	type job struct {
		i int
		o obj
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for j := range jobs {
				say("S", j.i, nil)
				atomic.StoreInt64(&since[k], time.Now().UnixNano())
				j.o["out"] = runVector(j.o)
				atomic.StoreInt64(&since[k], 0)
				b, err := json.Marshal(j.o)
				if err != nil {
					fatal(err)
				}
				say("R", j.i, b)
			}
		}(k)
	}
	readLines("/dev/stdin", func(line []byte) {
		x := bytes.IndexByte(line, ' ')
		i, err := strconv.Atoi(string(line[:x]))
		if err != nil {
			fatal(err)
		}
		jobs <- job{i, decodeJSON(line[x+1:])}
	})
	close(jobs)
	wg.Wait()
}

func init() { extraCmds["codec1"] = cmdCodec1 }

// input is what Decode is given: a buffer its caller uses again afterwards
func input(res obj, b []byte) ([]byte, func()) {
	orig := append([]byte{}, b...)
	return b, func() {
		if !bytes.Equal(orig, b) {
			res["touched"] = 1
		}
		for i := range b {
			b[i] ^= 0xA5
		}
	}
}

func try(res obj, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			res["panic"] = fmt.Sprint(what, ": ", r)
			res["panicked"] = 1
			if res["stage"] == "" {
				res["stage"] = what
			}
		}
	}()
	f()
}

func errFlag(e error) int {
	if e != nil {
		return 1
	}
	return 0
}

func newRes() obj {
	// every key always present, so that the specification can refer to them
	return obj{"panicked": 0, "panic": "", "stage": "", "touched": 0, "err": -1, "code": -1, "v": obj{}, "kind": "", "h": obj{},
		"enc1": []int{}, "enc2": []int{}, "eerr": -1, "len": -1, "v2": obj{}, "h2": obj{}, "derr": -1, "dcode": -1, "kept": 1}
}

// shape is the value that is about to be encoded, without the lengths the
// encoder works out itself.
func shape(d egts.BinaryData) string {
	var r string
	try(obj{}, "shape", func() {
		b, err := json.Marshal(d)
		if err == nil {
			r = lengthKey.ReplaceAllString(string(b), "")
		}
	})
	return r
}

var lengthKey = regexp.MustCompile(`"(SRL|RL)":[0-9]+,?`)

func header(p *egts.Package) string {
	return fmt.Sprint(p.ProtocolVersion, p.SecurityKeyID, p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority,
		p.HeaderEncoding, p.PacketIdentifier, p.PacketType, p.PeerAddress, p.RecipientAddress, p.TimeToLive)
}

// reencode encodes d twice, and decodes the result into fresh.
func reencode(res obj, d egts.BinaryData, fresh egts.BinaryData, render func(egts.BinaryData) interface{}) {
	try(res, "encode", func() {
		before := shape(d)
		defer func() {
			if shape(d) != before {
				res["kept"] = 0
			}
		}()
		l1 := int(d.Length())
		e1, err := d.Encode()
		res["eerr"] = errFlag(err)
		res["enc1"] = ints(e1)
		e2, err2 := d.Encode()
		if errFlag(err2) != errFlag(err) {
			res["eerr"] = 2
		}
		res["enc2"] = ints(e2)
		l2 := int(d.Length())
		res["len"] = l1
		if l1 != l2 {
			res["len"] = -2
		}
		if err == nil && fresh != nil {
			try(res, "decode of encoding", func() {
				b, used := input(res, append([]byte{}, e1...))
				res["derr"] = errFlag(fresh.Decode(b))
				used()
				res["v2"] = render(fresh)
			})
		}
	})
}

func runVector(o obj) obj {
	res := newRes()
	switch o["op"].(string) {
	case "dec":
		t := int(o["t"].(float64))
		d := newSub(t)
		b, used := input(res, toBytes(o["b"]))
		try(res, "decode", func() {
			err := d.Decode(b)
			used()
			res["err"] = errFlag(err)
			if err == nil {
				res["v"] = subOut(d)
				reencode(res, d, newSub(t), subOut)
			}
		})
	case "decr":
		d := &egts.ServiceDataSet{}
		render := func(d egts.BinaryData) interface{} { return sdsOut(*d.(*egts.ServiceDataSet)) }
		try(res, "decode", func() {
			b, used := input(res, toBytes(o["b"]))
			err := d.Decode(b)
			used()
			res["err"] = errFlag(err)
			if err == nil {
				res["v"] = render(d)
				reencode(res, d, &egts.ServiceDataSet{}, render)
			}
		})
	case "decrd":
		d := &egts.RecordDataSet{}
		render := func(d egts.BinaryData) interface{} { return rdOut(*d.(*egts.RecordDataSet)) }
		try(res, "decode", func() {
			b, used := input(res, toBytes(o["b"]))
			err := d.Decode(b)
			used()
			res["err"] = errFlag(err)
			if err == nil {
				res["v"] = render(d)
				reencode(res, d, &egts.RecordDataSet{}, render)
			}
		})
	case "decresp":
		d := &egts.PtResponse{}
		render := func(d egts.BinaryData) interface{} { _, v := bodyOut(d); return v }
		try(res, "decode", func() {
			b, used := input(res, toBytes(o["b"]))
			err := d.Decode(b)
			used()
			res["err"] = errFlag(err)
			if err == nil {
				res["v"] = render(d)
				reencode(res, d, &egts.PtResponse{}, render)
			}
		})
	case "decp":
		p := &egts.Package{}
		try(res, "decode", func() {
			b, used := input(res, toBytes(o["b"]))
			code, err := p.Decode(b)
			used()
			res["code"] = int(code)
			res["err"] = errFlag(err)
			if err == nil {
				res["h"] = hdrOut(p)
				res["kind"], res["v"] = bodyOut(p.ServicesFrameData)
				encodePackage(res, p)
			}
		})
	case "enc", "encfix":
		t := int(o["t"].(float64))
		d := subIn(t, o["v"].(map[string]interface{}))
		reencode(res, d, newSub(t), subOut)
	case "encp":
		p := packageIn(o)
		encodePackage(res, p)
	default:
		fatal("unknown op", o["op"])
	}
	return res
}

func packageIn(o obj) *egts.Package {
	p := &egts.Package{}
	structIn(p, o["h"].(map[string]interface{}), pkgSkip)
	mode := int(o["auto"].(float64))
	recs, _ := o["recs"].([]interface{})
	if mode == 2 {
		// left over from something else
		p.FrameDataLength, p.HeaderCheckSum, p.ServicesFrameDataCheckSum = 77, 1, 2
		p.HeaderLength = [...]byte{11, 16, 77, 255, 10, 0}[int(p.PacketIdentifier)%6]
		if p.PacketIdentifier%12 < 3 {
			p.HeaderLength = 16
			if p.Route == "1" {
				p.HeaderLength = 11
			}
			p.FrameDataLength = 65535
		}
	}
	switch int(o["h"].(map[string]interface{})["PT"].(float64)) {
	case 0:
		r := &egts.PtResponse{ResponsePacketID: uint16(o["rpid"].(float64)), ProcessingResult: uint8(o["pr"].(float64))}
		if len(recs) > 0 {
			r.SDR = sdsIn(recs, mode)
		}
		p.ServicesFrameData = r
	default:
		p.ServicesFrameData = sdsIn(recs, mode)
	}
	return p
}

func encodePackage(res obj, p *egts.Package) {
	try(res, "encode", func() {
		before := header(p) + shape(p.ServicesFrameData)
		defer func() {
			if header(p)+shape(p.ServicesFrameData) != before {
				res["kept"] = 0
			}
		}()
		e1, err := p.Encode()
		res["eerr"] = errFlag(err)
		res["enc1"] = ints(e1)
		if p.ServicesFrameData != nil {
			res["len"] = int(p.ServicesFrameData.Length())
		}
		e2, _ := p.Encode()
		res["enc2"] = ints(e2)
		if err == nil {
			try(res, "decode of encoding", func() {
				q := &egts.Package{}
				b, used := input(res, append([]byte{}, e1...))
				code, derr := q.Decode(b)
				used()
				res["dcode"] = int(code)
				res["derr"] = errFlag(derr)
				if derr == nil {
					res["h2"] = hdrOut(q)
					_, res["v2"] = bodyOut(q.ServicesFrameData)
				}
			})
		}
	})
}
