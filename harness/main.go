// Command egtsdrv is the codec-free driver of the conformance checks: it plays
// inputs produced from the TLA+ specification into the real code of
// /repo and records what happened as newline-delimited JSON, which TLC then
// checks against the specification.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
)

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

func readLines(path string, fn func([]byte)) {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			fn(sc.Bytes())
		}
	}
	if err := sc.Err(); err != nil {
		fatal(err)
	}
}

type lineWriter struct {
	f *os.File
	w *bufio.Writer
	e *json.Encoder
}

func newLineWriter(path string) *lineWriter {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	return &lineWriter{f, w, e}
}
func (l *lineWriter) put(v interface{}) {
	if err := l.e.Encode(v); err != nil {
		fatal(err)
	}
}
func (l *lineWriter) close() { l.w.Flush(); l.f.Close() }

func main() {
	if len(os.Args) < 2 {
		fatal("usage: egtsdrv <command> ...")
	}
	cmds := map[string]func([]string){
		"codec": cmdCodec,
	}
	for k, v := range extraCmds {
		cmds[k] = v
	}
	c, ok := cmds[os.Args[1]]
	if !ok {
		fatal("unknown command", os.Args[1])
	}
	c(os.Args[2:])
}

var extraCmds = map[string]func([]string){}
