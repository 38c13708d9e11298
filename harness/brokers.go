package main

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	msgpack "gopkg.in/vmihailenco/msgpack.v2"
)

// A broker stands in for one of the systems records are handed to: it speaks
// as much of the protocol as a client needs that connects, authenticates and
// publishes.  How it treats connections and publishings is set from outside.
type broker struct {
	kind       string
	user, pass string // credentials it wants
	port       int
	mu         sync.Mutex
	ln         net.Listener
	conns      map[net.Conn]bool
	onConn     string              // ok, close, handshake, deny
	onPub      func(string) string // what to do with a publishing: ok, refuse, dropbefore, dropafter, slow
	got        func(dest, cred string, body []byte)
	event      func(what string)
	serve      func(c net.Conn, r *bufio.Reader, b *broker) error
}

var errDropped = errors.New("dropped")

func newBroker(kind, user, pass string) *broker {
	b := &broker{kind: kind, user: user, pass: pass, onConn: "ok", conns: map[net.Conn]bool{}}
	b.serve = map[string]func(net.Conn, *bufio.Reader, *broker) error{
		"redis": serveRedis, "nats": serveNats, "nsq": serveNsq, "postgresql": servePg, "rabbitmq": serveAmqp, "tarantool_queue": serveTarantool}[kind]
	if b.serve == nil {
		fatal("no broker of kind", kind)
	}
	b.onPub = func(string) string { return "ok" }
	b.got = func(string, string, []byte) {}
	b.event = func(string) {}
	return b
}

// holdPort takes a port that nobody listens on and keeps it for as long as this
// process runs, so that whoever still calls a broker that is down, or that has
// been put away, finds no other broker there.  The broker itself can listen on
// it: the socket that holds it does not listen and allows the address again.
func holdPort() int {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0
	}
	if syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) == nil &&
		syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) == nil {
		if a, err := syscall.Getsockname(fd); err == nil {
			if in, ok := a.(*syscall.SockaddrInet4); ok {
				return in.Port
			}
		}
	}
	syscall.Close(fd)
	return 0
}

func (b *broker) up() {
	if b.port == 0 {
		b.port = holdPort()
	}
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", b.port))
		if err == nil {
			b.mu.Lock()
			b.ln = l
			b.port = l.Addr().(*net.TCPAddr).Port
			b.mu.Unlock()
			go b.accept(l)
			return
		}
		if i > 200 {
			fatal("broker cannot listen:", err)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (b *broker) accept(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		b.mu.Lock()
		b.conns[c] = true
		how := b.onConn
		b.mu.Unlock()
		go func() {
			if how == "close" {
				b.event("broke")
			} else if how == "handshake" {
				b.event("broke")
				// speak up to the first thing the client says
				r := bufio.NewReader(c)
				if b.kind == "nats" {
					io.WriteString(c, "INFO {\"server_id\":\"x\",\"ver")
				} else {
					c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
					r.Peek(1)
				}
			} else if b.serve(c, bufio.NewReaderSize(c, 1<<16), b) == errDropped {
				b.event("broke")
			}
			b.mu.Lock()
			delete(b.conns, c)
			b.mu.Unlock()
			c.Close()
		}()
	}
}

func (b *broker) down() {
	b.mu.Lock()
	if b.ln != nil {
		b.ln.Close()
		b.ln = nil
	}
	for c := range b.conns {
		c.Close()
	}
	b.mu.Unlock()
}

func (b *broker) cut() {
	b.mu.Lock()
	for c := range b.conns {
		c.Close()
	}
	b.mu.Unlock()
}

// publish treats one publishing; answer false means: refuse.
func (b *broker) publish(dest, cred string, body []byte) (bool, error) {
	switch b.onPub(dest) {
	case "refuse":
		return false, nil
	case "dropbefore":
		return false, errDropped
	case "dropafter":
		b.got(dest, cred, body)
		return false, errDropped
	case "slow":
		time.Sleep(250 * time.Millisecond)
	}
	b.got(dest, cred, body)
	return true, nil
}

// ------------------------------------------------------------------- redis

func serveRedis(c net.Conn, r *bufio.Reader, b *broker) error {
	authed := b.pass == ""
	given, db := "", 0
	line := func() (string, error) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		l, err := line()
		if err != nil {
			return err
		}
		if !strings.HasPrefix(l, "*") {
			return errors.New("not an array")
		}
		n, _ := strconv.Atoi(l[1:])
		args := make([]string, n)
		for i := range args {
			if l, err = line(); err != nil {
				return err
			}
			k, _ := strconv.Atoi(strings.TrimPrefix(l, "$"))
			buf := make([]byte, k+2)
			if _, err := io.ReadFull(r, buf); err != nil {
				return err
			}
			args[i] = string(buf[:k])
		}
		if n == 0 {
			continue
		}
		switch strings.ToUpper(args[0]) {
		case "AUTH":
			given = args[n-1]
			if b.pass != "" && given == b.pass {
				authed = true
				io.WriteString(c, "+OK\r\n")
			} else {
				io.WriteString(c, "-WRONGPASS invalid username-password pair\r\n")
			}
		case "SELECT":
			db, _ = strconv.Atoi(args[1])
			if !authed {
				io.WriteString(c, "-NOAUTH Authentication required.\r\n")
			} else {
				io.WriteString(c, "+OK\r\n")
			}
		case "PUBLISH", "RPUSH", "LPUSH":
			if !authed {
				io.WriteString(c, "-NOAUTH Authentication required.\r\n")
				break
			}
			dest := args[1]
			if cmd := strings.ToUpper(args[0]); cmd != "PUBLISH" {
				dest = cmd + " " + dest
			}
			ok, err := b.publish(dest, given+"|"+strconv.Itoa(db), []byte(args[2]))
			if err != nil {
				return err
			}
			if ok {
				io.WriteString(c, ":1\r\n")
			} else {
				io.WriteString(c, "-OOM command not allowed when used memory > 'maxmemory'.\r\n")
			}
		case "PING":
			io.WriteString(c, "+PONG\r\n")
		default:
			io.WriteString(c, "-ERR unknown command\r\n")
		}
	}
}

// -------------------------------------------------------------------- nats

func serveNats(c net.Conn, r *bufio.Reader, b *broker) error {
	auth := "false"
	if b.user != "" || b.pass != "" {
		auth = "true"
	}
	fmt.Fprintf(c, "INFO {\"server_id\":\"X\",\"version\":\"2.7.2\",\"proto\":1,\"go\":\"go1.17\",\"host\":\"127.0.0.1\",\"port\":%d,\"headers\":true,\"auth_required\":%s,\"max_payload\":1048576}\r\n", b.port, auth)
	cred, ok := "|", b.user == "" && b.pass == ""
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return err
		}
		l = strings.TrimRight(l, "\r\n")
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var o struct{ User, Pass string }
			json.Unmarshal([]byte(l[7:]), &o)
			cred = o.User + "|" + o.Pass
			ok = o.User == b.user && o.Pass == b.pass
			if !ok {
				io.WriteString(c, "-ERR 'Authorization Violation'\r\n")
				return errors.New("denied")
			}
		case "PING":
			io.WriteString(c, "PONG\r\n")
		case "PUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			body := make([]byte, n+2)
			if _, err := io.ReadFull(r, body); err != nil {
				return err
			}
			good, err := b.publish(f[1], cred, body[:n])
			if err != nil {
				return err
			}
			if !good {
				fmt.Fprintf(c, "-ERR 'Permissions Violation for Publish to \"%s\"'\r\n", f[1])
			}
		}
	}
}

// --------------------------------------------------------------------- nsq

var nsqName = regexp.MustCompile(`^[.a-zA-Z0-9_-]{1,64}(#ephemeral)?$`)

func serveNsq(c net.Conn, r *bufio.Reader, b *broker) error {
	magic := make([]byte, 4)
	if _, err := io.ReadFull(r, magic); err != nil {
		return err
	}
	frame := func(t int, data string) {
		buf := make([]byte, 8)
		binary.BigEndian.PutUint32(buf, uint32(len(data)+4))
		binary.BigEndian.PutUint32(buf[4:], uint32(t))
		c.Write(append(buf, data...))
	}
	body := func() ([]byte, error) {
		n := make([]byte, 4)
		if _, err := io.ReadFull(r, n); err != nil {
			return nil, err
		}
		b := make([]byte, binary.BigEndian.Uint32(n))
		_, err := io.ReadFull(r, b)
		return b, err
	}
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return err
		}
		f := strings.Split(strings.TrimRight(l, "\n"), " ")
		switch f[0] {
		case "IDENTIFY":
			if _, err := body(); err != nil {
				return err
			}
			frame(0, "OK")
		case "PUB":
			p, err := body()
			if err != nil {
				return err
			}
			if len(f) != 2 || !nsqName.MatchString(f[1]) {
				frame(1, "E_BAD_TOPIC PUB topic name is not valid")
				break
			}
			if len(p) == 0 {
				frame(1, "E_BAD_MESSAGE PUB invalid message body size 0")
				break
			}
			good, err := b.publish(f[1], "", p)
			if err != nil {
				return err
			}
			if good {
				frame(0, "OK")
			} else {
				frame(1, "E_PUB_FAILED PUB failed")
			}
		case "CLS":
			frame(0, "CLOSE_WAIT")
		case "NOP":
		default:
			frame(1, "E_INVALID unknown command")
		}
	}
}

// -------------------------------------------------------------- postgresql

var insertInto = regexp.MustCompile(`(?is)^\s*insert\s+into\s+(\S+?)\s*\(\s*"?point"?\s*\)\s*values\s*\(\s*(.*?)\s*\)`)

var isInsert = regexp.MustCompile(`(?is)^\s*insert\b`)

func servePg(c net.Conn, r *bufio.Reader, b *broker) error {
	var params map[string]string
	for {
		head := make([]byte, 8)
		if _, err := io.ReadFull(r, head); err != nil {
			return err
		}
		n := int(binary.BigEndian.Uint32(head))
		if n < 8 || n > 100000 {
			return errors.New("startup")
		}
		rest := make([]byte, n-8)
		if _, err := io.ReadFull(r, rest); err != nil {
			return err
		}
		if binary.BigEndian.Uint32(head[4:]) == 80877103 { // SSLRequest
			c.Write([]byte("N"))
			continue
		}
		params = map[string]string{}
		p := strings.Split(string(rest), "\x00")
		for i := 0; i+1 < len(p); i += 2 {
			params[p[i]] = p[i+1]
		}
		break
	}
	msg := func(t byte, data []byte) []byte {
		buf := make([]byte, 5)
		buf[0] = t
		binary.BigEndian.PutUint32(buf[1:], uint32(len(data)+4))
		return append(buf, data...)
	}
	errMsg := func(sev, code, text string) []byte {
		return msg('E', []byte("S"+sev+"\x00C"+code+"\x00M"+text+"\x00\x00"))
	}
	read := func() (byte, []byte, error) {
		h := make([]byte, 5)
		if _, err := io.ReadFull(r, h); err != nil {
			return 0, nil, err
		}
		d := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
		_, err := io.ReadFull(r, d)
		return h[0], d, err
	}
	salt := []byte{1, 2, 3, 4}
	c.Write(msg('R', append([]byte{0, 0, 0, 5}, salt...)))
	t, d, err := read()
	if err != nil {
		return err
	}
	md := func(s string) string { x := md5.Sum([]byte(s)); return hex.EncodeToString(x[:]) }
	want := "md5" + md(md(b.pass+b.user)+string(salt))
	given := strings.TrimRight(string(d), "\x00")
	if t != 'p' || given != want || params["user"] != b.user {
		c.Write(errMsg("FATAL", "28P01", "password authentication failed"))
		return errors.New("denied")
	}
	cred := b.user + "|" + b.pass + "|" + params["database"]
	// inside a transaction rows wait for its COMMIT, which is what may be refused
	tx := byte('I')
	type row struct {
		dest string
		body []byte
	}
	var rows []row
	ready := func() { c.Write(msg('Z', []byte{tx})) }
	c.Write(msg('R', []byte{0, 0, 0, 0}))
	c.Write(msg('S', []byte("server_version\x0012.0\x00")))
	c.Write(msg('S', []byte("standard_conforming_strings\x00on\x00")))
	ready()
	query := ""
	var bound []byte
	skip := false
	cstr := func(d []byte) (string, []byte) {
		i := bytes.IndexByte(d, 0)
		if i < 0 {
			return "", nil
		}
		return string(d[:i]), d[i+1:]
	}
	insert := func(q string, body []byte) error { // run the insertion, answer
		m := insertInto.FindStringSubmatch(q)
		dest := "?" + q
		if m != nil {
			dest = strings.Trim(m[1], `"`)
			if body == nil {
				body = []byte(strings.Replace(strings.Trim(m[2], "'"), "''", "'", -1))
			}
		}
		if tx == 'E' {
			c.Write(errMsg("ERROR", "25P02", "current transaction is aborted"))
			skip = true
			return nil
		}
		if tx == 'T' {
			rows = append(rows, row{dest, body})
			c.Write(msg('C', []byte("INSERT 0 1\x00")))
			return nil
		}
		good, err := b.publish(dest, cred, body)
		if err != nil {
			return err
		}
		if good {
			c.Write(msg('C', []byte("INSERT 0 1\x00")))
		} else if strings.Contains(strings.ToUpper(q), "ON CONFLICT") {
			c.Write(msg('C', []byte("INSERT 0 0\x00"))) // the refused row is left out without an error
		} else {
			c.Write(errMsg("ERROR", "23514", "new row violates check constraint"))
			skip = true
		}
		return nil
	}
	other := func(q string) error { // any other statement
		verb := strings.ToUpper(strings.Fields(q + " ;")[0])
		verb = strings.TrimRight(verb, ";")
		switch {
		case verb == "BEGIN" || verb == "START":
			tx, verb = 'T', "BEGIN"
		case verb == "ROLLBACK" || verb == "ABORT" || (tx == 'E' && (verb == "COMMIT" || verb == "END")):
			tx, rows, verb = 'I', nil, "ROLLBACK"
		case verb == "COMMIT" || verb == "END":
			all := rows
			tx, rows, verb = 'I', nil, "COMMIT"
			for _, x := range all {
				good, err := b.publish(x.dest, cred, x.body)
				if err != nil {
					return err
				}
				if !good {
					c.Write(errMsg("ERROR", "23514", "new row violates check constraint"))
					skip = true
					return nil
				}
			}
		}
		c.Write(msg('C', []byte(verb+"\x00")))
		return nil
	}
	for {
		t, d, err := read()
		if err != nil {
			return err
		}
		if skip && tx == 'T' {
			tx, rows = 'E', nil
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'Q':
			q, _ := cstr(d)
			if insertInto.MatchString(q) {
				if err := insert(q, nil); err != nil {
					return err
				}
				skip = false
			} else if strings.HasPrefix(strings.ToUpper(q), "SELECT") {
				c.Write(msg('T', []byte("\x00\x01a\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x19\xff\xff\xff\xff\xff\xff\x00\x00")))
				c.Write(msg('D', []byte("\x00\x01\x00\x00\x00\x01x")))
				c.Write(msg('C', []byte("SELECT 1\x00")))
			} else if isInsert.MatchString(q) {
				c.Write(errMsg("ERROR", "42601", "syntax error"))
			} else if strings.Trim(q, " ;") == "" {
				c.Write(msg('I', nil))
			} else {
				if err := other(q); err != nil {
					return err
				}
				skip = false
			}
			ready()
		case 'P':
			_, rest := cstr(d)
			query, _ = cstr(rest)
			c.Write(msg('1', nil))
		case 'D':
			if len(d) > 0 && d[0] == 'S' {
				if strings.Contains(query, "$1") {
					c.Write(msg('t', []byte{0, 1, 0, 0, 0x0e, 0xda})) // jsonb
				} else {
					c.Write(msg('t', []byte{0, 0}))
				}
			}
			c.Write(msg('n', nil))
		case 'B':
			_, rest := cstr(d)
			_, rest = cstr(rest)
			bound = nil
			if len(rest) >= 2 {
				nf := int(binary.BigEndian.Uint16(rest))
				rest = rest[2+2*nf:]
				np := int(binary.BigEndian.Uint16(rest))
				rest = rest[2:]
				if np > 0 {
					l := int(int32(binary.BigEndian.Uint32(rest)))
					if l >= 0 {
						bound = append([]byte{}, rest[4:4+l]...)
					}
				}
			}
			c.Write(msg('2', nil))
		case 'E':
			if insertInto.MatchString(query) {
				if err := insert(query, bound); err != nil {
					return err
				}
			} else if isInsert.MatchString(query) {
				c.Write(errMsg("ERROR", "42601", "syntax error"))
				skip = true
			} else if err := other(query); err != nil {
				return err
			}
		case 'C':
			c.Write(msg('3', nil))
		case 'H':
		case 'S':
			skip = false
			ready()
		case 'X':
			return io.EOF
		}
	}
}

// -------------------------------------------------------------------- amqp

func serveAmqp(c net.Conn, r *bufio.Reader, b *broker) error {
	hd := make([]byte, 8)
	if _, err := io.ReadFull(r, hd); err != nil {
		return err
	}
	var wmu sync.Mutex
	frame := func(t byte, ch uint16, p []byte) {
		buf := make([]byte, 7)
		buf[0] = t
		binary.BigEndian.PutUint16(buf[1:], ch)
		binary.BigEndian.PutUint32(buf[3:], uint32(len(p)))
		wmu.Lock()
		c.Write(append(append(buf, p...), 0xCE))
		wmu.Unlock()
	}
	method := func(ch uint16, cl, m uint16, args []byte) {
		p := make([]byte, 4)
		binary.BigEndian.PutUint16(p, cl)
		binary.BigEndian.PutUint16(p[2:], m)
		frame(1, ch, append(p, args...))
	}
	short := func(s string) []byte { return append([]byte{byte(len(s))}, s...) }
	long := func(s string) []byte {
		l := make([]byte, 4)
		binary.BigEndian.PutUint32(l, uint32(len(s)))
		return append(l, s...)
	}
	getShort := func(d []byte) (string, []byte) {
		if len(d) == 0 || len(d) < 1+int(d[0]) {
			return "", nil
		}
		return string(d[1 : 1+int(d[0])]), d[1+int(d[0]):]
	}
	getLong := func(d []byte) (string, []byte) {
		if len(d) < 4 {
			return "", nil
		}
		n := int(binary.BigEndian.Uint32(d))
		if len(d) < 4+n {
			return "", nil
		}
		return string(d[4 : 4+n]), d[4+n:]
	}
	stop := make(chan struct{})
	defer close(stop)
	method(0, 10, 10, append(append([]byte{0, 9, 0, 0, 0, 0}, long("PLAIN")...), long("en_US")...))
	cred := ""
	type pub struct {
		dest string
		size uint64
		body []byte
	}
	pubs := map[uint16]*pub{}
	confirm := map[uint16]bool{}
	tag := map[uint16]uint64{}
	closing := map[uint16]bool{}
	for {
		h := make([]byte, 7)
		if _, err := io.ReadFull(r, h); err != nil {
			return err
		}
		ch := binary.BigEndian.Uint16(h[1:])
		p := make([]byte, binary.BigEndian.Uint32(h[3:])+1)
		if _, err := io.ReadFull(r, p); err != nil {
			return err
		}
		p = p[:len(p)-1]
		finish := func() error {
			q := pubs[ch]
			delete(pubs, ch)
			tag[ch]++
			if closing[ch] {
				return nil
			}
			good, err := b.publish(q.dest, cred, q.body)
			if err != nil {
				return err
			}
			t := make([]byte, 9)
			binary.BigEndian.PutUint64(t, tag[ch])
			if good && confirm[ch] {
				method(ch, 60, 80, t)
			} else if !good {
				if confirm[ch] && len(q.body)%2 == 0 {
					method(ch, 60, 120, t) // nack
				} else { // the exchange is gone
					closing[ch] = true
					a := append([]byte{0x01, 0x94}, short("NOT_FOUND - no exchange")...)
					method(ch, 20, 40, append(a, 0, 60, 0, 40))
				}
			}
			return nil
		}
		switch h[0] {
		case 8:
		case 1:
			cl, m := binary.BigEndian.Uint16(p), binary.BigEndian.Uint16(p[2:])
			a := p[4:]
			switch {
			case cl == 10 && m == 11: // StartOk
				_, a = getLong(a) // table
				_, a = getShort(a)
				resp, _ := getLong(a)
				f := strings.Split(resp, "\x00")
				if len(f) == 3 {
					cred = f[1] + "|" + f[2]
				}
				if cred != b.user+"|"+b.pass {
					x := append([]byte{0x01, 0x93}, short("ACCESS_REFUSED")...)
					method(0, 10, 50, append(x, 0, 0, 0, 0))
					return errors.New("denied")
				}
				method(0, 10, 30, []byte{0, 10, 0, 2, 0, 0, 0, 2}) // channels, frame 131072, heartbeat 2 s
			case cl == 10 && m == 31: // TuneOk
				go func() {
					for {
						select {
						case <-stop:
							return
						case <-time.After(700 * time.Millisecond):
							frame(8, 0, nil)
						}
					}
				}()
			case cl == 10 && m == 40:
				method(0, 10, 41, short(""))
			case cl == 10 && m == 50:
				method(0, 10, 51, nil)
				return io.EOF
			case cl == 20 && m == 10:
				method(ch, 20, 11, long(""))
			case cl == 20 && m == 40:
				method(ch, 20, 41, nil)
			case cl == 85 && m == 10:
				confirm[ch] = true
				method(ch, 85, 11, nil)
			case cl == 60 && m == 40:
				ex, rest := getShort(a[2:])
				key, _ := getShort(rest)
				pubs[ch] = &pub{dest: ex + "|" + key}
			case cl == 40 && m == 10: // exchange.declare
				method(ch, 40, 11, nil)
			case cl == 50 && m == 10:
				method(ch, 50, 11, append(short("q"), 0, 0, 0, 0, 0, 0, 0, 0))
			}
		case 2:
			if q := pubs[ch]; q != nil {
				q.size = binary.BigEndian.Uint64(p[4:])
				if q.size == 0 {
					if err := finish(); err != nil {
						return err
					}
				}
			}
		case 3:
			if q := pubs[ch]; q != nil {
				q.body = append(q.body, p...)
				if uint64(len(q.body)) >= q.size {
					if err := finish(); err != nil {
						return err
					}
				}
			}
		}
	}
}

// --------------------------------------------------------------- tarantool

func serveTarantool(c net.Conn, r *bufio.Reader, b *broker) error {
	salt := make([]byte, 32)
	for i := range salt {
		salt[i] = byte(i * 7)
	}
	g := fmt.Sprintf("%-63s\n%-63s\n", "Tarantool 1.10.0 (Binary) 0", base64.StdEncoding.EncodeToString(salt))
	io.WriteString(c, g)
	sum := func(x ...[]byte) []byte {
		h := sha1.New()
		for _, y := range x {
			h.Write(y)
		}
		return h.Sum(nil)
	}
	reply := func(code int, sync uint64, body map[int]interface{}) {
		var buf bytes.Buffer
		e := msgpack.NewEncoder(&buf)
		e.EncodeMapLen(2)
		e.EncodeUint64(0)
		e.EncodeUint64(uint64(code))
		e.EncodeUint64(1)
		e.EncodeUint64(sync)
		e.EncodeMapLen(len(body))
		for k, v := range body {
			e.EncodeUint64(uint64(k))
			e.Encode(v)
		}
		p := []byte{0xce, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(p[1:], uint32(buf.Len()))
		c.Write(append(p, buf.Bytes()...))
	}
	text := func(v interface{}) []byte {
		switch x := v.(type) {
		case string:
			return []byte(x)
		case []byte:
			return x
		}
		return []byte(fmt.Sprint(v))
	}
	num := func(v interface{}) uint64 {
		n, _ := strconv.ParseUint(fmt.Sprint(v), 10, 64)
		return n
	}
	user, cred := "guest", "|"
	for {
		lead, err := r.ReadByte()
		if err != nil {
			return err
		}
		n := 0
		switch {
		case lead < 0x80:
			n = int(lead)
		case lead == 0xcc:
			x, err := r.ReadByte()
			if err != nil {
				return err
			}
			n = int(x)
		case lead == 0xcd:
			x := make([]byte, 2)
			if _, err := io.ReadFull(r, x); err != nil {
				return err
			}
			n = int(binary.BigEndian.Uint16(x))
		case lead == 0xce:
			x := make([]byte, 4)
			if _, err := io.ReadFull(r, x); err != nil {
				return err
			}
			n = int(binary.BigEndian.Uint32(x))
		default:
			return errors.New("length")
		}
		p := make([]byte, n)
		if _, err := io.ReadFull(r, p); err != nil {
			return err
		}
		d := msgpack.NewDecoder(bytes.NewReader(p))
		d.DecodeMapFunc = func(d *msgpack.Decoder) (interface{}, error) {
			l, err := d.DecodeMapLen()
			if err != nil {
				return nil, err
			}
			m := map[interface{}]interface{}{}
			for i := 0; i < l; i++ {
				k, err := d.DecodeInterface()
				if err != nil {
					return nil, err
				}
				v, err := d.DecodeInterface()
				if err != nil {
					return nil, err
				}
				m[fmt.Sprint(k)] = v
			}
			return m, nil
		}
		hv, err := d.DecodeInterface()
		if err != nil {
			return err
		}
		head, _ := hv.(map[interface{}]interface{})
		body := map[interface{}]interface{}{}
		if bv, err := d.DecodeInterface(); err == nil {
			body, _ = bv.(map[interface{}]interface{})
		}
		sync := num(head["1"])
		switch num(head["0"]) {
		case 7:
			user = string(text(body["35"]))
			t, _ := body["33"].([]interface{})
			if len(t) == 2 {
				s1 := sum([]byte(b.pass))
				s2 := sum(s1)
				s3 := sum(salt[:20], s2)
				for i := range s1 {
					s1[i] ^= s3[i]
				}
				if user == b.user && bytes.Equal(text(t[1]), s1) {
					cred = user + "|" + b.pass
					reply(0, sync, map[int]interface{}{})
					break
				}
			}
			reply(0x8000|47, sync, map[int]interface{}{0x31: "Incorrect password supplied for user"})
		case 64:
			reply(0, sync, map[int]interface{}{})
		case 6, 10:
			fn := string(text(body["34"]))
			args, _ := body["33"].([]interface{})
			if fn == "queue.tube.:put" || !strings.HasPrefix(fn, "queue.tube.") || !strings.HasSuffix(fn, ":put") || len(args) == 0 {
				reply(0x8000|33, sync, map[int]interface{}{0x31: "Procedure is not defined"})
				break
			}
			if b.user != "" && cred == "|" {
				reply(0x8000|42, sync, map[int]interface{}{0x31: "Execute access is denied"})
				break
			}
			good, err := b.publish(strings.TrimSuffix(strings.TrimPrefix(fn, "queue.tube."), ":put"), cred, text(args[0]))
			if err != nil {
				return err
			}
			if good {
				reply(0, sync, map[int]interface{}{0x30: []interface{}{[]interface{}{uint64(1), "r", "x"}}})
			} else {
				reply(0x8000|32, sync, map[int]interface{}{0x31: "put failed"})
			}
		default:
			reply(0, sync, map[int]interface{}{0x30: []interface{}{}})
		}
	}
}
