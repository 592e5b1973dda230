package xdb_test

import (
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"
)

// pgServer speaks enough of the PostgreSQL protocol, on the loopback
// interface, to accept connections and to notify them.
type pgServer struct {
	ln     net.Listener
	mu     sync.Mutex
	params map[string]string // of the last connection
	pwd    string
	refuse bool
	logins int
	conns  map[net.Conn]map[string]bool // what each connection listens to
	cmds   []string
}

func newPGServer() (*pgServer, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &pgServer{ln: ln, conns: map[net.Conn]map[string]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s, nil
}

func (s *pgServer) addr() string { return s.ln.Addr().String() }
func (s *pgServer) close()       { _ = s.ln.Close() }

func pgMsg(t byte, body []byte) []byte {
	b := []byte{t, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(b[1:], uint32(len(body)+4))
	return append(b, body...)
}

func (s *pgServer) serve(c net.Conn) {
	defer func() { _ = c.Close() }()
	var h [4]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return
	}
	body := make([]byte, binary.BigEndian.Uint32(h[:])-4)
	if _, err := io.ReadFull(c, body); err != nil {
		return
	}
	if binary.BigEndian.Uint32(body) != 196608 {
		return
	}
	kv := strings.Split(string(body[4:]), "\x00")
	ps := map[string]string{}
	for i := 0; i+1 < len(kv) && kv[i] != ""; i += 2 {
		ps[kv[i]] = kv[i+1]
	}
	_, _ = c.Write(pgMsg('R', []byte{0, 0, 0, 3}))
	t, pw, err := pgRead(c)
	if err != nil || t != 'p' {
		return
	}
	s.mu.Lock()
	s.logins++
	s.params, s.pwd = ps, strings.TrimRight(string(pw), "\x00")
	refuse := s.refuse
	s.mu.Unlock()
	if refuse {
		_, _ = c.Write(pgMsg('E', []byte("SFATAL\x00C28P01\x00Mrefused\x00\x00")))
		return
	}
	_, _ = c.Write(append(pgMsg('R', []byte{0, 0, 0, 0}), pgMsg('Z', []byte{'I'})...))
	s.mu.Lock()
	s.conns[c] = map[string]bool{}
	s.mu.Unlock()
	defer func() { s.mu.Lock(); delete(s.conns, c); s.mu.Unlock() }()
	for {
		t, b, err := pgRead(c)
		if err != nil || t == 'X' {
			return
		}
		if t != 'Q' {
			continue
		}
		q := strings.TrimRight(string(b), "\x00")
		s.mu.Lock()
		s.cmds = append(s.cmds, q)
		var out []byte
		name := func(p string) string {
			return strings.ReplaceAll(strings.Trim(strings.TrimSuffix(strings.TrimPrefix(q, p), ";"), `"`), `""`, `"`)
		}
		switch {
		case strings.HasPrefix(q, "LISTEN "):
			s.conns[c][name("LISTEN ")] = true
			out = pgMsg('C', []byte("LISTEN\x00"))
		case strings.HasPrefix(q, "UNLISTEN "):
			delete(s.conns[c], name("UNLISTEN "))
			out = pgMsg('C', []byte("UNLISTEN\x00"))
		default:
			out = pgMsg('I', nil)
		}
		_, _ = c.Write(append(out, pgMsg('Z', []byte{'I'})...))
		s.mu.Unlock()
	}
}

func pgRead(c net.Conn) (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return 0, nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
	_, err := io.ReadFull(c, b)
	return h[0], b, err
}

// notify sends a notification to the connections listening to the channel.
func (s *pgServer) notify(channel, payload string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for c, l := range s.conns {
		if l[channel] {
			n++
			b := []byte{0, 0, 0, 1}
			b = append(append(append(append(b, channel...), 0), payload...), 0)
			_, _ = c.Write(pgMsg('A', b))
		}
	}
	return n
}
