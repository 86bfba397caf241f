package main

import (
	"encoding/json"
	"errors"
	"io"
	"net"
	"reflect"
	"strconv"
	"sync"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"
)

type SrvErr struct {
	Kind   string `json:"kind"` // ItemNotFound, ItemExists, memcached, other
	Status uint16 `json:"status"`
	Msg    string `json:"msg"`
}

type SrvResp struct {
	Key   string  `json:"key"`
	Err   *SrvErr `json:"err"`
	Flags *string `json:"flags"`
	Value *string `json:"value"`
	Cas   int64   `json:"cas,string"`
	TTL   int64   `json:"ttl,string"`
}

type SrvAnswer struct {
	Refuse *string   `json:"refuse"`
	List   []SrvResp `json:"list"`
}

type ServerCase struct {
	Chunks  []string    `json:"chunks"`
	Answers []SrvAnswer `json:"answers"` // further requests: one response without an error
	Piece   int         `json:"piece"`   // bytes delivered by one Read (0: as many as fit)
	FailOut int         `json:"failout"` // writes fail from this many bytes on (-1: never)
	ReadErr bool        `json:"readerr"` // the input ends with an error other than EOF
	Noise   bool        `json:"noise"`   // other connections are served in between, at every read, write and call of the handler
}

func (e *SrvErr) make() error {
	if e == nil {
		return nil
	}
	switch e.Kind {
	case "ItemNotFound":
		return merrors.ItemNotFound
	case "ItemExists":
		return merrors.ItemExists
	case "memcached":
		return &merrors.MemcachedError{Status: e.Status, Message: string(unb64(e.Msg))}
	}
	return errors.New(string(unb64(e.Msg)))
}

func (a SrvAnswer) make() ([]*server.Response, error) {
	if a.Refuse != nil {
		return nil, errors.New(string(unb64(*a.Refuse)))
	}
	var l []*server.Response
	for _, r := range a.List {
		x := &server.Response{Key: string(unb64(r.Key)), Error: r.Err.make(), Cas: r.Cas, TTL: r.TTL}
		if r.Flags != nil {
			x.Flags = unb64(*r.Flags)
		}
		if r.Value != nil {
			x.Value = unb64(*r.Value)
		}
		l = append(l, x)
	}
	return l, nil
}

// memConn is the connection of a scripted client
type memConn struct {
	mu     sync.Mutex
	chunks [][]byte
	at     int
	began  bool
	piece  int
	out    []byte
	marks  []int // bytes written when the first byte of a chunk was read
	fail   int
	rerr   error
	ended  bool
	failed bool
	late   string
	closed chan struct{}
	once   sync.Once
	isc    bool
	noise  func()
}

func (c *memConn) Read(p []byte) (int, error) {
	if c.noise != nil {
		c.noise()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.isc {
		c.late = "reads a connection it has closed"
		return 0, net.ErrClosed
	}
	if c.ended || c.failed {
		c.late = "reads a connection that has failed or ended"
	}
	if len(p) == 0 {
		return 0, nil
	}
	for c.at < len(c.chunks) && len(c.chunks[c.at]) == 0 {
		c.at++
		c.began = false
	}
	if c.at >= len(c.chunks) {
		c.ended = true
		return 0, c.rerr
	}
	if !c.began {
		c.began = true
		for len(c.marks) <= c.at {
			c.marks = append(c.marks, len(c.out))
		}
	}
	b := c.chunks[c.at]
	if c.piece > 0 && len(b) > c.piece {
		b = b[:c.piece]
	}
	n := copy(p, b)
	c.chunks[c.at] = c.chunks[c.at][n:]
	return n, nil
}

func (c *memConn) Write(p []byte) (int, error) {
	if c.noise != nil {
		c.noise()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.isc {
		return 0, net.ErrClosed
	}
	if c.fail >= 0 && len(c.out)+len(p) > c.fail {
		n := c.fail - len(c.out)
		if n < 0 {
			n = 0
		}
		c.out = append(c.out, p[:n]...)
		c.failed = true
		return n, errors.New("write: broken pipe")
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *memConn) Close() error {
	c.mu.Lock()
	c.isc = true
	c.mu.Unlock()
	c.once.Do(func() { close(c.closed) })
	return nil
}

type memAddr struct{}

func (memAddr) Network() string                    { return "mem" }
func (memAddr) String() string                     { return "mem" }
func (c *memConn) LocalAddr() net.Addr             { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr            { return memAddr{} }
func (c *memConn) SetDeadline(time.Time) error     { return nil }
func (c *memConn) SetReadDeadline(time.Time) error { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error {
	return nil
}

type memListener struct {
	c    *memConn
	n    int
	done chan struct{}
	more chan *memConn
}

func (l *memListener) Accept() (net.Conn, error) {
	l.n++
	if l.n == 1 {
		return l.c, nil
	}
	select {
	case c := <-l.more:
		return c, nil
	case <-l.done:
		return nil, errors.New("listener closed")
	}
}

// noiseMaker serves requests of other connections between two steps of the connection under test.
type noiseMaker struct {
	l    *memListener
	n    int
	dead bool
}

var noises = [][]byte{
	[]byte("gets noise noise2 noise3 noise4\r\nset noise 4294967295 9 7\r\nabcdefg\r\nincr noise 987654321\r\ndelete noise\r\n"),
	append(append([]byte{0x80, 1, 0, 5, 8, 0, 0, 0, 0, 0, 0, 23, 1, 2, 3, 4, 9, 9, 9, 9, 9, 9, 9, 9}, "\xff\xee\xdd\xcc\x00\x00\x00\x63noise0123456789"...),
		append([]byte{0x80, 0x0d, 0, 5, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "noise"...)...),
	[]byte("mg noise c f k s t v\r\nms noise 5 C77 F66 T55\r\nvwxyz\r\nmd noise\r\n"),
}

func (m *noiseMaker) run() {
	if m.dead || m.n >= 300 {
		return
	}
	b := noises[m.n%len(noises)]
	m.n++
	c := &memConn{chunks: [][]byte{append([]byte(nil), b...)}, fail: -1, rerr: io.EOF, closed: make(chan struct{})}
	t := time.NewTimer(300 * time.Millisecond)
	defer t.Stop()
	select {
	case m.l.more <- c:
	case <-t.C:
		m.dead = true
		return
	}
	select {
	case <-c.closed:
	case <-t.C:
		m.dead = true
	}
}
func (l *memListener) Close() error   { return nil }
func (l *memListener) Addr() net.Addr { return memAddr{} }

type scriptHandler struct {
	mu      sync.Mutex
	answers []SrvAnswer
	reqs    []*server.Request
	shots   []interface{}
	given   [][]*server.Response
	before  []string
	noise   func()
}

func noisy(r *server.Request) bool {
	return r != nil && (r.Key == "noise" || len(r.Keys) > 3 && r.Keys[0] == "noise")
}

func (h *scriptHandler) ServeRequest(r *server.Request) ([]*server.Response, error) {
	if h.noise != nil {
		if noisy(r) {
			return []*server.Response{{Key: "noise", Value: []byte("the value of another connection"), Flags: []byte{9, 8, 7, 6}, Cas: 0x0102030405060708, TTL: 4321}}, nil
		}
		h.noise()
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if r == nil {
		h.shots = append(h.shots, Val{"nil": true})
		return nil, errors.New("no request")
	}
	n := len(h.reqs)
	h.reqs = append(h.reqs, r)
	h.shots = append(h.shots, dump(reflect.ValueOf(r)))
	if n >= len(h.answers) {
		return []*server.Response{{}}, nil
	}
	l, err := h.answers[n].make()
	h.given = append(h.given, l)
	b, _ := json.Marshal(dump(reflect.ValueOf(l)))
	h.before = append(h.before, string(b))
	return l, err
}

func runServer(raw json.RawMessage) interface{} {
	var c ServerCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return Val{"setup": err.Error()}
	}
	conn := &memConn{piece: c.Piece, fail: c.FailOut, rerr: io.EOF, closed: make(chan struct{})}
	if c.ReadErr {
		conn.rerr = errors.New("read: connection reset by peer")
	}
	for _, x := range c.Chunks {
		conn.chunks = append(conn.chunks, unb64(x))
	}
	h := &scriptHandler{answers: c.Answers, shots: []interface{}{}}
	l := &memListener{c: conn, done: make(chan struct{}), more: make(chan *memConn)}
	if c.Noise {
		m := &noiseMaker{l: l}
		conn.noise, h.noise = m.run, m.run
	}
	s := &server.Server{Handler: h}
	fin := make(chan struct{})
	go func() {
		_ = s.Serve(l)
		close(fin)
	}()
	res := Val{}
	select {
	case <-conn.closed:
	case <-time.After(patience):
		res["notclosed"] = true
	}
	close(l.done)
	select {
	case <-fin:
	case <-time.After(patience):
		res["stuck"] = true
	}
	conn.mu.Lock()
	defer conn.mu.Unlock()
	h.mu.Lock()
	defer h.mu.Unlock()
	later := []interface{}{}
	for _, r := range h.reqs {
		later = append(later, dump(reflect.ValueOf(r)))
	}
	for i, g := range h.given {
		b, _ := json.Marshal(dump(reflect.ValueOf(g)))
		if string(b) != h.before[i] {
			res["mutated"] = true
		}
	}
	marks := []string{}
	for _, m := range conn.marks {
		marks = append(marks, strconv.Itoa(m))
	}
	res["reqs"], res["later"], res["out"], res["marks"], res["late"], res["ended"] = h.shots, later, b64(conn.out), marks, conn.late, conn.ended || conn.failed
	return res
}

func init() { kinds["server"] = runServer }
