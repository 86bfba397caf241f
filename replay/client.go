package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

type ItemArg struct {
	Key, Value, Server string
	Flags              *string
	Expiration         int
	Cas                uint64 `json:",string"`
}

type Step struct {
	Op     string   `json:"op"`
	Key    string   `json:"key"`
	Keys   []string `json:"keys"`
	Item   *ItemArg `json:"item"`
	Delta  int64    `json:"delta,string"`
	Exp    int64    `json:"exp,string"`
	Reply  string   `json:"reply"`
	Expect int      `json:"expect"`
	Close  bool     `json:"close"` // the peer closes after the reply
	Chunk  int      `json:"chunk"`
}

type ClientCase struct {
	Proto   string `json:"proto"`
	Name    string `json:"name"`
	Timeout int    `json:"timeout"`
	Steps   []Step `json:"steps"`
	Noise   bool   `json:"noise"` // another client is used between the parts of the replies
}

// noiseClient is another client with its own server
type noiseClient struct {
	p     *peer
	c     client.Server
	proto string
	n     int
	dead  bool
}

func newNoise(proto string) *noiseClient {
	p := newPeer()
	c, err := newClient(proto, "noise", p.l.Addr().String(), 0)
	return &noiseClient{p: p, c: c, proto: proto, dead: err != nil}
}

func (m *noiseClient) run() {
	if m.dead {
		return
	}
	m.n++
	set := m.n%2 == 0
	done := make(chan struct{})
	go func() {
		guard(func() {
			if set {
				m.c.Set(&client.Item{Key: "noise", Value: []byte("another value"), Flags: []byte{9, 8, 7, 6}, Expiration: 77})
			} else {
				m.c.Get("noise")
			}
		})
		close(done)
	}()
	var reply string
	switch {
	case m.proto == "Text" && set:
		reply = "STORED\r\n"
	case m.proto == "Text":
		reply = "VALUE noise 3735928559 8 987654321\r\nNOISE!!!\r\nEND\r\n"
	case m.proto == "Meta" && set:
		reply = "HD\r\n"
	case m.proto == "Meta":
		reply = "VA 8 knoise f3735928559 c987654321 t4321 s8\r\nNOISE!!!\r\n"
	case set:
		reply = "\x81\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x11\x12\x13\x14\x15\x16\x17\x18"
	default:
		reply = "\x81\x00\x00\x00\x04\x00\x00\x00\x00\x00\x00\x0c\x00\x00\x00\x00\x11\x12\x13\x14\x15\x16\x17\x18\xde\xad\xbe\xefNOISE!!!"
	}
	m.p.collect(8, done)
	m.p.take()
	send(m.p.conn(), []byte(reply), 0)
	select {
	case <-done:
	case <-time.After(500 * time.Millisecond):
		m.dead = true
	}
}

const idlePolls = 2000
const patience = 8 * time.Second

// peer is a scripted server
type peer struct {
	l    net.Listener
	mu   sync.Mutex
	cond *sync.Cond
	c    net.Conn
	got  []byte
	n    int
	eof  bool

	stray int // bytes that arrived on a connection that is not the last one
	addr  string
	deaf  bool // accepts and never reads
}

var sockets int64

func newPeer() *peer {
	l, err := net.Listen("unix", fmt.Sprintf("@vreplay-%d-%d", os.Getpid(), atomic.AddInt64(&sockets, 1)))
	if err != nil {
		panic(err)
	}
	p := &peer{l: l, addr: l.Addr().String()}
	p.cond = sync.NewCond(&p.mu)
	go p.accept(l)
	return p
}

func (p *peer) accept(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		p.c = c
		p.n++
		p.eof = false
		p.cond.Broadcast()
		deaf := p.deaf
		p.mu.Unlock()
		if !deaf {
			go p.read(c)
		}
	}
}

// down makes the server unreachable, up reachable again
func (p *peer) down() { p.l.Close() }
func (p *peer) up() {
	l, err := net.Listen("unix", p.addr)
	if err != nil {
		panic(err)
	}
	p.mu.Lock()
	p.l = l
	p.mu.Unlock()
	go p.accept(l)
}

func (p *peer) read(c net.Conn) {
	buf := make([]byte, 1<<16)
	for {
		n, err := c.Read(buf)
		p.mu.Lock()
		if p.c == c {
			p.got = append(p.got, buf[:n]...)
		} else {
			p.stray += n
		}
		if err != nil && p.c == c {
			p.eof = true
		}
		p.cond.Broadcast()
		p.mu.Unlock()
		if err != nil {
			return
		}
	}
}

// collect waits until want bytes arrived, or nothing more arrives
func (p *peer) collect(want int, done <-chan struct{}) {
	polls, lastn := 0, -1
	for {
		p.mu.Lock()
		n, eof := len(p.got), p.eof
		p.mu.Unlock()
		if n >= want {
			return
		}
		if n != lastn {
			polls, lastn = 0, n
		}
		polls++ // counted in polls: a stalled machine must not look like a silent client
		if eof || polls > idlePolls {
			return
		}
		select {
		case <-done:
			return
		default:
		}
		if polls < 200 {
			time.Sleep(50 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

func (p *peer) take() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.got
	p.got = nil
	return b
}

func (p *peer) conn() net.Conn {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := 0; p.c == nil && i < 1000; i++ {
		p.mu.Unlock()
		time.Sleep(5 * time.Millisecond)
		p.mu.Lock()
	}
	return p.c
}

func (p *peer) close() {
	p.l.Close()
	p.mu.Lock()
	if p.c != nil {
		p.c.Close()
	}
	p.mu.Unlock()
}

func newClient(proto, name, addr string, timeout int, opts ...client.ServerOpt) (client.Server, error) {
	ctx := context.Background()
	switch proto {
	case "Text":
		s, err := client.NewServerWithTextProtocol(ctx, name, "unix", addr, opts...)
		if err != nil {
			return nil, err
		}
		s.Timeout = time.Duration(timeout) * time.Millisecond
		return s, nil
	case "Meta":
		s, err := client.NewServerWithMetaProtocol(ctx, name, "unix", addr, opts...)
		if err != nil {
			return nil, err
		}
		s.Timeout = time.Duration(timeout) * time.Millisecond
		return s, nil
	case "Binary":
		s, err := client.NewServerWithBinaryProtocol(ctx, name, "unix", addr, opts...)
		if err != nil {
			return nil, err
		}
		s.Timeout = time.Duration(timeout) * time.Millisecond
		return s, nil
	}
	panic("protocol " + proto)
}

const spareLen = 24

func spare(b []byte) []byte {
	r := make([]byte, len(b), len(b)+spareLen)
	copy(r, b)
	s := r[len(r):cap(r)]
	for i := range s {
		s[i] = byte(0xA0 + i%32)
	}
	return r
}

func mkItem(a *ItemArg) *client.Item {
	it := &client.Item{Key: string(unb64(a.Key)), Value: spare(unb64(a.Value)), Expiration: a.Expiration, Cas: a.Cas, Server: string(unb64(a.Server))}
	if a.Flags != nil {
		it.Flags = spare(unb64(*a.Flags))
	}
	return it
}

type snap struct {
	it      client.Item
	v, f    []byte
	present bool
}

func full(b []byte) []byte { return append([]byte(nil), b[:cap(b)]...) }

func snapItem(it *client.Item) snap {
	if it == nil {
		return snap{}
	}
	return snap{it: *it, v: full(it.Value), f: full(it.Flags), present: true}
}

func (s snap) same(it *client.Item) bool {
	if !s.present {
		return true
	}
	return it.Key == s.it.Key && it.Server == s.it.Server && it.Expiration == s.it.Expiration && it.Cas == s.it.Cas &&
		len(it.Value) == len(s.it.Value) && len(it.Flags) == len(s.it.Flags) && (it.Flags == nil) == (s.it.Flags == nil) &&
		bytes.Equal(full(it.Value), s.v) && bytes.Equal(full(it.Flags), s.f)
}

// runOp performs one operation of the Server interface
func runOp(c client.Server, st *Step, it *client.Item, keys []string) []interface{} {
	key := string(unb64(st.Key))
	switch st.Op {
	case "Get":
		r, err := c.Get(key)
		return []interface{}{r, err}
	case "GetMulti":
		r, err := c.GetMulti(keys...)
		return []interface{}{r, err}
	case "Set":
		return []interface{}{c.Set(it)}
	case "Add":
		return []interface{}{c.Add(it)}
	case "Replace":
		return []interface{}{c.Replace(it)}
	case "Delete":
		return []interface{}{c.Delete(key)}
	case "Increment":
		r, err := c.Increment(key, int(st.Delta), int(st.Exp))
		return []interface{}{r, err}
	case "Decrement":
		r, err := c.Decrement(key, int(st.Delta), int(st.Exp))
		return []interface{}{r, err}
	case "Touch":
		return []interface{}{c.Touch(key, int(st.Exp))}
	case "Flush":
		return []interface{}{c.Flush()}
	case "Version":
		r, err := c.Version()
		return []interface{}{r, err}
	case "Reconnect":
		return []interface{}{c.Reconnect()}
	case "Close":
		return []interface{}{c.Close()}
	}
	panic("operation " + st.Op)
}

func dumpAll(vs []interface{}) []interface{} {
	out := []interface{}{}
	for _, v := range vs {
		if v == nil {
			out = append(out, nil)
			continue
		}
		if e, ok := v.(error); ok {
			out = append(out, dumpErr(e))
			continue
		}
		out = append(out, dump(reflect.ValueOf(v)))
	}
	return out
}

func mkKeys(ks []string) []string {
	out := make([]string, 0, len(ks)+2)
	for _, k := range ks {
		out = append(out, string(unb64(k)))
	}
	return out
}

func equalKeys(a []string, ks []string) bool {
	if len(a) != len(ks) {
		return false
	}
	for i := range a {
		if a[i] != string(unb64(ks[i])) {
			return false
		}
	}
	return true
}

func send(c net.Conn, b []byte, chunk int) {
	if c == nil {
		return
	}
	// a client that never reads must not hold up the peer
	c.SetWriteDeadline(time.Now().Add(8 * time.Second))
	defer c.SetWriteDeadline(time.Time{})
	if chunk <= 0 || chunk >= len(b) {
		c.Write(b)
		return
	}
	for len(b) > 0 {
		n := chunk
		if n > len(b) {
			n = len(b)
		}
		if _, err := c.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
		if len(b) > 0 {
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func runClient(raw json.RawMessage) interface{} {
	var cc ClientCase
	if err := json.Unmarshal(raw, &cc); err != nil {
		panic(err)
	}
	p := newPeer()
	defer p.close()
	c, err := newClient(cc.Proto, string(unb64(cc.Name)), p.l.Addr().String(), cc.Timeout)
	if err != nil {
		return Val{"setup": err.Error()}
	}
	var noise *noiseClient
	if cc.Noise {
		noise = newNoise(cc.Proto)
		defer noise.p.close()
	}
	steps := []interface{}{}
	kept := [][]interface{}{}
	blocked := false
	for i := range cc.Steps {
		st := &cc.Steps[i]
		var it *client.Item
		if st.Item != nil {
			it = mkItem(st.Item)
		}
		keys := mkKeys(st.Keys)
		before := snapItem(it)
		var res []interface{}
		var pmsg string
		done := make(chan struct{})
		go func() {
			pmsg = guard(func() { res = runOp(c, st, it, keys) })
			close(done)
		}()
		conn := p.conn()
		p.collect(st.Expect, done)
		early := p.take()
		if noise != nil {
			noise.run()
			rp := unb64(st.Reply)
			for _, k := range []int{len(rp) / 3, 14, len(rp) - len(rp)/4} {
				if k > 0 && k < len(rp) && conn != nil {
					send(conn, rp[:k], 0)
					rp = rp[k:]
					time.Sleep(300 * time.Microsecond)
					noise.run()
				}
			}
			send(conn, rp, 0)
		} else {
			send(conn, unb64(st.Reply), st.Chunk)
		}
		if st.Close && conn != nil {
			if t, ok := conn.(*net.UnixConn); ok {
				t.CloseWrite()
			}
		}
		out := Val{}
		select {
		case <-done:
		case <-time.After(patience):
			out["blocked"] = true
			blocked = true
		}
		if !blocked {
			late := p.take()
			out["sent"] = b64(append(append([]byte(nil), early...), late...))
			out["early"] = len(early)
			if pmsg != "" {
				out["panic"] = pmsg
			} else {
				out["res"] = dumpAll(res)
				kept = append(kept, res)
			}
			if !before.same(it) || !equalKeys(keys, st.Keys) {
				out["mutated"] = true
			}
		}
		steps = append(steps, out)
		if blocked || pmsg != "" {
			break
		}
	}
	r := Val{"steps": steps}
	if noise != nil {
		noise.run()
		noise.run()
	}
	if !blocked {
		later := []interface{}{}
		for _, k := range kept {
			later = append(later, dumpAll(k))
		}
		r["later"] = later
		r["extra"] = b64(p.take())
	}
	return r
}

// runLock starts one operation, withholds its reply, starts another operation
// and observes whether the second one uses the connection meanwhile.
type LockCase struct {
	Proto string `json:"proto"`
	A, B  Step
}

func runLock(raw json.RawMessage) interface{} {
	var lc LockCase
	if err := json.Unmarshal(raw, &lc); err != nil {
		panic(err)
	}
	p := newPeer()
	defer p.close()
	c, err := newClient(lc.Proto, "s", p.l.Addr().String(), 0)
	if err != nil {
		return Val{"setup": err.Error()}
	}
	start := func(st *Step) chan string {
		var it *client.Item
		if st.Item != nil {
			it = mkItem(st.Item)
		}
		keys := mkKeys(st.Keys)
		ch := make(chan string, 1)
		go func() { ch <- guard(func() { runOp(c, st, it, keys) }) }()
		return ch
	}
	conn := p.conn()
	never := make(chan struct{})
	a := start(&lc.A)
	p.collect(lc.A.Expect, never)
	first := p.take()
	b := start(&lc.B)
	time.Sleep(40 * time.Millisecond)
	inter := p.take()
	// a part of the reply, then again
	rep := unb64(lc.A.Reply)
	if len(rep) > 1 {
		conn.Write(rep[:1])
		time.Sleep(10 * time.Millisecond)
		inter = append(inter, p.take()...)
		conn.Write(rep[1:])
	} else {
		conn.Write(rep)
	}
	out := Val{"first": len(first), "inter": b64(inter)}
	select {
	case m := <-a:
		out["a"] = m
	case <-time.After(patience):
		out["blocked"] = "a"
		return out
	}
	if len(inter) == 0 {
		p.collect(lc.B.Expect, never)
		conn.Write(unb64(lc.B.Reply))
		select {
		case m := <-b:
			out["b"] = m
		case <-time.After(patience):
			out["blocked"] = "b"
		}
	}
	return out
}

func init() {
	kinds["client"] = runClient
	kinds["lock"] = runLock
}
