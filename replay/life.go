package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

// HistStep is an operation, or an event of the life of the client
type HistStep struct {
	Act  string `json:"act"` // op, close, reconnect, failed, leftover
	Step Step   `json:"step"`
}

type HistCase struct {
	Proto   string     `json:"proto"`
	Timeout int        `json:"timeout"`
	Life    []HistStep `json:"life"` // what happens before the operations
	Ops     []HistStep `json:"ops"`
}

func (p *peer) count() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.n
}

// until polls a condition; a stalled machine must not look like a failure
func until(f func() bool) bool {
	for i := 0; i < 4000; i++ {
		if f() {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

func (p *peer) exchange(c client.Server, st *Step) (Val, bool) {
	var it *client.Item
	if st.Item != nil {
		it = mkItem(st.Item)
	}
	keys := mkKeys(st.Keys)
	before := snapItem(it)
	var res []interface{}
	var pmsg string
	done := make(chan struct{})
	go func() {
		pmsg = guard(func() { res = runOp(c, st, it, keys) })
		close(done)
	}()
	p.collect(st.Expect, done)
	early := p.take()
	send(p.conn(), unb64(st.Reply), st.Chunk)
	out := Val{}
	select {
	case <-done:
	case <-time.After(patience):
		out["blocked"] = true
		return out, false
	}
	late := p.take()
	out["sent"] = b64(append(append([]byte(nil), early...), late...))
	out["early"] = len(early)
	if pmsg != "" {
		out["panic"] = pmsg
		return out, false
	}
	out["res"] = dumpAll(res)
	if !before.same(it) || !equalKeys(keys, st.Keys) {
		out["mutated"] = true
	}
	return out, true
}

func hist(hc *HistCase, life []HistStep) Val {
	p := newPeer()
	defer p.close()
	c, err := newClient(hc.Proto, "srv", p.addr, hc.Timeout)
	if err != nil {
		return Val{"setup": err.Error()}
	}
	until(func() bool { return p.count() == 1 })
	ev := []interface{}{}
	for i := range life {
		n := p.count()
		e := Val{"act": life[i].Act}
		ev = append(ev, e)
		var err error
		var msg string
		done := make(chan struct{})
		switch life[i].Act {
		case "leftover":
			// an operation whose reply is followed by further bytes
			r, ok := p.exchange(c, &life[i].Step)
			e["op"] = r
			if !ok {
				return Val{"events": ev, "stopped": true}
			}
			time.Sleep(2 * time.Millisecond)
			continue
		case "close":
			go func() { msg = guard(func() { err = c.Close() }); close(done) }()
		case "failed":
			p.down()
			go func() { msg = guard(func() { err = c.Reconnect() }); close(done) }()
		case "reconnect":
			go func() { msg = guard(func() { err = c.Reconnect() }); close(done) }()
		default:
			panic(life[i].Act)
		}
		select {
		case <-done:
		case <-time.After(patience):
			e["blocked"] = true
			return Val{"events": ev, "stopped": true}
		}
		if msg != "" {
			e["panic"] = msg
			return Val{"events": ev, "stopped": true}
		}
		e["err"] = err != nil
		switch life[i].Act {
		case "failed":
			p.up()
		case "reconnect":
			if err != nil {
				return Val{"events": ev, "stopped": true}
			}
			until(func() bool { return p.count() > n })
			p.take()
		case "close":
			e["open"] = !until(func() bool {
				p.mu.Lock()
				defer p.mu.Unlock()
				return p.eof
			})
		}
	}
	p.mu.Lock()
	p.stray = 0
	p.mu.Unlock()
	steps := []interface{}{}
	for i := range hc.Ops {
		r, ok := p.exchange(c, &hc.Ops[i].Step)
		steps = append(steps, r)
		if !ok {
			break
		}
	}
	p.mu.Lock()
	stray := p.stray
	p.mu.Unlock()
	return Val{"events": ev, "steps": steps, "stray": stray}
}

func runHist(raw json.RawMessage) interface{} {
	var hc HistCase
	if err := json.Unmarshal(raw, &hc); err != nil {
		panic(err)
	}
	r := hist(&hc, hc.Life)
	if len(hc.Ops) > 1 {
		r["base"] = hist(&hc, nil)
	}
	return r
}

// ---- timeouts: the server does not answer

type TimeoutCase struct {
	Proto string `json:"proto"`
	Step  Step   `json:"step"`
	Part  string `json:"part"`  // the part of the reply that arrives
	Deaf  bool   `json:"deaf"`  // the server does not read
	Drip  string `json:"drip"`  // sent again and again
	Warm  bool   `json:"warm"`  // a complete exchange and a reconnect come first
	Queue bool   `json:"queue"` // another operation waits for the lock and gets its reply
	Ms    int    `json:"ms"`    // the timeout
}

func runTimeout(raw json.RawMessage) interface{} {
	var tc TimeoutCase
	if err := json.Unmarshal(raw, &tc); err != nil {
		panic(err)
	}
	p := newPeer()
	defer p.close()
	if tc.Deaf {
		p.mu.Lock()
		p.deaf = true
		p.mu.Unlock()
	}
	if tc.Ms == 0 {
		tc.Ms = 150
	}
	c, err := newClient(tc.Proto, "srv", p.addr, tc.Ms)
	if err != nil {
		return Val{"setup": err.Error()}
	}
	st := &tc.Step
	if tc.Warm {
		until(func() bool { return p.count() == 1 })
		if _, ok := p.exchange(c, st); !ok {
			return Val{"setup": "the first exchange fails"}
		}
		if err := c.Reconnect(); err != nil {
			return Val{"setup": "reconnect: " + err.Error()}
		}
		until(func() bool { return p.count() == 2 })
		p.take()
	}
	var it *client.Item
	if st.Item != nil {
		it = mkItem(st.Item)
		if tc.Deaf {
			it.Value = make([]byte, 8<<20)
		}
	}
	keys := mkKeys(st.Keys)
	var res []interface{}
	var pmsg string
	done := make(chan struct{})
	go func() {
		pmsg = guard(func() { res = runOp(c, st, it, keys) })
		close(done)
	}()
	var second []interface{}
	queued := make(chan struct{})
	if tc.Queue {
		p.collect(st.Expect, done)
		time.Sleep(20 * time.Millisecond)
		go func() {
			guard(func() { second = runOp(c, st, it, keys) })
			close(queued)
		}()
		select {
		case <-done:
		case <-time.After(patience):
			return Val{"blocked": true}
		}
		p.take()
		p.collect(st.Expect, queued)
		send(p.conn(), unb64(st.Reply), 0)
	}
	if tc.Part != "" {
		p.collect(st.Expect, done)
		send(p.conn(), unb64(tc.Part), 0)
	}
	if tc.Drip != "" {
		p.collect(st.Expect, done)
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(10 * time.Millisecond):
					send(p.conn(), unb64(tc.Drip), 0)
				}
			}
		}()
	}
	select {
	case <-done:
	case <-time.After(patience):
		return Val{"blocked": true}
	}
	if pmsg != "" {
		return Val{"panic": pmsg}
	}
	out := Val{"res": dumpAll(res)}
	if tc.Queue {
		select {
		case <-queued:
			out["second"] = dumpAll(second)
		case <-time.After(patience):
			out["second"] = "blocked"
		}
		return out
	}
	if !tc.Deaf {
		// the lock is free again
		again := make(chan struct{})
		go func() {
			guard(func() { runOp(c, st, it, keys) })
			close(again)
		}()
		select {
		case <-again:
		case <-time.After(patience):
			out["again"] = "blocked"
		}
	}
	return out
}

// ---- heartbeat

type BeatCase struct {
	Proto    string `json:"proto"`
	Interval int    `json:"interval"` // ms; 0: the options of the package
	Auto     bool   `json:"auto"`
	Scenario string `json:"scenario"`
	Reply    string `json:"reply"` // to a version request
	Request  string `json:"request"`
}

var beatID int64

// labelled goroutines: those started by the client
func labelled(id string) int {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	n := 0
	for _, l := range bytes.Split(b.Bytes(), []byte("\n")) {
		if bytes.Contains(l, []byte("labels:")) && bytes.Contains(l, []byte(id+"\"")) {
			n++
		}
	}
	return n
}

// responder answers version requests and records them
type responder struct {
	mu     sync.Mutex
	l      net.Listener
	addr   string
	conns  []net.Conn
	eofs   map[net.Conn]bool
	probes map[net.Conn]int
	total  int
	mute   bool
	bad    bool
	req    []byte
	reply  []byte
	other  string
}

func (r *responder) listen() {
	l, err := net.Listen("unix", r.addr)
	if err != nil {
		panic(err)
	}
	r.mu.Lock()
	r.l = l
	r.mu.Unlock()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r.mu.Lock()
			r.conns = append(r.conns, c)
			r.mu.Unlock()
			go r.serve(c)
		}
	}()
}

func (r *responder) serve(c net.Conn) {
	buf := make([]byte, 4096)
	var in []byte
	for {
		n, err := c.Read(buf)
		r.mu.Lock()
		in = append(in, buf[:n]...)
		k := 0
		for len(in) >= len(r.req) && bytes.Equal(in[:len(r.req)], r.req) {
			in = in[len(r.req):]
			r.probes[c]++
			r.total++
			if !r.mute {
				k++
			}
		}
		if len(in) > len(r.req) {
			r.other = fmt.Sprintf("%q", in[:len(r.req)])
		}
		if err != nil {
			r.eofs[c] = true
		}
		bad := r.bad
		rep := r.reply
		r.mu.Unlock()
		for ; k > 0; k-- {
			if bad {
				c.Write([]byte("ERROR\r\n\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"))
			} else {
				c.Write(rep)
			}
		}
		if err != nil {
			return
		}
	}
}

func (r *responder) get(f func() bool) func() bool {
	return func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		return f()
	}
}

func runBeat(raw json.RawMessage) interface{} {
	var bc BeatCase
	if err := json.Unmarshal(raw, &bc); err != nil {
		panic(err)
	}
	id := fmt.Sprintf("beat-%d", atomic.AddInt64(&beatID, 1))
	p := newPeer()
	p.close()
	r := &responder{addr: p.addr + "b", eofs: map[net.Conn]bool{}, probes: map[net.Conn]int{}, req: unb64(bc.Request), reply: unb64(bc.Reply)}
	r.listen()
	defer func() {
		r.mu.Lock()
		r.l.Close()
		for _, c := range r.conns {
			c.Close()
		}
		r.mu.Unlock()
	}()
	opts := []client.ServerOpt{func(o *client.ServerOption) {
		o.HeartbeatInterval = time.Duration(bc.Interval) * time.Millisecond
		o.EnableAutoReconnect = bc.Auto
	}}
	if bc.Interval == 0 {
		opts = []client.ServerOpt{client.EnableHeartbeat}
		if bc.Auto {
			opts = append(opts, client.EnableAutoReconnect)
		}
	}
	var c client.Server
	var err error
	pprof.Do(context.Background(), pprof.Labels("case", id), func(context.Context) {
		c, err = newClient(bc.Proto, "srv", r.addr, 0, opts...)
	})
	if err != nil {
		return Val{"setup": err.Error()}
	}
	until(r.get(func() bool { return len(r.conns) == 1 }))
	out := Val{}
	finish := func() Val {
		if m := guard(func() { c.Close() }); m != "" {
			out["closepanic"] = m
		}
		out["stopped"] = until(func() bool { return labelled(id) == 0 })
		r.mu.Lock()
		out["other"] = r.other
		out["conns"] = len(r.conns)
		r.mu.Unlock()
		return out
	}
	first := func() net.Conn {
		r.mu.Lock()
		defer r.mu.Unlock()
		return r.conns[0]
	}()
	probing := func(n int) bool {
		t := 0
		r.get(func() bool { t = r.total; return true })()
		return until(r.get(func() bool { return r.total >= t+n }))
	}
	switch bc.Scenario {
	case "probe":
		out["ok"] = probing(4)
		return finish()
	case "rare":
		// no probe before the interval is over
		time.Sleep(60 * time.Millisecond)
		r.mu.Lock()
		out["ok"] = r.total == 0
		r.mu.Unlock()
		return finish()
	case "default":
		out["ok"] = probing(1)
		return finish()
	case "fail", "bad":
		probing(2)
		r.mu.Lock()
		if bc.Scenario == "fail" {
			r.conns[0].Close()
		} else {
			r.bad = true
		}
		r.mu.Unlock()
		if bc.Auto {
			ok := until(r.get(func() bool { return len(r.conns) >= 2 }))
			r.get(func() bool { r.bad = false; return true })()
			out["ok"] = ok && probing(3)
			return finish()
		}
		if bc.Scenario == "bad" {
			// closed on failure
			out["ok"] = until(r.get(func() bool { return r.eofs[first] }))
		} else {
			out["ok"] = true
		}
		out["stopped"] = until(func() bool { return labelled(id) == 0 })
		var e error
		out["panic"] = guard(func() { _, e = c.Version() })
		out["err"] = e != nil
		r.mu.Lock()
		out["conns"] = len(r.conns)
		r.mu.Unlock()
		return out
	case "outage":
		// the server is away for several intervals, then it is back
		probing(1)
		r.mu.Lock()
		r.l.Close()
		r.conns[0].Close()
		r.mu.Unlock()
		time.Sleep(time.Duration(bc.Interval) * 6 * time.Millisecond)
		r.listen()
		ok := until(r.get(func() bool { return len(r.conns) >= 2 }))
		out["ok"] = ok && probing(3)
		return finish()
	case "closeduring":
		// Close while the probe waits for its answer
		probing(1)
		r.get(func() bool { r.mute = true; return true })()
		probing(1)
		time.Sleep(3 * time.Millisecond)
		finish()
		var e error
		r.get(func() bool { r.mute = false; return true })()
		out["panic"] = guard(func() { _, e = c.Version() })
		out["err"] = e != nil
		out["ok"] = true
		r.mu.Lock()
		out["conns"] = len(r.conns)
		r.mu.Unlock()
		return out
	}
	panic(bc.Scenario)
}

func init() {
	kinds["life"] = runHist
	kinds["timeout"] = runTimeout
	kinds["stall"] = runTimeout
	kinds["free"] = runTimeout
	kinds["beat"] = runBeat
}
