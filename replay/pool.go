package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/proxy"
	"go.f110.dev/go-memcached/server"
)

// Answer is what a server answers to an operation
type Answer struct {
	Err     string `json:"err"` // "", ItemNotFound, ItemExists, other
	Counter int64  `json:"counter,string"`
	Version string `json:"version"`
	Miss    int    `json:"miss"` // GetMulti: every Miss-th key is missing
	Extra   bool   `json:"extra"`
	NilList bool   `json:"nillist"`
	Item    *ItemArg
}

type PoolCase struct {
	Pool      string            `json:"pool"` // single, replica, proxy
	Primary   []string          `json:"primary"`
	Secondary []string          `json:"secondary"`
	Step      Step              `json:"step"`
	Req       *ProxyReq         `json:"req"`
	Answers   map[string]Answer `json:"answers"` // "P0.Get" or "P.Get" or "Get"
}

type ProxyReq struct {
	Op     int      `json:"op"`
	Key    string   `json:"key"`
	Keys   []string `json:"keys"`
	Value  string   `json:"value"`
	Flags  *string  `json:"flags"`
	Meta   bool     `json:"meta"`
	Flag   int64    `json:"flag,string"`
	Exp    int64    `json:"exp,string"`
	Cas    uint64   `json:"cas,string"`
	Opcode string   `json:"opcode"`
}

type callLog struct {
	mu    sync.Mutex
	calls []interface{}
	items map[*client.Item]int
	given []itemAt
	errs  map[error]int
}

type itemAt struct {
	it *client.Item
	d  string
}

func (l *callLog) item(it *client.Item) interface{} {
	if it == nil {
		return nil
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	id, ok := l.items[it]
	if !ok {
		id = len(l.items)
		l.items[it] = id
	}
	return Val{"id": id, "v": dump(reflect.ValueOf(*it))}
}

func (l *callLog) list(ls []*client.Item) interface{} {
	out := []interface{}{}
	for _, it := range ls {
		out = append(out, l.item(it))
	}
	return Val{"items": out, "nil": ls == nil}
}

func (l *callLog) err(e error) interface{} {
	if e == nil {
		return nil
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	d := dumpErr(e).(Val)
	if reflect.TypeOf(e).Comparable() {
		id, ok := l.errs[e]
		if !ok {
			id = len(l.errs)
			l.errs[e] = id
		}
		d["id"] = id
	}
	return d
}

func (l *callLog) value(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case *client.Item:
		return l.item(x)
	case []*client.Item:
		return l.list(x)
	case error:
		return l.err(x)
	}
	return dump(reflect.ValueOf(v))
}

func (l *callLog) add(ring string, i int, op string, args, res []interface{}) {
	r := []interface{}{}
	for _, v := range res {
		r = append(r, l.value(v))
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	l.calls = append(l.calls, Val{"ring": ring, "i": i, "op": op, "args": args, "res": r})
	for _, v := range res {
		switch x := v.(type) {
		case *client.Item:
			if x != nil {
				l.given = append(l.given, itemAt{x, js(dump(reflect.ValueOf(*x)))})
			}
		case []*client.Item:
			for _, it := range x {
				l.given = append(l.given, itemAt{it, js(dump(reflect.ValueOf(*it)))})
			}
		}
	}
}

func js(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

type fakeServer struct {
	name string
	i    int
	ring string
	log  *callLog
	ans  func(ring string, i int, op string) Answer
	mu   sync.Mutex
	n    int
}

var errOther = errors.New("the server failed")

func (f *fakeServer) answer(op string) (Answer, error) {
	a := f.ans(f.ring, f.i, op)
	switch a.Err {
	case "ItemNotFound":
		return a, merrors.ItemNotFound
	case "ItemExists":
		return a, merrors.ItemExists
	case "other":
		return a, errors.New("server " + f.name + " failed")
	}
	return a, nil
}

func sb(s string) interface{} { return Val{"s": b64([]byte(s))} }
func si(i int) interface{}    { return Val{"i": strconv.Itoa(i)} }

func itemArg(it *client.Item) interface{} {
	if it == nil {
		return nil
	}
	return dump(reflect.ValueOf(*it))
}

func (f *fakeServer) Name() string { return f.name }

func (f *fakeServer) mk(key string, a Answer, k int) *client.Item {
	f.mu.Lock()
	f.n++
	n := f.n
	f.mu.Unlock()
	it := &client.Item{Key: key, Value: []byte("value of " + key + " at " + f.name), Flags: []byte{0, 0, byte(n), byte(f.i + k)}, Expiration: 100 + n, Cas: uint64(n*1000 + f.i*10 + k)}
	if a.Item != nil {
		x := mkItem(a.Item)
		it.Value, it.Flags, it.Expiration, it.Cas = x.Value, x.Flags, x.Expiration, x.Cas
	}
	return it
}

func (f *fakeServer) Get(key string) (*client.Item, error) {
	a, err := f.answer("Get")
	var it *client.Item
	if err == nil {
		it = f.mk(key, a, 0)
	}
	f.log.add(f.ring, f.i, "Get", []interface{}{sb(key)}, []interface{}{it, err})
	return it, err
}

func (f *fakeServer) GetMulti(keys ...string) ([]*client.Item, error) {
	a, err := f.answer("GetMulti")
	var res []*client.Item
	if !a.NilList {
		res = make([]*client.Item, 0, len(keys)+3)
	}
	ks := []interface{}{}
	for i, k := range keys {
		ks = append(ks, sb(k))
		if err == nil && !(a.Miss > 0 && i%a.Miss == a.Miss-1) {
			res = append(res, f.mk(k, a, i))
		}
	}
	if err != nil {
		res = nil
	}
	f.log.add(f.ring, f.i, "GetMulti", []interface{}{Val{"l": ks}}, []interface{}{res, err})
	return res, err
}

func (f *fakeServer) store(op string, it *client.Item) error {
	_, err := f.answer(op)
	f.log.add(f.ring, f.i, op, []interface{}{itemArg(it)}, []interface{}{err})
	return err
}
func (f *fakeServer) Set(it *client.Item) error     { return f.store("Set", it) }
func (f *fakeServer) Add(it *client.Item) error     { return f.store("Add", it) }
func (f *fakeServer) Replace(it *client.Item) error { return f.store("Replace", it) }
func (f *fakeServer) Delete(key string) error {
	_, err := f.answer("Delete")
	f.log.add(f.ring, f.i, "Delete", []interface{}{sb(key)}, []interface{}{err})
	return err
}
func (f *fakeServer) count(op, key string, delta, exp int) (int64, error) {
	a, err := f.answer(op)
	n := a.Counter
	f.log.add(f.ring, f.i, op, []interface{}{sb(key), si(delta), si(exp)}, []interface{}{n, err})
	return n, err
}
func (f *fakeServer) Increment(key string, delta, exp int) (int64, error) {
	return f.count("Increment", key, delta, exp)
}
func (f *fakeServer) Decrement(key string, delta, exp int) (int64, error) {
	return f.count("Decrement", key, delta, exp)
}
func (f *fakeServer) Touch(key string, exp int) error {
	_, err := f.answer("Touch")
	f.log.add(f.ring, f.i, "Touch", []interface{}{sb(key), si(exp)}, []interface{}{err})
	return err
}
func (f *fakeServer) plain(op string) error {
	_, err := f.answer(op)
	f.log.add(f.ring, f.i, op, []interface{}{}, []interface{}{err})
	return err
}
func (f *fakeServer) Flush() error     { return f.plain("Flush") }
func (f *fakeServer) Reconnect() error { return f.plain("Reconnect") }
func (f *fakeServer) Close() error     { return f.plain("Close") }
func (f *fakeServer) Version() (string, error) {
	a, err := f.answer("Version")
	v := a.Version + f.name
	if err != nil {
		v = ""
	}
	f.log.add(f.ring, f.i, "Version", []interface{}{}, []interface{}{v, err})
	return v, err
}

// metaPeer serves one fake server over the meta protocol
type metaPeer struct {
	l net.Listener
	f *fakeServer
}

func newMetaPeer(f *fakeServer) *metaPeer {
	l, err := net.Listen("unix", fmt.Sprintf("@vreplay-%d-%d", os.Getpid(), atomic.AddInt64(&sockets, 1)))
	if err != nil {
		panic(err)
	}
	p := &metaPeer{l, f}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p
}

func (p *metaPeer) serve(c net.Conn) {
	defer c.Close()
	r, w := bufio.NewReader(c), bufio.NewWriter(c)
	var multi []string
	hit := func(it *client.Item, key bool) {
		fl := uint32(0)
		if len(it.Flags) == 4 {
			fl = uint32(it.Flags[0])<<24 | uint32(it.Flags[1])<<16 | uint32(it.Flags[2])<<8 | uint32(it.Flags[3])
		}
		k := ""
		if key {
			k = " k" + it.Key
		}
		t := strconv.Itoa(it.Expiration)
		if it.Expiration == 0 {
			t = "-1"
		}
		fmt.Fprintf(w, "VA %d f%d%s c%d t%s\r\n%s\r\n", len(it.Value), fl, k, it.Cas, t, it.Value)
	}
	status := func(err error, ok string) {
		switch err {
		case nil:
			w.WriteString(ok)
		case merrors.ItemNotFound:
			w.WriteString("NF \r\n")
		case merrors.ItemExists:
			w.WriteString("EX \r\n")
		default:
			w.WriteString("SERVER_ERROR failed\r\n")
		}
	}
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		t := strings.Fields(line)
		if len(t) == 0 {
			return
		}
		data := func(n int) []byte {
			b := make([]byte, n+2)
			io.ReadFull(r, b)
			return b[:n]
		}
		switch t[0] {
		case "mg":
			opts := " " + strings.Join(t[2:], " ") + " "
			if strings.Contains(opts, " k ") {
				multi = append(multi, t[1])
				continue
			}
			if len(t) == 3 && strings.HasPrefix(t[2], "T") {
				n, _ := strconv.Atoi(t[2][1:])
				status(p.f.Touch(t[1], n), "HD \r\n")
				break
			}
			it, err := p.f.Get(t[1])
			switch err {
			case nil:
				hit(it, false)
			case merrors.ItemNotFound:
				w.WriteString("EN\r\n")
			default:
				w.WriteString("SERVER_ERROR failed\r\n")
			}
		case "mn":
			res, err := p.f.GetMulti(multi...)
			if err != nil {
				w.WriteString("SERVER_ERROR failed\r\n")
			} else {
				got := map[string]*client.Item{}
				for _, it := range res {
					got[it.Key] = it
				}
				for _, k := range multi {
					if it := got[k]; it != nil {
						hit(it, true)
					} else {
						w.WriteString("EN\r\n")
					}
				}
				w.WriteString("MN\r\n")
			}
			multi = nil
		case "ms":
			it := &client.Item{Key: t[1]}
			n, _ := strconv.Atoi(t[2])
			for _, f := range t[3:] {
				v, _ := strconv.ParseUint(f[1:], 10, 64)
				s, _ := strconv.ParseInt(f[1:], 10, 64)
				switch f[0] {
				case 'F':
					it.Flags = []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
				case 'T':
					it.Expiration = int(s)
				case 'C':
					it.Cas = v
				}
			}
			it.Value = data(n)
			status(p.f.Set(it), "HD\r\n")
		case "add", "replace", "set":
			it := &client.Item{Key: t[1]}
			v, _ := strconv.ParseUint(t[2], 10, 64)
			it.Flags = []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
			it.Expiration, _ = strconv.Atoi(t[3])
			n, _ := strconv.Atoi(t[4])
			it.Value = data(n)
			op := map[string]string{"add": "Add", "replace": "Replace", "set": "Set"}[t[0]]
			var err error
			if op == "Add" {
				err = p.f.Add(it)
			} else if op == "Replace" {
				err = p.f.Replace(it)
			} else {
				err = p.f.Set(it)
			}
			if err == nil {
				w.WriteString("STORED\r\n")
			} else {
				w.WriteString("SERVER_ERROR failed\r\n")
			}
		case "md":
			status(p.f.Delete(t[1]), "HD\r\n")
		case "incr", "decr":
			d, _ := strconv.Atoi(t[2])
			op := map[string]string{"incr": "Increment", "decr": "Decrement"}[t[0]]
			n, err := p.f.count(op, t[1], d, 0)
			switch err {
			case nil:
				fmt.Fprintf(w, "%d\r\n", n)
			case merrors.ItemNotFound:
				w.WriteString("NOT_FOUND\r\n")
			default:
				w.WriteString("SERVER_ERROR failed\r\n")
			}
		default:
			w.WriteString("ERROR\r\n")
		}
		w.Flush()
	}
}

func runPool(raw json.RawMessage) interface{} {
	var pc PoolCase
	if err := json.Unmarshal(raw, &pc); err != nil {
		panic(err)
	}
	log := &callLog{items: map[*client.Item]int{}, errs: map[error]int{}}
	ans := func(ring string, i int, op string) Answer {
		for _, k := range []string{fmt.Sprintf("%s%d.%s", ring, i, op), ring + "." + op, op} {
			if a, ok := pc.Answers[k]; ok {
				return a
			}
		}
		return Answer{}
	}
	fakes := func(names []string, ring string) []*fakeServer {
		out := []*fakeServer{}
		for i, n := range names {
			out = append(out, &fakeServer{name: string(unb64(n)), i: i, ring: ring, log: log, ans: ans})
		}
		return out
	}
	out := Val{}
	var target client.Server
	var px *proxy.ReplicaProxy
	var cleanup []func()
	defer func() {
		for _, f := range cleanup {
			f()
		}
	}()
	switch pc.Pool {
	case "single":
		srvs := []client.Server{}
		for _, f := range fakes(pc.Primary, "P") {
			srvs = append(srvs, f)
		}
		var p *client.SinglePool
		if m := guard(func() { p, _ = client.NewSinglePool(srvs...) }); m != "" {
			return Val{"panic": m}
		}
		target = poolServer{p}
	default:
		dial := func(names []string, ring string) []*client.ServerWithMetaProtocol {
			r := []*client.ServerWithMetaProtocol{}
			for _, f := range fakes(names, ring) {
				p := newMetaPeer(f)
				c, err := newClient("Meta", f.name, p.l.Addr().String(), 0)
				if err != nil {
					panic(err)
				}
				m := c.(*client.ServerWithMetaProtocol)
				cleanup = append(cleanup, func() { m.Close(); p.l.Close() })
				r = append(r, m)
			}
			return r
		}
		a, b := dial(pc.Primary, "P"), dial(pc.Secondary, "S")
		var p *cluster.ReplicaPool
		if m := guard(func() { p = cluster.NewReplicaPool(a, b) }); m != "" {
			return Val{"panic": m}
		}
		target = replicaServer{p}
		if pc.Pool == "proxy" {
			px = proxy.NewReplicaProxy(p)
		}
	}
	var it *client.Item
	if pc.Step.Item != nil {
		it = mkItem(pc.Step.Item)
	}
	keys := mkKeys(pc.Step.Keys)
	before := snapItem(it)
	var res []interface{}
	var m string
	if px != nil {
		req := &server.Request{Key: string(unb64(pc.Req.Key)), Value: unb64(pc.Req.Value)}
		for _, k := range pc.Req.Keys {
			req.Keys = append(req.Keys, string(unb64(k)))
		}
		if pc.Req.Flags != nil {
			req.Flags = unb64(*pc.Req.Flags)
		}
		fillReq(req, pc.Req)
		var rs []*server.Response
		var err error
		m = bounded(func() { rs, err = px.ServeRequest(req) })
		res = []interface{}{rs, err}
		if m == "" {
			out["res"] = []interface{}{dump(reflect.ValueOf(rs)), log.err(err)}
		}
	} else if ps, ok := target.(poolServer); ok && pc.Step.Op == "Version" {
		var v map[string]string
		var err error
		m = bounded(func() { v, err = ps.p.Version() })
		if m == "" {
			out["res"] = []interface{}{dump(reflect.ValueOf(v)), log.err(err)}
		}
	} else {
		m = bounded(func() { res = runOp(target, &pc.Step, it, keys) })
		if m == "" {
			r := []interface{}{}
			for _, v := range res {
				r = append(r, log.value(v))
			}
			out["res"] = r
		}
	}
	if m != "" {
		out["panic"] = m
	}
	log.mu.Lock()
	out["calls"] = append([]interface{}{}, log.calls...)
	for _, g := range log.given {
		if pc.Pool == "single" && js(dump(reflect.ValueOf(*g.it))) != g.d {
			out["mutated"] = true
		}
	}
	log.mu.Unlock()
	if !before.same(it) || !equalKeys(keys, pc.Step.Keys) {
		out["mutated"] = true
	}
	return out
}

// poolServer presents a pool as the operations of runOp
type poolServer struct{ p *client.SinglePool }

func (s poolServer) Name() string                       { return "" }
func (s poolServer) Get(k string) (*client.Item, error) { return s.p.Get(k) }
func (s poolServer) GetMulti(k ...string) ([]*client.Item, error) {
	return s.p.GetMulti(k...)
}
func (s poolServer) Set(i *client.Item) error     { return s.p.Set(i) }
func (s poolServer) Add(i *client.Item) error     { return s.p.Add(i) }
func (s poolServer) Replace(i *client.Item) error { return s.p.Replace(i) }
func (s poolServer) Delete(k string) error        { return s.p.Delete(k) }
func (s poolServer) Increment(k string, d, e int) (int64, error) {
	return s.p.Increment(k, d, e)
}
func (s poolServer) Decrement(k string, d, e int) (int64, error) {
	return s.p.Decrement(k, d, e)
}
func (s poolServer) Touch(k string, e int) error { return s.p.Touch(k, e) }
func (s poolServer) Flush() error                { return s.p.Flush() }
func (s poolServer) Version() (string, error) {
	_, err := s.p.Version()
	return "", err
}
func (s poolServer) Reconnect() error { return nil }
func (s poolServer) Close() error     { return s.p.Close() }

type replicaServer struct{ p *cluster.ReplicaPool }

func (s replicaServer) Name() string                       { return "" }
func (s replicaServer) Get(k string) (*client.Item, error) { return s.p.Get(k) }
func (s replicaServer) GetMulti(k ...string) ([]*client.Item, error) {
	return s.p.GetMulti(k...)
}
func (s replicaServer) Set(i *client.Item) error     { return s.p.Set(i) }
func (s replicaServer) Add(i *client.Item) error     { return s.p.Add(i) }
func (s replicaServer) Replace(i *client.Item) error { return s.p.Replace(i) }
func (s replicaServer) Delete(k string) error        { return s.p.Delete(k) }
func (s replicaServer) Increment(k string, d, e int) (int64, error) {
	return s.p.Increment(k, d, e)
}
func (s replicaServer) Decrement(k string, d, e int) (int64, error) {
	return s.p.Decrement(k, d, e)
}
func (s replicaServer) Touch(k string, e int) error { return nil }
func (s replicaServer) Flush() error                { return nil }
func (s replicaServer) Version() (string, error)    { return "", nil }
func (s replicaServer) Reconnect() error            { return nil }
func (s replicaServer) Close() error                { return nil }

// runRing asks a ring for the owners of keys
type RingCase struct {
	Names []string `json:"names"`
	Keys  []string `json:"keys"`
	Find  []string `json:"find"`
}

func runRing(raw json.RawMessage) interface{} {
	var rc RingCase
	if err := json.Unmarshal(raw, &rc); err != nil {
		panic(err)
	}
	log := &callLog{items: map[*client.Item]int{}, errs: map[error]int{}}
	srvs := []client.Server{}
	idx := func(s client.Server) int {
		if f, ok := s.(*fakeServer); ok {
			return f.i
		}
		return -1
	}
	for i, n := range rc.Names {
		srvs = append(srvs, &fakeServer{name: string(unb64(n)), i: i, ring: "P", log: log})
	}
	out := Val{}
	picks, finds := []int{}, []int{}
	m, returned := within(func() {
		r := client.NewRing(srvs...)
		for i, s := range srvs {
			if s == nil || s.(*fakeServer).i != i {
				out["mutated"] = true
			}
		}
		for _, k := range rc.Keys {
			picks = append(picks, idx(r.Pick(string(unb64(k)))))
		}
		for _, n := range rc.Find {
			finds = append(finds, idx(r.Find(string(unb64(n)))))
		}
		for i, k := range rc.Keys { // picking again gives the same
			if idx(r.Pick(string(unb64(k)))) != picks[i] {
				out["unstable"] = true
			}
		}
	})
	if !returned {
		return Val{"blocked": true}
	}
	if m != "" {
		out["panic"] = m
	}
	out["picks"], out["finds"] = picks, finds
	return out
}

// bounded runs f like guard, and also reports when it does not return
func bounded(f func()) string {
	m, ok := within(f)
	if !ok {
		return "the operation does not return"
	}
	return m
}

// within runs f like guard, and reports whether it returned
func within(f func()) (string, bool) {
	ch := make(chan string, 1)
	go func() { ch <- guard(f) }()
	select {
	case m := <-ch:
		return m, true
	case <-time.After(2 * patience):
		return "", false
	}
}

func fillReq(req *server.Request, r *ProxyReq) {
	switch r.Opcode {
	case "Get":
		req.Opcode = server.OpcodeGet
	case "Set":
		req.Opcode = server.OpcodeSet
		v := reflect.ValueOf(&req.SetOpt).Elem()
		v.Set(reflect.New(v.Type().Elem()))
		setField(v.Elem(), "Meta", r.Meta)
		setField(v.Elem(), "Flag", r.Flag)
		setField(v.Elem(), "Expiration", r.Exp)
		setField(v.Elem(), "CasValue", r.Cas)
	default:
		n, _ := strconv.Atoi(r.Opcode)
		setField(reflect.ValueOf(req).Elem(), "Opcode", int64(n))
	}
}

func setField(v reflect.Value, name string, x interface{}) {
	f := v.FieldByName(name)
	if f.IsValid() {
		f.Set(reflect.ValueOf(x).Convert(f.Type()))
	}
}

func init() {
	kinds["pool"] = runPool
	kinds["proxy"] = runPool
	kinds["ring"] = runRing
}
