// Driver that runs the real code of the module on concrete cases: the replay
// of counterexamples and the cross-check of the contracts.  It is compiled
// into the module with go build -overlay, so it always runs the code of the
// current working tree.  Input: JSON cases (one per line), output: results.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
)

type Val = map[string]interface{}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// dump renders any value generically
func dump(v reflect.Value) interface{} {
	if !v.IsValid() {
		return nil
	}
	if v.CanInterface() {
		if e, ok := v.Interface().(error); ok {
			if v.Kind() == reflect.Interface && v.IsNil() {
				return nil
			}
			return dumpErr(e)
		}
	}
	switch v.Kind() {
	case reflect.String:
		return Val{"s": b64([]byte(v.String()))}
	case reflect.Bool:
		return Val{"t": v.Bool()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Val{"i": strconv.FormatInt(v.Int(), 10)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Val{"i": strconv.FormatUint(v.Uint(), 10)}
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return Val{"b": b64(v.Bytes())}
		}
		l := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(v.Index(i)))
		}
		return Val{"l": l}
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		l := []interface{}{}
		for _, k := range v.MapKeys() {
			l = append(l, []interface{}{dump(k), dump(v.MapIndex(k))})
		}
		return Val{"m": l}
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem())
	case reflect.Struct:
		f := Val{}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			f[v.Type().Field(i).Name] = dump(v.Field(i))
		}
		return Val{"f": f}
	}
	return Val{"o": v.Type().String()}
}

func dumpErr(e error) interface{} {
	if e == nil {
		return nil
	}
	r := Val{"e": "other", "msg": e.Error()}
	if m, ok := e.(*merrors.MemcachedError); ok {
		switch m {
		case merrors.ItemNotFound:
			r["e"] = "ItemNotFound"
		case merrors.ItemExists:
			r["e"] = "ItemExists"
		default:
			r["e"] = "memcached"
		}
	}
	return r
}

// guard runs f and reports a panic
func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			where := ""
			for i, l := range st {
				if strings.HasPrefix(l, "panic(") {
					for _, m := range st[i+1:] {
						m = strings.TrimSpace(m)
						if strings.HasPrefix(m, "/") && !strings.Contains(m, "/src/runtime/") && !strings.Contains(m, "/lib/go/") {
							where = m
							break
						}
					}
					break
				}
			}
			msg = fmt.Sprintf("%v (%s)", r, where)
		}
	}()
	f()
	return ""
}

type Case struct {
	ID   int             `json:"id"`
	Kind string          `json:"kind"`
	Data json.RawMessage `json:"data"`
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	var mu sync.Mutex
	var wg sync.WaitGroup
	par := 48
	if v, err := strconv.Atoi(os.Getenv("VREPLAY_PAR")); err == nil {
		par = v
	}
	sem := make(chan struct{}, par)
	// cases not started within the budget are left out
	begin := time.Now()
	budget := time.Hour
	if v, err := strconv.Atoi(os.Getenv("VREPLAY_BUDGET")); err == nil {
		budget = time.Duration(v) * time.Second
	}
	dec := json.NewDecoder(in)
	for {
		var c Case
		if err := dec.Decode(&c); err != nil {
			break
		}
		sem <- struct{}{}
		if time.Since(begin) > budget {
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f, ok := kinds[c.Kind]
			var r interface{}
			if !ok {
				r = Val{"unknown": c.Kind}
			} else {
				t0 := time.Now()
				r = f(c.Data)
				if m, ok := r.(Val); ok {
					m["ms"] = time.Since(t0).Milliseconds()
				}
			}
			b, err := json.Marshal(Val{"id": c.ID, "r": r})
			if err != nil {
				panic(err)
			}
			mu.Lock()
			out.Write(b)
			out.WriteByte('\n')
			out.Flush() // a crash loses only the cases that are running
			mu.Unlock()
		}()
	}
	wg.Wait()
}

var kinds = map[string]func(json.RawMessage) interface{}{}
