package main

import (
	"encoding/json"
	"time"

	"go.f110.dev/go-memcached/client"
)

// RaceCase runs two methods of one client at the same time. The driver is built
// with the race detector, which ends the process when they race.
type RaceCase struct {
	Proto  string `json:"proto"`
	Step   Step   `json:"step"`
	A      string `json:"a"` // op, close or reconnect
	B      string `json:"b"`
	Before string `json:"before"`
	Rounds int    `json:"rounds"`
}

func act(c client.Server, what string, st *Step) {
	switch what {
	case "op":
		var it *client.Item
		if st.Item != nil {
			it = mkItem(st.Item)
		}
		runOp(c, st, it, mkKeys(st.Keys))
	case "close":
		c.Close()
	case "reconnect":
		c.Reconnect()
	}
}

func runRace(raw json.RawMessage) interface{} {
	var rc RaceCase
	if err := json.Unmarshal(raw, &rc); err != nil {
		panic(err)
	}
	if rc.A != "op" && rc.B != "op" {
		// short methods: many rounds at once
		for r := 0; r < 30*rc.Rounds; r++ {
			if v := raceRound(&rc, [2]time.Duration{}); v != nil {
				return v
			}
		}
	}
	for r := 0; r < rc.Rounds; r++ {
		for _, d := range [][2]time.Duration{{0, 0}, {0, 3 * time.Millisecond}, {3 * time.Millisecond, 0}} {
			if v := raceRound(&rc, d); v != nil {
				return v
			}
		}
	}
	return Val{"ok": true}
}

func raceRound(rc *RaceCase, d [2]time.Duration) interface{} {
	p := newPeer()
	defer p.close()
	c, err := newClient(rc.Proto, "srv", p.addr, 3000)
	if err != nil {
		return Val{"setup": err.Error()}
	}
	if rc.Before != "" {
		act(c, rc.Before, &rc.Step)
	}
	start := make(chan struct{})
	msgs := make(chan string, 2)
	done := make(chan struct{})
	for i, what := range []string{rc.A, rc.B} {
		go func(what string, d time.Duration) {
			<-start
			if d > 0 {
				time.Sleep(d)
			}
			msgs <- guard(func() { act(c, what, &rc.Step) })
		}(what, d[i])
	}
	if rc.A == "op" || rc.B == "op" {
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(200 * time.Microsecond):
				}
				p.mu.Lock()
				n, conn := len(p.got), p.c
				if n >= rc.Step.Expect {
					p.got = nil
				}
				p.mu.Unlock()
				if n >= rc.Step.Expect && conn != nil {
					conn.Write(unb64(rc.Step.Reply))
				}
			}
		}()
	}
	defer close(done)
	close(start)
	for i := 0; i < 2; i++ {
		select {
		case m := <-msgs:
			if m != "" {
				return Val{"panic": m}
			}
		case <-time.After(patience):
			return Val{"blocked": true}
		}
	}
	if m := guard(func() { c.Close() }); m != "" {
		return Val{"panic": m}
	}
	return nil
}

func init() {
	kinds["race"] = runRace
}
