package main

import (
	"encoding/json"
	"math/rand"
	"sync"
)

// Hook is embedded in inputs whose run calls it in front of every call of the
// library, so that two runs can be interleaved call by call.
type Hook struct{ fn func() }

func (h *Hook) setHook(f func()) { h.fn = f }
func (h *Hook) step() {
	if h.fn != nil {
		h.fn()
	}
}

// TwinIn is two independent runs in one process, interleaved call by call or
// (par) concurrent.
type TwinIn struct {
	Ka  string          `json:"ka"`
	Kb  string          `json:"kb"`
	A   json.RawMessage `json:"a"`
	Bb  json.RawMessage `json:"bb"`
	Par bool            `json:"par"`
}

type twinOut struct {
	A json.RawMessage `json:"a"`
	B json.RawMessage `json:"bb"`
}

// turns lets goroutines run alternately.
type turns struct {
	mu   sync.Mutex
	c    *sync.Cond
	who  int
	done []bool
}

func (t *turns) next(from int) {
	for k := 1; k <= len(t.done); k++ {
		if m := (from + k) % len(t.done); !t.done[m] {
			t.who = m
			break
		}
	}
	t.c.Broadcast()
}

func (t *turns) start(me int) {
	t.mu.Lock()
	for t.who != me {
		t.c.Wait()
	}
	t.mu.Unlock()
}

func (t *turns) pass(me int) {
	t.mu.Lock()
	t.next(me)
	for t.who != me {
		t.c.Wait()
	}
	t.mu.Unlock()
}

func (t *turns) finish(me int) {
	t.mu.Lock()
	t.done[me] = true
	t.next(me)
	t.mu.Unlock()
}

// together runs cases in one process, call by call in turn or concurrently.
func together(ks []string, ins []json.RawMessage, par bool) []json.RawMessage {
	t := &turns{done: make([]bool, len(ks))}
	t.c = sync.NewCond(&t.mu)
	out := make([]json.RawMessage, len(ks))
	var wg sync.WaitGroup
	for me := range ks {
		wg.Add(1)
		go func(me int) {
			defer wg.Done()
			var hook func()
			if !par {
				t.start(me)
				defer t.finish(me)
				hook = func() { t.pass(me) }
			}
			o, err := execs[ks[me]](ins[me], hook)
			if err == nil {
				out[me], err = json.Marshal(o)
			}
			if err != nil {
				panic(err)
			}
		}(me)
	}
	wg.Wait()
	return out
}

// TroopIn is any number of independent runs in one process.
type TroopIn struct {
	Ks  []string          `json:"ks"`
	Ins []json.RawMessage `json:"ins"`
	Par bool              `json:"par"`
}

func init() {
	register("twin", func(in *TwinIn) interface{} {
		out := together([]string{in.Ka, in.Kb}, []json.RawMessage{in.A, in.Bb}, in.Par)
		return twinOut{out[0], out[1]}
	})
	register("troop", func(in *TroopIn) interface{} {
		return struct {
			Outs []json.RawMessage `json:"outs"`
		}{together(in.Ks, in.Ins, in.Par)}
	})
}

// troops are several runs of any kinds, of those that the other suites generate.
func (g *Gen) troops() {
	var pools [][]Case
	for _, p := range []string{"T01", "T02", "T03", "T04", "T05", "T06", "T07", "E01", "E02", "E03", "E04", "S01", "S02", "S03"} {
		h := &Gen{r: rand.New(rand.NewSource(g.r.Int63())), tier: "quick", scen: g.scen}
		suites[p](h)
		var ok []Case
		for _, c := range h.cases {
			if len(c.In) < 8000 && c.K != "twin" {
				ok = append(ok, c)
			}
		}
		pools = append(pools, ok)
	}
	for k := 0; k < g.n(500, 6000); k++ {
		in := TroopIn{Par: k%2 == 0}
		n := pick(g.r, 2, 2, 3, 4, 8)
		one := g.r.Intn(3) // of one kind
		p := pools[g.r.Intn(len(pools))]
		for i := 0; i < n; i++ {
			if one == 0 {
				p = pools[g.r.Intn(len(pools))]
			}
			c := p[g.r.Intn(len(p))]
			in.Ks, in.Ins = append(in.Ks, c.K), append(in.Ins, c.In)
		}
		if k%5 == 4 { // the same input
			for i := range in.Ks {
				in.Ks[i], in.Ins[i] = in.Ks[0], in.Ins[0]
			}
		}
		g.add("troop", in)
	}
}

// twins pairs up n of the cases generated so far.
func (g *Gen) twins(n int) {
	r := rand.New(rand.NewSource(int64(len(g.cases)))) // leaves the other cases as they are
	var ok []int
	for i, c := range g.cases {
		if len(c.In) < 12000 {
			ok = append(ok, i)
		}
	}
	for ; n > 0 && len(ok) > 1; n-- {
		a, b := &g.cases[ok[r.Intn(len(ok))]], &g.cases[ok[r.Intn(len(ok))]]
		g.add("twin", TwinIn{Ka: a.K, Kb: b.K, A: a.In, Bb: b.In, Par: r.Intn(3) == 0})
	}
}
