package main

import (
	"hash/fnv"
	"math/rand"
	"strings"
	"sync"

	urn "github.com/leodido/go-urn"
)

// sweep: several goroutines, each with machines of its own, parse every
// transition of the control graph and read what comes of it, at the same time
// but in different orders.  Nothing here synchronizes them, so that under the
// race detector any two accesses to something they share are seen.
func sweep(gen *generator, race bool) {
	type item struct {
		mode, text string
		in         []byte
		alone      uint64
		res        string
	}
	var items []*item
	seen := map[string]bool{}
	for _, mode := range modeNames {
		g := gen.sp.graphs[mode]
		add := func(t string) {
			if !seen[mode+t] {
				seen[mode+t] = true
				items = append(items, &item{mode: mode, text: t, in: []byte(t)})
			}
		}
		late := 0
		gen.lateErrors(mode, []int{600, 1500}, add)
		for s := range g.states {
			for a := 0; a < 256; a++ {
				t := g.access[s] + string([]byte{byte(a)})
				add(t)
				if x := g.states[s].on[a]; x.ok && g.canAcc[x.to] {
					add(t + g.finish[x.to])
				}
			}
			for i, l := range g.loops(s) {
				ns := []int{3, 20, 70, 150, 300, 600, 1100, 2100, 4100, 9000, 17000, 33000}
				if race && !thorough() {
					ns = ns[:8]
				}
				if i%3 == 0 {
					ns = append(ns, 66000)
				}
				for _, n := range ns {
					if !g.canAcc[s] {
						continue
					}
					t := g.access[s] + strings.Repeat(l, (n+len(l)-1)/len(l))
					add(t + g.finish[s])
					if n < 5000 {
						// and rejected as late
						late++
						add(t + [...]string{"\x00", "%", "?x", "#%", "?"}[late%5])
					}
				}
			}
		}
		r := rand.New(rand.NewSource(seed * 61))
		for n := 0; n < pick(4000, 100000); n++ {
			add(gen.text(mode, r))
		}
	}
	run := func(b *beat, m urn.Machine, it *item, n int) (uint64, string) {
		var res string
		b.enter("parse "+it.mode, it.text)
		msg := try(func() {
			m.WithParsingMode(modeValue(it.mode, nil))
			u, err := m.Parse(it.in)
			if u == nil && err != nil {
				res = err.Error() + m.Error().Error()
				return
			}
			if n%8 == 0 && len(it.text) < 2000 {
				res = "+" + render(u, err)
				return
			}
			res = u.String() + "\n" + u.ID + "\n" + u.Normalize().SS
			if s := u.SCIM(); s != nil {
				res += s.String()
			}
			if len(it.text) < 300 {
				var v urn.URN8141
				if v.UnmarshalJSON([]byte("\""+it.text+"\"")) == nil {
					res += v.String()
				}
			}
		})
		b.leave()
		if msg != "" {
			res = "panic " + msg
		}
		h := fnv.New64a()
		h.Write([]byte(res))
		if len(res) > 2000 {
			res = res[:2000] + "..."
		}
		return h.Sum64(), res
	}
	b := newBeat()
	// alone before, or, with the race detector, after: what the library might
	// keep from the first time is not there yet when they all start
	alone := func() {
		m := urn.NewMachine()
		for i, it := range items {
			it.alone, it.res = run(b, m, it, i)
		}
	}
	if !race {
		alone()
	}
	const G = 8
	type odd struct {
		it  *item
		res string
	}
	var bad [G]*odd
	var gave [G][]uint64
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < G; g++ {
		order := rand.New(rand.NewSource(seed*71 + int64(g))).Perm(len(items))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			bb := newBeat()
			defer beats.Delete(bb)
			m := urn.NewMachine()
			<-start
			for k, i := range order {
				if g%2 == 1 && k > len(order)/2 { // half of them in the same order
					i = k
				}
				h, res := run(bb, m, items[i], i)
				if race {
					gave[g] = append(gave[g], h, uint64(i))
				} else if h != items[i].alone && bad[g] == nil {
					bad[g] = &odd{items[i], res}
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if race {
		alone()
		for g := range gave {
			for k := 0; k < len(gave[g]) && bad[g] == nil; k += 2 {
				if it := items[gave[g][k+1]]; it.alone != gave[g][k] {
					bad[g] = &odd{it, "something else"}
				}
			}
		}
	}
	for _, o := range bad {
		if o != nil {
			rep.suspect("a parse gives something else among others than alone (sweep", o.it.mode, o.it.text,
				single(&Event{Op: "conc", Res: o.res, Alone: o.it.res}))
		}
	}
	if race {
		rep.add("calls_under_race_detector", int64(G*len(items)))
	} else {
		rep.add("concurrent_calls", int64(G*len(items)))
	}
	rep.add("texts_swept_at_once", int64(len(items)))
}
