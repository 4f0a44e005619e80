package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
)

// The family of values that TLC generated from spec/MCFamily.tla: each is
// obtained from the code by the same calls, judged, and compared with what the
// specification has; for C08 the members are compared with each other.

type member struct {
	Hist  []call
	At    string
	V     specO
	Whole bool
	u     *urn.URN
	key   string // what equals this one has the same
}

// the second member of a pair lives in other slots, and has another machine
var slotOf2 = map[string]string{"s1": "c", "s2": "d"}
var machOf2 = map[string]string{"m1": "n"}

func family(gen *generator, path string) {
	var texts []bs
	tlcLines(path, "TEXTS", func(s string) { must(json.Unmarshal([]byte(s), &texts)) })
	if texts == nil {
		nothing("no values in " + path)
	}
	lines := make(chan string, 256)
	go func() {
		tlcLines(path, "VALUE", func(s string) { lines <- s })
		close(lines)
	}()
	var mu sync.Mutex
	var all []*member
	var apart int64
	var once sync.Once
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*911 + int64(wk)))
		for s := range lines {
			m := &member{}
			must(json.Unmarshal([]byte(s), m))
			if rep.tooMany() {
				continue
			}
			w := newWorld(gen, b, r)
			for _, c := range m.Hist {
				if w.bad == "" {
					w.do(c, texts)
				}
			}
			at := slotOf[m.At]
			if w.bad == "" && m.V.o() != withoutErr(w.proj[at]) {
				atomic.AddInt64(&apart, 1)
				once.Do(func() { rep.note("family_mismatch", s) })
				m.Whole = false // not for pairs
			}
			if w.bad == "" {
				switch prop {
				case "C07", "C13":
					w.opNorm(at, "d")
				case "C08":
					w.opEqual(at, at)
				case "C11":
					w.opMarshal(at)
				case "C17", "C21":
					w.opRead(at)
				}
			}
			w.report()
			rep.add("family_calls", int64(len(w.evs)-1))
			if w.bad != "" {
				continue
			}
			w.keepTrace("family" + m.Hist[0].Op + m.Hist[len(m.Hist)-1].Op)
			m.u = w.ptr(at)
			m.key = string(m.V.Norm)
			mu.Lock()
			all = append(all, m)
			mu.Unlock()
		}
	})
	rep.add("family_values", int64(len(all)))
	rep.add("family_values_apart_for_other_properties", apart)
	if prop == "C08" {
		familyPairs(gen, all, texts)
	}
}

func withoutErr(o O) O {
	o.Err = ""
	return o
}

func familyPairs(gen *generator, all []*member, texts []bs) {
	// representatives: one per observable value and way of obtaining it
	var reps []*member
	seen := map[string]bool{}
	class := map[string][]*member{}
	for _, m := range all {
		if !m.Whole || m.u == nil {
			continue
		}
		class[m.key] = append(class[m.key], m)
		o := m.V.o()
		j, err := json.Marshal(o)
		must(err)
		k := string(j)
		if thorough() {
			k += m.Hist[0].Op + m.Hist[len(m.Hist)-1].Op
		}
		if !seen[k] {
			seen[k] = true
			reps = append(reps, m)
		}
	}
	var pairs, same int64
	compare := func(b *beat, m, n *member) {
		want := m.key == n.key
		var got bool
		msg := try(func() { got = m.u.Equal(n.u) })
		atomic.AddInt64(&pairs, 1)
		if want {
			atomic.AddInt64(&same, 1)
		}
		if msg == "" && got == want || rep.tooMany() {
			return
		}
		w := newWorld(gen, b, rand.New(rand.NewSource(seed)))
		for _, c := range m.Hist {
			w.doIn(c, texts, slotOf, machOf)
		}
		for _, c := range n.Hist {
			w.doIn(c, texts, slotOf2, machOf2)
		}
		w.opEqual(slotOf[m.At], slotOf2[n.At])
		if w.bad == "" {
			w.bad, w.badEv = fmt.Sprintf("Equal says %v (among many values)", got), w.evs[len(w.evs)-1]
		}
		w.report()
	}
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*13 + int64(wk)))
		b.enter("pairs", "")
		for i := wk; i < len(reps); i += workers {
			b.enter("pairs", string(reps[i].V.Str))
			for j := range reps {
				compare(b, reps[i], reps[j])
			}
		}
		// the same value obtained in different ways, and any two
		for i := wk; i < len(all); i += workers {
			m := all[i]
			if !m.Whole || m.u == nil {
				continue
			}
			b.enter("pairs", string(m.V.Str))
			c := class[m.key]
			for k := 0; k < 12; k++ {
				compare(b, m, c[r.Intn(len(c))])
				compare(b, reps[r.Intn(len(reps))], m)
			}
		}
		b.leave()
	})
	rep.add("family_representatives", int64(len(reps)))
	rep.add("family_pairs", pairs)
	rep.add("family_pairs_equal", same)
	// none of this changed anything
	for _, m := range all {
		if m.u != nil && projectN(m.u) != m.V.o() {
			rep.note("family_changed", string(m.V.Str))
		}
	}
}
