package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C20: what parsing and the operations on URNs cost, on texts made by pumping
// every loop of every control state of the specification.  Two sizes, one
// eight times the other; the condition on the two costs is CostOK in
// spec/TraceLib.tla.  Times are the least of several; memory is what the
// runtime says was allocated.

const costFactor = 8

type shape struct {
	mode, head, loop, tail string
	accepted               bool
}

func (s shape) text(n int) string {
	return s.head + strings.Repeat(s.loop, n/len(s.loop)) + s.tail
}

func (s shape) String() string {
	return fmt.Sprintf("%q + %q... + %q in mode %s", s.head, s.loop, s.tail, s.mode)
}

func shapes(gen *generator) []shape {
	var res []shape
	for _, mode := range modeNames {
		g := gen.sp.graphs[mode]
		for s := range g.states {
			loops := g.loops(s)
			if len(loops) == 0 {
				continue
			}
			var two []string
			for i := range loops {
				two = append(two, loops[i])
				if i+1 < len(loops) {
					two = append(two, loops[i]+loops[len(loops)-1-i])
				}
			}
			for _, l := range uniq(two) {
				t := g.access[s] + l + l + g.finish[s]
				res = append(res, shape{mode, g.access[s], l, g.finish[s], g.run(t).ok})
			}
			l := loops[len(loops)-1]
			res = append(res, shape{mode, g.access[s], l, "\x00", false}, shape{mode, g.access[s], l, "%", false})
			// a long part before, another behind
			res = append(res, shape{mode, g.access[s] + strings.Repeat(loops[0], 3000), l, g.finish[s], g.run(g.access[s] + loops[0] + l + g.finish[s]).ok})
		}
		// long identifiers, colons, garbage
		for _, x := range []string{"a", ":", "-", "urn", "urn:", "%", "\x00", "?", "#", "/", "ietf:params:scim:"} {
			res = append(res, shape{mode, "", x, "", false}, shape{mode, "urn:", x, "", false}, shape{mode, "urn:aa:", x, "", false}, shape{mode, "urn:aa:b", x, "", false})
		}
	}
	// the components together
	res = append(res,
		shape{"8141", "urn:aa:" + strings.Repeat("s%Aa", 2000) + "?+" + strings.Repeat("r", 2000) + "?=", "q%Bb?", "#" + strings.Repeat("f", 100), true},
		shape{"8141", "urn:aa:b?+r", "?=/", "?=q", true},
		shape{"8141", "urn:aa:b?+r", "?/", "", true},
		shape{"8141", "urn:aa:b?=q", "?+", "", true},
		shape{"8141", "urn:aa:b#", "?+?=", "", true},
	)
	for i := range res {
		g := gen.sp.graphs[res[i].mode]
		res[i].accepted = g.run(res[i].text(60)).ok && g.run(res[i].text(600)).ok
	}
	return res
}

// costOps: preparations that give the call to measure
type costOp struct {
	name string
	any  bool // also for rejected texts
	prep func(mode, text string) func()
}

func prepared(f func(u *urn.URN)) func(mode, text string) func() {
	return func(mode, text string) func() {
		u, ok := urn.Parse([]byte(text), urn.WithParsingMode(modeValue(mode, nil)))
		if !ok {
			return nil
		}
		return func() { f(u) }
	}
}

var sink int64

var costOps = []costOp{
	{"Parse", true, func(mode, text string) func() {
		in := []byte(text)
		return func() {
			_, err := urn.NewMachine(urn.WithParsingMode(modeValue(mode, nil))).Parse(in)
			if err != nil {
				atomic.AddInt64(&sink, int64(len(err.Error())))
			}
		}
	}},
	{"Parse on a used machine", true, func(mode, text string) func() {
		in := []byte(text)
		m := urn.NewMachine(urn.WithParsingMode(modeValue(mode, nil)))
		return func() {
			m.Parse([]byte("urn:aa:%AB"))
			m.Parse(in)
			if err := m.Error(); err != nil {
				atomic.AddInt64(&sink, int64(len(err.Error())))
			}
		}
	}},
	{"Normalize", false, prepared(func(u *urn.URN) { u.Normalize() })},
	{"Normalize of a composed URN", false, prepared(func(u *urn.URN) { (&urn.URN{ID: u.ID, SS: u.SS}).Normalize() })},
	{"Equal", false, func(mode, text string) func() {
		o := urn.WithParsingMode(modeValue(mode, nil))
		u, ok := urn.Parse([]byte(text), o)
		if !ok {
			return nil
		}
		v, ok := urn.Parse([]byte("URN"+text[3:]), o)
		if !ok {
			return nil
		}
		return func() { u.Equal(v) }
	}},
	{"String", false, prepared(func(u *urn.URN) { atomic.AddInt64(&sink, int64(len(u.String()))) })},
	{"MarshalJSON", false, prepared(func(u *urn.URN) { u.MarshalJSON() })},
	{"accessors", false, prepared(func(u *urn.URN) {
		u.RComponent()
		u.QComponent()
		u.FComponent()
		u.IsSCIM()
		u.RFC()
		if s := u.SCIM(); s != nil {
			atomic.AddInt64(&sink, int64(len(s.String())))
			s.MarshalJSON()
		}
	})},
	{"UnmarshalJSON", true, func(mode, text string) func() {
		j, err := json.Marshal(text)
		must(err)
		return func() {
			switch mode {
			case "2141":
				var u urn.URN
				u.UnmarshalJSON(j)
			case "8141":
				var u urn.URN8141
				u.UnmarshalJSON(j)
			case "7643":
				var u urn.SCIM
				u.UnmarshalJSON(j)
			}
		}
	}},
}

// least is the shortest of some runs, in nanoseconds
func least(b *beat, what string, runs int, f func()) int64 {
	best := int64(1) << 62
	for i := 0; i < runs; i++ {
		b.enter("cost", what)
		t := time.Now()
		f()
		d := int64(time.Since(t))
		b.leave()
		if d < best {
			best = d
		}
		if d > int64(3*time.Second) {
			break
		}
	}
	return best
}

// costBad: the condition CostOK of the specification
func costBad(n1, n2 int, u1, u2, k1, k2 int64) string {
	f := int64(n2 / n1)
	if u2 > 3000 && u2 > 3*f*(u1+20) {
		return "time grows faster than the text"
	}
	if k2 > 4*f*k1+256 {
		return "memory grows faster than the text"
	}
	return ""
}

func allocated(f func()) int64 {
	var a, z runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&z)
	return int64(z.TotalAlloc - a.TotalAlloc)
}

type suspectCost struct {
	s  shape
	op costOp
	n  int
}

// live is the memory in use once the garbage is gone
func live() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc + m.StackInuse) // goroutines left behind too
}

// whatStays repeats calls with ever new texts whose results nobody keeps: as
// much memory is in use after many of them as after some
func (gen *generator) whatStays(b *beat) {
	some, many := 30000, pick(120000, 600000)
	ms := map[string]urn.Machine{}
	for _, m := range modeNames {
		ms[m] = urn.NewMachine(urn.WithParsingMode(modeValue(m, nil)))
	}
	var ru urn.URN
	var re urn.URN8141
	var rs urn.SCIM
	texts := map[string][2]string{"2141": {"URN:aA:%%Ab%d", "urn:aa:%d?"}, "8141": {"URN:aA:%%Ab%d?+r%[1]d?=q#f", "urn:aa:%d?+r?+q"},
		"7643": {"urn:ietf:params:scim:api:x%d:%%Ab", "urn:ietf:params:scim:api:x%d:"}}
	kept := map[string]*urn.URN{}
	var last *urn.URN // of a chain of calls on each other's results
	for _, m := range modeNames {
		kept[m], _ = urn.Parse([]byte(fmt.Sprintf(texts[m][0], 0)), urn.WithParsingMode(modeValue(m, nil)))
	}
	for _, mode := range modeNames {
		opt := modeValue(mode, nil)
		for k, how := range []string{"Parse", "Parse", "new machines", "new machines", "Parse on a machine", "Parse on a machine", "Parse on a machine, switching", "Normalize and Equal", "Normalize of one", "String and JSON", "UnmarshalJSON", "UnmarshalJSON",
			"Normalize of what it gave", "copies of copies", "the JSON that it gave", "the text that it gave", "assigning to one", "assigning to one and comparing", "assigning to a view"} {
			form := texts[mode][k%2]
			u := kept[mode]
			if u == nil {
				continue
			}
			if v, ok := urn.Parse([]byte(fmt.Sprintf(texts[mode][0], 1)), urn.WithParsingMode(opt)); ok {
				last = v
			} else {
				continue
			}
			one := func(i int) {
				switch how {
				case "Normalize of what it gave":
					last = last.Normalize()
				case "copies of copies":
					c := *last
					c.Normalize()
					last = &c
				case "the JSON that it gave":
					j, _ := last.MarshalJSON()
					ru.UnmarshalJSON(j)
					c := ru
					last = &c
				case "the text that it gave":
					if v, ok := urn.Parse([]byte(last.String()), urn.WithParsingMode(opt)); ok {
						last = v
					}
				case "assigning to one":
					last.SS = fmt.Sprint("x%Ab", i)
					last.Normalize()
					atomic.AddInt64(&sink, int64(len(last.String())))
					last.MarshalJSON()
				case "assigning to one and comparing":
					last.ID, last.SS = fmt.Sprint("Aa", i), "x%Ab"
					last.Equal(u)
					u.Equal(last)
				case "assigning to a view":
					s := last.SCIM()
					if s == nil {
						s = &rs
					}
					s.Name = fmt.Sprint("n", i)
					atomic.AddInt64(&sink, int64(len(s.String())))
					s.MarshalJSON()
				case "Parse":
					urn.Parse([]byte(fmt.Sprintf(form, i)), urn.WithParsingMode(opt))
				case "new machines":
					m := urn.NewMachine(urn.WithParsingMode(opt))
					m.Parse([]byte(fmt.Sprintf(form, i)))
				case "Parse on a machine":
					ms[mode].Parse([]byte(fmt.Sprintf(form, i)))
				case "Parse on a machine, switching":
					ms[mode].WithParsingMode(modeValue([]string{"2141", "8141", "7643"}[i%3], nil))
					ms[mode].Parse([]byte(fmt.Sprintf(form, i)))
				case "Normalize and Equal":
					c := &urn.URN{ID: "Aa", SS: fmt.Sprint("%Ab", i)}
					c.Normalize()
					c.Equal(u)
					u.Equal(c)
				case "Normalize of one":
					u.Normalize().Normalize()
					u.Equal(u)
					u.Normalize().Equal(u)
				case "String and JSON":
					c := &urn.URN{ID: "Aa", SS: fmt.Sprint("%Ab", i)}
					atomic.AddInt64(&sink, int64(len(c.String())+len(u.String())))
					c.MarshalJSON()
					u.MarshalJSON()
					if s := u.SCIM(); s != nil {
						s.MarshalJSON()
					}
					scimschema.TypeFromString(fmt.Sprint("api", i))
				case "UnmarshalJSON":
					j := []byte(`"` + fmt.Sprintf(form, i) + `"`)
					switch mode {
					case "2141":
						ru.UnmarshalJSON(j)
					case "8141":
						re.UnmarshalJSON(j)
					case "7643":
						rs.UnmarshalJSON(j)
					}
				}
			}
			var ev *Event
			for try := 0; try < 3; try++ {
				b.enter("cost", "many times "+how)
				for i := 0; i < some; i++ {
					one(i)
				}
				l1 := live()
				for i := 0; i < many; i++ {
					one(some + i*7)
				}
				l2 := live()
				runtime.KeepAlive(last)
				b.leave()
				ev = &Event{Op: "cost", Ty: "what stays of " + how, X: mode, Cost: [6]int64{int64(many), int64(many), 0, 0, 0, (l2 - l1) / 1024}}
				if ev.Cost[5] < 0 {
					ev.Cost[5] = 0
				}
				if costBad(many, many, 0, 0, 0, ev.Cost[5]) == "" {
					trace.put(ev)
					ev = nil
					break
				}
			}
			rep.add("cost_what_stays", int64(some+many))
			if ev != nil {
				rep.suspect(how+": memory piles up", mode, fmt.Sprintf(form, 0), single(ev))
			}
		}
	}
	runtime.KeepAlive(ms)
	runtime.KeepAlive(last)
	runtime.KeepAlive(kept)
}

func checkCost(gen *generator) {
	debug.SetGCPercent(400)
	all := shapes(gen)
	sizes := []int{4 << 10, 32 << 10}
	if thorough() {
		sizes = []int{4 << 10, 32 << 10, 256 << 10}
	}
	var n int64
	var mu sync.Mutex
	var sus []suspectCost
	begin := time.Now()
	// what is found suffices, and the rest would take long
	enough := func(found int, most int, after time.Duration) bool {
		return found >= most || found > 0 && time.Since(begin) > after
	}
	found := func() int { return int(atomic.LoadInt64(&rep.nvios)) }
	parallel(workers/2, func(wk int, b *beat) {
		for i := wk; i < len(all); i += workers / 2 {
			s := all[i]
			for _, op := range costOps {
				if !op.any && !s.accepted {
					continue
				}
				mu.Lock()
				stop := enough(len(sus), 80, 90*time.Second)
				mu.Unlock()
				if stop {
					return
				}
				for _, n1 := range sizes {
					n2 := n1 * costFactor
					f1, f2 := op.prep(s.mode, s.text(n1)), op.prep(s.mode, s.text(n2))
					if f1 == nil || f2 == nil {
						break
					}
					u1 := least(b, s.String(), 3, f1)
					u2 := least(b, s.String(), 3, f2)
					atomic.AddInt64(&n, 1)
					if costBad(n1, n2, u1/1000, u2/1000, 1, 1) != "" {
						mu.Lock()
						sus = append(sus, suspectCost{s, op, n1})
						mu.Unlock()
						break
					}
					if u2 > int64(time.Second) {
						break
					}
				}
			}
		}
	})
	rep.add("cost_measurements", n)
	rep.add("cost_shapes", int64(len(all)))
	rep.add("cost_time_suspects", int64(len(sus)))
	b := newBeat()
	defer beats.Delete(b)
	runtime.GC()
	event := func(s shape, op string, n1, n2 int, u1, u2, k1, k2 int64) *Event {
		return &Event{Op: "cost", Ty: op, X: s.String(), Cost: [6]int64{int64(n1), int64(n2), u1, u2, k1, k2}}
	}
	// suspects again, alone, and only if it happens every time
	for i, x := range sus {
		if i >= 40 || rep.tooMany() || enough(found(), 12, 180*time.Second) {
			break
		}
		n2 := x.n * costFactor
		var worst *Event
		for k := 0; k < 5; k++ {
			u1 := least(b, x.s.String(), 5, x.op.prep(x.s.mode, x.s.text(x.n))) / 1000
			u2 := least(b, x.s.String(), 5, x.op.prep(x.s.mode, x.s.text(n2))) / 1000
			if costBad(x.n, n2, u1, u2, 1, 1) == "" {
				worst = nil
				break
			}
			worst = event(x.s, x.op.name, x.n, n2, u1, u2, 1, 1)
		}
		if worst != nil {
			rep.suspect(fmt.Sprintf("%s: time grows faster than the text", x.op.name), x.s.mode, x.s.String(), single(worst))
		}
	}
	// memory
	var m int64
	before := found()
	for i, s := range all {
		for k, op := range costOps {
			if enough(found()-before, 12, 240*time.Second) || enough(before, 1<<30, 300*time.Second) {
				break
			}
			if !op.any && !s.accepted || !thorough() && (i+k)%2 == 1 {
				continue
			}
			n1 := 16 << 10
			n2 := n1 * costFactor
			f1, f2 := op.prep(s.mode, s.text(n1)), op.prep(s.mode, s.text(n2))
			if f1 == nil || f2 == nil {
				continue
			}
			var k1, k2 int64
			for try := 0; try < 3; try++ {
				b.enter("cost", s.String())
				k1, k2 = allocated(f1)/1024, allocated(f2)/1024
				b.leave()
				if costBad(n1, n2, 1, 1, k1, k2) == "" {
					break
				}
			}
			m++
			ev := event(s, op.name, n1, n2, 1, 1, k1, k2)
			if bad := costBad(n1, n2, 1, 1, k1, k2); bad != "" {
				rep.suspect(op.name+": "+bad, s.mode, s.String(), single(ev))
			} else if trace.wantN("cost"+s.mode+op.name, 40) {
				trace.put(ev)
				rep.sample(map[string]interface{}{"shape": s.String(), "operation": op.name, "KB for 16 KB": k1, "KB for 128 KB": k2})
			}
		}
	}
	rep.add("cost_allocations", m)
	if enough(found(), 1<<30, 240*time.Second) {
		return
	}
	gen.whatStays(b)
	// many parses on one machine: no cost that piles up
	for _, mode := range modeNames {
		g := gen.sp.graphs[mode]
		for s := range g.states {
			if !g.canAcc[s] {
				continue
			}
			for _, t := range []string{g.access[s] + g.finish[s], g.access[s] + "\x00", g.access[s] + "%AB%zZ" + g.finish[s]} {
				k1 := 1000
				k2 := k1 * costFactor
				var ev *Event
				for try := 0; try < 4; try++ {
					mach := urn.NewMachine(urn.WithParsingMode(modeValue(mode, nil)))
					in := []byte(t)
					run := func(k int) func() {
						return func() {
							for i := 0; i < k; i++ {
								mach.Parse(in)
							}
						}
					}
					u1 := least(b, t, 1, run(k1)) / 1000
					kb1 := allocated(run(k1)) / 1024
					u2 := least(b, t, 1, run(k2)) / 1000
					kb2 := allocated(run(k2)) / 1024
					ev = &Event{Op: "cost", Ty: "many parses on one machine", X: t, Cost: [6]int64{int64(k1), int64(k2), u1, u2, kb1, kb2}}
					if costBad(k1, k2, u1, u2, kb1, kb2) == "" {
						ev = nil
						break
					}
				}
				if ev != nil {
					rep.suspect("many parses on one machine: cost piles up", mode, t, single(ev))
				}
				rep.add("cost_reuses", 1)
			}
		}
	}
}
