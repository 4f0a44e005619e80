package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"

	urn "github.com/leodido/go-urn"
)

// C15: many goroutines, each with its own machines, on shared bytes and shared
// values.  Also built with the race detector.

// render: all there is to read of a value, as one string
func render(u *urn.URN, err error) string {
	if u == nil {
		if err == nil {
			return "nil"
		}
		return "err " + err.Error()
	}
	j, _ := u.MarshalJSON()
	n := u.Normalize()
	return fmt.Sprintf("%+v|%s|%+v|%v", project(u), j, project(n), u.Equal(n))
}

type job struct {
	kind  string
	mode  string
	in    []byte
	a, b  int // values
	alone string
}

func checkConc(gen *generator, race bool) {
	rounds := pick(400, 6000)
	if race {
		rounds = pick(120, 1500)
	}
	var calls int64
	r := rand.New(rand.NewSource(seed * 53))
	b := newBeat()
	const G = 16
	for round := 0; round < rounds; round++ {
		// shared texts and shared values, the latter never read before
		var texts [][]byte
		var modes []string
		nt := 3 + r.Intn(6)
		for i := 0; i < nt; i++ {
			m := modeNames[r.Intn(3)]
			texts = append(texts, []byte(gen.text(m, r)))
			modes = append(modes, m)
		}
		make1 := func() []*urn.URN {
			var vs []*urn.URN
			for i, t := range texts {
				u, _ := urn.NewMachine(urn.WithParsingMode(modeValue(modes[i], nil))).Parse(append([]byte{}, t...))
				if u == nil {
					u = &urn.URN{ID: "Ab", SS: fmt.Sprintf("%%4a%%aF%d", i)}
				}
				if i%4 == 3 {
					u.SS += "%Zz"
				}
				vs = append(vs, u)
			}
			return vs
		}
		run := func(j *job, vs []*urn.URN) (res string) {
			if msg := try(func() {
				switch j.kind {
				case "machine":
					m := urn.NewMachine(urn.WithParsingMode(modeValue(j.mode, nil)))
					u, err := m.Parse(j.in)
					res = render(u, err) + fmt.Sprint(m.Error())
				case "Parse":
					u, ok := urn.Parse(j.in, urn.WithParsingMode(modeValue(j.mode, nil)))
					res = render(u, nil) + fmt.Sprint(ok)
				case "read":
					res = render(vs[j.a], nil)
				case "normalize":
					res = fmt.Sprintf("%+v", project(vs[j.a].Normalize()))
				case "equal":
					res = fmt.Sprint(vs[j.a].Equal(vs[j.b]))
				case "string":
					res = vs[j.a].String()
				case "scim":
					res = fmt.Sprint(vs[j.a].IsSCIM(), vs[j.a].RFC())
					if s := vs[j.a].SCIM(); s != nil {
						x, _ := s.MarshalJSON()
						res += s.String() + string(x)
					}
				case "json":
					x, err := json.Marshal([]interface{}{vs[j.a], urn.URN8141{URN: vs[j.b]}})
					res = string(x) + fmt.Sprint(err)
				case "unmarshal":
					var u urn.URN
					var e urn.URN8141
					var s urn.SCIM
					x := json.Unmarshal(j.in, &u)
					y := json.Unmarshal(j.in, &e)
					z := json.Unmarshal(j.in, &s)
					res = fmt.Sprintf("%v %v %v %s %+v", x, y, z, render(&u, nil), projSCIM(&s))
					if y == nil {
						res += render(e.URN, nil)
					}
				}
			}); msg != "" {
				res = msg
			}
			return res
		}
		var jobs []*job
		for i := 0; i < 60; i++ {
			k := r.Intn(nt)
			j := &job{mode: modes[k], in: texts[k], a: r.Intn(nt), b: r.Intn(nt)}
			j.kind = []string{"machine", "machine", "Parse", "read", "normalize", "equal", "string", "scim", "json", "unmarshal"}[r.Intn(10)]
			if r.Intn(4) == 0 {
				j.mode = modeNames[r.Intn(3)]
			}
			if j.kind == "unmarshal" {
				j.in = jsonText(string(texts[k]), r)
			}
			jobs = append(jobs, j)
		}
		alone := func() {
			b.enter("alone", string(texts[0]))
			for _, j := range jobs {
				j.alone = run(j, make1())
			}
			b.leave()
		}
		// afterwards as well: the first of all calls are then among the others
		after := race || round%2 == 1
		if !after {
			alone()
		}
		vs := make1()
		var results [G][40]*job
		var given [G][40]string
		start := make(chan bool)
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				bb := newBeat()
				defer beats.Delete(bb)
				rr := rand.New(rand.NewSource(seed + int64(round*G+g)))
				// what came of it is looked at afterwards: no synchronization that
				// would order the calls
				var done [40]*job
				var gave [40]string
				<-start
				for n := 0; n < 40; n++ {
					j := jobs[rr.Intn(len(jobs))]
					if n < 3 { // everybody at the same thing first
						j = jobs[n]
					}
					bb.enter(j.kind+" "+j.mode, string(j.in))
					gave[n] = run(j, vs)
					bb.leave()
					done[n] = j
				}
				results[g] = done
				given[g] = gave
			}(g)
		}
		close(start)
		wg.Wait()
		if after {
			alone()
		}
		for g := range results {
			for n, j := range results[g] {
				calls++
				res := given[g][n]
				e := &Event{Op: "conc", Res: res, Alone: j.alone}
				if res != j.alone {
					rep.suspect("a call gives something else among others than alone ("+j.kind, j.mode, string(j.in), single(e))
				} else if n == 7 && len(res) < 600 && trace.wantN("conc"+j.kind, 40) {
					trace.put(e)
					rep.sample(map[string]string{"call": j.kind, "mode": j.mode, "result": res})
				}
			}
		}
	}
	if race {
		rep.add("calls_under_race_detector", calls)
	} else {
		rep.add("concurrent_calls", calls)
	}
	rep.add("rounds", int64(rounds))
}

// hammer: nothing but parsing, each goroutine its own texts and machine, as
// fast as it goes, for what needs two calls to meet within nanoseconds
func hammer(gen *generator, race bool) {
	loops := pick(60000, 1500000)
	if race {
		loops = pick(6000, 100000)
	}
	const G = 16
	type expect struct {
		mode, text string
		in         []byte
		p          P
	}
	var calls int64
	results := make([]*Event, G)
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < G; g++ {
		r := rand.New(rand.NewSource(seed*977 + int64(g)))
		var xs []expect
		for len(xs) < 24 {
			m := modeNames[r.Intn(3)]
			t := gen.text(m, r)
			if len(t) > 60 {
				continue
			}
			x := expect{mode: m, text: t, in: []byte(t)}
			x.p, _ = freshParse(newBeat(), r, m, t)
			xs = append(xs, x)
		}
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			m := urn.NewMachine()
			<-start
			for n := 0; n < loops; n++ {
				x := &xs[(n*7+n/24)%len(xs)]
				var u *urn.URN
				var err error
				msg := try(func() {
					switch n % 4 {
					case 0:
						u, _ = urn.Parse(x.in, urn.WithParsingMode(modeValue(x.mode, nil)))
					case 1:
						u, err = urn.NewMachine(urn.WithParsingMode(modeValue(x.mode, nil))).Parse(x.in)
					default:
						m.WithParsingMode(modeValue(x.mode, nil))
						u, err = m.Parse(x.in)
					}
				})
				same := msg == "" && (u != nil) == (x.p.Res == "urn")
				if same && u != nil {
					same = u.ID == string(x.p.V.ID) && u.SS == string(x.p.V.SS) && u.String() == string(x.p.V.Str)
					if same && n%4 == 3 {
						same = u.Normalize().SS == normPart(string(x.p.V.Norm), u.ID) && u.Equal(x.p.u)
					}
				}
				if same && err != nil {
					same = err.Error() == x.p.Err
				}
				if !same && results[g] == nil {
					results[g] = &Event{Op: "conc", T: B(x.text), X: x.mode, Res: "among others: " + render(u, err) + msg, Alone: render(x.p.u, nil) + x.p.Err}
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, e := range results {
		calls += int64(loops)
		if e != nil {
			rep.suspect("a parse gives something else among others than alone (hammer", e.X, string(e.T), single(e))
		}
	}
	rep.add("concurrent_calls", calls)
}

func normPart(norm, id string) string {
	if len(norm) < len(id)+5 {
		return ""
	}
	return norm[len(id)+5:]
}
