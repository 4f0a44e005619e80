package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// Long lives: few machines and receivers, one buffer that is used for every
// input, a hundred thousand parses, and thousands of results that are kept and
// read again at the end.  What takes a full counter, a full cache, a pool or a
// garbage collection to go wrong goes wrong here.

func longRun(gen *generator) {
	steps := pick(60000, 1000000)
	const ring = 6000
	var parses, rereads, unms int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*131 + int64(wk)))
		var ms [2]urn.Machine
		var modes [2]string
		for i := range ms {
			ms[i] = urn.NewMachine()
			modes[i] = "2141"
		}
		buf := make([]byte, 0, 8192)
		type keep struct {
			mode, text string
			u          *urn.URN
			err        error
			was        O
			view       *urn.SCIM // of a URN that is held no more
		}
		held := make([]keep, 0, ring)
		var pool []string
		var ru urn.URN
		var re urn.URN8141
		var rs urn.SCIM
		now := func(k *keep) (o O) {
			if msg := try(func() {
				if k.view != nil {
					o = scimO(k.view)
				} else {
					o = keptO(k.u, k.err)
				}
			}); msg != "" {
				return O{Nil: true, Scim: nilSC, Err: msg}
			}
			return o
		}
		recheck := func() {
			for i := range held {
				k := &held[i]
				atomic.AddInt64(&rereads, 1)
				if o := now(k); o != k.was {
					if k.view != nil {
						rep.suspect("what the library gave changed later (view", k.mode, k.text,
							single(&Event{Op: "given", Ty: "view", T: k.was.Scim.Canon, Out: viewText(k.was.Scim.Canon, o.Scim.Canon, o)}))
						return
					}
					e1 := parseEvent(k.mode, k.text, P{Res: "urn", V: k.was})
					if k.was.Nil {
						e1.Res, e1.Err, e1.V = "err", k.was.Err, nilO
					}
					e1.Delta = []Change{{"a", k.was}}
					rep.suspect("a result changed while the library went on", k.mode, k.text,
						[]*Event{{Op: "reset"}, e1, {Op: "scribble", Delta: []Change{{"a", o}}}})
					return
				}
			}
		}
		mine := steps
		if wk == 0 {
			mine *= 3 // one machine, for more parses than two bytes count
		}
		for n := 0; n < mine && !rep.tooMany(); n++ {
			i := r.Intn(2)
			if wk == 0 {
				i = 0
			}
			if r.Intn(10) == 0 {
				x := []string{"2141", "8141", "7643", "8141", "7643", "default", "other"}[r.Intn(7)]
				b.enter("history", "switching to "+x)
				try(func() { ms[i].WithParsingMode(modeValue(x, r)) })
				b.leave()
				modes[i] = modeOf(x)
			}
			mode := modes[i]
			var text string
			switch k := r.Intn(10); {
			case k < 3 && len(pool) > 0:
				text = pool[r.Intn(len(pool))]
			default:
				src := mode
				if k == 9 {
					src = modeNames[r.Intn(3)]
				}
				if text = gen.text(src, r); len(text) > 4000 {
					continue
				}
				if len(pool) < 500 {
					pool = append(pool, text)
				} else {
					pool[r.Intn(500)] = text
				}
			}
			// JSON into the same receivers, now and then
			if n%8 == 3 && in(prop, "C11", "C12", "C22", "C10") {
				gen.longUnmarshal(b, r, mode, text, &ru, &re, &rs)
				atomic.AddInt64(&unms, 1)
				continue
			}
			// the one buffer
			buf = append(buf[:0], text...)
			k := keep{mode: mode, text: text}
			via := r.Intn(4)
			me := ""
			ok := false
			b.enter(mode, text)
			msg := try(func() {
				if via > 0 {
					k.u, k.err = ms[i].Parse(buf)
					if err := ms[i].Error(); err != nil {
						me = "=" + err.Error()
					}
				} else {
					k.u, ok = urn.Parse(buf, urn.WithParsingMode(modeValue(mode, r)))
				}
			})
			b.leave()
			atomic.AddInt64(&parses, 1)
			p := observeBy(projectN, k.u, k.err, msg)
			if via == 0 && msg == "" && k.u == nil {
				// no error to be had from Parse
				p = P{Res: "err", V: nilO}
			}
			bad := ""
			var e *Event
			switch prop {
			case "C09":
				if via > 0 {
					fresh, freshMe := freshParse(b, r, mode, text)
					if !sameOutcome(p, fresh) || me != freshMe {
						bad = "not the outcome of a new machine, after many parses"
						e = &Event{Op: "parse", M: "m", T: B(text), D: "a", Res: p.Res, Err: p.Err, V: p.V, Fresh: fresh, FreshMe: freshMe, Again: noneP}
						e.Me[0] = me
					}
				}
			case "C05":
				if !in(p.Res, "urn", "err") || via == 0 && ok != (p.Res == "urn") ||
					via > 0 && (p.Res == "urn" && me != "" || p.Res == "err" && me != "="+p.Err) {
					bad = "neither exactly a URN nor exactly an error, after many parses"
					if via > 0 {
						e = &Event{Op: "parse", M: "m", T: B(text), D: "a", Res: p.Res, Err: p.Err, V: p.V, Fresh: p, FreshMe: me, Again: noneP}
						e.Me[0] = me
					} else {
						e = parseEvent(mode, text, p)
						e.OkFlag = ok
					}
				}
			case "C13":
				if p.Res == "urn" {
					bad = kindBad(mode, p.V)
				}
			case "C22":
				bad = gen.yields(mode, text, p)
			case "C10":
				if string(buf) != text {
					bad = "parsing wrote to its input"
					e = parseEvent(mode, text, p)
					e.Before, e.After = B(text), B(buf)
				}
			}
			if bad != "" {
				hist := []*Event{{Op: "reset"}}
				if e == nil {
					e = parseEvent(mode, text, p)
				}
				if e.Op == "parse" {
					hist = append(hist, &Event{Op: "new", M: "m", Opts: []string{mode}})
					if p.Res == "urn" {
						e.Delta = []Change{{"a", p.V}}
					}
				}
				rep.suspect(kindOfBad(bad), mode, text, append(hist, e))
			}
			if msg == "" && (k.u != nil || k.err != nil) {
				if prop == "C22" && k.u != nil && r.Intn(2) == 0 {
					// only what it gave is held
					if k.view = k.u.SCIM(); k.view != nil && r.Intn(2) == 0 {
						k.u = nil
					} else {
						c := *k.u
						k.u, k.view = &c, nil
					}
				}
				k.was = now(&k)
				if len(held) < ring {
					held = append(held, k)
				} else {
					held[r.Intn(ring)] = k
				}
			}
			if n%20000 == 19999 {
				runtime.GC()
				time.Sleep(10 * time.Millisecond) // for finalizers
				recheck()
			}
		}
		for i := range buf {
			buf[i] = '!'
		}
		for k := 0; k < 2; k++ {
			runtime.GC()
			time.Sleep(10 * time.Millisecond)
			for i := 0; i < 200 && len(held) > 0; i++ {
				j := r.Intn(len(held))
				b.enter(held[j].mode, held[j].text)
				try(func() { urn.Parse([]byte(held[j].text), urn.WithParsingMode(modeValue(held[j].mode, r))) })
				b.leave()
			}
		}
		recheck()
	})
	rep.add("long_run_parses", parses)
	rep.add("long_run_results_read_again", rereads)
	rep.add("long_run_unmarshals", unms)
}

// ticks repeats a few calls more often than two bytes can count, on one machine
// or one value, and compares every answer with the first
func ticks(gen *generator) {
	const turns = 140000
	var calls int64
	texts := map[string][2]string{ // accepted, rejected
		"2141": {"URN:aA:b%Ab", "urn:aa:b?"},
		"8141": {"Urn:aA:b?+r?=q#f", "urn:aa:b?+r?+q"},
		"7643": {"urn:ietf:params:scim:api:x:%Ab", "urn:ietf:params:scim:api:x:"},
	}
	type job struct{ pattern, mode string }
	var jobs []job
	for _, m := range modeNames {
		for _, p := range []string{"A", "R", "AR", "RRA", "AAR", "SA", "SRA", "SRSA"} {
			jobs = append(jobs, job{p, m})
		}
	}
	if !in(prop, "C05", "C09", "C22") {
		jobs = nil
	}
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*17 + int64(wk)))
		for i := wk; i < len(jobs); i += workers {
			j := jobs[i]
			var want [2]P
			var wantMe [2]string
			for k, t := range texts[j.mode] {
				want[k], wantMe[k] = freshParse(b, r, j.mode, t)
			}
			m := urn.NewMachine(urn.WithParsingMode(modeValue(j.mode, nil)))
			bufs := [2][]byte{[]byte(texts[j.mode][0]), []byte(texts[j.mode][1])}
			strs := [2]string{string(want[0].V.Str), ""}
			for n := 0; n < turns && !rep.tooMany(); n++ {
				for at := 0; at < len(j.pattern); at++ {
					k := 0
					switch j.pattern[at] {
					case 'R':
						k = 1
					case 'S':
						b.enter("history", "switching")
						try(func() {
							if (n+at)%2 == 0 {
								m.WithParsingMode(modeValue([]string{"2141", "8141", "7643"}[n%3], nil))
							}
							m.WithParsingMode(modeValue(j.mode, nil))
						})
						b.leave()
						continue
					}
					var u *urn.URN
					var err error
					me, got := "", ""
					b.enter(j.mode, texts[j.mode][k])
					msg := try(func() {
						u, err = m.Parse(bufs[k])
						if e := m.Error(); e != nil {
							me = "=" + e.Error()
						}
						if u != nil {
							got = u.String()
						}
					})
					b.leave()
					atomic.AddInt64(&calls, 1)
					same := msg == "" && me == wantMe[k] && got == strs[k] && (u == nil) == (k == 1) && (err == nil) == (k == 0) && (err == nil || err.Error() == want[k].Err)
					if same && n%1000 != 0 {
						continue
					}
					p := observeBy(projectN, u, err, msg)
					if same && sameOutcome(p, want[k]) {
						continue
					}
					bad := ""
					e := &Event{Op: "parse", M: "m", T: B(texts[j.mode][k]), D: "a", Res: p.Res, Err: p.Err, V: p.V, Fresh: want[k], FreshMe: wantMe[k], Again: noneP}
					e.Me[0] = me
					if p.Res == "urn" {
						e.Delta = []Change{{"a", p.V}}
					}
					switch prop {
					case "C09":
						bad = "not the outcome of a new machine, after many parses"
					case "C05":
						if !in(p.Res, "urn", "err") || p.Res == "urn" && me != "" || p.Res == "err" && me != "="+p.Err {
							bad = "neither exactly a URN nor exactly an error, after many parses"
						}
					case "C22":
						bad = gen.yields(j.mode, texts[j.mode][k], p)
					}
					if bad != "" {
						rep.suspect(bad, j.mode, texts[j.mode][k], []*Event{{Op: "reset"}, {Op: "new", M: "m", Opts: []string{j.mode}}, e})
						n = turns
						break
					}
				}
			}
		}
	})
	if calls > 0 {
		rep.add("repeated_parses", calls)
	}
	values := map[string]int64{}
	if in(prop, "C07", "C08", "C17", "C21", "C22", "C11", "C12", "C16") {
		for _, m := range modeNames {
			for _, how := range []string{"norm", "equal", "string", "unm", "marshal", "type"} {
				values[how] += gen.tickValue(m, how, texts[m], turns)
			}
		}
	}
	for k, n := range values {
		if n == 0 {
			continue
		}
		rep.add("repeated_calls_"+k, n)
	}
}

// tickValue repeats one call on one value; when an answer changes, a history
// that ends with the odd answer goes to TLC
func (gen *generator) tickValue(mode, how string, texts [2]string, turns int) (done int64) {
	uses := map[string][]string{
		"norm": {"C07", "C17"}, "equal": {"C08"}, "string": {"C17", "C21"}, "unm": {"C11", "C12"}, "marshal": {"C11"}, "type": {"C16"},
	}
	if !in(prop, uses[how]...) {
		return 0
	}
	b := newBeat()
	r := rand.New(rand.NewSource(seed))
	if how == "type" {
		want := map[string]string{"api": "api", "schemas": "schemas", "param": "param", "Api": "unsupported", "x": "unsupported"}
		for n := 0; n < turns; n++ {
			for _, t := range []string{"api", "Api", "schemas", "param", "x"} {
				if got := typeName(scimschema.TypeFromString(t)); got != want[t] {
					rep.suspect("type "+got, "", t, single(&Event{Op: "type", T: B(t), Ty: got}))
					return
				}
				done++
			}
		}
		return
	}
	w := newWorld(gen, b, r)
	w.opPParse([]string{mode}, texts[0], "a")
	w.opPParse([]string{mode}, strings.ToUpper(texts[0][:4])+texts[0][4:], "b")
	w.opPParse([]string{mode}, texts[0]+"x", "c")
	u, x, y := w.ptr("a"), w.ptr("b"), w.ptr("c")
	if u == nil || x == nil || y == nil {
		return
	}
	d := map[string]string{"2141": "u", "8141": "e", "7643": "s"}[mode]
	good, _ := json.Marshal(texts[0])
	rotten, _ := json.Marshal(texts[1])
	var first string
	for n := 0; n < turns && w.bad == "" && !rep.tooMany(); n++ {
		var got string
		// in the world, and judged there, now and then and when something is odd
		inWorld := func() {
			switch how {
			case "norm":
				w.opNorm("a", "d")
			case "equal":
				w.opEqual("a", "b")
				w.opEqual("a", "c")
			case "string":
				w.opRead("a")
			case "marshal":
				w.opMarshal("a")
			case "unm":
				w.opUnm(d, good)
				w.opUnm(d, rotten)
			}
		}
		msg := w.call(how, func() {
			switch how {
			case "norm":
				got = u.Normalize().String()
			case "equal":
				got = fmt.Sprint(u.Equal(x), u.Equal(y), y.Equal(u))
			case "string":
				got = u.String()
				if prop == "C17" {
					got += fmt.Sprint(" ", u.RFC(), u.IsSCIM(), u.RComponent(), u.QComponent(), u.FComponent())
				}
			case "marshal":
				j, err := u.MarshalJSON()
				got = fmt.Sprint(string(j), err)
			case "unm":
				var e1, e2 error
				for _, to := range []json.Unmarshaler{&w.u, &w.e, &w.s}[map[string]int{"u": 0, "e": 1, "s": 2}[d]:][:1] {
					e1 = to.UnmarshalJSON(good)
					e2 = to.UnmarshalJSON(rotten)
				}
				got = fmt.Sprint(e1, e2, w.project(d))
			}
		})
		done++
		if n == 0 {
			first = got + msg
			if how == "unm" {
				w.opUnm(d, good)
			}
			continue
		}
		if got+msg == first {
			continue
		}
		keep := len(w.evs)
		for k := 0; k < 5 && w.bad == ""; k++ {
			inWorld()
		}
		if w.bad == "" {
			// it does not come again: report what was seen
			e := &Event{Op: "read", S: "a", One: w.proj["a"], Two: w.proj["a"], Panic: true}
			w.evs = w.evs[:keep]
			w.bad, w.badEv = how+" gives another answer after many calls", e
			switch how {
			case "string":
				if prop == "C21" {
					o := w.proj["a"]
					o.Str = B(got)
					e.Delta = []Change{{"a", o}}
				}
			case "equal":
				e = &Event{Op: "equal", S: "a", X: "b", Bool: !(w.proj["a"].Norm == w.proj["b"].Norm), Panic: true}
			case "norm":
				e = &Event{Op: "norm", S: "a", D: "d", V: O{Str: B(got), Scim: nilSC}, Twice: nilO, Back: noneP}
				if prop == "C17" {
					e = &Event{Op: "read", S: "a", One: w.proj["a"], Two: w.proj["a"], Panic: true}
				}
			case "unm":
				e = &Event{Op: "unm", Ty: recvType[d], D: d, Json: B(good), Parsed: noneP, FreshV: nilO, After: B(good), Ok: true, Same: got}
			case "marshal":
				e = &Event{Op: "marshal", Ty: "URN", V: w.proj["a"], Json: B(got), Res: "ok"}
			}
			w.badEv = e
			w.evs = append(w.evs, e)
		}
	}
	w.report()
	return
}

// longUnmarshal unmarshals into a receiver of long standing
func (gen *generator) longUnmarshal(b *beat, r *rand.Rand, mode, text string, u *urn.URN, x *urn.URN8141, s *urn.SCIM) {
	j := jsonText(text, r)
	was := string(j)
	d := map[string]string{"2141": "u", "8141": "e", "7643": "s"}[mode]
	e := &Event{Op: "unm", Ty: recvType[d], D: d, Json: B(was), Parsed: noneP, FreshV: nilO, Same: "same"}
	proj := func() O {
		switch d {
		case "u":
			return projectN(u)
		case "e":
			return projectN(x.URN)
		}
		return scimO(s)
	}
	var before, now O
	b.enter("history", "Unmarshal "+was)
	msg := try(func() {
		before = proj()
		var err error
		switch d {
		case "u":
			err = json.Unmarshal(j, u)
			var f urn.URN
			json.Unmarshal([]byte(was), &f)
			e.FreshV = projectN(&f)
		case "e":
			err = json.Unmarshal(j, x)
			var f urn.URN8141
			json.Unmarshal([]byte(was), &f)
			e.FreshV = projectN(f.URN)
		case "s":
			err = json.Unmarshal(j, s)
			var f urn.SCIM
			json.Unmarshal([]byte(was), &f)
			e.FreshV = scimO(&f)
		}
		e.Ok = err == nil
		now = proj()
		e.After = B(j)
		if t, ok := decodeText([]byte(was)); ok {
			e.Parsed, _ = freshParse(b, r, mode, t)
			e.Quotes = true
		}
	})
	b.leave()
	if msg != "" {
		return // C05 and C11 speak of panics
	}
	e.mode = mode
	var delta []Change
	if now != before {
		delta = []Change{{d, now}}
	}
	e.Delta = delta
	if bad := gen.judge(e, func(string) O { return before }, errs{}); bad != "" {
		first := &Event{Op: "reset", Delta: []Change{{d, before}}}
		rep.suspect(kindOfBad(bad)+", after many calls", mode, was, []*Event{first, e})
	}
}

var _ = fmt.Sprint

// viewText tells how a value changed: its text, or else all of it
func viewText(was, now B, o O) B {
	if now != was {
		return now
	}
	return B(fmt.Sprintf("%+v", o))
}
