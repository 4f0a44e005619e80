package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// Short histories over the streams of texts: what the long random ones are too
// slow for.

func forTexts(gen *generator, budget int, f func(w *world, mode, text string, n int)) {
	var total int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*131 + int64(wk)))
		for _, mode := range modeNames {
			n := 0
			gen.all(mode, wk, budget, func(text string) {
				if rep.tooMany() {
					return
				}
				n++
				w := newWorld(gen, b, r)
				f(w, mode, text, n)
				w.report()
				if len(w.evs) > 1 {
					atomic.AddInt64(&total, 1)
					o := gen.sp.graphs[mode].run(text)
					w.keepTrace(traceKey(mode, o, text))
				}
			})
		}
	})
	rep.add("short_histories", total)
}

func bulkNorm(gen *generator) {
	forTexts(gen, pick(400000, 8000000), func(w *world, mode, text string, n int) {
		if !gen.sp.graphs[mode].run(text).ok && n%50 != 0 {
			return
		}
		w.opPParse([]string{mode}, text, "a")
		w.opNorm("a", "b")
		if n%4 == 0 {
			w.opNorm("b", "c")
		}
	})
}

func bulkEqual(gen *generator) {
	forTexts(gen, pick(400000, 8000000), func(w *world, mode, text string, n int) {
		if !gen.sp.graphs[mode].run(text).ok && n%50 != 0 {
			return
		}
		w.opPParse([]string{mode}, text, "a")
		if w.ptr("a") == nil {
			return
		}
		if n%5 == 0 {
			w.opCompose(variantPart(w.ptr("a").ID, w.r), variant(w.ptr("a").SS, w.r), "b")
			if u := w.ptr("b"); u.ID == "" || u.SS == "" || !wellFormed(u.SS) {
				return
			}
		} else {
			m := mode
			if n%3 == 0 {
				m = modeNames[w.r.Intn(3)]
			}
			w.opPParse([]string{m}, variant(text, w.r), "b")
		}
		w.opEqual("a", "b")
	})
}

// wellFormed: every "%" has two alphanumerics behind it
func wellFormed(ss string) bool {
	for i := 0; i < len(ss); i++ {
		if ss[i] == '%' {
			if i+2 >= len(ss) || !isAlnum(ss[i+1]) || !isAlnum(ss[i+2]) {
				return false
			}
			i += 2
		} else if ss[i] >= 128 {
			return false
		}
	}
	return true
}

func isAlnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// bulkOwn parses a text twice, changes all of the one value and looks at the
// other, then parses the text again
func bulkOwn(gen *generator) {
	forTexts(gen, pick(60000, 2000000), func(w *world, mode, text string, n int) {
		if !gen.sp.graphs[mode].run(text).ok {
			return
		}
		long := len(text) > 200
		if !long && n%4 != 0 {
			return
		}
		w.opPParse([]string{mode}, text, "a")
		if n%3 == 0 && len(text) < 20000 {
			d := map[string]string{"2141": "u", "8141": "e", "7643": "s"}[mode]
			w.opUnm(d, jsonText(text, w.r))
		} else {
			w.opPParse([]string{mode}, text, "b")
		}
		if n%2 == 0 {
			w.opNorm("a", "c")
			w.opSetSS("c", "other")
		}
		w.opSetView("a", []string{"schemas", "param", "unsupported"}[n%3], "changed", "for%20good")
		w.opSetID("a", "changed")
		w.opSetSS("a", "changed%AB")
		w.opPParse([]string{mode}, text, "c")
		w.opSetView("c", "api", "", "")
		w.opPParse([]string{mode}, text, "a")
	})
}

func bulkRead(gen *generator) {
	forTexts(gen, pick(200000, 4000000), func(w *world, mode, text string, n int) {
		if !gen.sp.graphs[mode].run(text).ok || n%2 != 0 {
			return
		}
		w.opPParse([]string{mode}, text, "a")
		w.opRead("a")
		w.opNorm("a", "b")
		w.opEqual("b", "a")
	})
}

func bulkJSON(gen *generator) {
	forTexts(gen, pick(150000, 3000000), func(w *world, mode, text string, n int) {
		ok := gen.sp.graphs[mode].run(text).ok
		if len(text) > 20000 && n%7 != 0 || !ok && n%6 != 0 || ok && n%2 != 0 {
			return
		}
		d := map[string]string{"2141": "u", "8141": "e", "7643": "s"}[mode]
		if n%9 == 0 {
			d = slotNames[4+w.r.Intn(3)]
		}
		w.opUnm(d, jsonText(text, w.r))
		w.opMarshal(d)
	})
	// values that nobody unmarshalled
	var n int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*17 + int64(wk)))
		for i := 0; i < pick(3000, 60000); i++ {
			w := newWorld(gen, b, r)
			switch r.Intn(4) {
			case 0:
				w.s = urn.SCIM{Type: scimType(r), Name: w.randomSS(r.Intn(6)), Other: w.randomSS(r.Intn(6))}
				w.sync()
				w.opMarshal("s")
			case 1:
				w.opCompose(w.anyID(), w.anySS(), "a")
				w.e = urn.URN8141{URN: w.ptr("a")}
				w.sync()
				w.opMarshal("a")
				w.opMarshal("e")
				w.opRead("a")
			case 2: // zero values
				w.opMarshal([]string{"u", "e", "s"}[i%3])
			case 3: // a SCIM view
				w.opPParse([]string{"7643"}, gen.text("7643", r), "a")
				if u := w.ptr("a"); u != nil && u.SCIM() != nil {
					w.s = *u.SCIM()
					w.sync()
					w.opMarshal("s")
				}
				w.opNorm("a", "b")
				w.opMarshal("b")
			}
			w.report()
			w.keepTrace(fmt.Sprint("marshal", i%4))
			atomic.AddInt64(&n, 1)
		}
	})
	rep.add("marshalled_values", n)
}

// sync records what the caller did to receivers, as a new world
func (w *world) sync() {
	w.evs = nil
	e := &Event{Op: "reset"}
	for _, s := range slotNames {
		w.proj[s] = w.project(s)
		if !w.proj[s].Nil {
			e.Delta = append(e.Delta, Change{s, w.proj[s]})
		}
	}
	w.evs = append(w.evs, e)
}

func scimType(r *rand.Rand) scimschema.Type {
	if r.Intn(6) == 0 {
		return scimschema.Type([]int{0, -1, 4, 5, 100, 1 << 30, -1 << 31}[r.Intn(7)])
	}
	return scimschema.Type(1 + r.Intn(3))
}

// ---------------------------------------------------------------- C14

func checkModes(gen *generator) {
	var n, pairs int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*37 + int64(wk)))
		for _, mode := range modeNames {
			k := 0
			gen.all(mode, wk, pick(500000, 12000000), func(text string) {
				k++
				if rep.tooMany() {
					return
				}
				e := &Event{Op: "modes", T: B(text)}
				for i, m := range modeNames {
					e.P3[i] = b.parse(m, text)
				}
				bad := ""
				b.enter("all", text)
				msg := try(func() {
					for i := range modeNames {
						if u := e.P3[i].u; u != nil {
							e.Norm3[i] = B(u.Normalize().String())
						}
					}
					for i := range modeNames {
						for j := range modeNames {
							p, q := e.P3[i], e.P3[j]
							if p.Res == "urn" && q.Res == "urn" && noComp(p.V) && noComp(q.V) {
								e.Eq = append(e.Eq, p.u.Equal(q.u))
							}
						}
					}
				})
				b.leave()
				if msg != "" {
					e.Eq = append(e.Eq, false)
					bad = msg
				}
				if len(e.Eq) > 1 {
					atomic.AddInt64(&pairs, 1)
				}
				atomic.AddInt64(&n, 1)
				if bad == "" {
					bad = gen.modesBad(e)
				}
				if bad != "" {
					rep.suspect(kindOfBad(bad), "all", text, single(e))
					return
				}
				acc := fmt.Sprint(e.P3[0].Res == "urn", e.P3[1].Res == "urn", e.P3[2].Res == "urn")
				if len(text) < 800 && (r.Intn(9) == 0 || len(e.Eq) > 0) && trace.want(traceKey(mode, gen.sp.graphs[mode].run(text), text)+acc) {
					trace.put(e)
					if len(e.Eq) > 1 && len(text) < 60 {
						rep.sample(map[string]interface{}{"text": text, "accepted": acc, "normal form": string(e.Norm3[0] + "|" + e.Norm3[1] + "|" + e.Norm3[2])})
					}
				}
			})
		}
	})
	rep.add("texts_in_three_modes", n)
	rep.add("texts_of_several_modes", pairs)
}

func noComp(o O) bool { return o.R == "" && o.Q == "" && o.F == "" }

func nid8141(gen *generator, id string) bool {
	return gen.sp.graphs["8141"].run("urn:" + id + ":a").ok
}

func (gen *generator) modesBad(e *Event) string {
	a, s, c := e.P3[0], e.P3[1], e.P3[2]
	A, S, C := a.Res == "urn", s.Res == "urn", c.Res == "urn"
	t := string(e.T)
	switch {
	case S && !A:
		return "accepted in mode 7643 but not in 2141"
	case S && !C:
		return "accepted in mode 7643 but not in 8141"
	}
	if A && nid8141(gen, string(a.V.ID)) {
		switch {
		case !C:
			return "accepted in mode 2141, with a fitting identifier, but not in 8141"
		case c.V.ID != a.V.ID || c.V.SS != a.V.SS || !noComp(c.V):
			return "modes 2141 and 8141 split it differently"
		}
	}
	if C && t[len(t)-1] != '#' && noComp(c.V) && gen.sp.lowS(string(c.V.ID)) != gen.sp.urn {
		plain := true
		for i := 0; i < len(c.V.SS); i++ {
			switch c.V.SS[i] {
			case '~', '&', '/':
				plain = false
			}
		}
		if plain {
			switch {
			case !A:
				return "accepted in mode 8141, and of the RFC 2141 form, but not in 2141"
			case c.V.ID != a.V.ID || c.V.SS != a.V.SS:
				return "modes 8141 and 2141 split it differently"
			}
		}
	}
	for i := range e.P3 {
		for j := 0; j < i; j++ {
			p, q := e.P3[i], e.P3[j]
			if p.Res == "urn" && q.Res == "urn" && noComp(p.V) && noComp(q.V) {
				if p.V.Str != q.V.Str {
					return "string forms differ between modes"
				}
				if e.Norm3[i] != e.Norm3[j] {
					return "normal forms differ between modes"
				}
			}
		}
	}
	for _, q := range e.Eq {
		if !q {
			return "not Equal though the same text"
		}
	}
	return ""
}

// ---------------------------------------------------------------- C16

func checkTypes(gen *generator, types, values string) {
	var n int64
	put := func(key string, ev *Event, bad string) {
		atomic.AddInt64(&n, 1)
		if bad != "" {
			rep.suspect(kindOfBad(bad), "", string(ev.T), single(ev))
		} else if trace.wantN(key, 120) {
			trace.put(ev)
		}
	}
	look := func(t string) {
		ev := &Event{Op: "type", T: B(t)}
		if msg := try(func() { ev.Ty = typeName(scimschema.TypeFromString(t)) }); msg != "" {
			ev.Ty = msg
		}
		want := "unsupported"
		for k, w := range gen.sp.types {
			if w == t {
				want = k
			}
		}
		bad := ""
		if ev.Ty != want {
			bad = fmt.Sprintf("TypeFromString(%q) is %s, not %s", t, ev.Ty, want)
		}
		put("type"+ev.Ty, ev, bad)
	}
	name := func(i int) {
		ev := &Event{Op: "typename"}
		if msg := try(func() {
			ty := scimschema.Type(i)
			ev.Ty, ev.T = typeName(ty), B(ty.String())
		}); msg != "" {
			ev.T = B(msg)
		}
		bad := ""
		if string(ev.T) != gen.sp.types[ev.Ty] {
			bad = fmt.Sprintf("type %s has the text %q", ev.Ty, ev.T)
		}
		put("typename", ev, bad)
	}
	for i := -70000; i <= 70000; i++ {
		name(i)
	}
	for k := uint(17); k < 63; k++ {
		for d := -4; d <= 4; d++ {
			name(1<<k + d)
			name(-(1 << k) + d)
		}
	}
	for _, w := range gen.dict.words {
		look(w)
	}
	for _, w := range gen.dict.texts {
		look(w)
	}
	// the neighbourhood of the names: all strings at edit distance one over all
	// bytes, and all short strings
	var names []string
	for _, w := range gen.sp.types {
		names = append(names, w)
	}
	for _, w := range names {
		look(w)
		for i := 0; i <= len(w); i++ {
			look(w[:i])
			look(w[i:])
			for c := 0; c < 256; c++ {
				look(w[:i] + string([]byte{byte(c)}) + w[i:])
				if i < len(w) {
					look(w[:i] + string([]byte{byte(c)}) + w[i+1:])
				}
			}
			if i < len(w) {
				look(w[:i] + w[i+1:])
			}
			if i+1 < len(w) {
				look(w[:i] + w[i+1:i+2] + w[i:i+1] + w[i+2:])
			}
		}
		// every combination of cases
		for m := 0; m < 1<<uint(len(w)); m++ {
			b := []byte(w)
			for i := range b {
				if m>>uint(i)&1 == 1 {
					b[i] -= 32
				}
			}
			look(string(b))
		}
		for _, v := range names {
			look(w + v)
			look(w + ":" + v)
			look(w + " " + v)
		}
		for _, x := range []string{"\x00", "\n", "s", "S", "{}", "::", ":", "\u200b", "\u212a"} {
			look(w + x)
			look(x + w)
		}
	}
	alpha := "aepirmschSPA: \x00"
	for _, c1 := range alpha {
		for _, c2 := range alpha {
			for _, c3 := range alpha {
				look(string(c1) + string(c2) + string(c3))
				for _, c4 := range "aism" {
					look(string(c1) + string(c2) + string(c3) + string(c4))
				}
			}
			look(string(c1) + string(c2))
		}
		look(string(c1))
	}
	r := rand.New(rand.NewSource(seed * 5))
	for i := 0; i < pick(100000, 3000000); i++ {
		look(gen.mutate(names[r.Intn(len(names))], r))
	}
	if types != "" {
		scimTypesFromModel(types, look)
		scimValues(gen, values)
	}
	rep.add("type_lookups", n)
	// values
	n = 0
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*41 + int64(wk)))
		w := newWorld(gen, b, r)
		for i := 0; i < pick(60000, 2000000); i++ {
			s := &urn.SCIM{Type: scimType(r)}
			for k := []int{0, 1, 1, 2, 5, 12, 40}[r.Intn(7)]; k > 0; k-- {
				if r.Intn(60) == 0 {
					s.Name += string([]byte{randByte(r)})
				} else {
					s.Name += string([]byte{alnums[r.Intn(62)]})
				}
			}
			if r.Intn(2) == 0 {
				s.Other = w.randomSS(r.Intn([]int{3, 10, 40}[r.Intn(3)]))
			}
			if i%2000 == 7 {
				s.Other = w.randomSS(3000)
			}
			ev := &Event{Op: "scim", Back: noneP}
			msg := w.call("SCIM.String", func() { ev.C = projSCIM(s) })
			if msg != "" {
				ev.C = SC{Ty: typeName(s.Type), Nm: B(s.Name), Ot: B(s.Other), Canon: B(msg)}
			} else {
				ev.Back = b.parse("7643", string(ev.C.Canon))
			}
			bad := gen.scimBad(ev)
			atomic.AddInt64(&n, 1)
			if bad != "" {
				rep.suspect(kindOfBad(bad), "7643", string(ev.C.Canon), single(ev))
			} else if len(s.Other) < 200 && trace.wantN("scim"+ev.Back.Res+ev.C.Ty, 150) {
				trace.put(ev)
				rep.sample(map[string]string{"canonical": string(ev.C.Canon), "back": ev.Back.Res})
			}
		}
	})
	rep.add("scim_values", n)
}

func (gen *generator) scimParses(c SC) bool {
	if _, ok := gen.sp.types[c.Ty]; !ok || c.Nm == "" {
		return false
	}
	for i := 0; i < len(c.Nm); i++ {
		if !isAlnum(c.Nm[i]) {
			return false
		}
	}
	return c.Ot == "" || gen.sp.graphs["2141"].run("urn:a:"+string(c.Ot)).ok
}

var _ = json.Marshal
