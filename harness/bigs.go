package main

import (
	"math/rand"
	"sort"
	"strings"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
)

// afterBig parses very long texts, accepted and rejected, on a machine and then
// short ones, with and without a change of mode: the outcomes are those of new
// machines.
func afterBig(gen *generator) {
	sizes := []int{5000, 70000, 150000, 1100000}
	if thorough() {
		sizes = append(sizes, 17000000)
	}
	forms := map[string][][2]string{ // head, tail of what is repeated
		"2141": {{"URN:aA:", "%aB"}, {"urn:aa:b", ""}, {"urn:aa:b", "?"}, {"urn:aa:b", "%4"}},
		"8141": {{"URN:aA:", "%aB"}, {"urn:aa:b?+", "?=q"}, {"urn:aa:b?=", "#f"}, {"urn:aa:b?+r?=q#", ""}, {"urn:aa:b?=", "\x00"}, {"urn:aa:b?+r?=", "%"}},
		"7643": {{"URN:ietf:params:scim:api:", ""}, {"urn:ietf:params:scim:api:n:", "%aB"}, {"urn:ietf:params:scim:api:n:", " "}, {"urn:ietf:params:scim:api:", ":"}},
	}
	small := map[string][]string{
		"2141": {"URN:aA:b%Ab", "urn:aa:b?", "x", ""},
		"8141": {"Urn:aA:b?+r?=q#f", "urn:aa:c", "urn:aa:b?+r?+q", ""},
		"7643": {"urn:ietf:params:scim:api:x:%Ab", "Urn:ietf:params:scim:param:y", "urn:ietf:params:scim:api:x:", ""},
	}
	type job struct {
		m1, m2, big string
	}
	var jobs []job
	for _, m1 := range modeNames {
		for _, f := range forms[m1] {
			for _, n := range sizes {
				big := f[0] + strings.Repeat("xY1", n/3) + f[1]
				for _, m2 := range modeNames {
					jobs = append(jobs, job{m1, m2, big})
				}
			}
		}
	}
	var n int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*19 + int64(wk)))
		for i := wk; i < len(jobs) && !rep.tooMany(); i += workers {
			j := jobs[i]
			m := urn.NewMachine(urn.WithParsingMode(modeValue(j.m1, nil)))
			in := []byte(j.big)
			b.enter(j.m1, j.big[:60])
			try(func() { m.Parse(in) })
			try(func() { m.WithParsingMode(modeValue(j.m2, nil)) })
			b.leave()
			for _, t := range append(small[j.m2], small[j.m2]...) {
				var u *urn.URN
				var err error
				me := ""
				b.enter(j.m2, t)
				msg := try(func() {
					u, err = m.Parse([]byte(t))
					if e := m.Error(); e != nil {
						me = "=" + e.Error()
					}
				})
				b.leave()
				gen.judgeAfter(b, r, j.m2, t, observeBy(projectN, u, err, msg), me, "after a long text")
				atomic.AddInt64(&n, 1)
			}
		}
	})
	rep.add("parses_after_a_long_text", n)
}

// judgeAfter judges what a machine with a past says of a text
func (gen *generator) judgeAfter(b *beat, r *rand.Rand, mode, t string, p P, me, when string) bool {
	fresh, freshMe := freshParse(b, r, mode, t)
	e := &Event{Op: "parse", M: "m", T: B(t), D: "a", Res: p.Res, Err: p.Err, V: p.V, Fresh: fresh, FreshMe: freshMe, Again: noneP}
	e.Me[0] = me
	if p.Res == "urn" {
		e.Delta = []Change{{"a", p.V}}
	}
	bad := ""
	switch prop {
	case "C09":
		if !sameOutcome(p, fresh) || me != freshMe {
			bad = "not the outcome of a new machine, " + when
		}
	case "C05":
		if !in(p.Res, "urn", "err") || p.Res == "urn" && me != "" || p.Res == "err" && me != "="+p.Err {
			bad = "neither exactly a URN nor exactly an error, " + when
		}
	case "C22":
		bad = gen.yields(mode, t, p)
	}
	if bad != "" {
		rep.suspect(kindOfBad(bad), mode, t, []*Event{{Op: "reset"}, {Op: "new", M: "m", Opts: []string{mode}}, e})
	}
	return bad == ""
}

// everyModeValue parses with every value a parsing mode is likely to be given
func everyModeValue(gen *generator) {
	seen := map[int]bool{}
	for v := -3000; v <= 10000; v++ {
		seen[v] = true
	}
	for k := uint(8); k < 63; k++ {
		for d := -5; d <= 5; d++ {
			seen[1<<k+d] = true
			seen[-(1<<k)+d] = true
		}
	}
	for d := 0; d <= 5; d++ {
		seen[1<<63-1-d] = true
		seen[-1<<63+d] = true
	}
	for _, n := range gen.dict.ints {
		for d := -4; d <= 4; d++ {
			seen[n+d] = true
			seen[-n+d] = true
		}
	}
	for _, n := range []int{2141, 8141, 7643, 2396, 3986, 3406, 6963, 7642, 7644} {
		for d := -4; d <= 4; d++ {
			seen[n+d] = true
			seen[n*10+d] = true
		}
	}
	var vals []int
	for v := range seen {
		vals = append(vals, v)
	}
	sort.Ints(vals)
	rnd := rand.New(rand.NewSource(seed * 23))
	for i := 0; i < 20000; i++ {
		vals = append(vals, int(rnd.Uint64()>>(rnd.Intn(64))))
	}
	texts := []string{"urn:a:b", "urn:ab:c~d", "urn:ietf:params:scim:api:x", "urn:ab:c?+d", "urn:b:", "urn:urn:b"}
	var n int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*29 + int64(wk)))
		for i := wk; i < len(vals) && !rep.tooMany(); i += workers {
			v := urn.ParsingMode(vals[i])
			mode, opt := "2141", "other"
			switch v {
			case urn.Default:
				opt = "default"
			case urn.RFC2141Only:
				opt = "2141"
			case urn.RFC7643Only:
				mode, opt = "7643", "7643"
			case urn.RFC8141Only:
				mode, opt = "8141", "8141"
			}
			for k, t := range texts {
				var u, pu *urn.URN
				var err error
				ok, pk := false, false
				me := ""
				b.enter(mode, t)
				msg := try(func() {
					m := urn.NewMachine(urn.WithParsingMode(v))
					if (i+k)%2 == 0 {
						m = urn.NewMachine(urn.WithParsingMode(modeValue(modeNames[(i+k/2)%3], nil)))
						m.WithParsingMode(v)
					}
					u, err = m.Parse([]byte(t))
					if e := m.Error(); e != nil {
						me = "=" + e.Error()
					}
					pu, pk = urn.Parse([]byte(t), urn.WithParsingMode(v))
					ok = true
				})
				b.leave()
				p := observeBy(projectN, u, err, msg)
				atomic.AddInt64(&n, 1)
				if prop == "C05" && ok && (pk != (pu != nil) || pk != (p.Res == "urn")) {
					e := parseEvent(mode, t, p)
					e.Opts, e.OkFlag = []string{opt}, pk
					if pu == nil {
						e.Res, e.Err, e.Delta, e.V = "err", me, nil, nilO
						if pk {
							e.Res = "nil"
						}
					} else if !pk {
						e.Res = "urn"
					}
					rep.suspect("package-level Parse disagrees with the machine", mode, t, single(e))
					continue
				}
				if !gen.judgeAfter(b, r, mode, t, p, me, "with an odd mode value") {
					break
				}
			}
		}
	})
	rep.add("parses_with_mode_values", n)
}

// manyOptions parses with lists of options of many lengths, and on machines
// that were switched many times: the last one counts.
func manyOptions(gen *generator) {
	var sizes []int
	for n := 1; n <= 300; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{512, 1000, 1024, 4096, 10000, 32768, 65536} {
		sizes = append(sizes, n-1, n, n+1)
	}
	for _, n := range gen.dict.ints {
		if n > 300 && n <= 70000 {
			sizes = append(sizes, n-1, n, n+1)
		}
	}
	texts := []string{"urn:ab:c#d", "urn:a:b", "urn:ietf:params:scim:api:x", "urn:ietf:params:scim:api:x:", "urn:ab:%"}
	var n int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*37 + int64(wk)))
		for i := wk; i < len(sizes) && !rep.tooMany(); i += workers {
			size := sizes[i]
			for j := 0; j < 12; j++ {
				last := []string{"8141", "7643", "2141", "default"}[j%4]
				names := make([]string, size)
				for k := range names {
					switch j / 4 {
					case 0:
						names[k] = last
					case 1:
						names[k] = modeNames[(j+1)%3]
					default:
						names[k] = []string{"2141", "7643", "8141", "default", "other"}[r.Intn(5)]
					}
				}
				names[size-1] = last
				mode := last
				if last == "default" {
					mode = "2141"
				}
				opts := options(names, r)
				t := texts[(i+j)%len(texts)]
				var u, pu, su *urn.URN
				var err, serr error
				pk, done := false, false
				me, sme := "", ""
				text := func(e error) string {
					if e == nil {
						return ""
					}
					return "=" + e.Error()
				}
				b.enter(mode, t)
				msg := try(func() {
					m := urn.NewMachine(opts...)
					u, err = m.Parse([]byte(t))
					me = text(m.Error())
					pu, pk = urn.Parse([]byte(t), opts...)
					s := urn.NewMachine()
					for _, o := range opts {
						o(s)
					}
					su, serr = s.Parse([]byte(t))
					sme = text(s.Error())
					done = true
				})
				b.leave()
				p := observeBy(projectN, u, err, msg)
				if !gen.judgeAfter(b, r, mode, t, p, me, "with many options") || !done {
					break
				}
				if !gen.judgeAfter(b, r, mode, t, observeBy(projectN, su, serr, ""), sme, "switched many times") {
					break
				}
				if prop == "C05" {
					e := parseEvent(mode, t, p)
					e.Opts, e.OkFlag = []string{mode}, pk
					if pk != (pu != nil) || pk != (p.Res == "urn") {
						e.Res, e.Err, e.Delta, e.V = "err", "", nil, nilO
						if pu != nil {
							e.Res = "urn"
							e.OkFlag = false
						} else {
							e.OkFlag = true
						}
						rep.suspect("package-level Parse disagrees with the machine, with many options", mode, t, single(e))
						break
					}
				}
				atomic.AddInt64(&n, 3)
			}
		}
	})
	rep.add("parses_with_many_options", n)
}
