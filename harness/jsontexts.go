package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
)

// JSON texts generated by TLC from spec/MCJson.tla, and every character there
// is in accepted texts, unmarshalled into each of the three types.

// unmarshals says whether a type takes a JSON text, directly and through
// encoding/json, and what string form it then has
func unmarshals(b *beat, d string, j []byte, via int) (ok bool, str string, msg string) {
	in := append([]byte{}, j...)
	b.enter("history", "Unmarshal "+string(j))
	msg = try(func() {
		switch d {
		case "u":
			var x urn.URN
			if ok = unmarshalInto(in, &x, via) == nil; ok {
				str = x.String()
			}
		case "e":
			var x urn.URN8141
			if ok = unmarshalInto(in, &x, via) == nil; ok {
				str = x.String()
			}
		case "s":
			var x urn.SCIM
			if ok = unmarshalInto(in, &x, via) == nil; ok {
				str = x.String()
			}
		}
	})
	b.leave()
	return
}

// oddUnmarshal puts a suspicious call before TLC, in a world of its own
func (gen *generator) oddUnmarshal(b *beat, d string, j []byte, via int, what string) {
	w := newWorld(gen, b, rand.New(rand.NewSource(seed)))
	w.via = via + 1
	w.opUnm(d, j)
	if w.bad == "" {
		w.bad, w.badEv = what, w.evs[len(w.evs)-1]
	}
	w.report()
}

func jsonTexts(gen *generator, path string) {
	type line struct {
		J         bs
		Ok        bool
		S         bs
		Urn, E, C bool
	}
	lines := make(chan string, 256)
	go func() {
		tlcLines(path, "JSON", func(s string) { lines <- s })
		close(lines)
	}()
	var n, taken, strs int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*313 + int64(wk)))
		for s := range lines {
			var x line
			must(json.Unmarshal([]byte(s), &x))
			k := atomic.AddInt64(&n, 1)
			if rep.tooMany() {
				continue
			}
			j := []byte(string(x.J))
			text, isText := decodeText(j)
			if isText != x.Ok {
				fail(fmt.Sprintf("encoding/json and the specification disagree on whether %q is a string", j))
			}
			if isText {
				atomic.AddInt64(&strs, 1)
			}
			for d, want := range map[string]bool{"u": x.Urn, "e": x.E, "s": x.C} {
				for via := 0; via < 2; via++ {
					ok, str, msg := unmarshals(b, d, j, via)
					if ok {
						atomic.AddInt64(&taken, 1)
					}
					expect := ""
					if want {
						expect = strings.TrimSuffix(text, "#")
						if d == "s" {
							expect = gen.sp.head + gen.sp.graphs["7643"].run(text).ss
						}
					}
					if ok != want || str != expect || msg != "" {
						gen.oddUnmarshal(b, d, j, via, fmt.Sprintf("unmarshals: %v, as it must: %v (%s)", ok, want, msg))
					}
				}
			}
			// all that the property says of it, with its error and a round trip
			if k%5 == 0 || x.Urn || x.C || x.E && k%2 == 0 {
				w := newWorld(gen, b, r)
				for _, d := range []string{"u", "e", "s"} {
					w.opUnm(d, j)
				}
				w.report()
				w.keepTrace(fmt.Sprint("jsontext", x.Ok, x.Urn, x.E, x.C))
			}
		}
	})
	if n == 0 {
		nothing("no JSON texts in " + path)
	}
	rep.add("json_texts", n)
	rep.add("json_texts_that_are_strings", strs)
	rep.add("json_texts_taken", taken)
}

// everyChar has every character of Unicode in an accepted text: at its start,
// inside, at its end, as it is and escaped.  Only those of the grammar fit.
func everyChar(gen *generator) {
	var n int64
	type place struct{ d, mode, pre, post string }
	var places []place
	for d, t := range map[string]string{"u": "urn:aa:b", "e": "urn:aa:b?=q", "s": "urn:ietf:params:scim:api:x"} {
		m := typeMode[recvType[d]]
		for _, i := range []int{0, 4, len(t) - 1, len(t)} {
			places = append(places, place{d, m, t[:i], t[i:]})
		}
	}
	parallel(workers, func(wk int, b *beat) {
		for _, p := range places {
			g := gen.sp.graphs[p.mode]
			step := 1
			for c := wk; c <= 0x10ffff && !rep.tooMany(); c += workers * step {
				if c >= 0x3000 && !thorough() {
					step = 7
					if c >= 0xfe00 && c < 0x10000 {
						step = 1
					}
					if c >= 0x10000 {
						step = 61
					}
				}
				text := p.pre + string(rune(c)) + p.post
				want := g.run(text).ok
				var js [3]string
				q := string(rune(c))
				if c < 32 || c == '"' || c == '\\' {
					q = fmt.Sprintf("\\u%04x", c)
				}
				js[0] = `"` + p.pre + q + p.post + `"`
				if c < 0x10000 {
					js[1] = fmt.Sprintf(`"%s\u%04x%s"`, p.pre, c, p.post)
				}
				if c > 127 && (p.pre == "" || p.post == "") {
					// outside the quotes it is no JSON at all
					js[2] = string(rune(c)) + `"` + p.pre + p.post + `"`
					if p.post == "" {
						js[2] = `"` + p.pre + p.post + `"` + string(rune(c))
					}
				}
				for i, j := range js {
					if j == "" {
						continue
					}
					expect := want && i < 2
					ok, _, msg := unmarshals(b, p.d, []byte(j), c%2)
					if i == 2 {
						ok, _, msg = unmarshals(b, p.d, []byte(j), 0)
					}
					atomic.AddInt64(&n, 1)
					if ok != expect || msg != "" {
						via := c % 2
						if i == 2 {
							via = 0
						}
						gen.oddUnmarshal(b, p.d, []byte(j), via, fmt.Sprintf("unmarshals: %v, as it must: %v (%s)", ok, expect, msg))
					}
				}
			}
		}
	})
	rep.add("characters_in_json", n)
}
