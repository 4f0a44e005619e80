package main

import (
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Input generators.  They are steered by the specification's graph (states,
// byte classes, characterization set) and by constants found in the sources;
// the latter only suggest inputs, they never decide anything.

type dictionary struct {
	words []string // chunks
	texts []string // whole inputs from the sources (also of tests)
	ints  []int
}

func harvest(root string) *dictionary {
	d := &dictionary{}
	d.read(root, []string{"*.go", "scim/schema/*.go"})
	words := map[string]bool{}
	for _, w := range d.words {
		words[w] = true
	}
	for _, w := range []string{"urn", "URN", "urn-", "urn-7", "urn-0", "oid", "uuid", "isbn", "ietf", "ietf:params:scim", "ietf:params:scim:api",
		"schemas", "api", "param", "core:2.0:User", "2.0", "%2F", "%2f", "%aF", "%", "%%", "%G0", "?+", "?=", "#", "?", "/", "//", "--", "-", ":", "::", "~", "&",
		"\x00", "\x7f", "\x80", "\xff", "é", " ", "\n", "\r", "\t", "+", "=", "??", "?/", "/?", "+?", "=?", "?+a", "?=a", "%41", "%zz", "%Zz"} {
		if !words[w] {
			d.words = append(d.words, w)
		}
	}
	sort.Strings(d.words)
	return d
}

// read collects the constants of source files
func (d *dictionary) read(root string, patterns []string) {
	words, texts, ints := map[string]bool{}, map[string]bool{}, map[int]bool{}
	for _, pat := range patterns {
		files, _ := filepath.Glob(filepath.Join(root, pat))
		for _, f := range files {
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			test := strings.HasSuffix(f, "_test.go")
			fset := token.NewFileSet()
			var s scanner.Scanner
			s.Init(fset.AddFile(f, fset.Base(), len(src)), src, nil, 0)
			for {
				_, tok, lit := s.Scan()
				if tok == token.EOF {
					break
				}
				switch tok {
				case token.STRING:
					if v, err := strconv.Unquote(lit); err == nil && len(v) > 0 && len(v) <= 300 {
						if len(v) >= 4 && strings.EqualFold(v[:3], "urn") && v[3] == ':' {
							texts[v] = true
						}
						if !test && len(v) <= 40 {
							words[v] = true
						}
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\''); err == nil && v < 256 && !test {
						words[string([]byte{byte(v)})] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(lit, 0, 64); err == nil && v > 1 && v <= 200000 && !test {
						ints[int(v)] = true
					}
				}
			}
		}
	}
	for w := range words {
		d.words = append(d.words, w)
	}
	for t := range texts {
		d.texts = append(d.texts, t)
	}
	for i := range ints {
		d.ints = append(d.ints, i)
	}
	sort.Strings(d.words)
	sort.Strings(d.texts)
	sort.Ints(d.ints)
}

type generator struct {
	sp   *spec
	dict *dictionary
	pool map[string][]string // per mode: texts for histories
}

// fillPool prepares texts: mostly accepted ones, of all lengths, mostly short
func (gen *generator) fillPool() {
	gen.pool = map[string][]string{}
	for _, m := range modeNames {
		g := gen.sp.graphs[m]
		r := rand.New(rand.NewSource(seed*31 + int64(m[0])))
		var p []string
		gen.random(m, r, 6000, func(s string) {
			if len(s) > 160 {
				return
			}
			if g.run(s).ok || len(p)%5 == 0 {
				p = append(p, s)
			}
		})
		for s := range g.states {
			p = append(p, g.access[s]+g.finish[s], g.access[s])
		}
		for _, t := range gen.dict.texts {
			if g.run(t).ok {
				p = append(p, t)
			}
		}
		// some long ones
		for _, n := range []int{300, 1000, 5000} {
			p = append(p, "urn:Long:"+strings.Repeat("%aBcD", n/5), "URN:long:"+strings.Repeat("x", n))
		}
		gen.pool[m] = p
	}
}

func (gen *generator) text(mode string, r *rand.Rand) string {
	p := gen.pool[mode]
	return p[r.Intn(len(p))]
}

// ---------------------------------------------------------------- W-method

// wmethod gives access(s) . a . (class representatives)^k . w for every state
// s, every byte a, every suffix w that tells states apart.
func (g *graph) wmethod(k int, part, of int, f func(string)) {
	reps := g.classes()
	var mids []string
	var build func(p string, n int)
	build = func(p string, n int) {
		if n == 0 {
			mids = append(mids, p)
			return
		}
		for _, c := range reps {
			build(p+string([]byte{c}), n-1)
		}
	}
	build("", k)
	n := 0
	for s := range g.states {
		sufs := append([]string{}, g.wset...)
		if g.canAcc[s] {
			sufs = append(sufs, g.finish[s])
		}
		sufs = uniq(sufs)
		for a := 0; a < 256; a++ {
			n++
			if n%of != part {
				continue
			}
			if s == g.start && a == 0 {
				for _, w := range sufs {
					f(w)
				}
			}
			base := g.access[s] + string([]byte{byte(a)})
			for _, m := range mids {
				for _, w := range sufs {
					f(base + m + w)
				}
			}
		}
	}
}

// tails: access(s) . (class representatives)^<=n . completion of where that leads,
// and without completion
func (g *graph) tails(n int, part, of int, f func(string)) {
	reps := g.classes()
	cnt := 0
	var rec func(s int, text string, left int)
	rec = func(s int, text string, left int) {
		f(text)
		if g.canAcc[s] && g.finish[s] != "" {
			f(text + g.finish[s])
		}
		if left == 0 {
			return
		}
		for _, c := range reps {
			t := g.states[s].on[c]
			if t.ok {
				rec(t.to, text+string([]byte{c}), left-1)
			} else {
				f(text + string([]byte{c}))
			}
		}
	}
	for s := range g.states {
		for _, c := range reps {
			cnt++
			if cnt%of != part {
				continue
			}
			t := g.states[s].on[c]
			if t.ok {
				rec(t.to, g.access[s]+string([]byte{c}), n-1)
			} else {
				f(g.access[s] + string([]byte{c}))
			}
		}
	}
}

func uniq(in []string) []string {
	seen := map[string]bool{}
	var res []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	return res
}

// ---------------------------------------------------------------- pumping

var lengths = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 23, 24, 25, 28, 29, 30, 31, 32, 33, 34, 35, 40, 47, 48, 49, 50, 60, 63, 64, 65, 72, 80,
	96, 99, 100, 101, 119, 120, 121, 126, 127, 128, 129, 130, 150, 199, 200, 201, 254, 255, 256, 257, 258, 300, 400, 499, 500, 501, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500,
	2047, 2048, 2049, 4095, 4096, 4097}

var longLengths = []int{8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131072}

// loops: short cycles of each state: single bytes, and escapes
func (g *graph) loops(s int) []string {
	var res []string
	reps := g.classes()
	for _, c := range reps {
		t := g.states[s].on[c]
		if t.ok && t.to == s {
			res = append(res, string([]byte{c}))
		}
	}
	for _, c := range []string{"%aA", "%2f", "aA", "a-", "ab%C0", "?a", "/a", "?/", "Z%9z"} {
		q := s
		for i := 0; i < len(c); i++ {
			t := g.states[q].on[c[i]]
			if !t.ok {
				q = -1
				break
			}
			q = t.to
		}
		if q == s {
			res = append(res, c)
		}
	}
	return uniq(res)
}

// exits gives for every state that can be reached from s a shortest way there
func (g *graph) exits(s int) map[int]string {
	res := map[int]string{s: ""}
	reps := g.classes()
	for todo := []int{s}; len(todo) > 0; todo = todo[1:] {
		q := todo[0]
		for _, c := range reps {
			if t := g.states[q].on[c]; t.ok {
				if _, seen := res[t.to]; !seen {
					res[t.to] = res[q] + string([]byte{c})
					todo = append(todo, t.to)
				}
			}
		}
	}
	return res
}

// afterPump gives, behind a long loop at each state, every state that can still
// be reached: completed, cut off there, and with a byte that does not belong
func (gen *generator) afterPump(mode string, part, of int, f func(string)) {
	g := gen.sp.graphs[mode]
	reps := g.classes()
	cnt := 0
	for s := range g.states {
		loops := g.loops(s)
		if len(loops) == 0 {
			continue
		}
		exits := g.exits(s)
		for q := range g.states {
			out, there := exits[q]
			if !there {
				continue
			}
			sizes := []int{300, 4200, 66000}
			if thorough() {
				sizes = append(sizes, 1100, 9000, 33000, 132000)
			}
			for k, n := range sizes {
				cnt++
				if cnt%of != part {
					continue
				}
				l := loops[(cnt/of)%len(loops)]
				t := g.access[s] + strings.Repeat(l, n/len(l)+1) + out
				f(t)
				if g.canAcc[q] {
					f(t + g.finish[q])
				}
				for i, c := range reps {
					if !g.states[q].on[c].ok && (k == 0 || (cnt+i)%7 == 0 || c == '%') {
						f(t + string([]byte{c}))
					}
				}
			}
		}
	}
}

// lateErrors gives, for every state that can be reached from a long loop, a text
// that is rejected there
func (gen *generator) lateErrors(mode string, sizes []int, f func(string)) {
	g := gen.sp.graphs[mode]
	reps := g.classes()
	cnt := 0
	for s := range g.states {
		loops := g.loops(s)
		if len(loops) == 0 {
			continue
		}
		exits := g.exits(s)
		for q := range g.states {
			out, there := exits[q]
			if !there {
				continue
			}
			cnt++
			t := g.access[s] + strings.Repeat(loops[cnt%len(loops)], sizes[cnt%len(sizes)]) + out
			if !g.states[q].eof.ok && cnt%3 > 0 {
				f(t)
			}
			for i := range reps {
				if c := reps[(i+cnt)%len(reps)]; !g.states[q].on[c].ok {
					f(t + string([]byte{c}))
					break
				}
			}
		}
	}
}

// edges gives texts in which an escape, a letter or a byte that does not belong
// lies at, or across, a position that code could split a text at
func (gen *generator) edges(mode string, part, of int, f func(string)) {
	g := gen.sp.graphs[mode]
	sizes := []int{16, 32, 64, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 32768, 65536}
	for _, n := range gen.dict.ints {
		if n > 16 && len(sizes) < 40 {
			sizes = append(sizes, n)
		}
	}
	cnt := 0
	for s := range g.states {
		loops := g.loops(s)
		if len(loops) == 0 || len(loops[0]) != 1 || !g.canAcc[s] {
			continue
		}
		var things []string
		for _, x := range []string{"%aB", "%Ab%CD", "Zz", "?", "/", ":", "?+a", "?=b", "#", "\x00", "\xc3\xa9", "%", "%4"} {
			things = append(things, x)
		}
		for _, n := range sizes {
			for from := 0; from < 2; from++ { // counted from the start of the text, or of the loop
				for d := -4; d <= 1; d++ {
					cnt++
					if cnt%of != part {
						continue
					}
					pad := n + d
					if from == 0 {
						pad -= len(g.access[s])
					}
					if pad < 0 {
						continue
					}
					l := loops[0]
					if n >= 8192 && cnt/of%4 != 0 {
						continue
					}
					x := things[(cnt/of)%len(things)]
					t := g.access[s] + strings.Repeat(l, pad) + x
					f(t + strings.Repeat(l, 5))
					f(t)
					f(g.access[s] + strings.Repeat(l, pad) + "%aB" + strings.Repeat(l, n%7) + g.finish[s])
				}
			}
		}
	}
}

// recased changes the case of a leading "urn"; which way depends on k
func recased(t string, k int) string {
	if len(t) < 3 || !strings.EqualFold(t[:3], "urn") {
		return t
	}
	return [...]string{"urn", "URN", "uRn", "Urn", "urn", "urN", "UrN", "URn", "uRN"}[k%9] + t[3:]
}

func (gen *generator) pumped(mode string, part, of int, yield func(string)) {
	g := gen.sp.graphs[mode]
	count := 0
	f := func(t string) {
		count++
		yield(recased(t, count))
	}
	gen.afterPump(mode, part, of, f)
	gen.edges(mode, part, of, f)
	ls := append([]int{}, lengths...)
	longs := append([]int{}, longLengths...)
	for _, n := range gen.dict.ints {
		if n < 5000 && n > 40 {
			ls = append(ls, n-1, n, n+1)
		}
		if n >= 5000 && len(longs) < 60 {
			longs = append(longs, n-1, n, n+1)
		}
	}
	sort.Ints(longs)
	sort.Ints(ls)
	cnt := 0
	for s := range g.states {
		loops := g.loops(s)
		if len(loops) == 0 {
			continue
		}
		for li, l := range loops {
			all := ls
			if li%4 == 0 || thorough() {
				all = append(append([]int{}, ls...), longs...)
			}
			if thorough() && li%4 == 0 {
				all = append(all, 1<<18+1, 1<<20)
			}
			prev := -1
			for _, n := range all {
				if n == prev {
					continue
				}
				prev = n
				cnt++
				if cnt%of != part {
					continue
				}
				t := g.access[s] + strings.Repeat(l, (n+len(l)-1)/len(l))
				f(t + g.finish[s])
				if len(l) > 1 && n > 20 && (n < 5000 && n%64 < 2 || n >= 65535 && n < 65538) {
					// as many turns as that
					f(g.access[s] + strings.Repeat(l, n) + g.finish[s])
				}
				if n < 5000 {
					f(t)
					f(t + "%")
					f(t + "\x00" + g.finish[s])
				}
			}
		}
		// pumping one part with others present: a long identifier or specific string,
		// then everything else
		if g.mode == "8141" && g.states[s].eof.ok {
			for _, n := range []int{1, 5, 31, 63, 64, 65, 255, 256, 1000, 4096} {
				cnt++
				if cnt%of != part {
					continue
				}
				f("urn:" + strings.Repeat("n", 1+n%32) + "x:" + strings.Repeat("s%Aa", n) + "?+" + strings.Repeat("r/", n) + "?=" + strings.Repeat("q?", n) + "#" + strings.Repeat("/f", n))
			}
		}
	}
}

// ---------------------------------------------------------------- random

// walk gives a random path through the graph, accepted mostly
func (g *graph) walk(r *rand.Rand) string {
	var b []byte
	s := g.start
	// get past the uninteresting start quickly most of the time
	if r.Intn(4) > 0 {
		pre := [...]string{"urn:", "URN:", "uRn:", "Urn:"}[r.Intn(4)]
		for i := 0; i < len(pre); i++ {
			s = g.states[s].on[pre[i]].to
		}
		b = append(b, pre...)
	}
	limit := []int{4, 8, 12, 20, 30, 45, 70, 120, 300}[r.Intn(9)]
	favour := byte(0)
	if r.Intn(3) == 0 { // use one byte a lot
		favour = uriChars[r.Intn(len(uriChars))]
	}
	stick := r.Intn(4) // how eagerly to leave plain letters
	for len(b) < limit {
		st := g.states[s]
		c := byte(0)
		if favour != 0 && st.on[favour].ok && r.Intn(3) == 0 {
			c = favour
		} else {
			// choose a group, then a byte in it
			var live []byteGroup
			for _, gr := range st.group {
				if gr.t.ok && g.canAcc[gr.t.to] {
					live = append(live, gr)
				}
			}
			if len(live) == 0 {
				break
			}
			gr := live[r.Intn(len(live))]
			if gr.bytes[0] == '%' && r.Intn(2) == 0 {
				gr = live[r.Intn(len(live))]
			}
			if stick > 0 && r.Intn(3) < stick {
				for _, x := range live {
					if x.t.to == s {
						gr = x
					}
				}
			}
			c = byte(gr.bytes[r.Intn(len(gr.bytes))])
		}
		b = append(b, c)
		s = st.on[c].to
	}
	// often end at a state that accepts
	if r.Intn(10) > 0 {
		f := []byte(g.finish[s])
		for i := range f {
			t := g.states[s].on[f[i]]
			// another byte of the same effect
			for _, gr := range g.states[s].group {
				if gr.t == t {
					f[i] = byte(gr.bytes[r.Intn(len(gr.bytes))])
				}
			}
			s = t.to
		}
		b = append(b, f...)
	}
	return string(b)
}

const uriChars = "abcxyzABCXYZ0189()+,-.:=@;$_!*'%/?#~&"

func randByte(r *rand.Rand) byte {
	if r.Intn(5) == 0 {
		return byte(r.Intn(256))
	}
	return uriChars[r.Intn(len(uriChars))]
}

// mutate changes a text in a few places
func (gen *generator) mutate(t string, r *rand.Rand) string {
	b := []byte(t)
	for n := 1 + r.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, randByte(r))
			continue
		}
		i := r.Intn(len(b))
		switch r.Intn(10) {
		case 0:
			b[i] = randByte(r)
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{randByte(r)}, b[i:]...)...)
		case 3: // change case
			for j := i; j < len(b) && j < i+1+r.Intn(6); j++ {
				if b[j] >= 'a' && b[j] <= 'z' {
					b[j] -= 32
				} else if b[j] >= 'A' && b[j] <= 'Z' {
					b[j] += 32
				}
			}
		case 4: // duplicate a piece
			j := i + 1 + r.Intn(min(len(b)-i, 12))
			p := append([]byte{}, b[i:j]...)
			b = append(b[:j], append(p, b[j:]...)...)
		case 5: // cut a piece
			j := i + 1 + r.Intn(min(len(b)-i, 12))
			b = append(b[:i], b[j:]...)
		case 6, 7: // insert a word
			w := gen.dict.words[r.Intn(len(gen.dict.words))]
			b = append(b[:i], append([]byte(w), b[i:]...)...)
		case 8: // swap two pieces
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		case 9: // truncate
			b = b[:i]
		}
	}
	return string(b)
}

// composeText joins words from the dictionary in the shape of a URN
func (gen *generator) composeText(r *rand.Rand) string {
	w := func() string { return gen.dict.words[r.Intn(len(gen.dict.words))] }
	s := []string{"urn:", "URN:", "uRN:", "urn"}[min(r.Intn(8), 3)]
	if r.Intn(3) == 0 {
		s += "ietf:params:scim:" + []string{"schemas", "api", "param", w()}[r.Intn(4)] + ":"
	} else {
		s += w()
		if r.Intn(2) == 0 {
			s += w()
		}
		s += ":"
	}
	for n := r.Intn(5); n >= 0; n-- {
		s += w()
	}
	if r.Intn(2) == 0 {
		s += "?+" + w()
		if r.Intn(2) == 0 {
			s += w()
		}
	}
	if r.Intn(2) == 0 {
		s += "?=" + w()
		if r.Intn(2) == 0 {
			s += w()
		}
	}
	if r.Intn(2) == 0 {
		s += "#" + w()
	}
	return s
}

// echo composes a URN whose parts repeat each other: the same few tokens in the
// identifier, the specific string and the components
func echo(mode string, r *rand.Rand) string {
	const first, later = "abzAZ019", "abzAZ019-"
	token := func() string {
		b := []byte{first[r.Intn(len(first))]}
		for n := r.Intn(4); n > 0; n-- {
			b = append(b, later[r.Intn(len(later))])
		}
		return string(append(b, first[r.Intn(len(first))]))
	}
	x, y := token(), token()
	pre := [...]string{"urn", "URN", "Urn"}[r.Intn(3)]
	id := []string{x, y, x + "-" + y, x + x, pre + x, "ietf", x + "-" + x, pre + "-" + pre, x + pre, pre + "-" + x, x + "-" + pre, pre + pre}[r.Intn(12)]
	if mode == "7643" && r.Intn(8) > 0 {
		id = "ietf:params:scim:" + []string{"schemas", "api", "param"}[r.Intn(3)] + ":" + strings.ReplaceAll([]string{x, y, x + y, "api", "urn", "scim"}[r.Intn(6)], "-", "") + ":"
		id = id[:len(id)-1]
	}
	seps := []string{":", ":", "", ".", "%2f", "%2F", "::", "-", "@", "+", "="}
	if mode == "8141" {
		seps = append(seps, "/", "~", "&", "//")
	}
	part := func(more ...string) string {
		s := ""
		for n := r.Intn(5); n >= 0; n-- {
			w := [...]string{x, y, id, pre + ":" + id, pre, strings.ToUpper(x), strings.ToLower(y), id + ":", x + y}
			s += w[r.Intn(len(w))]
			if n > 0 || r.Intn(6) == 0 {
				s += seps[r.Intn(len(seps))]
			}
			if len(more) > 0 && r.Intn(3) == 0 {
				s += more[r.Intn(len(more))]
			}
		}
		return s
	}
	ss := part()
	t := pre + ":" + id + ":" + ss
	if mode == "8141" && r.Intn(3) > 0 {
		last := ss
		piece := func() string {
			if r.Intn(3) > 0 {
				last = part("?", "/", "?"+x, "??")
			}
			return last
		}
		if r.Intn(2) == 0 {
			t += "?+" + piece()
		}
		if r.Intn(2) == 0 {
			t += "?=" + piece()
		}
		if r.Intn(2) == 0 {
			t += "#" + piece()
		}
	}
	return t
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// random gives n texts for a mode
func (gen *generator) random(mode string, r *rand.Rand, n int, f func(string)) {
	g := gen.sp.graphs[mode]
	pool := make([]string, 0, 64)
	for i := 0; i < n; i++ {
		var t string
		switch k := r.Intn(20); {
		case k < 9:
			t = g.walk(r)
		case k < 11:
			t = gen.sp.graphs[modeNames[r.Intn(3)]].walk(r)
		case k < 15 && len(pool) > 0:
			t = gen.mutate(pool[r.Intn(len(pool))], r)
		case k < 16 && len(gen.dict.texts) > 0:
			t = gen.dict.texts[r.Intn(len(gen.dict.texts))]
			if r.Intn(3) > 0 {
				t = gen.mutate(t, r)
			}
		case k < 17 && len(pool) > 1: // splice
			a, b := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			t = a[:r.Intn(len(a)+1)] + b[r.Intn(len(b)+1):]
		case k < 18 && r.Intn(2) == 0:
			t = echo(mode, r)
		case k < 18:
			t = g.access[r.Intn(len(g.access))] + g.walk(r)[r.Intn(4):]
		default:
			t = gen.composeText(r)
		}
		if len(t) < 400 {
			if len(pool) < cap(pool) {
				pool = append(pool, t)
			} else {
				pool[r.Intn(len(pool))] = t
			}
		}
		f(t)
	}
}

// all the streams for one mode, split among workers
func (gen *generator) all(mode string, w int, budget int, f func(string)) {
	g := gen.sp.graphs[mode]
	g.wmethod(0, w, workers, f)
	g.tails(pick(3, 5), w, workers, f)
	if thorough() {
		g.wmethod(1, w, workers, f)
	}
	gen.pumped(mode, w, workers, f)
	gen.escapes(mode, w, workers, f)
	gen.crowds(mode, w, workers, f)
	gen.wellKnown(mode, w, workers, f)
	r := rand.New(rand.NewSource(seed*1000 + int64(w)*10 + int64(len(mode)+int(mode[0]))))
	gen.random(mode, r, budget/workers, f)
	for i, t := range gen.dict.texts {
		if i%workers == w {
			f(t)
		}
	}
}
