package main

import (
	"encoding/json"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// The pairs of texts that TLC generated from spec/Caches.tla: a value is made
// of the first, and the second is assigned. What it remembers of the first
// must not show. Each pair is stretched to many lengths, in the ID and the SS,
// in values made in every way.

type alikePair struct {
	Was, Now bs
	Shows    []string
	Asked    bool
}

func caches(gen *generator, path string) {
	lines := make(chan alikePair, 256)
	var designs sync.Map
	go func() {
		tlcLines(path, "PAIR", func(s string) {
			var p alikePair
			must(json.Unmarshal([]byte(s), &p))
			for _, d := range p.Shows {
				designs.Store(d, true)
			}
			lines <- p
		})
		close(lines)
	}()
	var n int64
	sizes := []int{1, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 600, 1024, 4096}
	sizes = append(sizes, gen.dict.ints...)
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*577 + int64(wk)))
		for p := range lines {
			if rep.tooMany() {
				continue
			}
			was, now := string(p.Was), string(p.Now)
			rounds := 1
			if len(p.Shows) > 2 {
				rounds = pick(3, 12)
			}
			for k := 0; k < rounds; k++ {
				form, size := r.Intn(7), sizes[r.Intn(len(sizes))]
				if size < 1 || size > 5000 || r.Intn(40) > 0 && size > 600 {
					size = 1 + r.Intn(64)
				}
				x, y := stretch(was, form, size), stretch(now, form, size)
				switch prop {
				case "C09", "C22":
					gen.rememberedTexts(b, r, x, y)
				case "C12":
					gen.rememberedReceiver(b, r, x, y)
				default:
					gen.remembered(b, r, x, y, p.Asked)
				}
				atomic.AddInt64(&n, 1)
			}
		}
	})
	d := int64(0)
	designs.Range(func(_, _ interface{}) bool { d++; return true })
	if d == 0 {
		nothing("no pairs in " + path)
	}
	rep.add("designs_shown", d)
	rep.add("values_assigned_a_look_alike", n)
}

// tokens: an escape or a byte
func tokens(s string) (res []string) {
	for i := 0; i < len(s); {
		k := 1
		if s[i] == '%' {
			k = 3
		}
		res = append(res, s[i:i+k])
		i += k
	}
	return res
}

// stretch makes a text longer
func stretch(t string, form, n int) string {
	pad := strings.Repeat("xYz%3d", n/6+1)
	pad = "x" + pad[:(n/6)*6] + strings.Repeat("q", n%6)
	switch form {
	case 0:
		return t
	case 1:
		return pad + t
	case 2:
		return t + pad
	case 3:
		return pad + t + pad
	case 4:
		return strings.Join(tokens(t), pad)
	case 5:
		if n > 600 {
			n = 600
		}
		return strings.Repeat(t, n)
	}
	ts := tokens(t)
	res := ""
	for _, x := range ts {
		k := n
		if k > 300 {
			k = 300
		}
		res += strings.Repeat(x, k)
	}
	return res
}

// remembered makes a value of x, perhaps reads it, assigns y, and judges what
// it says then; and once more with x assigned again
func (gen *generator) remembered(b *beat, r *rand.Rand, x, y string, asked bool) {
	if in(prop, "C11", "C16") && r.Intn(3) == 0 && !strings.Contains(x+y, "%") {
		gen.rememberedScim(b, r, x, "o", func(s *urn.SCIM) {
			switch r.Intn(4) {
			case 0:
				s.Other = y
			case 1:
				s.Type = []scimschema.Type{scimschema.Schemas, scimschema.Param, 0, 77}[r.Intn(4)]
			default:
				s.Name = y
			}
		}, asked)
		return
	}
	if prop == "C16" {
		return
	}
	switch r.Intn(8) {
	case 0, 1:
		cut := func(s string) string {
			s = strings.ReplaceAll(s, "%", "")
			if len(s) > 30 {
				s = s[:14] + s[len(s)-16:]
			}
			return s
		}
		gen.rememberedFields(b, r, "a"+cut(x)+"b", "c%aB", "a"+cut(y)+"b", "c%aB", asked)
	case 2:
		gen.rememberedFields(b, r, "ietf:params:scim", "api:n:"+x, "ietf:params:scim", "api:n:"+y, asked)
	default:
		gen.rememberedFields(b, r, "Ab", x, "Ab", y, asked)
	}
}

// rememberedFields: the same with both fields
func (gen *generator) rememberedFields(b *beat, r *rand.Rand, id, ss, toID, toSS string, asked bool) {
	var u *urn.URN
	text := "urn:" + id + ":" + ss
	way := r.Intn(8)
	if strings.Contains(id, ":") {
		way = 8
	}
	b.enter("history", text)
	defer b.leave()
	msg := try(func() {
		switch way {
		case 0:
			u, _ = urn.Parse([]byte(text))
		case 1:
			u, _ = urn.Parse([]byte(text+"?+R%aB?=Q#F"), urn.WithParsingMode(urn.RFC8141Only))
		case 2:
			u = new(urn.URN)
			u.UnmarshalJSON([]byte(`"` + text + `"`))
		case 3:
			var e urn.URN8141
			e.UnmarshalJSON([]byte(`"` + text + `"`))
			u = e.URN
		case 4:
			u = &urn.URN{ID: id, SS: ss}
		case 5:
			u = (&urn.URN{ID: id, SS: ss}).Normalize()
		case 6:
			v, _ := urn.Parse([]byte(text))
			c := *v
			u = &c
		case 7:
			// on a machine that goes on
			m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
			u, _ = m.Parse([]byte(text))
			m.Parse([]byte("urn:zz:%AB"))
		case 8:
			u, _ = urn.Parse([]byte(text), urn.WithParsingMode(urn.RFC7643Only))
		}
		if asked && u != nil {
			gen.look(r, u)
		}
	})
	if msg != "" || u == nil {
		return // for other properties
	}
	// what it gives is held, while it gives more
	var gave [3]*urn.URN
	var gaveWas [3]O
	give := func(k int) {
		if in(prop, "C07", "C17", "C22") {
			try(func() { gave[k] = u.Normalize(); gaveWas[k] = projectN(gave[k]) })
		}
	}
	defer func() {
		for k, n := range gave {
			if n == nil {
				continue
			}
			var o O
			if msg := try(func() { o = projectN(n) }); msg != "" || o != gaveWas[k] {
				rep.suspect("a normal form changed when the next was asked for", "history", text,
					single(&Event{Op: "given", Ty: "norm", T: gaveWas[k].Str, Out: viewText(gaveWas[k].Str, o.Str, o)}))
				return
			}
		}
	}()
	give(0)
	for k := 0; k < 2; k++ {
		u.ID = toID
		u.SS = toSS
		give(k + 1)
		if ev := gen.askAfter(b, r, u, toID, toSS, ss); ev != nil {
			rep.suspect("what was assigned does not show", "history", text, ev)
			return
		}
		toID, id = id, toID
		toSS, ss = ss, toSS
		if way == 5 {
			break
		}
	}
}

// look reads a value
func (gen *generator) look(r *rand.Rand, u *urn.URN) {
	for k := 0; k < 1+r.Intn(3); k++ {
		switch r.Intn(4) {
		case 0:
			u.Normalize()
		case 1:
			u.Equal(&urn.URN{ID: u.ID, SS: u.SS})
		case 2:
			_ = u.String()
		case 3:
			json.Marshal(u)
		}
	}
}

// askAfter asks a value for what the property speaks of; events when wrong
func (gen *generator) askAfter(b *beat, r *rand.Rand, u *urn.URN, id, ss, was string) []*Event {
	norm := gen.sp.urn + ":" + gen.sp.lowS(id) + ":" + gen.sp.normSS(ss)
	switch prop {
	case "C07":
		var n *urn.URN
		str := ""
		if msg := try(func() { n = u.Normalize(); str = n.String() }); msg == "" && n != nil && str == norm {
			given("norm", n.SS)
			given("str", str)
			return nil
		}
		e := &Event{Op: "norm", S: "a", D: "b", V: nilO, Twice: nilO, Back: noneP}
		try(func() { e.V = projectN(n); e.Twice = projectN(n.Normalize()) })
		e.Delta = []Change{{"b", e.V}}
		return []*Event{{Op: "reset", Delta: []Change{{"a", projectN(u)}}}, e}
	case "C08":
		twin := &urn.URN{ID: id, SS: ss}
		other := &urn.URN{ID: id, SS: was}
		for k, x := range []*urn.URN{twin, other} {
			want := k == 0 || gen.sp.normSS(ss) == gen.sp.normSS(was)
			e := &Event{Op: "equal", S: "a", X: "b"}
			msg := try(func() { e.Bool, e.Rev = u.Equal(x), x.Equal(u) })
			if e.Panic = msg != ""; e.Panic || e.Bool != want || e.Rev != want {
				return []*Event{{Op: "reset", Delta: []Change{{"a", projectN(u)}, {"b", projectN(x)}}}, e}
			}
		}
	case "C21":
		var o O
		try(func() { o = projectN(u) })
		if string(o.Str) == gen.textOf("", o) {
			return nil
		}
		return []*Event{{Op: "reset"}, {Op: "make", How: "compose", S: "a", D: "a", V: o, Delta: []Change{{"a", o}}}}
	case "C11":
		out, res := marshalEverywhere(*u, u)
		e := &Event{Op: "marshal", Ty: "URN", Json: B(out), Res: res, V: projectN(u)}
		if d, ok := decodeText(out); res == "ok" && ok && d == string(e.V.Str) {
			return nil
		}
		return []*Event{{Op: "reset"}, e}
	}
	return nil
}

// rememberedScim: the same with the fields of a SCIM value
func (gen *generator) rememberedScim(b *beat, r *rand.Rand, name, other string, assign func(*urn.SCIM), asked bool) {
	s := &urn.SCIM{Type: scimschema.API, Name: name, Other: other}
	text := "urn:ietf:params:scim:api:" + name + ":" + other
	b.enter("7643", text)
	defer b.leave()
	msg := try(func() {
		switch r.Intn(3) {
		case 0:
			if v, ok := urn.Parse([]byte(text), urn.WithParsingMode(urn.RFC7643Only)); ok {
				s = v.SCIM()
			}
		case 1:
			s = new(urn.SCIM)
			s.UnmarshalJSON([]byte(`"` + text + `"`))
		}
		if asked {
			_ = s.String()
			json.Marshal(s)
		}
	})
	if msg != "" || s == nil {
		return
	}
	assign(s)
	var o O
	if msg := try(func() { o = scimO(s) }); msg != "" {
		return
	}
	if prop == "C16" {
		if string(o.Scim.Canon) != gen.sp.canon(o.Scim) {
			rep.suspect("the canonical string is not what the fields say", "7643", string(o.Scim.Canon), single(&Event{Op: "scim", C: o.Scim, Back: noneP}))
		}
		return
	}
	out, res := marshalEverywhere(*s, s)
	if d, ok := decodeText(out); res != "ok" || !ok || d != gen.sp.canon(o.Scim) {
		rep.suspect("marshalling (", "7643", string(o.Scim.Canon), single(&Event{Op: "marshal", Ty: "SCIM", Json: B(out), Res: res, V: o}))
	}
}

// rememberedTexts: a machine, or the library, is given texts that look alike
// one after the other, half of the time in the same buffer
func (gen *generator) rememberedTexts(b *beat, r *rand.Rand, x, y string) {
	mode := []string{"2141", "8141"}[r.Intn(2)]
	x, y = "urn:ab:"+x, "urn:ab:"+y
	switch r.Intn(6) {
	case 0:
		x, y = x+"|", y+"|"
	case 1:
		x += "|"
	case 2:
		y += "|"
	case 3:
		if mode == "8141" {
			x, y = x+"?+"+x[7:]+"#"+x[7:], y+"?+"+y[7:]+"#"+y[7:]
		}
	case 4:
		x, y = "urn:a"+strings.ReplaceAll(x[7:], "%", "")+":z", "urn:a"+strings.ReplaceAll(y[7:], "%", "")+":z"
	}
	gen.textsAlike(b, r, mode, x, y)
}

func (gen *generator) textsAlike(b *beat, r *rand.Rand, mode, x, y string) {
	var m urn.Machine
	if prop == "C09" {
		m = urn.NewMachine(urn.WithParsingMode(modeValue(mode, nil)))
	}
	buf := make([]byte, 0, len(x)+len(y))
	same := r.Intn(2) == 0
	for k, t := range []string{x, y, x, y} {
		in := []byte(t)
		if same {
			in = append(buf[:0], t...)
		}
		var u *urn.URN
		var err error
		me := ""
		b.enter(mode, t)
		msg := try(func() {
			if m == nil {
				u, _ = urn.Parse(in, urn.WithParsingMode(modeValue(mode, nil)))
				return
			}
			u, err = m.Parse(in)
			if e := m.Error(); e != nil {
				me = "=" + e.Error()
			}
		})
		b.leave()
		p := observeBy(projectN, u, err, msg)
		if prop == "C22" {
			if p.Res == "nil" { // Parse gives no error
				p.Res = "err"
			}
			if bad := gen.yields(mode, t, p); bad != "" {
				e := parseEvent(mode, t, p)
				e.Again, e.Fresh = noneP, noneP
				rep.suspect("after a text that looks alike", mode, t, single(e))
				return
			}
			continue
		}
		if k > 0 && !gen.judgeAfter(b, r, mode, t, p, me, "after a text that looks alike") {
			return
		}
	}
}

// rememberedReceiver: a receiver unmarshals texts that look alike
func (gen *generator) rememberedReceiver(b *beat, r *rand.Rand, x, y string) {
	d := []string{"u", "e", "s"}[r.Intn(3)]
	head := "urn:ab:"
	if d == "s" {
		head = "urn:ietf:params:scim:api:n:"
	}
	tail := func() string {
		if r.Intn(8) == 0 {
			return "|"
		}
		return ""
	}
	gen.receiverAlike(b, r, d, head+x+tail(), head+y+tail(), x)
}

func (gen *generator) receiverAlike(b *beat, r *rand.Rand, d, x, y, ss string) {
	w := newWorld(gen, b, r)
	for k, t := range []string{x, y, x} {
		w.opUnm(d, jsonText(t, r))
		if k == 1 && r.Intn(3) == 0 && d == "u" {
			w.opSetSS("u", ss)
		}
	}
	w.report()
}

// ---------------------------------------------------------------- two parts

// The pairs of values with two parts that TLC generated from spec/Parts.tla.

type partsPair struct {
	Was, Now struct{ A, B bs }
	Shows    []string
}

func parts(gen *generator, path string) {
	lines := make(chan partsPair, 256)
	go func() {
		tlcLines(path, "PARTS", func(s string) {
			var p partsPair
			must(json.Unmarshal([]byte(s), &p))
			lines <- p
		})
		close(lines)
	}()
	var n int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*787 + int64(wk)))
		for p := range lines {
			if rep.tooMany() {
				continue
			}
			for k := 0; k < pick(4, 40); k++ {
				gen.onePair(b, r, string(p.Was.A), string(p.Was.B), string(p.Now.A), string(p.Now.B))
				atomic.AddInt64(&n, 1)
			}
		}
	})
	if n == 0 {
		nothing("no pairs in " + path)
	}
	rep.add("values_of_two_parts", n)
}

func (gen *generator) onePair(b *beat, r *rand.Rand, a, c, a2, c2 string) {
	// longer, so that what is the same stays the same
	long := func() string {
		n := []int{0, 1, 2, 3, 4, 7, 8, 12}[r.Intn(8)]
		return strings.Repeat("x", n%3) + strings.Repeat("Y0", n/2)
	}
	p, q := long(), long()
	far := ""
	if r.Intn(20) == 0 {
		far = strings.Repeat("z9", []int{20, 64, 130, 600, 2100}[r.Intn(5)])
	}
	switch r.Intn(4) {
	case 0:
		a, c, a2, c2 = p+a, c+q+far, p+a2, c2+q+far
	case 1:
		a, c, a2, c2 = p+a+p, p+c+p, p+a2+p, p+c2+p
	case 2:
		a, c, a2, c2 = a+p, q+c+far, a2+p, q+c2+far
	}
	asked := r.Intn(5) > 0
	switch prop {
	case "C07", "C08", "C21":
		gen.rememberedFields(b, r, a, c, a2, c2, asked)
		return
	case "C11", "C16":
		if prop == "C11" && r.Intn(2) == 0 {
			gen.rememberedFields(b, r, a, c, a2, c2, asked)
			return
		}
		gen.rememberedScim(b, r, a, c, func(s *urn.SCIM) { s.Name, s.Other = a2, c2 }, asked)
		return
	}
	mode, d := "8141", "e"
	form := [][3]string{{"urn:", ":", ""}, {"URN:", ":", "?+r#f"}, {"urn:ietf:params:scim:param:", ":", ""}, {"urn:ab:", "?+", ""}, {"urn:ab:", "?=", ""}, {"urn:ab:", "#", ""},
		{"urn:ab:c?+", "?=", ""}, {"urn:ab:c?=", "#", ""}, {"urn:ab:c?+", "#", ""}, {"urn:ab:", "?+", "?=q#f"}, {"urn:ab:", ":", ""}, {"urn:ab:c?+", "?=", "#f"}}[r.Intn(12)]
	x, y := form[0]+a+form[1]+c+form[2], form[0]+a2+form[1]+c2+form[2]
	switch {
	case form[0] == "urn:ietf:params:scim:param:":
		mode, d = "7643", "s"
	case form[1] == ":" && form[2] == "" && r.Intn(2) == 0:
		mode, d = "2141", "u"
	}
	if prop == "C12" {
		gen.receiverAlike(b, r, d, x, y, c)
	} else {
		gen.textsAlike(b, r, mode, x, y)
	}
}
