package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"

	urn "github.com/leodido/go-urn"
)

// The scenarios of spec/Shared.tla: calls that do not conflict by what the API
// says, on values, buffers, receivers and machines that have to do with each
// other.  Each is run with the calls at the same time, on things that were
// never read before; what each call gives, and what everything is afterwards,
// must be as when they run one after the other.

type sceneCall struct {
	Op, X, Y string
	writes   bool
}

type scene struct {
	Calls []*sceneCall
	Shows []string
}

type things struct {
	vals    map[string]*urn.URN
	b, j, c []byte
	m       urn.Machine
}

type sceneTexts struct {
	mode    string
	b, j, c string
	w       string
}

func (x *sceneTexts) build() *things {
	t := &things{b: []byte(x.b), j: []byte(x.j), c: []byte(x.c), vals: map[string]*urn.URN{}}
	t.m = urn.NewMachine(urn.WithParsingMode(modeValue(x.mode, nil)))
	v, _ := t.m.Parse(t.b)
	if v == nil {
		v = &urn.URN{ID: "Ab", SS: "%4a%aF"}
	}
	k := *v
	var src urn.URN = *v
	u := &urn.URN{}
	_ = u.UnmarshalJSON(t.j)
	g := *u
	w, _ := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only)).Parse([]byte(x.w))
	if w == nil {
		w = &urn.URN{ID: "zZ", SS: "%zZ"}
	}
	t.vals["v"], t.vals["k"], t.vals["u"], t.vals["g"], t.vals["w"] = v, &k, u, &g, w
	// n comes from v, as what is read of v may depend on v having been normalized;
	// sometimes from a copy of it
	if len(x.b)%2 == 0 {
		t.vals["n"] = v.Normalize()
	} else {
		t.vals["n"] = src.Normalize()
	}
	return t
}

// out is what a call gave, not yet read
type out struct {
	s    string
	bs   []byte
	flag []interface{}
	u    *urn.URN
	e    *urn.URN8141
	sc   *urn.SCIM
	err  error
	pan  string
}

func (o *out) text() string {
	s := o.s + "|" + string(o.bs) + fmt.Sprint(o.flag) + o.pan
	if o.u != nil {
		s += fmt.Sprintf("%+v", projectN(o.u))
	}
	if o.e != nil && o.e.URN != nil {
		s += fmt.Sprintf("%+v", projectN(o.e.URN))
	}
	if o.sc != nil {
		s += fmt.Sprintf("%+v", projSCIM(o.sc))
	}
	if o.err != nil {
		s += "error " + o.err.Error()
	}
	return s
}

func (c *sceneCall) run(t *things) (o *out) {
	o = &out{}
	o.pan = try(func() {
		x := t.vals[c.X]
		buf := t.b
		switch c.X {
		case "j":
			buf = t.j
		case "c":
			buf = t.c
		}
		switch c.Op {
		case "string":
			o.s = x.String()
		case "normalize":
			o.u = x.Normalize()
		case "marshal":
			o.bs, o.err = json.Marshal(x)
		case "marshal8141":
			o.bs, o.err = urn.URN8141{URN: x}.MarshalJSON()
		case "scim":
			o.flag = []interface{}{x.IsSCIM(), int(x.RFC())}
			if s := x.SCIM(); s != nil {
				o.s = s.String()
				o.bs, o.err = s.MarshalJSON()
			}
		case "fields":
			o.s = x.ID + "," + x.SS + "," + x.RComponent() + "," + x.QComponent() + "," + x.FComponent()
		case "equal":
			o.flag = []interface{}{x.Equal(t.vals[c.Y])}
		case "setid":
			x.ID = "Qq"
			o.s = x.ID
		case "setss":
			x.SS = "%qQ%Aa"
			o.s = x.SS
		case "copy":
			k := *x
			o.u = &k
		case "parse2141":
			o.u, o.err = urn.NewMachine().Parse(buf)
		case "parse8141":
			o.u, o.err = urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only)).Parse(buf)
		case "parse7643":
			var ok bool
			o.u, ok = urn.Parse(buf, urn.WithParsingMode(urn.RFC7643Only))
			o.flag = []interface{}{ok}
		case "mparse":
			o.u, o.err = t.m.Parse(t.c)
			o.flag = []interface{}{t.m.Error()}
		case "scribble":
			for n := 0; n < 2; n++ {
				for i := range buf {
					buf[i] = "URN:%zZ?+x?=y#"[(i+n)%14]
				}
			}
		case "unmarshalURN":
			o.u = &urn.URN{}
			o.err = o.u.UnmarshalJSON(buf)
		case "unmarshal8141":
			o.e = &urn.URN8141{}
			o.err = o.e.UnmarshalJSON(buf)
		case "unmarshalSCIM":
			o.sc = &urn.SCIM{}
			o.err = o.sc.UnmarshalJSON(buf)
		case "unmarshalinto":
			o.err = x.UnmarshalJSON(t.j)
		case "newmachine":
			m := urn.NewMachine()
			m.WithParsingMode(urn.RFC7643Only)
			o.u, o.err = m.Parse([]byte("urn:ietf:params:scim:api:x:%Aa"))
		default:
			panic("harness: unknown call " + c.Op)
		}
	})
	return o
}

// everything there is to read of everything
func (t *things) all() (s string) {
	msg := try(func() {
		for _, x := range []string{"v", "k", "n", "u", "g", "w"} {
			s += x + fmt.Sprintf("=%+v ", projectN(t.vals[x]))
		}
		s += fmt.Sprintf("%q %q %q", t.b, t.j, t.c)
		s += fmt.Sprint(t.m.Error())
	})
	return s + msg
}

func scenes(gen *generator, path string, repeats int) {
	var all []*scene
	tlcLines(path, "SCENE", func(l string) {
		s := &scene{}
		must(json.Unmarshal([]byte(l), s))
		for _, c := range s.Calls {
			c.writes = in(c.Op, "setid", "setss", "scribble", "mparse", "unmarshalinto")
		}
		all = append(all, s)
	})
	if len(all) == 0 {
		nothing("no scenarios in " + path)
	}
	r := rand.New(rand.NewSource(seed * 7919))
	// texts: of every mode, some as they are generated, some chosen
	fixed := []sceneTexts{
		{mode: "7643", b: "urn:ietf:params:scim:Api:x:%Ab", c: "URN:ietf:params:scim:api:y:%AB:z", w: "urn:aa:%Ab?+r"},
		{mode: "7643", b: "urn:ietf:params:scim:api:x:%Ab", c: "urn:ietf:params:scim:api:", w: "urn:ietf:params:scim:api:x:%AB"},
		{mode: "8141", b: "URN:aA:%Ab?+r%Ab?=q%Ab#f", c: "urn:bb:%aB?+x?=y#z", w: "urn:aA:%aB"},
		{mode: "2141", b: "URN:aA:%Ab%AB", c: "urn:urn:x", w: "urn:AA:%aB%ab"},
	}
	for i := range fixed {
		fixed[i].j = `"` + fixed[i].b + `"`
	}
	fixed[2].j = `"URN:zZ:%Ab"`
	var calls, n int64
	shown := map[string]int64{}
	b := newBeat()
	for _, s := range all {
		for _, d := range s.Shows {
			shown[d]++
		}
		for k := 0; k < repeats && !rep.tooMany(); k++ {
			x := fixed[(k+r.Intn(2))%len(fixed)]
			if k%3 == 2 {
				x = sceneTexts{mode: modeNames[r.Intn(3)]}
				x.b, x.c, x.w = gen.text(x.mode, r), gen.text(x.mode, r), gen.text("8141", r)
				x.j = string(jsonText(gen.text("2141", r), r))
				if len(x.b)+len(x.c)+len(x.w)+len(x.j) > 3000 {
					continue
				}
			}
			what := ""
			for _, c := range s.Calls {
				what += c.Op + " " + c.X + c.Y + "; "
			}
			b.enter("scenario "+what, x.b)
			t := x.build()
			start := make(chan bool)
			var wg sync.WaitGroup
			outs := make([][2]*out, len(s.Calls))
			for i, c := range s.Calls {
				for g := 0; g < 2; g++ {
					if g == 1 && c.writes {
						continue
					}
					wg.Add(1)
					go func(i, g int, c *sceneCall) {
						defer wg.Done()
						<-start
						outs[i][g] = c.run(t)
					}(i, g, c)
				}
			}
			close(start)
			wg.Wait()
			n++
			// one after the other, on the same things made again
			t2 := x.build()
			for i, c := range s.Calls {
				alone := c.run(t2).text()
				for g := 0; g < 2; g++ {
					if outs[i][g] == nil {
						continue
					}
					calls++
					e := &Event{Op: "conc", Res: outs[i][g].text(), Alone: alone}
					if e.Res != alone {
						rep.suspect("a call gives something else among others than alone (scenario", what, x.b, single(e))
					} else if len(e.Res) < 400 && trace.wantN("scene"+c.Op, 25) {
						trace.put(e)
					}
				}
			}
			if e := (&Event{Op: "conc", Res: t.all(), Alone: t2.all()}); e.Res != e.Alone {
				rep.suspect("calls at the same time leave something else than one after the other (scenario", what, x.b, single(e))
			}
			b.leave()
		}
	}
	for d, c := range shown {
		rep.add("scenarios_that_would_show_"+d, c)
	}
	rep.add("scenarios", int64(len(all)))
	rep.add("scenario_runs", n)
	rep.add("concurrent_calls", calls)
}
