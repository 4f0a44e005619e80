package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// The histories that TLC generated from spec/Memory.tla: values are made,
// changed, asked, dropped and collected, and what they gave is held.  Thousands
// of worlds go on side by side in one process; a collection is one for all.

type memStep struct{ Op, S string }

type memHist struct {
	Hist  []memStep
	Shows []string
}

// heldThing is what the library gave, read without the value it is of
type heldThing struct {
	what, was string
	read      func() string
}

type memSlot struct {
	u *urn.URN
	e *urn.URN8141
	s *urn.SCIM
}

type memWorld struct {
	h     memHist
	at    int
	r     *rand.Rand
	m     urn.Machine
	mode  string
	kind  string // what the slots hold
	ask   string // what is asked for, if always the same
	slots map[string]*memSlot
	was   map[string]O
	held  []heldThing
	often bool // look after every step
	bad   bool
}

func memory(gen *generator, path string) {
	var hists []memHist
	designs := map[string]int64{}
	tlcLines(path, "MEM", func(s string) {
		var h memHist
		must(json.Unmarshal([]byte(s), &h))
		for _, d := range h.Shows {
			designs[d]++
		}
		hists = append(hists, h)
	})
	if len(hists) == 0 {
		nothing("no histories in " + path)
	}
	const batch = 1 << 15
	var steps, looks, collections int64
	for round := 0; round < pick(2, 6); round++ {
		for from := 0; from < len(hists); from += batch {
			to := from + batch
			if to > len(hists) {
				to = len(hists)
			}
			worlds := make([]*memWorld, to-from)
			for i := range worlds {
				worlds[i] = newMemWorld(hists[from+i], seed*7919+int64(round)*1000003+int64(from+i))
			}
			for more := true; more && !rep.tooMany(); {
				var left int64
				parallel(workers, func(wk int, b *beat) {
					mine := worlds[len(worlds)*wk/workers : len(worlds)*(wk+1)/workers]
					side := wk%2 == 0 // step by step, or one after the other
					for again := true; again; {
						again = false
						for _, w := range mine {
							for w.at < len(w.h.Hist) && w.h.Hist[w.at].Op != "collect" {
								atomic.AddInt64(&steps, 1)
								w.step(gen, b, &looks)
								if side {
									again = true
									break
								}
							}
						}
					}
					for _, w := range mine {
						if w.at < len(w.h.Hist) {
							w.at++
							atomic.AddInt64(&left, 1)
						}
					}
				})
				// finalizers run after the first, and free for the second
				runtime.GC()
				time.Sleep(5 * time.Millisecond)
				runtime.GC()
				time.Sleep(2 * time.Millisecond)
				collections++
				more = left > 0
			}
			parallel(workers, func(wk int, b *beat) {
				for _, w := range worlds[len(worlds)*wk/workers : len(worlds)*(wk+1)/workers] {
					w.look(b, &looks)
				}
			})
		}
	}
	rep.add("memory_histories", int64(len(hists)))
	rep.add("memory_designs_shown", int64(len(designs)))
	rep.add("memory_steps", steps)
	rep.add("memory_collections", collections)
	rep.add("given_things_read_again", looks)
}

func newMemWorld(h memHist, seed int64) *memWorld {
	w := &memWorld{h: h, r: rand.New(rand.NewSource(seed)), slots: map[string]*memSlot{}, was: map[string]O{}}
	w.mode = modeNames[w.r.Intn(3)]
	w.kind = []string{"u", "u", "u", "e", "s"}[w.r.Intn(5)]
	w.often = w.r.Intn(2) == 0
	mine := map[string][]string{
		"C07": {"norm"}, "C11": {"json", "json2"}, "C16": {"canon"}, "C21": {"str"}, "C09": {"copy", "err", "fields"},
	}[prop]
	if mine == nil {
		mine = []string{"norm", "json", "json2", "canon", "str", "copy", "fields", "view"}
		if prop == "C22" {
			mine = append(mine, "err")
		}
	}
	if w.r.Intn(3) > 0 {
		w.ask = mine[w.r.Intn(len(mine))]
	}
	if prop == "C16" && w.r.Intn(3) > 0 {
		w.kind = "s"
	}
	switch w.kind {
	case "e":
		w.mode = "8141"
	case "s":
		w.mode = "7643"
	}
	if w.ask == "view" || w.ask == "canon" {
		w.mode = "7643"
		if w.kind == "e" {
			w.kind = "u"
		}
	}
	return w
}

// ss is a namespace specific string of some length
func memSS(r *rand.Rand) string {
	n := []int{1 + r.Intn(8), 1 + r.Intn(70), 41 + r.Intn(30), 100 + r.Intn(200)}[r.Intn(4)]
	ts := []string{"a", "B", "9", "%aB", "%Ab", "%AB", "%ab", ":", "-"}
	var s strings.Builder
	s.WriteByte("xYz"[r.Intn(3)])
	for s.Len() < n {
		s.WriteString(ts[r.Intn(len(ts))])
	}
	return s.String()
}

func (w *memWorld) text(mode string) string {
	r := w.r
	ss := memSS(r)
	switch mode {
	case "7643":
		name := strings.Repeat("n", 1+r.Intn(40)) + fmt.Sprint(r.Intn(1000))
		return "urn:ietf:params:scim:" + []string{"api", "param", "schemas"}[r.Intn(3)] + ":" + name + ":" + ss
	case "8141":
		t := "uRn:" + fmt.Sprintf("aB%dz", r.Intn(100000)) + ":" + ss
		if r.Intn(3) > 0 {
			t += "?+r" + ss
		}
		if r.Intn(3) > 0 {
			t += "?=q" + ss
		}
		if r.Intn(3) > 0 {
			t += "#f" + ss
		}
		return t
	}
	return "URN:" + fmt.Sprintf("aB%dz", r.Intn(100000)) + ":" + ss
}

func (w *memWorld) make(s string) {
	r := w.r
	t := w.text(w.mode)
	x := &memSlot{}
	quoted := []byte(`"` + t + `"`)
	switch w.kind {
	case "u":
		switch k := r.Intn(6); {
		case k == 0 && w.mode == "2141":
			x.u = new(urn.URN)
			x.u.UnmarshalJSON(quoted)
		case k == 1:
			x.u = &urn.URN{ID: fmt.Sprint("aB", r.Intn(1000)), SS: memSS(r)}
		case k == 2:
			v, _ := urn.Parse([]byte(t), urn.WithParsingMode(modeValue(w.mode, nil)))
			x.u = v.Normalize()
		case k < 5:
			if w.m == nil {
				w.m = urn.NewMachine(urn.WithParsingMode(modeValue(w.mode, nil)))
			}
			x.u, _ = w.m.Parse([]byte(t))
		default:
			x.u, _ = urn.Parse([]byte(t), urn.WithParsingMode(modeValue(w.mode, nil)))
		}
	case "e":
		x.e = new(urn.URN8141)
		x.e.UnmarshalJSON(quoted)
	case "s":
		if r.Intn(2) == 0 {
			x.s = new(urn.SCIM)
			x.s.UnmarshalJSON(quoted)
		} else {
			u, _ := urn.Parse([]byte(t), urn.WithParsingMode(urn.RFC7643Only))
			x.s = u.SCIM()
		}
	}
	w.slots[s] = x
}

func (w *memWorld) assign(x *memSlot) {
	ss := memSS(w.r)
	u := x.u
	if x.e != nil {
		u = x.e.URN
	}
	switch {
	case u != nil && w.r.Intn(4) == 0:
		u.ID = fmt.Sprint("Cd", w.r.Intn(100000))
	case u != nil:
		u.SS = ss
	case w.r.Intn(3) == 0:
		x.s.Other = ss
	case w.r.Intn(3) == 0:
		x.s.Type = scimschema.Schemas
	default:
		x.s.Name = strings.Repeat("m", 1+w.r.Intn(50)) + fmt.Sprint(w.r.Intn(1000))
	}
}

func (w *memWorld) refill(x *memSlot) {
	mode := map[string]string{"u": "2141", "e": "8141", "s": "7643"}[w.kind]
	j := []byte(`"` + w.text(mode) + `"`)
	var to json.Unmarshaler
	switch w.kind {
	case "u":
		to = x.u
	case "e":
		to = x.e
	case "s":
		to = x.s
	}
	if w.r.Intn(2) == 0 {
		to.UnmarshalJSON(j)
	} else {
		json.Unmarshal(j, to)
	}
}

func (w *memWorld) hold(what string, read func() string) {
	w.held = append(w.held, heldThing{what, read(), read})
}

func (w *memWorld) asks(x *memSlot) {
	ask := w.ask
	if ask == "" {
		ask = []string{"str", "norm", "json", "json2", "canon", "view", "copy", "fields", "err", "equal"}[w.r.Intn(10)]
	}
	raw := func(what, s string) { w.hold(what, func() string { return strings.Clone(s) }) }
	if x.s != nil {
		switch s := x.s; ask {
		case "json":
			j, _ := s.MarshalJSON()
			w.hold("json", func() string { return string(j) })
		case "json2":
			j, _ := json.Marshal(s)
			w.hold("json", func() string { return string(j) })
		case "copy":
			c := *s
			w.hold("view", func() string { return fmt.Sprintf("%+v", scimO(&c)) })
		default:
			raw("canon", s.String())
		}
		return
	}
	u := x.u
	if x.e != nil {
		u = x.e.URN
	}
	switch ask {
	case "str":
		raw("str", u.String())
	case "norm":
		n := u.Normalize()
		if w.r.Intn(2) == 0 {
			raw("norm", n.SS)
			raw("norm", n.ID)
		} else {
			w.hold("norm", func() string { c := *n; return fmt.Sprintf("%+v", project(&c)) })
		}
	case "json":
		var j []byte
		if x.e != nil {
			j, _ = x.e.MarshalJSON()
		} else {
			j, _ = u.MarshalJSON()
		}
		w.hold("json", func() string { return string(j) })
	case "json2":
		var j []byte
		if x.e != nil {
			j, _ = json.Marshal(x.e)
		} else {
			j, _ = json.Marshal(u)
		}
		w.hold("json", func() string { return string(j) })
	case "canon":
		if s := u.SCIM(); s != nil {
			raw("canon", s.String())
		}
	case "view":
		if s := u.SCIM(); s != nil {
			w.hold("view", func() string { return fmt.Sprintf("%+v", scimO(s)) })
		}
	case "copy":
		c := *u
		w.hold("value", func() string { return fmt.Sprintf("%+v", project(&c)) })
	case "fields":
		id, ss, rc, q, f := u.ID, u.SS, u.RComponent(), u.QComponent(), u.FComponent()
		w.hold("value", func() string { return strings.Join([]string{id, ss, rc, q, f}, " ") })
	case "err":
		if w.m == nil {
			w.m = urn.NewMachine(urn.WithParsingMode(modeValue(w.mode, nil)))
		}
		t := w.text(w.mode)
		_, err := w.m.Parse([]byte(t[:len(t)-w.r.Intn(len(t)-1)] + "\x00"))
		if err != nil {
			w.hold("error", func() string { return strings.Clone(err.Error()) })
		}
	case "equal":
		for _, y := range w.slots {
			if y.u != nil {
				u.Equal(y.u)
			}
		}
	}
}

func (w *memWorld) project(x *memSlot) O {
	switch {
	case x.s != nil:
		return scimO(x.s)
	case x.e != nil:
		return project(x.e.URN)
	}
	return project(x.u)
}

func (w *memWorld) step(gen *generator, b *beat, looks *int64) {
	st := w.h.Hist[w.at]
	w.at++
	if w.bad {
		return
	}
	b.enter("history", st.Op)
	msg := try(func() {
		x := w.slots[st.S]
		switch st.Op {
		case "make":
			w.make(st.S)
		case "assign":
			w.assign(x)
		case "refill":
			w.refill(x)
		case "ask":
			w.asks(x)
		case "drop":
			delete(w.slots, st.S)
			delete(w.was, st.S)
		}
		if st.Op == "make" || st.Op == "assign" || st.Op == "refill" {
			w.was[st.S] = w.project(w.slots[st.S])
		}
	})
	b.leave()
	if msg != "" {
		w.bad = true // for other properties
		return
	}
	if w.often {
		w.look(b, looks)
	}
}

// look reads everything that is held, and the values there are
func (w *memWorld) look(b *beat, looks *int64) {
	if w.bad {
		return
	}
	b.enter("history", "reading what was given")
	defer b.leave()
	tell := func(what, was, now string) {
		w.bad = true
		var hist []string
		for _, s := range w.h.Hist[:w.at] {
			hist = append(hist, s.Op+" "+s.S)
		}
		rep.suspect("what the library gave changed later ("+what+", after "+strings.Join(hist, ", ")+")", w.mode, was,
			single(&Event{Op: "given", Ty: what, T: B(was), Out: B(now)}))
	}
	for _, h := range w.held {
		if prop != "C22" && prop != "C17" && !in(prop, givenOn[h.what]...) {
			continue
		}
		atomic.AddInt64(looks, 1)
		now := ""
		if msg := try(func() { now = h.read() }); msg != "" {
			now = msg
		}
		if now != h.was {
			tell(h.what, h.was, now)
			return
		}
	}
	if !in(prop, givenOn["value"]...) {
		return
	}
	for s, x := range w.slots {
		atomic.AddInt64(looks, 1)
		var o O
		if msg := try(func() { o = w.project(x) }); msg != "" {
			o.Err = msg
		}
		if o != w.was[s] {
			tell("value", fmt.Sprintf("%+v", w.was[s]), fmt.Sprintf("%+v", o))
			return
		}
	}
}
