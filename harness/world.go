package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// A world: machines, slots with URNs, receivers of unmarshalling, buffers.
// Every call is recorded as an event with what it changed, and judged by the
// conditions of spec/TraceLib.tla (judge.go mirrors them, TLC has the last word).

var slotNames = []string{"a", "b", "c", "d", "u", "e", "s"}
var cellNames = slotNames[:4]

type cell struct {
	u     *urn.URN
	err   error
	mode  string // the mode it was parsed in, as long as nobody assigned to it
	alias bool   // the same pointer as in a receiver
}

type world struct {
	r     *rand.Rand
	b     *beat
	gen   *generator
	cells map[string]*cell
	u     urn.URN
	e     urn.URN8141
	s     urn.SCIM
	rmode map[string]string // mode of what a receiver holds
	mach  [2]urn.Machine
	modes [2]string
	me    errs
	jerr  error // of the last unmarshalling
	proj  map[string]O
	pre   map[string]string // the prefix each value was parsed with, "" if composed
	grp   map[string]int    // slots that share their SCIM view have the same
	evs   []*Event
	bufs  [][]byte
	jbufs [][]byte  // JSON that was unmarshalled
	fix   [2][]byte // the buffers of spec/Buffers.tla
	win   []byte    // the window to parse from, if it is one of those
	text  []string  // texts used, to be used again
	bad   string
	badEv *Event
	tap   func(*world, *Event)
	via   int // how to unmarshal, plus one
}

func newWorld(gen *generator, b *beat, r *rand.Rand) *world {
	w := &world{r: r, b: b, gen: gen, cells: map[string]*cell{}, proj: map[string]O{}, pre: map[string]string{}, grp: map[string]int{}, rmode: map[string]string{}}
	for _, n := range cellNames {
		w.cells[n] = &cell{}
	}
	w.modes = [2]string{"2141", "2141"}
	e := &Event{Op: "reset"}
	for _, s := range slotNames {
		w.proj[s] = w.project(s)
		if !w.proj[s].Nil {
			e.Delta = append(e.Delta, Change{s, w.proj[s]})
		}
	}
	w.evs = append(w.evs, e)
	w.ghost(e)
	return w
}

func mix(m string) int {
	if m == "n" {
		return 1
	}
	return 0
}

// call runs f inside the watchdog, and says how it panicked
func (w *world) call(what string, f func()) string {
	w.b.enter("history", what)
	msg := try(f)
	w.b.leave()
	return msg
}

func (w *world) project(s string) (o O) {
	msg := w.call("reading "+s, func() {
		switch s {
		case "u":
			o = projectN(&w.u)
		case "e":
			o = projectN(w.e.URN)
		case "s":
			o = O{Scim: projSCIM(&w.s)}
		default:
			c := w.cells[s]
			o = projectN(c.u)
			if c.u == nil && c.err != nil {
				o.Err = c.err.Error()
			}
		}
	})
	if msg != "" {
		return O{Nil: true, Scim: nilSC, Err: msg}
	}
	return o
}

func (w *world) ptr(s string) *urn.URN {
	switch s {
	case "u":
		return &w.u
	case "e":
		return w.e.URN
	case "s", "nil":
		return nil
	}
	return w.cells[s].u
}

func (w *world) modeAt(s string) string {
	if s == "u" || s == "e" {
		return w.rmode[s]
	}
	return w.cells[s].mode
}

func (w *world) errText(i int) (s string) {
	if i < 2 && w.mach[i] == nil {
		return ""
	}
	msg := w.call("Error()", func() {
		err := w.jerr
		if i < 2 {
			err = w.mach[i].Error()
		}
		if err != nil {
			s = "=" + err.Error()
		}
	})
	if msg != "" {
		return "=" + msg
	}
	return s
}

// commit finds out what the call changed, judges and records it
func (w *world) commit(e *Event) {
	old := map[string]O{}
	for _, s := range slotNames {
		p := w.project(s)
		if p != w.proj[s] {
			old[s] = w.proj[s]
			e.Delta = append(e.Delta, Change{s, p})
			w.proj[s] = p
		}
	}
	oldMe := w.me
	for i := range w.me {
		w.me[i] = w.errText(i)
	}
	e.Me = w.me
	w.evs = append(w.evs, e)
	w.ghost(e)
	e.pre, e.grp = w.pre, w.grp
	if w.bad == "" {
		before := func(s string) O {
			if o, ok := old[s]; ok {
				return o
			}
			return w.proj[s]
		}
		if bad := w.gen.judge(e, before, oldMe); bad != "" {
			w.bad, w.badEv = bad, e
		}
	}
	if w.tap != nil {
		w.tap(w, e)
	}
}

// ghost keeps the prefixes, as PreOf in spec/TraceLib.tla does
func (w *world) ghost(e *Event) {
	head := func(t string) string {
		if len(t) > 3 {
			return t[:3]
		}
		return t
	}
	own := len(w.evs)
	switch e.Op {
	case "reset":
		for i, s := range slotNames {
			w.pre[s] = head(string(w.proj[s].Str))
			w.grp[s] = -1 - i
		}
	case "parse", "pparse":
		w.grp[e.D] = own
		w.pre[e.D] = ""
		if e.Res == "urn" {
			w.pre[e.D] = head(string(e.T))
		}
	case "norm":
		w.grp[e.D] = own
		w.pre[e.D] = w.gen.sp.urn
	case "make":
		switch e.How {
		case "compose":
			w.pre[e.D] = ""
			w.grp[e.D] = own
		case "copy":
			w.grp[e.D] = w.grp[e.S]
			w.pre[e.D] = w.pre[e.S]
		}
	case "unm":
		if e.Ok {
			w.grp[e.D] = own
		}
		if e.Ok && e.Ty != "SCIM" {
			t, _ := decodeText([]byte(e.Json))
			w.pre[e.D] = head(t)
		}
	}
}

func (w *world) report() {
	if w.bad == "" {
		return
	}
	n := 0
	for i, e := range w.evs {
		if e == w.badEv {
			n = i + 1
		}
	}
	rep.suspect(kindOfBad(w.bad), "history", string(w.badEv.T), w.evs[:n])
}

// ---------------------------------------------------------------- calls

func (w *world) opNew(m string, opts []string) {
	i := mix(m)
	w.call("NewMachine", func() { w.mach[i] = urn.NewMachine(options(opts, w.r)...) })
	w.modes[i] = lastMode(opts)
	w.commit(&Event{Op: "new", M: m, Opts: opts})
}

func (w *world) opMode(m, x string) {
	i := mix(m)
	if w.mach[i] == nil {
		w.opNew(m, nil)
	}
	w.call("WithParsingMode", func() {
		if w.r.Intn(2) == 0 {
			w.mach[i].WithParsingMode(modeValue(x, w.r))
		} else {
			urn.WithParsingMode(modeValue(x, w.r))(w.mach[i])
		}
	})
	w.modes[i] = modeOf(x)
	w.commit(&Event{Op: "mode", M: m, X: x})
}

// freshParse parses on a machine of its own, made in one of the ways there are
func freshParse(b *beat, r *rand.Rand, mode, text string) (P, string) {
	var u *urn.URN
	var err error
	me := ""
	b.enter(mode, text)
	msg := try(func() {
		var m urn.Machine
		switch k := r.Intn(3); {
		case k == 0 && mode == "2141":
			m = urn.NewMachine()
		case k <= 1:
			m = urn.NewMachine()
			m.WithParsingMode(modeValue(mode, nil))
		default:
			m = urn.NewMachine(urn.WithParsingMode(modeValue(mode, nil)))
		}
		u, err = m.Parse([]byte(text))
		if e := m.Error(); e != nil {
			me = "=" + e.Error()
		}
	})
	p := observeBy(projectN, u, err, msg)
	b.leave()
	return p, me
}

const guardLen = 7

// buffer gives a buffer that holds text with something before and behind it;
// the slice has the bytes behind as spare capacity.  It may be one used before.
func (w *world) buffer(text string) (buf, in []byte) {
	n := len(text)
	if n == 0 && w.win == nil && w.r.Intn(2) == 0 {
		return nil, nil
	}
	if w.win != nil {
		return w.win[:cap(w.win)], w.win
	}
	if len(w.bufs) > 0 && w.r.Intn(3) == 0 {
		if old := w.bufs[w.r.Intn(len(w.bufs))]; len(old) >= n+2*guardLen {
			copy(old[guardLen:], text)
			w.commit(&Event{Op: "scribble"})
			return old, old[guardLen : guardLen+n : len(old)]
		}
	}
	buf = make([]byte, n+2*guardLen+w.r.Intn(3)*40)
	for i := range buf {
		buf[i] = "A%Bu/:Z"[i%7]
	}
	copy(buf[guardLen:], text)
	if len(w.bufs) < 12 {
		w.bufs = append(w.bufs, buf)
	}
	return buf, buf[guardLen : guardLen+n : len(buf)]
}

func (w *world) opParse(m, text, d string) {
	i := mix(m)
	if w.mach[i] == nil {
		w.opNew(m, nil)
	}
	w.parse(&Event{Op: "parse", M: m, T: B(text), D: d}, w.modes[i], func(in []byte) (*urn.URN, error, bool) {
		u, err := w.mach[i].Parse(in)
		return u, err, false
	})
}

func (w *world) opPParse(opts []string, text, d string) {
	w.parse(&Event{Op: "pparse", Opts: opts, T: B(text), D: d}, lastMode(opts), func(in []byte) (*urn.URN, error, bool) {
		if w.r.Intn(2) == 0 {
			u, ok := urn.Parse(in, options(opts, w.r)...)
			if ok {
				return u, nil, true
			}
			if u != nil {
				return u, nil, false
			}
			// the error is that of the machine
			_, err := urn.NewMachine(options(opts, w.r)...).Parse(in)
			return u, err, ok
		}
		u, err := urn.NewMachine(options(opts, w.r)...).Parse(in)
		return u, err, u != nil
	})
}

func (w *world) parse(e *Event, mode string, f func(in []byte) (*urn.URN, error, bool)) {
	text := string(e.T)
	buf, in := w.buffer(text)
	before := string(buf)
	var u *urn.URN
	var err error
	var ok bool
	msg := w.call("Parse "+text, func() { u, err, ok = f(in) })
	after := string(buf)
	p := observeBy(projectN, u, err, msg)
	e.Res, e.Err, e.V, e.OkFlag = p.Res, p.Err, p.V, ok
	e.Again = noneP
	e.mode = mode
	if prop == "C10" {
		e.Before, e.After = B(before), B(after)
	}
	copy(buf, before) // so that a transient damage is not carried along
	e.Fresh, e.FreshMe = freshParse(w.b, w.r, mode, text)
	if prop == "C04" && p.Res == "urn" {
		e.Again, _ = freshParse(w.b, w.r, mode, string(p.V.Str))
	}
	c := w.cells[e.D]
	*c = cell{u: u, err: err}
	if p.Res == "urn" {
		c.mode = mode
	}
	if p.Res == "panic" {
		*c = cell{}
	}
	w.commit(e)
}

// opScribble overwrites buffers of earlier parses
func (w *world) opScribble() {
	for _, b := range append(append([][]byte{}, w.bufs...), w.jbufs...) {
		switch w.r.Intn(3) {
		case 0:
			w.r.Read(b)
		case 1:
			for i := range b {
				b[i] = "URN:zz:%zZ?+x?=y#"[i%17]
			}
		case 2:
			for i := range b {
				b[i] ^= 0x20
			}
		}
	}
	w.commit(&Event{Op: "scribble"})
}

func (w *world) opNorm(s, d string) {
	src := w.ptr(s)
	if src == nil || src.ID == "" || src.SS == "" {
		return
	}
	e := &Event{Op: "norm", S: s, D: d, V: nilO, Twice: nilO, Back: noneP}
	mode := w.modeAt(s)
	var n *urn.URN
	if w.call("Normalize "+src.ID+":"+src.SS, func() { n = src.Normalize() }) == "" && n != nil {
		e.V = projectN(n)
		w.call("Normalize twice", func() { e.Twice = projectN(n.Normalize()) })
		if mode != "" {
			e.Back, _ = freshParse(w.b, w.r, mode, string(e.V.Str))
		}
	}
	*w.cells[d] = cell{u: n}
	w.commit(e)
}

func (w *world) opEqual(s, x string) {
	p, q := w.ptr(s), w.ptr(x)
	if p == nil {
		return
	}
	e := &Event{Op: "equal", S: s, X: x}
	msg := w.call("Equal", func() {
		e.Bool = p.Equal(q)
		if q != nil {
			e.Rev = q.Equal(p)
		}
	})
	e.Panic = msg != ""
	w.commit(e)
}

// opCompose, opSet, opCopy: what the caller does to values
func (w *world) opCompose(id, ss, d string) {
	*w.cells[d] = cell{u: &urn.URN{ID: id, SS: ss}}
	w.commit(&Event{Op: "make", How: "compose", S: d, D: d, V: w.project(d)})
}

func (w *world) settable(s string) bool {
	switch s {
	case "u":
		return true
	case "e", "s", "nil":
		return false
	}
	c := w.cells[s]
	return c.u != nil && !c.alias
}

func (w *world) opSetID(s, id string) {
	if !w.settable(s) {
		return
	}
	w.ptr(s).ID = id
	w.touched(s)
	w.commit(&Event{Op: "make", How: "setid", S: s, D: s, V: w.project(s)})
}

func (w *world) opSetSS(s, ss string) {
	if !w.settable(s) {
		return
	}
	w.ptr(s).SS = ss
	w.touched(s)
	w.commit(&Event{Op: "make", How: "setss", S: s, D: s, V: w.project(s)})
}

func (w *world) touched(s string) {
	if s == "u" {
		w.rmode["u"] = ""
	} else {
		w.cells[s].mode = ""
	}
}

func (w *world) opCopy(s, d string) {
	p := w.ptr(s)
	if p == nil || s == d {
		return
	}
	c := *p
	*w.cells[d] = cell{u: &c, mode: w.modeAt(s)}
	w.commit(&Event{Op: "make", How: "copy", S: s, D: d, V: w.project(d)})
}

// opPut makes a receiver hold what another slot holds, as a caller does who
// unmarshals into a value of some standing
func (w *world) opPut(s, d string) {
	p := w.ptr(s)
	if p == nil || s == d {
		return
	}
	switch d {
	case "u":
		w.u = *p
	case "e":
		c := *p
		w.e = urn.URN8141{URN: &c}
	case "s":
		done := false
		w.call("SCIM", func() {
			if v := p.SCIM(); v != nil {
				w.s = *v
				done = true
			}
		})
		if done {
			w.commit(&Event{Op: "putview", S: s, D: d})
		}
		return
	}
	w.rmode[d] = w.modeAt(s)
	w.commit(&Event{Op: "make", How: "copy", S: s, D: d, V: w.project(d)})
}

// opSetView changes the SCIM value behind a URN, as its fields are exported
func (w *world) opSetView(s, ty, nm, ot string) {
	p := w.ptr(s)
	if s == "s" {
		return
	}
	if p == nil {
		return
	}
	done := false
	w.call("SCIM", func() {
		if v := p.SCIM(); v != nil {
			v.Type, v.Name, v.Other = typeCode(ty), nm, ot
			done = true
		}
	})
	if done {
		w.commit(&Event{Op: "setview", S: s})
	}
}

// opTake takes out the pointer in the URN8141 receiver, as a copy of it would
func (w *world) opTake(d string) {
	if w.e.URN == nil {
		return
	}
	*w.cells[d] = cell{u: w.e.URN, mode: w.rmode["e"], alias: true}
	w.commit(&Event{Op: "make", How: "copy", S: "e", D: d, V: w.project(d)})
}

func (w *world) opRead(s string) {
	p := w.ptr(s)
	if p == nil {
		return
	}
	e := &Event{Op: "read", S: s}
	msg := w.call("reading", func() {
		e.One = readShuffled(p, w.r)
		j, err := p.MarshalJSON()
		must2(err)
		e.Json1 = B(j)
		e.Two = readShuffled(p, w.r)
		j, err = json.Marshal(p)
		must2(err)
		e.Json2 = B(j)
	})
	e.Panic = msg != ""
	w.commit(e)
}

func must2(err error) {
	if err != nil {
		panic(err)
	}
}

// readShuffled is projectN with the calls on the value itself, in any order
func readShuffled(u *urn.URN, r *rand.Rand) O {
	var o O
	ops := []func(){
		func() { o.R = B(u.RComponent()) }, func() { o.Q = B(u.QComponent()) }, func() { o.F = B(u.FComponent()) },
		func() { o.Kind = kindName(u.RFC()) }, func() { o.IsSCIM = u.IsSCIM() }, func() { o.Scim = projSCIM(u.SCIM()) },
		func() { o.Str = B(u.String()) }, func() { o.Norm = B(u.Normalize().String()) }, func() { u.Equal(u) },
		func() { u.Normalize() }, func() { u.MarshalJSON() }, func() { _ = u.String() },
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, f := range ops {
		f()
	}
	o.ID, o.SS = B(u.ID), B(u.SS)
	return o
}

// ---------------------------------------------------------------- JSON

var recvType = map[string]string{"u": "URN", "e": "URN8141", "s": "SCIM"}
var typeMode = map[string]string{"URN": "2141", "URN8141": "8141", "SCIM": "7643"}

// unmarshalInto decodes JSON into the value a pointer points to, in one of the ways
func unmarshalInto(j []byte, to interface{}, via int) error {
	t := strings.TrimSpace(string(j))
	if t == "null" || t == "" || !json.Valid(j) {
		via %= 2
	}
	switch via {
	case 0:
		return to.(json.Unmarshaler).UnmarshalJSON(j)
	case 1:
		return json.Unmarshal(j, to)
	case 2: // a pointer in a struct
		box := struct{ X interface{} }{to}
		return json.Unmarshal([]byte(`{"X": `+string(j)+`}`), &box)
	case 3: // an array of pointers
		box := []interface{}{to}
		return json.Unmarshal([]byte("[\n"+string(j)+"]"), &box)
	}
	return json.NewDecoder(bytes.NewReader(j)).Decode(to)
}

// decodeText: the text of a JSON string
func decodeText(j []byte) (string, bool) {
	var x interface{}
	if json.Unmarshal(j, &x) != nil {
		return "", false
	}
	s, ok := x.(string)
	return s, ok
}

func scimO(s *urn.SCIM) O { return O{Scim: projSCIM(s)} }

func (w *world) opUnm(d string, j []byte) {
	e := &Event{Op: "unm", Ty: recvType[d], D: d, Json: B(j), Parsed: noneP, FreshV: nilO, After: B(j)}
	via := w.r.Intn(5)
	if w.via > 0 {
		via = w.via - 1
	}
	fill := func(err error, now O) {
		e.Ok = err == nil
		w.jerr = err
		text, isText := decodeText(j)
		if isText {
			e.Parsed, _ = freshParse(w.b, w.r, typeMode[e.Ty], text)
			e.Quotes = err != nil && strings.Contains(err.Error(), text)
		}
		w.rmode[d] = map[bool]string{true: typeMode[e.Ty], false: w.rmode[d]}[err == nil]
	}
	buf := append([]byte{}, j...)
	if w.win != nil {
		buf = w.win
	} else if len(w.jbufs) < 8 {
		w.jbufs = append(w.jbufs, buf)
	}
	msg := w.call("Unmarshal "+string(j), func() {
		var err error
		switch d {
		case "u":
			err = unmarshalInto(buf, &w.u, via)
			fill(err, w.project(d))
			var f urn.URN
			unmarshalInto(append([]byte{}, j...), &f, via)
			e.FreshV = projectN(&f)
		case "e":
			err = unmarshalInto(buf, &w.e, via)
			fill(err, w.project(d))
			var f urn.URN8141
			unmarshalInto(append([]byte{}, j...), &f, via)
			e.FreshV = projectN(f.URN)
		case "s":
			err = unmarshalInto(buf, &w.s, via)
			fill(err, w.project(d))
			var f urn.SCIM
			unmarshalInto(append([]byte{}, j...), &f, via)
			e.FreshV = scimO(&f)
		}
		if err == nil {
			e.Same = w.roundTrip(d)
		}
	})
	if msg != "" {
		e.Ok, e.Same = true, msg // a panic is never right: refused by C11
		e.Parsed = noneP
	}
	e.After = B(buf)
	w.commit(e)
}

func (w *world) roundTrip(d string) string {
	var j []byte
	var err error
	var a, b O
	switch d {
	case "u":
		if j, err = json.Marshal(w.u); err == nil {
			var f urn.URN
			err = json.Unmarshal(j, &f)
			a, b = projectN(&w.u), projectN(&f)
		}
	case "e":
		if j, err = json.Marshal(w.e); err == nil {
			var f urn.URN8141
			err = json.Unmarshal(j, &f)
			a, b = projectN(w.e.URN), projectN(f.URN)
		}
	case "s":
		if j, err = json.Marshal(w.s); err == nil {
			var f urn.SCIM
			err = json.Unmarshal(j, &f)
			a, b = scimO(&w.s), scimO(&f)
		}
	}
	if err != nil {
		return "error: " + err.Error()
	}
	if a != b {
		return "different: " + string(j)
	}
	return "same"
}

// marshalEverywhere marshals a value directly and through encoding/json, and
// says whether all ways agree.  val is a value, ptr a pointer to the same.
func marshalEverywhere(val, ptr json.Marshaler) (out []byte, res string) {
	res = "ok"
	msg := try(func() {
		var err error
		out, err = val.MarshalJSON()
		if err != nil {
			res = "error: " + err.Error()
			return
		}
		check := func(how string, x interface{}, pre, post string) {
			j, err := json.Marshal(x)
			if err != nil {
				res = how + ": error: " + err.Error()
			} else if string(j) != pre+string(out)+post {
				res = how + ": " + string(j)
			}
		}
		j, err := ptr.MarshalJSON()
		if err != nil || string(j) != string(out) {
			res = "direct, through a pointer: " + string(j)
		}
		check("value", val, "", "")
		check("pointer", ptr, "", "")
		check("slice", []interface{}{val, ptr}, "[", ","+string(out)+"]")
		check("map", map[string]json.Marshaler{"k": val}, `{"k":`, "}")
		check("struct", struct {
			X interface{}
			Y json.Marshaler `json:",omitempty"`
		}{val, ptr}, `{"X":`, `,"Y":`+string(out)+`}`)
	})
	if msg != "" {
		res = msg
	}
	return out, res
}

func (w *world) opMarshal(s string) {
	e := &Event{Op: "marshal", Ty: "URN"}
	w.call("Marshal", func() {
		switch s {
		case "e":
			e.Ty, e.V = "URN8141", w.proj["e"]
			out, res := marshalEverywhere(w.e, &w.e)
			e.Json, e.Res = B(out), res
		case "s":
			e.Ty, e.V = "SCIM", w.proj["s"]
			out, res := marshalEverywhere(w.s, &w.s)
			e.Json, e.Res = B(out), res
		default:
			p := w.ptr(s)
			if p == nil {
				return
			}
			e.V = w.proj[s]
			out, res := marshalEverywhere(*p, p)
			e.Json, e.Res = B(out), res
		}
	})
	if e.Res != "" {
		w.commit(e)
	}
}

// jsonText writes a text as a JSON string in one of many ways
func jsonText(text string, r *rand.Rand) []byte {
	if r.Intn(3) == 0 {
		j, err := json.Marshal(text)
		must(err)
		return j
	}
	var b bytes.Buffer
	ws := func() {
		for r.Intn(4) == 0 {
			b.WriteByte(" \t\n\r"[r.Intn(4)])
		}
	}
	ws()
	b.WriteByte('"')
	rate := []int{0, 1, 8, 30}[r.Intn(4)]
	for _, c := range text {
		switch {
		case c == 0xfffd || c >= 0x10000:
			b.WriteRune(0xe9)
		case c < 32 || c == '"' || c == '\\' || rate > 0 && r.Intn(32) < rate:
			short := strings.IndexRune("\"\\/\b\f\n\r\t", c)
			if short >= 0 && r.Intn(2) == 0 {
				b.WriteByte('\\')
				b.WriteByte(`"\/bfnrt`[short])
			} else if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				fmt.Fprintf(&b, "\\u%04X", c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	ws()
	return b.Bytes()
}

var badJSON = []string{"null", "12", "[\"urn:a:b\"]", "{\"urn\":\"urn:a:b\"}", "\"urn:aa:b", "true", "", "\"urn:aa:b\"x", "urn:aa:b", "\"urn:aa:\\x\"", "-1.5e3", "[]", "{}",
	"\"urn:aa:b\",", "'urn:aa:b'", "\"urn:aa:\\u00\"", "\"urn:aa:b\nc\"", " null ", "\"", "nul", "\"\\ud800\"", "false", "0", "\"\"", "\" urn:aa:b\"", "\"urn:aa:b \"", "\"\\u0000\""}

func otherTexts(r *rand.Rand) string {
	return []string{"", " ", "urn", "urn:", "null", "\\", "%s%d%v", "urn:aa:b\n", "é", "%!s", "urn:x:%", "\"", "a%20b", "URN:AA:é"}[r.Intn(14)]
}

// anyJSON: mostly strings with URNs that fit the type
func (w *world) anyJSON(d string) []byte {
	switch k := w.r.Intn(12); {
	case k == 0:
		return []byte(badJSON[w.r.Intn(len(badJSON))])
	case k == 1:
		return jsonText(otherTexts(w.r), w.r)
	case k < 4 && in(prop, "C11", "C12", "C22", "C13", "C21"):
		return jsonText(w.relatedText(typeMode[recvType[d]]), w.r)
	case k < 8:
		return jsonText(w.gen.text(typeMode[recvType[d]], w.r), w.r)
	}
	return jsonText(w.anyText(), w.r)
}

// ---------------------------------------------------------------- choices

// anyText: often one that was used before, or a variant of it
func (w *world) anyText() string {
	if w.r.Intn(60) == 0 {
		return ""
	}
	if len(w.text) > 0 && (w.r.Intn(3) == 0 || prop == "C22" && w.r.Intn(2) == 0) {
		t := w.text[w.r.Intn(len(w.text))]
		if w.r.Intn(2) == 0 || prop == "C22" && w.r.Intn(4) > 0 {
			return t
		}
		return variant(t, w.r)
	}
	mode := modeNames[w.r.Intn(3)]
	if prop == "C22" && w.r.Intn(2) == 0 {
		mode = "7643"
	}
	t := ""
	if w.r.Intn(5) == 0 && in(prop, "C08", "C09", "C22", "C13", "C21", "C05") {
		t = w.relatedText(mode)
	} else {
		t = w.gen.text(mode, w.r)
	}
	w.text = append(w.text, t)
	return t
}

// variant: a text that might be the same URN: case changes, components
func variant(t string, r *rand.Rand) string {
	b := []byte(t)
	flip := func(i int) {
		if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
			b[i] ^= 0x20
		}
	}
	if len(b) == 0 {
		return t
	}
	switch r.Intn(6) {
	case 0: // everything in another case
		for i := range b {
			flip(i)
		}
	case 1:
		flip(r.Intn(len(b)))
	case 2: // the head
		for i := 0; i < len(b) && i < 4+r.Intn(30); i++ {
			flip(i)
		}
	case 3: // escapes
		for i := range b {
			if i > 0 && b[i-1] == '%' || i > 1 && b[i-2] == '%' {
				flip(i)
			}
		}
	case 4:
		if i := strings.IndexAny(t, "?#"); i >= 0 {
			return t[:i]
		}
		return t + []string{"?+r", "?=q", "#f", "?+r?=q#f", "#"}[r.Intn(5)]
	case 5:
		i := strings.LastIndexAny(t, ":")
		if i > 0 {
			return t[:i] + ":" + []string{"%Aa", "%aA", "x", ":"}[r.Intn(4)] + t[i+1:]
		}
	}
	return string(b)
}

func (w *world) anyOpts() []string {
	var o []string
	for n := []int{0, 1, 1, 1, 2, 3}[w.r.Intn(6)]; n > 0; n-- {
		o = append(o, w.anyMode())
	}
	return o
}

func (w *world) anyMode() string {
	return []string{"2141", "7643", "8141", "default", "other"}[w.r.Intn(5)]
}

func (w *world) anyCell() string { return cellNames[w.r.Intn(4)] }
func (w *world) anySource() string {
	if w.r.Intn(4) == 0 {
		return []string{"u", "e"}[w.r.Intn(2)]
	}
	return w.anyCell()
}

var someIDs = []string{"a", "aa", "Ab", "AB", "x-1", "ietf", "IETF", "ietf:params:scim", "Ietf:Params:Scim", "isbn", "aa:b", "oid", "0", "Z9"}
var someSSs = []string{"b", "B", "%Ab", "%aB", "%aBB", "%AbB", "b:c", "params:scim:api:x", "params:scim:api:x:%Ab", "api:x", "a/b", "~&", "%zZ%Zz", "%%%%%%"[:0] + "b%4aC", "b?", "-", "c:%FF%fFx"}

// what a caller may assign all the same
var oddParts = []string{"", "", "", " ", ":", "urn", "URN", "\x00", "é", "\xff", "a:b", "?", "#", "?+r", "b?=q#f", "%", "%a", "%zé", "urn:a:b", "\n", "<&>", "\""}

// related gives something to be read from one of the values: what one field
// holds, assigned to another
func (w *world) related() string {
	o := w.proj[slotNames[w.r.Intn(7)]]
	if o.Nil {
		return "x"
	}
	t := []B{o.ID, o.SS, o.R, o.Q, o.F, o.Str, o.Norm, o.Scim.Nm, o.Scim.Ot, o.Scim.Canon, o.Scim.Nm, o.Scim.Ot}[w.r.Intn(12)]
	if w.r.Intn(5) == 0 && o.Scim.Nm != "" {
		return o.Scim.Ty + ":" + string(o.Scim.Nm)
	}
	if w.r.Intn(3) == 0 {
		// with what stands before or behind it, or part of it
		p := w.pieces(o)
		seps := []string{"?+", "?=", "#", ":", "", "?", "-", "%"}
		x, y := p[w.r.Intn(len(p))], p[w.r.Intn(len(p))]
		switch w.r.Intn(4) {
		case 0:
			return seps[w.r.Intn(8)] + x
		case 1:
			return x + seps[w.r.Intn(8)]
		case 2:
			return x
		}
		return x + seps[w.r.Intn(8)] + y
	}
	return string(t)
}

// pieces: the parts of a value, and parts of them
func (w *world) pieces(o O) []string {
	res := []string{"x"}
	for _, t := range []B{o.ID, o.SS, o.R, o.Q, o.F, o.Scim.Nm, o.Scim.Ot} {
		if t == "" {
			continue
		}
		s := string(t)
		res = append(res, s, variantPart(s, w.r))
		if i := strings.IndexAny(s, ":-/"); i > 0 {
			res = append(res, s[:i], s[i+1:])
		}
		if i := strings.LastIndexAny(s, ":-/"); i > 0 {
			res = append(res, s[:i], s[i+1:])
		}
		if len(s) > 1 {
			k := 1 + w.r.Intn(len(s)-1)
			res = append(res, s[:k], s[k:])
		}
	}
	return res
}

// relatedText is a text made of pieces of one of the values
func (w *world) relatedText(mode string) string {
	slot := slotNames[w.r.Intn(7)]
	if w.r.Intn(2) == 0 {
		slot = map[string]string{"2141": "u", "8141": "e", "7643": "s"}[mode]
	}
	p := w.pieces(w.proj[slot])
	if len(p) == 1 {
		return w.gen.text(mode, w.r)
	}
	any := func() string { return p[w.r.Intn(len(p))] }
	id := any()
	if w.r.Intn(3) == 0 {
		id += "-" + any()
	}
	if len(id) < 2 {
		id += "b"
	}
	if len(id) > 31 {
		id = id[:31]
	}
	ss := any()
	if w.r.Intn(4) == 0 {
		ss += ":" + any()
	}
	pre := []string{"urn:", "URN:", "uRn:"}[w.r.Intn(3)]
	switch mode {
	case "7643":
		name := strings.Map(func(c rune) rune {
			if strings.ContainsRune(alnums, c) {
				return c
			}
			return -1
		}, id)
		t := pre + "ietf:params:scim:" + []string{"api", "param", "schemas"}[w.r.Intn(3)] + ":" + name
		if w.r.Intn(2) == 0 {
			t += ":" + ss
		}
		return t
	case "8141":
		t := pre + id + ":" + ss
		for _, sep := range []string{"?+", "?=", "#"} {
			if w.r.Intn(2) == 0 {
				t += sep + any()
			}
		}
		return t
	}
	return pre + id + ":" + ss
}

func (w *world) odd() (string, bool) {
	if in(prop, "C13", "C17", "C21", "C22") && w.r.Intn(4) == 0 {
		if prop != "C21" || w.r.Intn(2) == 0 {
			return w.related(), true
		}
		return oddParts[w.r.Intn(len(oddParts))], true
	}
	return "", false
}

func (w *world) anyID() string {
	if t, ok := w.odd(); ok {
		return t
	}
	if w.r.Intn(3) > 0 {
		return someIDs[w.r.Intn(len(someIDs))]
	}
	if u := w.ptr(w.anySource()); u != nil && u.ID != "" {
		return variantPart(u.ID, w.r)
	}
	n := 1 + w.r.Intn(31)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, "abzABZ019-"[w.r.Intn(10)])
	}
	return string(b)
}

func variantPart(t string, r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return t
	}
	return map[bool]string{true: strings.ToUpper(t), false: strings.ToLower(t)}[r.Intn(2) == 0]
}

func (w *world) anySS() string {
	if t, ok := w.odd(); ok {
		return t
	}
	switch w.r.Intn(4) {
	case 0, 1:
		return someSSs[w.r.Intn(len(someSSs))]
	case 2:
		if u := w.ptr(w.anySource()); u != nil && u.SS != "" {
			return variantPart(u.SS, w.r)
		}
	}
	return w.randomSS(1 + w.r.Intn([]int{4, 12, 60}[w.r.Intn(3)]))
}

const alnums = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (w *world) randomSS(n int) string {
	var b []byte
	pct := w.r.Intn(6)
	for i := 0; i < n; i++ {
		if w.r.Intn(6) < pct {
			b = append(b, '%', alnums[w.r.Intn(62)], alnums[w.r.Intn(62)])
		} else if w.r.Intn(2) == 0 {
			b = append(b, alnums[w.r.Intn(62)])
		} else {
			b = append(b, "()+,-.:=@;$_!*'~&/"[w.r.Intn(18)])
		}
	}
	return string(b)
}

// ---------------------------------------------------------------- histories

type weight struct {
	op string
	n  int
}

var historyOps = map[string][]weight{
	"C05": {{"new", 2}, {"mode", 3}, {"parse", 9}, {"pparse", 3}},
	"C07": {{"pparse", 4}, {"compose", 2}, {"setid", 2}, {"setss", 2}, {"copy", 1}, {"norm", 8}, {"unm", 2}, {"parse", 1}},
	"C08": {{"pparse", 4}, {"compose", 3}, {"setid", 2}, {"setss", 2}, {"copy", 1}, {"norm", 3}, {"unm", 2}, {"equal", 10}, {"parse", 1}},
	"C09": {{"new", 2}, {"mode", 5}, {"parse", 14}, {"scribble", 1}},
	"C10": {{"new", 1}, {"mode", 1}, {"parse", 5}, {"pparse", 5}, {"scribble", 5}, {"unm", 2}},
	"C11": {{"unm", 8}, {"marshal", 6}, {"pparse", 3}, {"put", 3}, {"compose", 1}, {"read", 2}, {"norm", 1}},
	"C12": {{"unm", 10}, {"put", 3}, {"copy", 3}, {"take", 2}, {"setid", 1}, {"setss", 1}, {"norm", 1}, {"pparse", 3}},
	"C13": {{"pparse", 4}, {"put", 3}, {"setid", 1}, {"setview", 1}, {"compose", 1}, {"norm", 4}, {"unm", 3}, {"copy", 1}, {"parse", 2}, {"mode", 1}, {"setss", 1}},
	"C22": {{"put", 2}, {"pparse", 6}, {"parse", 4}, {"mode", 1}, {"new", 1}, {"compose", 1}, {"norm", 2}, {"copy", 2}, {"take", 1}, {"setid", 3}, {"setss", 3}, {"setview", 5}, {"unm", 5}, {"scribble", 1}, {"read", 1}, {"equal", 1}},
	"C21": {{"put", 2}, {"pparse", 4}, {"compose", 4}, {"setid", 3}, {"setss", 3}, {"copy", 2}, {"norm", 3}, {"unm", 3}, {"read", 1}, {"parse", 1}, {"mode", 1}, {"take", 1}},
	"C17": {{"put", 2}, {"setview", 2}, {"pparse", 4}, {"compose", 1}, {"setid", 2}, {"setss", 2}, {"copy", 2}, {"norm", 4}, {"unm", 2}, {"equal", 4}, {"read", 8}, {"parse", 1}, {"marshal", 1}},
}

func (w *world) step(op string) {
	m := []string{"m", "n"}[w.r.Intn(2)]
	switch op {
	case "new":
		w.opNew(m, w.anyOpts())
	case "mode":
		w.opMode(m, w.anyMode())
	case "parse":
		w.opParse(m, w.anyText(), w.anyCell())
	case "pparse":
		w.opPParse(w.anyOpts(), w.anyText(), w.anyCell())
	case "scribble":
		w.opScribble()
	case "norm":
		w.opNorm(w.anySource(), w.anyCell())
	case "equal":
		x := w.anySource()
		if w.r.Intn(12) == 0 {
			x = "nil"
		}
		w.opEqual(w.anySource(), x)
	case "compose":
		w.opCompose(w.anyID(), w.anySS(), w.anyCell())
	case "setid":
		w.opSetID(w.anySource(), w.anyID())
	case "setss":
		w.opSetSS(w.anySource(), w.anySS())
	case "copy":
		w.opCopy(w.anySource(), w.anyCell())
	case "setview":
		nm, ot := someIDs[w.r.Intn(len(someIDs))], someSSs[w.r.Intn(len(someSSs))]
		if w.r.Intn(4) == 0 {
			nm = w.related()
		}
		if w.r.Intn(4) == 0 {
			ot = w.related()
		}
		w.opSetView(w.anySource(), []string{"schemas", "api", "param", "unsupported"}[w.r.Intn(4)], nm, ot)
	case "take":
		w.opTake(w.anyCell())
	case "put":
		w.opPut(w.anySource(), slotNames[4+w.r.Intn(3)])
	case "read":
		w.opRead(w.anySource())
	case "unm":
		d := slotNames[4+w.r.Intn(3)]
		w.opUnm(d, w.anyJSON(d))
	case "marshal":
		s := slotNames[w.r.Intn(7)]
		w.opMarshal(s)
	}
}

// histories runs random histories of the property's calls
func histories(gen *generator, n int) {
	ops := historyOps[prop]
	total := 0
	for _, o := range ops {
		total += o.n
	}
	parallel(workers, func(wk int, b *beat) {
		for i := wk; i < n; i += workers {
			if rep.tooMany() {
				return
			}
			r := rand.New(rand.NewSource(seed*7919 + int64(i)))
			w := newWorld(gen, b, r)
			length := []int{4, 8, 14, 25, 40}[r.Intn(5)]
			if i%400 == 0 {
				length = 300
			}
			for len(w.evs) < length && w.bad == "" {
				k := r.Intn(total)
				for _, o := range ops {
					if k < o.n {
						w.step(o.op)
						break
					}
					k -= o.n
				}
			}
			w.report()
			rep.add("history_calls", int64(len(w.evs)-1))
			rep.add("histories", 1)
			w.keepTrace(fmt.Sprint("h", length))
		}
	})
}

// keepTrace keeps the history for TLC, now and then
func (w *world) keepTrace(key string) {
	size := 0
	for _, e := range w.evs {
		size += len(e.T) + len(e.Json)
	}
	if w.bad == "" && len(w.evs) > 1 && size < 200*len(w.evs) && trace.wantN(key, pick(30, 200)) {
		trace.put(w.evs...)
		rep.add("traces_kept", 1)
		if len(w.evs) < 12 {
			rep.sample(describe(w.evs))
		}
	}
}

// describe writes a history for people
func describe(evs []*Event) []string {
	var res []string
	for _, e := range evs {
		s := e.Op
		switch e.Op {
		case "reset":
			continue
		case "new":
			s = fmt.Sprintf("%s := NewMachine(%s)", e.M, strings.Join(e.Opts, ", "))
		case "mode":
			s = fmt.Sprintf("%s.WithParsingMode(%s)", e.M, e.X)
		case "parse":
			s = fmt.Sprintf("%s = %s.Parse(%q) -> %s %s", e.D, e.M, string(e.T), e.Res, e.Err)
		case "pparse":
			s = fmt.Sprintf("%s = Parse(%q, %s) -> %s %s", e.D, string(e.T), strings.Join(e.Opts, ", "), e.Res, e.Err)
		case "norm":
			s = fmt.Sprintf("%s = %s.Normalize() -> %s", e.D, e.S, string(e.V.Str))
		case "equal":
			s = fmt.Sprintf("%s.Equal(%s) -> %v", e.S, e.X, e.Bool)
		case "make":
			s = fmt.Sprintf("%s: %s from %s -> ID %q SS %q", e.How, e.D, e.S, string(e.V.ID), string(e.V.SS))
		case "read":
			s = fmt.Sprintf("read all of %s", e.S)
		case "unm":
			s = fmt.Sprintf("unmarshal %s into %s (%s) -> ok=%v", string(e.Json), e.D, e.Ty, e.Ok)
		case "marshal":
			s = fmt.Sprintf("marshal %s -> %s", e.Ty, string(e.Json))
		case "snake", "rmc":
			s = fmt.Sprintf("%s %q -> %q", e.Op, string(e.T), string(e.Out))
		}
		res = append(res, s)
	}
	return res
}

var _ = scimschema.API
