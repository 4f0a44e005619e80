package main

import (
	"encoding/json"
	"math/rand"
	"sync"
	"sync/atomic"
)

// Behaviours that TLC generated from spec/Library.tla, replayed in the code.

type call struct {
	Op   string
	M    string
	X    string
	S, D string
	Opts []string
	T    int
	ID   bs `json:"id"`
	SS   bs `json:"ss"`
	Ty   string
	K    int
	B, C int    // buffer, content
	W    [2]int // window, from 1
}

type specSC struct {
	Nil   bool
	Ty    string
	Nm    bs
	Ot    bs
	Canon bs
}

type specO struct {
	Nil    bool
	ID     bs
	SS     bs
	R      bs
	Q      bs
	F      bs
	Kind   string
	IsSCIM bool
	Scim   specSC
	Str    bs
	Norm   bs
}

func (s specO) o() O {
	if s.Nil {
		return nilO
	}
	sc := nilSC
	if !s.Scim.Nil {
		sc = s.Scim.sc()
	}
	return O{ID: B(s.ID), SS: B(s.SS), R: B(s.R), Q: B(s.Q), F: B(s.F), Kind: s.Kind, IsSCIM: s.IsSCIM, Scim: sc, Str: B(s.Str), Norm: B(s.Norm)}
}

func (s specSC) sc() SC { return SC{Ty: s.Ty, Nm: B(s.Nm), Ot: B(s.Ot), Canon: B(s.Canon)} }

type behaviour struct {
	Hist []call
	Vals map[string]specO
	Mach map[string]struct {
		Nil bool
		Err string
	}
	Recv struct {
		URN, URN8141 specO
		SCIM         specSC
	}
}

var slotOf = map[string]string{"s1": "a", "s2": "b", "s3": "c"}
var machOf = map[string]string{"m1": "m", "m2": "n"}
var recvOf = map[string]string{"URN": "u", "URN8141": "e", "SCIM": "s"}

func (w *world) do(c call, texts []bs) { w.doIn(c, texts, slotOf, machOf) }

func (w *world) doIn(c call, texts []bs, slotOf, machOf map[string]string) {
	switch c.Op {
	case "new":
		w.opNew(machOf[c.M], c.Opts)
	case "mode":
		w.opMode(machOf[c.M], c.X)
	case "parse":
		w.opParse(machOf[c.M], string(texts[c.T-1]), slotOf[c.S])
	case "pparse":
		w.opPParse(c.Opts, string(texts[c.T-1]), slotOf[c.S])
	case "norm":
		w.opNorm(slotOf[c.S], slotOf[c.D])
	case "compose":
		w.opCompose(string(c.ID), string(c.SS), slotOf[c.D])
	case "setid":
		w.opSetID(slotOf[c.S], string(c.ID))
	case "setss":
		w.opSetSS(slotOf[c.S], string(c.SS))
	case "setview":
		w.opSetView(slotOf[c.S], c.Ty, string(c.ID), string(c.SS))
	case "copy":
		w.opCopy(slotOf[c.S], slotOf[c.D])
	case "equal":
		w.opEqual(slotOf[c.S], slotOf[c.X])
	case "read":
		w.opRead(slotOf[c.S])
	case "unm":
		w.opUnm(recvOf[c.Ty], jsonText(string(texts[c.T-1]), w.r))
	case "unmbad":
		w.opUnm(recvOf[c.Ty], []byte(badJSON[c.K-1]))
	case "take":
		if c.Ty == "URN8141" {
			w.opTake(slotOf[c.D])
		} else {
			w.opCopy("u", slotOf[c.D])
		}
	case "put":
		w.opPut(slotOf[c.S], recvOf[c.Ty])
	case "marshal":
		w.opMarshal(recvOf[c.Ty])
	case "fill":
		w.opFill(c.B-1, string(texts[c.C-1]))
	case "bparse":
		w.opMode(machOf[c.M], c.X)
		w.within(c.B-1, c.W, texts, func(t string) { w.opParse(machOf[c.M], t, slotOf[c.S]) })
	case "bpparse":
		w.within(c.B-1, c.W, texts, func(t string) { w.opPParse(c.Opts, t, slotOf[c.S]) })
	case "bunm":
		w.within(c.B-1, [2]int{1, len(texts[0])}, texts, func(t string) { w.opUnm(recvOf[c.Ty], []byte(t)) })
	default:
		fail("unknown call " + c.Op)
	}
}

func replay(gen *generator, path string) {
	var texts []bs
	tlcLines(path, "TEXTS", func(s string) { must(json.Unmarshal([]byte(s), &texts)) })
	if texts == nil {
		nothing("no behaviours in " + path)
	}
	lines := make(chan string, 256)
	var n, apart int64
	var once sync.Once
	go func() {
		tlcLines(path, "STEP", func(s string) { lines <- s })
		close(lines)
	}()
	parallel(workers, func(wk int, b *beat) {
		for s := range lines {
			var h behaviour
			must(json.Unmarshal([]byte(s), &h))
			k := atomic.AddInt64(&n, 1)
			if rep.tooMany() {
				continue
			}
			w := newWorld(gen, b, rand.New(rand.NewSource(seed+k)))
			if prop == "C10" {
				w.fixed(texts)
			}
			for _, c := range h.Hist {
				if w.bad == "" {
					w.do(c, texts)
				}
			}
			w.report()
			if w.bad == "" {
				if d := w.apart(&h); d != "" {
					atomic.AddInt64(&apart, 1)
					once.Do(func() { rep.note("behaviour_mismatch", d+" "+s) })
				}
			}
			rep.add("replayed_calls", int64(len(h.Hist)))
			if k%17 == 0 || len(h.Hist) >= 3 {
				w.keepTrace("replay" + h.Hist[len(h.Hist)-1].Op)
			}
		}
	})
	rep.add("behaviours_replayed", n)
	rep.add("behaviours_apart_for_other_properties", apart)
}

// apart compares where the behaviour ends with where the code ends: everything
// there is to read.  A difference that the property did not object to belongs
// to another property.
func (w *world) apart(h *behaviour) string {
	for s, v := range h.Vals {
		o := w.proj[slotOf[s]]
		o.Err = ""
		if o != v.o() {
			return "slot " + s
		}
	}
	for m, v := range h.Mach {
		e := w.me[mix(machOf[m])]
		if v.Err != "" && e != "="+v.Err || v.Err == "" && e != "" {
			return "machine " + m
		}
	}
	if w.proj["u"] != h.Recv.URN.o() {
		return "URN receiver"
	}
	if w.proj["e"] != h.Recv.URN8141.o() {
		return "URN8141 receiver"
	}
	if w.proj["s"].Scim != h.Recv.SCIM.sc() {
		return "SCIM receiver"
	}
	return ""
}

// ---------------------------------------------------------------- buffers of the caller (spec/Buffers.tla)

func (w *world) fixed(texts []bs) {
	if w.fix[0] == nil {
		for i := range w.fix {
			w.fix[i] = append(make([]byte, 0, len(texts[i])+9), texts[i]...)
		}
	}
}

func (w *world) opFill(b int, text string) {
	copy(w.fix[b], text)
	w.commit(&Event{Op: "scribble"})
}

// within parses from a window of a buffer, whose spare capacity is the rest of it
func (w *world) within(b int, win [2]int, texts []bs, f func(string)) {
	w.win = w.fix[b][win[0]-1 : win[1]]
	f(string(w.win))
	w.win = nil
}
