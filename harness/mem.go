package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"

	urn "github.com/leodido/go-urn"
)

// C10: inputs in read-only memory, with pages that cannot be touched on both
// sides.  A write, be it undone at once, is a fault; so is reading beyond.

type arena struct {
	all  []byte // with the guard pages
	mem  []byte
	page int
}

func newArena(pages int) *arena {
	pg := os.Getpagesize()
	all, err := syscall.Mmap(-1, 0, (pages+2)*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	must(syscall.Mprotect(all[:pg], syscall.PROT_NONE))
	must(syscall.Mprotect(all[len(all)-pg:], syscall.PROT_NONE))
	return &arena{all: all, mem: all[pg : len(all)-pg], page: pg}
}

func (a *arena) protect(readonly bool) {
	p := syscall.PROT_READ
	if !readonly {
		p |= syscall.PROT_WRITE
	}
	must(syscall.Mprotect(a.mem, p))
}

// faulty runs f and says whether it hit protected memory
func faulty(f func()) (fault bool, msg string) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
			if _, ok := r.(interface{ Addr() uintptr }); ok {
				fault = true
			}
		}
	}()
	f()
	return false, ""
}

type kept struct {
	mode, text string
	at, n      int
	u          *urn.URN
	err        error
	was        O
}

func keptO(u *urn.URN, err error) (o O) {
	if msg := try(func() {
		o = projectN(u)
		if err != nil {
			o.Err = err.Error()
		}
	}); msg != "" {
		return O{Nil: true, Scim: nilSC, Err: msg}
	}
	return o
}

func checkMemory(gen *generator) {
	var parsed, batches, kepts int64
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*43 + int64(wk)))
		ar := newArena(64)
		edge := newArena(40)
		texts := []string{}
		modes := []string{}
		var reused [3]urn.Machine
		for i, m := range modeNames {
			reused[i] = urn.NewMachine(urn.WithParsingMode(modeValue(m, nil)))
		}
		parseAt := func(mode string, in []byte, how int) kept {
			k := kept{mode: mode, text: string(in), n: len(in)}
			b.enter(mode, k.text)
			fault, msg := faulty(func() {
				switch how {
				case 0:
					k.u, k.err = urn.NewMachine(urn.WithParsingMode(modeValue(mode, nil))).Parse(in)
				case 1:
					k.u, _ = urn.Parse(in, urn.WithParsingMode(modeValue(mode, nil)))
				case 2:
					for i, m := range modeNames {
						if m == mode {
							k.u, k.err = reused[i].Parse(in)
						}
					}
				}
			})
			b.leave()
			_ = msg
			if fault {
				e := parseEvent(mode, k.text, P{Res: "panic", Err: msg, V: nilO})
				e.Fault = true
				rep.suspect("parsing touches memory that it must not write (or read)", mode, k.text, single(e))
				k.u, k.err = nil, nil
			}
			k.was = keptO(k.u, k.err)
			atomic.AddInt64(&parsed, 1)
			return k
		}
		later := func(ks []kept) {
			for _, k := range ks {
				now := keptO(k.u, k.err)
				atomic.AddInt64(&kepts, 1)
				if now != k.was {
					e1 := parseEvent(k.mode, k.text, P{Res: "urn", V: k.was})
					if k.was.Nil {
						e1.Res, e1.V = "err", nilO
					}
					e1.Delta = []Change{{"a", k.was}}
					e2 := &Event{Op: "scribble", Delta: []Change{{"a", now}}}
					rep.suspect("overwriting the input changed the result", k.mode, k.text, []*Event{{Op: "reset"}, e1, e2})
				} else if len(k.text) < 200 && trace.want("mem"+traceKey(k.mode, gen.sp.graphs[k.mode].run(k.text), k.text)) {
					e1 := parseEvent(k.mode, k.text, P{Res: "urn", V: k.was})
					if k.was.Nil {
						e1.Res, e1.V, e1.Err = "err", nilO, k.was.Err
					}
					e1.Delta = []Change{{"a", k.was}}
					trace.put(&Event{Op: "reset"}, e1, &Event{Op: "scribble"})
				}
			}
		}
		spoil := func(mem []byte) {
			switch r.Intn(3) {
			case 0:
				r.Read(mem)
			case 1:
				for i := range mem {
					mem[i] ^= 0x21
				}
			case 2:
				for i := range mem {
					mem[i] = "urn:ZZ:%Zz?+#"[i%13]
				}
			}
		}
		// many texts at once, one after the other: the spare capacity behind each
		// is the next one's memory
		flush := func() {
			if len(texts) == 0 {
				return
			}
			ar.protect(false)
			off := 0
			for _, t := range texts {
				copy(ar.mem[off:], t)
				off += len(t)
			}
			ar.protect(true)
			off = 0
			var ks []kept
			for i, t := range texts {
				in := ar.mem[off : off+len(t) : len(ar.mem)]
				if r.Intn(3) == 0 {
					in = ar.mem[off : off+len(t) : off+len(t)]
				}
				ks = append(ks, parseAt(modes[i], in, r.Intn(3)))
				off += len(t)
			}
			ar.protect(false)
			spoil(ar.mem[:off])
			later(ks)
			texts, modes = texts[:0], modes[:0]
			atomic.AddInt64(&batches, 1)
		}
		size := 0
		for _, mode := range modeNames {
			n := 0
			gen.all(mode, wk, pick(200000, 5000000), func(t string) {
				if rep.tooMany() {
					return
				}
				n++
				ok := gen.sp.graphs[mode].run(t).ok
				if !ok && n%4 != 0 {
					return
				}
				if n%16 == 0 && len(t) < len(edge.mem) || len(t) > 60000 && len(t) < len(edge.mem) {
					// right before the forbidden page
					edge.protect(false)
					in := edge.mem[len(edge.mem)-len(t):]
					copy(in, t)
					edge.protect(true)
					ks := []kept{parseAt(mode, in, r.Intn(3))}
					edge.protect(false)
					spoil(in)
					later(ks)
					return
				}
				if len(t) > 60000 {
					return
				}
				if size+len(t) > len(ar.mem) {
					flush()
					size = 0
				}
				texts, modes = append(texts, t), append(modes, mode)
				size += len(t)
			})
		}
		flush()
		// JSON in read-only memory
		for i := 0; i < pick(4000, 100000); i++ {
			mode := modeNames[r.Intn(3)]
			j := jsonText(gen.text(mode, r), r)
			if len(j) > len(edge.mem) {
				continue
			}
			edge.protect(false)
			in := edge.mem[len(edge.mem)-len(j):]
			copy(in, j)
			edge.protect(true)
			var u urn.URN
			var e urn.URN8141
			var s urn.SCIM
			var ty string
			var now func() O
			var err error
			var ok bool
			b.enter("json", string(j))
			fault, _ := faulty(func() {
				switch mode {
				case "2141":
					ty, now = "u", func() O { return projectN(&u) }
					err = u.UnmarshalJSON(in)
				case "8141":
					ty, now = "e", func() O { return projectN(e.URN) }
					err = e.UnmarshalJSON(in)
				case "7643":
					ty, now = "s", func() O { return scimO(&s) }
					err = s.UnmarshalJSON(in)
				}
			})
			b.leave()
			ok = err == nil && !fault
			ev := &Event{Op: "unm", Ty: recvType[ty], D: ty, Json: B(j), After: B(j), Ok: ok, Parsed: noneP, FreshV: nilO, Fault: fault}
			if fault {
				rep.suspect("unmarshalling writes to its input", mode, string(j), single(ev))
				edge.protect(false)
				continue
			}
			ev.After = B(in)
			was := now()
			ev.Delta = []Change{{ty, was}}
			edge.protect(false)
			spoil(in)
			if after := now(); after != was {
				rep.suspect("overwriting the JSON changed the result", mode, string(j),
					[]*Event{{Op: "reset"}, ev, {Op: "scribble", Delta: []Change{{ty, after}}}})
			}
			atomic.AddInt64(&parsed, 1)
		}
	})
	rep.add("parses_in_read_only_memory", parsed)
	rep.add("results_compared_after_overwriting", kepts)
	rep.add("batches", batches)
}

var _ = strings.Repeat
