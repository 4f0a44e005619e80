package main

import (
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// What the library gave as a string is a value like any other: it stays as it
// was. Projections hold copies, so that memory which the library uses again
// shows as a change; and some of the strings themselves are held, without the
// URN they are of, and read again later.

type handed struct {
	what     string
	raw, was string
}

const givenSlots = 1 << 13

var (
	handedOut [givenSlots]atomic.Pointer[handed]
	givenOn   = map[string][]string{
		"str": {"C21", "C17", "C22"}, "norm": {"C07", "C17", "C22"}, "value": {"C09", "C22", "C17"}, "canon": {"C16", "C22", "C17"},
		"json": {"C11", "C17", "C22"}, "view": {"C22", "C17"}, "error": {"C09", "C22"},
	}
	givenFor = map[string]bool{}
	nHeld    int64
)

func givenInit() {
	for what, ps := range givenOn {
		givenFor[what] = in(prop, ps...)
	}
}

// given copies a string that the library gave, and now and then holds it
func given(what, raw string) B {
	if raw == "" {
		return ""
	}
	was := strings.Clone(raw)
	if givenFor[what] {
		// the place of the copy in memory is as good as a die
		p := *(*uintptr)(unsafe.Pointer(&was))
		h := uint64(p)>>3*0x9E3779B97F4A7C15 + uint64(len(raw))
		h ^= h >> 29
		if h%8 == 0 && len(raw) < 1<<14 {
			atomic.AddInt64(&nHeld, 1)
			if old := handedOut[(h>>8)%givenSlots].Swap(&handed{what, raw, was}); old != nil {
				old.check()
			}
		}
	}
	return B(was)
}

func (h *handed) check() {
	now := strings.Clone(h.raw)
	if now == h.was {
		return
	}
	rep.suspect("what the library gave changed later ("+h.what, "", h.was, single(&Event{Op: "given", Ty: h.what, T: B(h.was), Out: B(now)}))
}

// readGivenAgain reads all that is held
func readGivenAgain() {
	runtime.GC()
	time.Sleep(20 * time.Millisecond)
	for i := range handedOut {
		if h := handedOut[i].Load(); h != nil {
			h.check()
		}
	}
	if nHeld > 0 {
		rep.add("strings_held_and_read_again", nHeld)
	}
}
