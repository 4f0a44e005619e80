package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
)

// Conformance of the parser: every stream of inputs, judged against the
// exported control graph, one property at a time.

// collector keeps recorded events for validation by TLC, spread over what the
// specification tells apart
type collector struct {
	sync.Mutex
	per   map[string]int
	evs   []*Event
	max   int
	quota int
}

var trace = &collector{per: map[string]int{}, max: maxTrace, quota: 12}

// what TLC validates of one run, at most
const maxTrace = 12000

// share lets the next stage keep one part in n of what TLC takes
func (c *collector) share(n int) {
	c.Lock()
	c.max = len(c.evs) + (maxTrace-len(c.evs))/n
	c.Unlock()
}

func (c *collector) want(key string) bool { return c.wantN(key, c.quota) }

func (c *collector) wantN(key string, quota int) bool {
	c.Lock()
	defer c.Unlock()
	if len(c.evs) >= c.max || c.per[key] >= quota {
		return false
	}
	c.per[key]++
	return true
}

func (c *collector) put(evs ...*Event) {
	c.Lock()
	c.evs = append(c.evs, evs...)
	c.Unlock()
}

func parseEvent(mode, in string, p P) *Event {
	e := &Event{Op: "pparse", Opts: []string{mode}, T: B(in), D: "a", Res: p.Res, Err: p.Err, V: p.V, Fresh: noneP, Again: noneP, OkFlag: p.Res == "urn"}
	if p.Res == "urn" {
		e.Delta = []Change{{"a", p.V}}
	}
	return e
}

// usedMachine: a machine and what it parsed
type usedMachine struct {
	m      urn.Machine
	mode   string
	opts   []string
	before []string
	size   int
}

// single: a one-event history
func single(e *Event) []*Event { return []*Event{{Op: "reset"}, e} }

func sameSplit(mode string, p P, o outcome) string {
	v := &p.V
	switch {
	case string(v.ID) != o.id:
		return fmt.Sprintf("ID is %q, not %q", v.ID, o.id)
	case string(v.SS) != o.ss:
		return fmt.Sprintf("SS is %q, not %q", v.SS, o.ss)
	case string(v.R) != o.r:
		return fmt.Sprintf("r-component is %q, not %q", v.R, o.r)
	case string(v.Q) != o.q:
		return fmt.Sprintf("q-component is %q, not %q", v.Q, o.q)
	case string(v.F) != o.f:
		return fmt.Sprintf("f-component is %q, not %q", v.F, o.f)
	}
	if mode == "7643" {
		s := v.Scim
		switch {
		case s.Nil:
			return "no SCIM view"
		case s.Ty != o.ty:
			return fmt.Sprintf("SCIM type is %s, not %s", s.Ty, o.ty)
		case string(s.Nm) != o.nm:
			return fmt.Sprintf("SCIM name is %q, not %q", s.Nm, o.nm)
		case string(s.Ot) != o.ot:
			return fmt.Sprintf("SCIM rest is %q, not %q", s.Ot, o.ot)
		}
	}
	return ""
}

// key by which traces are spread
func traceKey(mode string, o outcome, in string) string {
	l := len(in)
	switch {
	case l > 400:
		l = 400
	case l > 60:
		l = 60
	case l > 30:
		l = 30
	default:
		l = 0
	}
	return fmt.Sprint(mode, o.ok, o.err, o.endState, l)
}

// ---------------------------------------------------------------- C01 C02 C03 C05 C06 C13 C04

func checkParse(gen *generator, modes []string) {
	var total, accepted, rejected, judged, reused int64
	stateHit := map[string][]int64{}
	for _, m := range modes {
		stateHit[m] = make([]int64, len(gen.sp.graphs[m].states))
	}
	budget := pick(1500000, 40000000)
	if prop == "C05" || prop == "C04" || prop == "C13" || prop == "C06" {
		budget = pick(800000, 20000000)
	}
	// what else selects each mode
	alias := map[string][][]string{
		"2141": {{"2141"}, {}, {"default"}, {"other"}, {"8141", "2141"}, {"7643", "default"}},
		"7643": {{"7643"}, {"2141", "7643"}},
		"8141": {{"8141"}, {"default", "8141"}},
	}
	parallel(workers, func(w int, b *beat) {
		for _, mode := range modes {
			g := gen.sp.graphs[mode]
			als := alias[mode]
			n := 0
			var used usedMachine
			gen.all(mode, w, budget, func(in string) {
				if rep.tooMany() {
					return
				}
				n++
				opts := als[0]
				if n%7 == 0 {
					opts = als[(n/7)%len(als)]
				}
				o := g.run(in)
				p := b.parseOpts(opts, in)
				atomic.AddInt64(&stateHit[mode][o.endState], 1)
				atomic.AddInt64(&total, 1)
				if p.Res == "urn" {
					atomic.AddInt64(&accepted, 1)
				} else {
					atomic.AddInt64(&rejected, 1)
				}
				bad := ""
				relevant := true
				var ev *Event
				// what the property says of one outcome
				says := func(p P) (bad string) {
					switch prop {
					case "C01", "C02", "C03":
						if (p.Res == "urn") != o.ok {
							if o.ok {
								return fmt.Sprintf("not accepted in mode %s (%s %s)", mode, p.Res, p.Err)
							}
							return fmt.Sprintf("accepted in mode %s", mode)
						} else if o.ok {
							return sameSplit(mode, p, o)
						}
					case "C06":
						if p.Res == "err" && !o.ok {
							if want := gen.sp.errString(o); p.Err != want {
								return fmt.Sprintf("error is %q, not %q", p.Err, want)
							}
						}
					case "C13":
						if p.Res == "urn" {
							return kindBad(mode, p.V)
						}
					case "C04":
						if p.Res == "urn" {
							if want := strings.TrimSuffix(in, "#"); string(p.V.Str) != want {
								return fmt.Sprintf("string form is %q", p.V.Str)
							}
						}
					}
					return ""
				}
				bad = says(p)
				switch prop {
				case "C06":
					relevant = p.Res == "err" && !o.ok
				case "C13":
					relevant = p.Res == "urn"
				case "C05":
					if p.Res != "urn" && p.Res != "err" {
						bad = "neither exactly a URN nor exactly an error: " + p.Res + " " + p.Err
					} else {
						ok := false
						b.enter(mode, in)
						var u *urn.URN
						msg := try(func() { u, ok = urn.Parse([]byte(in), options(opts, nil)...) })
						b.leave()
						if msg != "" || ok != (p.Res == "urn") || ok != (u != nil) {
							bad = "package-level Parse disagrees with the machine " + msg
							ev = parseEvent(mode, in, p)
							ev.Opts, ev.OkFlag = opts, ok
							if u == nil && ok {
								ev.Res = "nil"
							} else if u != nil && !ok {
								ev.OkFlag = false
								ev.Res = "urn"
							}
							if msg != "" {
								ev.Res = "panic"
							}
						} else if u != nil {
							if v := project(u); v != p.V {
								bad = "package-level Parse yields another URN than the machine"
							}
						}
					}
				case "C04":
					relevant = p.Res == "urn"
					if relevant {
						again := b.parse(mode, string(p.V.Str))
						if bad == "" && (again.Res != "urn" || again.V != p.V) {
							bad = "the string form does not parse to the same URN again"
						}
						ev = parseEvent(mode, in, p)
						ev.Again = again
					}
				}
				// the same on a machine that was used before
				if n%3 == 0 && len(in) <= 400 && prop != "C05" {
					if used.m == nil || len(used.before) >= 24 || used.size > 900 || used.mode != mode {
						used = usedMachine{m: urn.NewMachine(options(opts, nil)...), opts: opts, mode: mode}
					}
					var u *urn.URN
					var err error
					b.enter(mode, in)
					msg := try(func() { u, err = used.m.Parse([]byte(in)) })
					p2 := observe(u, err, msg)
					b.leave()
					if bad2 := says(p2); bad2 != "" && bad == "" {
						wd := newWorld(gen, b, rand.New(rand.NewSource(seed)))
						wd.opNew("m", used.opts)
						for _, t := range used.before {
							wd.opParse("m", t, "b")
						}
						wd.opParse("m", in, "a")
						rep.suspect(kindOfBad(bad2)+", on a machine used before", mode, in, wd.evs)
						used.m = nil
						return
					}
					used.before = append(used.before, in)
					used.size += len(in)
					atomic.AddInt64(&reused, 1)
				}
				if !relevant {
					return
				}
				atomic.AddInt64(&judged, 1)
				if bad == "" && len(in) > 1200 {
					return
				}
				if bad != "" {
					if ev == nil {
						ev = parseEvent(mode, in, p)
						ev.Opts = opts
					}
					rep.suspect(kindOfBad(bad), mode, in, single(ev))
					return
				}
				if (n%13 == 0 || o.ok) && trace.want(traceKey(mode, o, in)) {
					if ev == nil {
						ev = parseEvent(mode, in, p)
						ev.Opts = opts
					}
					trace.put(ev)
					if o.ok && len(in) < 60 {
						rep.sample(map[string]interface{}{"mode": mode, "input": in, "result": p.Res, "string": string(p.V.Str), "err": p.Err})
					}
				}
			})
		}
	})
	rep.add("parses", total)
	rep.add("accepted", accepted)
	rep.add("rejected", rejected)
	rep.add("judged", judged)
	rep.add("parses_on_used_machines", reused)
	for _, m := range modes {
		var n int64
		for _, h := range stateHit[m] {
			if h > 0 {
				n++
			}
		}
		rep.add("control_states_exercised_"+m, n)
	}
}

// kindOfBad groups deviations
func kindOfBad(s string) string {
	if i := strings.IndexAny(s, "\"("); i > 0 {
		return s[:i]
	}
	return s
}

func kindBad(mode string, v O) string {
	want := map[string]string{"2141": "RFC2141", "7643": "RFC7643", "8141": "RFC8141"}[mode]
	switch {
	case v.Kind != want:
		return "kind is " + v.Kind + ", not " + want
	case v.IsSCIM != (mode == "7643"):
		return "IsSCIM is wrong"
	case v.Scim.Nil != (mode != "7643"):
		return "SCIM view present or absent wrongly"
	}
	if mode == "7643" {
		c := "urn:ietf:params:scim:" + string(v.SS)
		d := "urn:ietf:params:scim:" + v.Scim.Ty + ":" + string(v.Scim.Nm)
		if v.Scim.Ot != "" {
			d += ":" + string(v.Scim.Ot)
		}
		if string(v.Scim.Canon) != c || c != d {
			return "canonical SCIM string does not fit the URN"
		}
	}
	return ""
}
