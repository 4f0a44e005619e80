package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// ---------------------------------------------------------------- plumbing

func must(err error) {
	if err != nil {
		fail(err.Error())
	}
}

// fail: the check itself is broken; never a verdict
func fail(msg string) {
	fmt.Fprintln(os.Stderr, "harness:", msg)
	os.Exit(3)
}

var (
	prop    string // property being judged
	tier    string
	seed    int64
	workers = 8
)

func thorough() bool { return tier == "thorough" }

func pick(quick, deep int) int {
	if thorough() {
		return deep
	}
	return quick
}

// nothing: there was nothing to run, though there is always something
func nothing(what string) {
	if !rep.tooMany() {
		fail(what)
	}
}

// violation: something the real code did that the specification does not allow
type violation struct {
	Property string      `json:"property"`
	What     string      `json:"what"`
	Input    string      `json:"input,omitempty"`
	Mode     string      `json:"mode,omitempty"`
	Detail   interface{} `json:"detail,omitempty"`
	history  []*Event
	long     bool
}

type reporter struct {
	sync.Mutex
	counts  map[string]int64
	vios    []violation
	nvios   int64
	samples []interface{}
	seen    map[string]int
	notes   map[string]string
}

var rep = &reporter{counts: map[string]int64{}, seen: map[string]int{}, notes: map[string]string{}}

func (r *reporter) add(k string, n int64) {
	r.Lock()
	r.counts[k] += n
	r.Unlock()
}

func (r *reporter) sample(x interface{}) {
	r.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, x)
	}
	r.Unlock()
}

func (r *reporter) note(k, s string) {
	r.Lock()
	if len(s) > 3000 {
		s = s[:3000]
	}
	r.notes[k] = s
	r.Unlock()
}

// suspect records a deviation that the in-process oracle (exported from the
// specification) saw; the events go to TLC for the verdict.
func (r *reporter) suspect(what, mode, input string, history []*Event) {
	r.Lock()
	defer r.Unlock()
	r.nvios++
	// keep the shortest few of each kind
	if r.seen[what] >= 4 {
		for i := range r.vios {
			if r.vios[i].What == what && len(r.vios[i].Input) > len(input) && len(history) <= len(r.vios[i].history) {
				r.vios[i] = violation{Property: prop, What: what, Mode: mode, Input: input, history: history}
				return
			}
		}
		return
	}
	r.seen[what]++
	r.vios = append(r.vios, violation{Property: prop, What: what, Mode: mode, Input: input, history: history})
}

func (r *reporter) tooMany() bool { return atomic.LoadInt64(&r.nvios) > 20000 }

// finish writes report, suspects and recorded traces
func (r *reporter) finish(dir string) {
	r.Lock()
	defer r.Unlock()
	sort.Slice(r.vios, func(i, j int) bool {
		a, b := r.vios[i], r.vios[j]
		if len(a.history) != len(b.history) {
			return len(a.history) < len(b.history)
		}
		return len(a.Input) < len(b.Input)
	})
	if len(r.vios) > 12 {
		r.vios = r.vios[:12]
	}
	for i := range r.vios {
		v := &r.vios[i]
		size := 0
		for _, e := range v.history {
			b, err := json.Marshal(e)
			must(err)
			if size += len(b); len(e.T) > 1500 {
				size = 1 << 30
			}
		}
		if len(v.history) > 0 && size < 100000 {
			writeEvents(fmt.Sprintf("%s/suspect%d.ndjson", dir, i), v.history)
			v.Detail = fmt.Sprintf("suspect%d.ndjson", i)
		}
	}
	out := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "counts": r.counts,
		"violations": r.vios, "nviolations": r.nvios, "samples": r.samples, "notes": r.notes, "complete": true}
	b, err := json.Marshal(out)
	must(err)
	must(os.WriteFile(dir+"/report.json", b, 0o644))
}

func writeEvents(path string, evs []*Event) {
	f, err := os.Create(path)
	must(err)
	for _, e := range evs {
		b, err := json.Marshal(e)
		must(err)
		_, err = f.Write(append(b, '\n'))
		must(err)
	}
	must(f.Close())
}

// ---------------------------------------------------------------- watchdog

// Every call into the library happens inside guard; one that does not return
// is found by the monitor.
type beat struct {
	since int64 // unix nano, 0 = outside the library
	mode  atomic.Value
	in    atomic.Value
}

var (
	beats  sync.Map
	outDir string
)

const hangLimit = 40 * time.Second

func watch() {
	begin := time.Now()
	for {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		if time.Since(begin) > time.Duration(pick(420, 2000))*time.Second && atomic.LoadInt64(&rep.nvios) > 0 {
			// enough is known, and the rest takes long
			rep.finish(outDir)
			os.Exit(0)
		}
		beats.Range(func(k, _ interface{}) bool {
			b := k.(*beat)
			s := atomic.LoadInt64(&b.since)
			if s != 0 && now-s > int64(hangLimit) {
				in, _ := b.in.Load().(string)
				mode, _ := b.mode.Load().(string)
				rep.suspect("a call into the library did not return within "+hangLimit.String(), mode, in, nil)
				rep.finish(outDir)
				os.Exit(0)
			}
			return true
		})
	}
}

func newBeat() *beat {
	b := &beat{}
	beats.Store(b, true)
	return b
}

func (b *beat) enter(mode, in string) {
	b.in.Store(in)
	b.mode.Store(mode)
	atomic.StoreInt64(&b.since, time.Now().UnixNano())
}
func (b *beat) leave() { atomic.StoreInt64(&b.since, 0) }

// try runs f and says how it panicked, if it did
func try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
			if os.Getenv("URN_DEBUG") != "" {
				msg += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return ""
}

// ---------------------------------------------------------------- projections

// B is a byte string, written as an array of numbers for TLC
type B string

func (b B) MarshalJSON() ([]byte, error) {
	var s strings.Builder
	s.WriteByte('[')
	for i := 0; i < len(b); i++ {
		if i > 0 {
			s.WriteByte(',')
		}
		fmt.Fprint(&s, b[i])
	}
	s.WriteByte(']')
	return []byte(s.String()), nil
}

// SC is what can be read of a SCIM value
type SC struct {
	Nil   bool   `json:"nil"`
	Ty    string `json:"ty"`
	Nm    B      `json:"nm"`
	Ot    B      `json:"ot"`
	Canon B      `json:"canon"`
}

// O is what can be read of a *URN through the API
type O struct {
	Nil    bool   `json:"nil"`
	ID     B      `json:"id"`
	SS     B      `json:"ss"`
	R      B      `json:"r"`
	Q      B      `json:"q"`
	F      B      `json:"f"`
	Kind   string `json:"kind"`
	IsSCIM bool   `json:"isscim"`
	Scim   SC     `json:"scim"`
	Str    B      `json:"str"`
	Norm   B      `json:"norm"` // text of the normal form (histories only)
	Err    string `json:"err"`  // the error kept in a slot without URN
}

var nilSC = SC{Nil: true}
var nilO = O{Nil: true, Scim: nilSC}

func typeName(t scimschema.Type) string {
	switch t {
	case scimschema.Schemas:
		return "schemas"
	case scimschema.API:
		return "api"
	case scimschema.Param:
		return "param"
	case scimschema.Unsupported:
		return "unsupported"
	}
	return fmt.Sprint("type", int(t))
}

func typeCode(s string) scimschema.Type {
	switch s {
	case "schemas":
		return scimschema.Schemas
	case "api":
		return scimschema.API
	case "param":
		return scimschema.Param
	}
	return scimschema.Unsupported
}

func kindName(k urn.Kind) string {
	switch k {
	case urn.NONE:
		return "NONE"
	case urn.RFC2141:
		return "RFC2141"
	case urn.RFC7643:
		return "RFC7643"
	case urn.RFC8141:
		return "RFC8141"
	}
	return fmt.Sprint("kind", int(k))
}

// Observing must not disturb: everything is read from copies, so that a reading
// operation that writes to its receiver shows up where the history calls it.

func projSCIM(s *urn.SCIM) SC {
	if s == nil {
		return nilSC
	}
	c := *s
	return SC{Ty: typeName(s.Type), Nm: given("value", s.Name), Ot: given("value", s.Other), Canon: given("canon", c.String())}
}

func project(u *urn.URN) O {
	if u == nil {
		return nilO
	}
	c1, c2, c3, c4, c5, c6, c7 := *u, *u, *u, *u, *u, *u, *u
	return O{ID: given("value", u.ID), SS: given("value", u.SS), R: given("value", c1.RComponent()),
		Q: given("value", c2.QComponent()), F: given("value", c3.FComponent()), Kind: kindName(c4.RFC()),
		IsSCIM: c5.IsSCIM(), Scim: projSCIM(c6.SCIM()), Str: given("str", c7.String())}
}

// projectN also reads the normal form
func projectN(u *urn.URN) O {
	o := project(u)
	if u != nil {
		c := *u
		n := c.Normalize()
		o.Norm = given("str", n.String())
		given("norm", n.ID)
		given("norm", n.SS)
	}
	return o
}

// ---------------------------------------------------------------- modes

// option names of the specification, and what stands for them
func modeValue(x string, r *rand.Rand) urn.ParsingMode {
	switch x {
	case "2141":
		return urn.RFC2141Only
	case "7643":
		return urn.RFC7643Only
	case "8141":
		return urn.RFC8141Only
	case "default":
		return urn.Default
	}
	vals := []urn.ParsingMode{-1, 4, 5, 17, 255, 1 << 20, -7}
	if r == nil {
		return vals[0]
	}
	return vals[r.Intn(len(vals))]
}

func modeOf(x string) string {
	if x == "7643" || x == "8141" {
		return x
	}
	return "2141"
}

func lastMode(opts []string) string {
	if len(opts) == 0 {
		return "2141"
	}
	return modeOf(opts[len(opts)-1])
}

func options(opts []string, r *rand.Rand) []urn.Option {
	var res []urn.Option
	for _, o := range opts {
		res = append(res, urn.WithParsingMode(modeValue(o, r)))
	}
	return res
}

// ---------------------------------------------------------------- outcomes

// P is an observed outcome of a parse
type P struct {
	Res string `json:"res"` // urn, err, nil, both, panic; none = not done
	Err string `json:"err"`
	V   O      `json:"v"`
	u   *urn.URN
}

var noneP = P{Res: "none", V: nilO}

func observe(u *urn.URN, err error, panicked string) P { return observeBy(project, u, err, panicked) }

func observeBy(project func(*urn.URN) O, u *urn.URN, err error, panicked string) (p P) {
	defer func() {
		if r := recover(); r != nil {
			p = P{Res: "panic", Err: fmt.Sprint("reading the error: ", r), V: nilO}
		}
	}()
	switch {
	case panicked != "":
		return P{Res: "panic", Err: panicked, V: nilO}
	case u != nil && err == nil:
		p := P{Res: "urn", u: u}
		if msg := try(func() { p.V = project(u) }); msg != "" {
			return P{Res: "panic", Err: "reading the result: " + msg, V: nilO}
		}
		return p
	case u == nil && err != nil:
		return P{Res: "err", Err: strings.Clone(err.Error()), V: nilO}
	case u == nil:
		return P{Res: "nil", V: nilO}
	}
	return P{Res: "both", Err: err.Error(), V: nilO}
}

// parse with a new machine in the given mode
func (b *beat) parse(mode, in string) P { return b.parseOpts([]string{mode}, in) }

func (b *beat) parseOpts(opts []string, in string) P {
	if in == "" && len(opts)%2 == 1 {
		return b.parseBytes(opts, nil)
	}
	return b.parseBytes(opts, []byte(in))
}

func (b *beat) parseBytes(opts []string, in []byte) P {
	var u *urn.URN
	var err error
	b.enter(strings.Join(opts, ","), string(in))
	msg := try(func() { u, err = urn.NewMachine(options(opts, nil)...).Parse(in) })
	p := observe(u, err, msg)
	b.leave()
	return p
}

// parallel runs f in as many goroutines as there are workers
func parallel(n int, f func(w int, b *beat)) {
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			b := newBeat()
			defer beats.Delete(b)
			f(w, b)
		}(w)
	}
	wg.Wait()
}

func init() {
	if n := runtime.NumCPU(); n < workers {
		workers = n
	}
}
