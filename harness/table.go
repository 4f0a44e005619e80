package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

// The control graph of spec/UrnParser.tla as exported by TLC (spec/ParserGraph.tla).
// Nothing here knows what a URN is: the interpreter below only follows the graph and
// performs the register marks it is told to.

const (
	mPreS = iota
	mPreE
	mIdS
	mIdE
	mSsS
	mSsE
	mTyE
	mNmS
	mNmE
	mOtS
	mOtE
	mRS
	mRE
	mQS
	mQE
	mFS
	mFE
	nMarks
)

var markNames = map[string]int{"preS": mPreS, "preE": mPreE, "idS": mIdS, "idE": mIdE, "ssS": mSsS, "ssE": mSsE,
	"tyE": mTyE, "nmS": mNmS, "nmE": mNmE, "otS": mOtS, "otE": mOtE, "rS": mRS, "rE": mRE, "qS": mQS, "qE": mQE, "fS": mFS, "fE": mFE}

type trans struct {
	ok   bool
	to   int
	acts []int
	low  bool
	err  string
	off  int
}

type state struct {
	name  string
	eof   trans
	on    [256]*trans
	group []byteGroup // bytes that do the same
}

type byteGroup struct {
	t     *trans
	bytes []int
}

type graph struct {
	mode   string
	states []*state
	start  int
	access []string   // shortest byte string reaching each state
	back   [][][2]int // per state: its predecessors and a byte
	finish []string   // shortest byte string to acceptance from each state
	canAcc []bool
	wset   []string // characterization set
}

type rawTrans struct {
	Ok   bool          `json:"ok"`
	Q    []interface{} `json:"q"`
	Acts []string      `json:"acts"`
	Err  string        `json:"err"`
	Off  int           `json:"off"`
}

type rawRow struct {
	Mode string        `json:"mode"`
	Q    []interface{} `json:"q"`
	Eof  rawTrans      `json:"eof"`
	Row  []struct {
		Do    rawTrans `json:"do"`
		Bytes []int    `json:"bytes"`
	} `json:"row"`
}

type spec struct {
	graphs map[string]*graph
	errs   map[string]string
	low    [256]byte
	trans  [3][256]struct{ To, Put int }
	types  map[string]string
	head   string // of canonical SCIM texts
	urn    string
}

// bs is a byte string as TLC writes it
type bs string

func (b *bs) UnmarshalJSON(j []byte) error {
	var a []int
	if err := json.Unmarshal(j, &a); err != nil {
		return err
	}
	c := make([]byte, len(a))
	for i := range a {
		c[i] = byte(a[i])
	}
	*b = bs(c)
	return nil
}

func (sp *spec) loadValues(s string) {
	var v struct {
		Low   []int
		Norm  [3][256]struct{ To, Put int }
		Head  bs
		Urn   bs
		Types map[string]bs
	}
	must(json.Unmarshal([]byte(s), &v))
	for i := range sp.low {
		sp.low[i] = byte(v.Low[i])
	}
	sp.trans, sp.head, sp.urn = v.Norm, string(v.Head), string(v.Urn)
	sp.types = map[string]string{}
	for n, w := range v.Types {
		sp.types[n] = string(w)
	}
}

func (sp *spec) lowS(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = sp.low[b[i]]
	}
	return string(b)
}

// normSS runs the exported transducer
func (sp *spec) normSS(s string) string {
	b := []byte(s)
	k := 0
	for i := range b {
		t := sp.trans[k][b[i]]
		b[i], k = byte(t.Put), t.To
	}
	return string(b)
}

func (sp *spec) canon(c SC) string {
	t := sp.head + sp.types[c.Ty] + ":" + string(c.Nm)
	if c.Ot != "" {
		t += ":" + string(c.Ot)
	}
	return t
}

func qname(q []interface{}) string { return fmt.Sprint(q...) }

// tlcLines calls f with every JSON text that TLC printed after the given tag
func tlcLines(path, tag string, f func(string)) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	r := bufio.NewReaderSize(fh, 1<<20)
	for {
		line, err := r.ReadString('\n')
		line = strings.TrimRight(line, "\r\n")
		if strings.HasPrefix(line, `"`+tag+" ") {
			s, e := strconv.Unquote(line)
			must(e)
			f(s[len(tag)+1:])
		}
		if err != nil {
			return
		}
	}
}

func loadSpec(path string) *spec {
	sp := &spec{graphs: map[string]*graph{}, errs: map[string]string{}}
	index := map[string]int{}
	var rows []rawRow
	tlcLines(path, "ROW", func(s string) {
		var r rawRow
		must(json.Unmarshal([]byte(s), &r))
		rows = append(rows, r)
	})
	tlcLines(path, "VAL", sp.loadValues)
	if sp.urn == "" {
		fail("the specification's value tables were not exported")
	}
	tlcLines(path, "ERR", func(s string) { must(json.Unmarshal([]byte(s), &sp.errs)) })
	// The export comes in any order; make it canonical
	sort.Slice(rows, func(i, j int) bool {
		if rows[i].Mode != rows[j].Mode {
			return rows[i].Mode < rows[j].Mode
		}
		return qname(rows[i].Q) < qname(rows[j].Q)
	})
	for _, r := range rows {
		g := sp.graphs[r.Mode]
		if g == nil {
			g = &graph{mode: r.Mode}
			sp.graphs[r.Mode] = g
		}
		index[r.Mode+"|"+qname(r.Q)] = len(g.states)
		if qname(r.Q) == qname([]interface{}{"P0", 0, ""}) {
			g.start = len(g.states)
		}
		g.states = append(g.states, &state{name: qname(r.Q)})
	}
	if len(sp.graphs) != 3 || len(sp.errs) == 0 {
		fail("the specification's control graph was not exported")
	}
	for _, r := range rows {
		g := sp.graphs[r.Mode]
		conv := func(t rawTrans) *trans {
			x := &trans{ok: t.Ok, err: t.Err, off: t.Off, to: -1}
			if t.Ok && t.Q != nil {
				to, ok := index[r.Mode+"|"+qname(t.Q)]
				if !ok {
					fail("unknown target " + qname(t.Q))
				}
				x.to = to
			}
			for _, a := range t.Acts {
				if a == "low" {
					x.low = true
				} else {
					x.acts = append(x.acts, markNames[a])
				}
			}
			sort.Ints(x.acts)
			return x
		}
		st := g.states[index[r.Mode+"|"+qname(r.Q)]]
		st.eof = *conv(r.Eof)
		for _, e := range r.Row {
			t := conv(e.Do)
			sort.Ints(e.Bytes)
			st.group = append(st.group, byteGroup{t, e.Bytes})
			for _, b := range e.Bytes {
				if st.on[b] != nil {
					fail("overlapping rows")
				}
				st.on[b] = t
			}
		}
		sort.Slice(st.group, func(i, j int) bool { return st.group[i].bytes[0] < st.group[j].bytes[0] })
		for b := range st.on {
			if st.on[b] == nil {
				fail("row with a hole")
			}
		}
	}
	for _, m := range modeNames {
		sp.graphs[m].prepare()
	}
	return sp
}

var modeNames = []string{"2141", "7643", "8141"}

// prepare computes access strings, completions and a characterization set
func (g *graph) prepare() {
	n := len(g.states)
	g.access = make([]string, n)
	seen := make([]bool, n)
	seen[g.start] = true
	queue := []int{g.start}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for _, gr := range g.states[s].group {
			if gr.t.ok && !seen[gr.t.to] {
				seen[gr.t.to] = true
				g.access[gr.t.to] = g.access[s] + string([]byte{repr(gr.bytes)})
				queue = append(queue, gr.t.to)
			}
		}
	}
	for i, ok := range seen {
		if !ok {
			fail("unreachable state " + g.states[i].name)
		}
	}
	g.finish = make([]string, n)
	g.canAcc = make([]bool, n)
	for i, s := range g.states {
		g.canAcc[i] = s.eof.ok
	}
	for changed := true; changed; {
		changed = false
		for i, s := range g.states {
			for _, gr := range s.group {
				if gr.t.ok && g.canAcc[gr.t.to] {
					f := string([]byte{repr(gr.bytes)}) + g.finish[gr.t.to]
					if !g.canAcc[i] || (!s.eof.ok && len(f) < len(g.finish[i])) {
						g.canAcc[i], g.finish[i] = true, f
						changed = true
					}
				}
			}
		}
	}
	g.wset = uniq(append(g.characterize(false), g.characterize(true)...))
}

// repr picks a representative byte, a letter if there is one
func repr(bs []int) byte {
	for _, b := range bs {
		if b >= 'a' && b <= 'z' {
			return byte(b)
		}
	}
	for _, b := range bs {
		if b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' {
			return byte(b)
		}
	}
	return byte(bs[0])
}

// verdict of the suffix w from state s: what acceptance or which error, where
// (errors: whether to tell errors apart)
func (g *graph) verdict(s int, w string, errors bool) string {
	for i := 0; i < len(w); i++ {
		t := g.states[s].on[w[i]]
		if !t.ok {
			if !errors {
				return "no"
			}
			return fmt.Sprint(t.err, i+t.off)
		}
		s = t.to
	}
	e := g.states[s].eof
	if e.ok {
		return fmt.Sprint("ok", e.acts)
	}
	if !errors {
		return "no"
	}
	return fmt.Sprint(e.err, len(w)+e.off)
}

// characterize greedily collects suffixes until all states that any suffix
// tells apart are told apart: candidates are all strings of up to two class
// representatives followed by the completion of the state they lead to.
func (g *graph) characterize(errors bool) (wset []string) {
	classes := g.classes()
	cands := map[string]bool{"": true}
	for s := range g.states {
		cands[g.finish[s]] = true
		for _, a := range classes {
			cands[string([]byte{a})] = true
			t := g.states[s].on[a]
			if !t.ok {
				continue
			}
			cands[string([]byte{a})+g.finish[t.to]] = true
			for _, b := range classes {
				u := g.states[t.to].on[b]
				if u.ok {
					cands[string([]byte{a, b})+g.finish[u.to]] = true
				}
			}
		}
	}
	list := make([]string, 0, len(cands))
	for c := range cands {
		list = append(list, c)
	}
	sort.Slice(list, func(i, j int) bool {
		if len(list[i]) != len(list[j]) {
			return len(list[i]) < len(list[j])
		}
		return list[i] < list[j]
	})
	block := make([]int, len(g.states)) // current partition
	blocks := 1
	split := func(w string) (int, []int) {
		ids := map[string]int{}
		nb := make([]int, len(block))
		for s := range block {
			k := fmt.Sprint(block[s], "|", g.verdict(s, w, errors))
			if _, ok := ids[k]; !ok {
				ids[k] = len(ids)
			}
			nb[s] = ids[k]
		}
		return len(ids), nb
	}
	for {
		best, bestN, bestB := "", blocks, []int(nil)
		for _, w := range list {
			if n, nb := split(w); n > bestN {
				best, bestN, bestB = w, n, nb
			}
		}
		if bestB == nil {
			break
		}
		wset = append(wset, best)
		block, blocks = bestB, bestN
	}
	// always look at the state itself
	return append(wset, "")
}

// classes: representatives of the bytes that no state tells apart
func (g *graph) classes() []byte {
	key := map[string][]int{}
	for b := 0; b < 256; b++ {
		var k strings.Builder
		for _, s := range g.states {
			for i, gr := range s.group {
				if gr.t == s.on[b] {
					fmt.Fprint(&k, i, ",")
				}
			}
		}
		key[k.String()] = append(key[k.String()], b)
	}
	var res []byte
	for _, bs := range key {
		res = append(res, repr(bs))
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// outcome is what the specification says a parse yields
type outcome struct {
	ok              bool
	err             string
	col             int
	pre, id, ss     string
	r, q, f         string
	hasF            bool
	ty, nm, ot      string
	norm            string
	endState, steps int
}

func (g *graph) run(s string) outcome {
	var reg [nMarks]int
	for i := range reg {
		reg[i] = -1
	}
	var low []int
	q := g.start
	for p := 0; p < len(s); p++ {
		t := g.states[q].on[s[p]]
		if !t.ok {
			return outcome{err: t.err, col: p + t.off, endState: q, steps: p}
		}
		for _, a := range t.acts {
			reg[a] = p
		}
		if t.low {
			low = append(low, p)
		}
		q = t.to
	}
	e := &g.states[q].eof
	if !e.ok {
		return outcome{err: e.err, col: len(s) + e.off, endState: q, steps: len(s)}
	}
	for _, a := range e.acts {
		reg[a] = len(s)
	}
	part := func(a, b int) string {
		if reg[a] < 0 {
			return ""
		}
		return s[reg[a]:reg[b]]
	}
	o := outcome{ok: true, endState: q, steps: len(s), pre: part(mPreS, mPreE), id: part(mIdS, mIdE), ss: part(mSsS, mSsE),
		r: part(mRS, mRE), q: part(mQS, mQE), f: part(mFS, mFE), hasF: reg[mFS] >= 0}
	if g.mode == "7643" {
		o.ty, o.nm, o.ot = part(mSsS, mTyE), part(mNmS, mNmE), part(mOtS, mOtE)
	}
	n := []byte(o.ss)
	for _, p := range low {
		if p >= reg[mSsS] && p < reg[mSsE] {
			n[p-reg[mSsS]] += 'a' - 'A'
		}
	}
	o.norm = string(n)
	return o
}

func (sp *spec) errString(o outcome) string { return fmt.Sprintf("%s [col %d]", sp.errs[o.err], o.col) }
