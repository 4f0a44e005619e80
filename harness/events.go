package main

import (
	"encoding/json"
)

// Event is one line of a trace: one call with its results (spec/TraceLib.tla
// says what each must be).
// errs: Error() of the machines m and n, and the error of the last
// unmarshalling, as they read now: "" for nil, else "=" and its text
type errs [3]string

type Event struct {
	Op      string
	Delta   []Change
	M       string   // machine
	Opts    []string // parsing modes given as options
	X       string   // mode value, or second slot
	T       B        // text
	S, D    string   // source and destination slots
	Res     string
	Err     string
	V       O
	Fresh   P // the same parse on a new machine
	Again   P // the string form parsed again
	Before  B // the buffer around the input
	After   B
	Me      errs
	FreshMe string
	Fault   bool // the call touched memory it must not touch
	Panic   bool
	OkFlag  bool
	Twice   O
	Back    P
	Bool    bool // result of Equal
	Rev     bool
	How     string
	One     O
	Two     O
	Json1   B
	Json2   B
	Ty      string
	Json    B
	Ok      bool
	Parsed  P
	FreshV  O
	Quotes  bool
	Same    string
	P3      [3]P // one text in three modes: 2141, 7643, 8141
	Norm3   [3]B
	Eq      []bool
	C       SC
	Alone   string
	Out     B
	Exit    int
	Keep    bool
	Cost    [6]int64          // two sizes, times in microseconds, memory in KB
	mode    string            // parsing mode in force
	pre     map[string]string // prefixes after the call
	grp     map[string]int    // who shares a SCIM view
}

// Change is the new projection of a slot
type Change struct {
	Slot string `json:"slot"`
	V    O      `json:"v"`
}

type obj map[string]interface{}

func (e *Event) MarshalJSON() ([]byte, error) {
	d := e.Delta
	if d == nil {
		d = []Change{}
	}
	opts := e.Opts
	if opts == nil {
		opts = []string{}
	}
	m := obj{"op": e.Op, "delta": d, "me": obj{"m": e.Me[0], "n": e.Me[1], "j": e.Me[2]}}
	put := func(kv ...interface{}) {
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
	}
	parse := func() {
		put("t", e.T, "d", e.D, "res", e.Res, "err", e.Err, "v", e.V, "fresh", e.Fresh, "again", e.Again,
			"before", e.Before, "after", e.After, "fault", e.Fault)
	}
	withNorm := func(i int) obj {
		return obj{"res": e.P3[i].Res, "err": e.P3[i].Err, "v": e.P3[i].V, "norm": e.Norm3[i]}
	}
	switch e.Op {
	case "reset":
	case "new":
		put("m", e.M, "opts", opts)
	case "mode":
		put("m", e.M, "x", e.X)
	case "parse":
		parse()
		put("m", e.M, "freshme", e.FreshMe)
	case "pparse":
		parse()
		put("opts", opts, "okflag", e.OkFlag)
	case "scribble":
	case "norm":
		put("s", e.S, "d", e.D, "v", e.V, "twice", e.Twice, "back", e.Back)
	case "equal":
		put("s", e.S, "x", e.X, "res", e.Bool, "rev", e.Rev, "panic", e.Panic)
	case "make":
		put("how", e.How, "s", e.S, "d", e.D, "v", e.V)
	case "read":
		put("s", e.S, "one", e.One, "two", e.Two, "json1", e.Json1, "json2", e.Json2, "panic", e.Panic)
	case "unm":
		put("ty", e.Ty, "d", e.D, "json", e.Json, "ok", e.Ok, "parsed", e.Parsed, "freshv", e.FreshV, "quotes", e.Quotes, "back", e.Same, "after", e.After, "fault", e.Fault)
	case "setview":
		put("s", e.S)
	case "putview":
		put("s", e.S, "d", e.D)
	case "marshal":
		put("ty", e.Ty, "v", e.V, "json", e.Json, "res", e.Res)
	case "modes":
		eq := e.Eq
		if eq == nil {
			eq = []bool{}
		}
		put("t", e.T, "p2141", withNorm(0), "p7643", withNorm(1), "p8141", withNorm(2), "eq", eq)
	case "type":
		put("t", e.T, "ty", e.Ty)
	case "typename":
		put("t", e.T, "ty", e.Ty)
	case "scim":
		put("c", e.C, "back", e.Back)
	case "given":
		put("what", e.Ty, "was", e.T, "now", e.Out)
	case "conc":
		put("res", e.Res, "alone", e.Alone)
	case "snake", "rmc":
		put("t", e.T, "out", e.Out, "exit", e.Exit)
	case "cost":
		put("what", e.Ty, "n1", e.Cost[0], "n2", e.Cost[1], "u1", e.Cost[2], "u2", e.Cost[3], "k1", e.Cost[4], "k2", e.Cost[5])
	case "toolbad":
		put("exit", e.Exit, "same", e.Keep)
	default:
		fail("unknown event " + e.Op)
	}
	return json.Marshal(m)
}
