package main

import "fmt"

// The conditions of spec/TraceLib.tla, for the property being judged.  What
// fails here is put before TLC; what TLC refuses in sampled traces and this
// does not is a violation as well.

func in(s string, set ...string) bool {
	for _, x := range set {
		if s == x {
			return true
		}
	}
	return false
}

func (gen *generator) nText(o O) string {
	return gen.sp.urn + ":" + gen.sp.lowS(string(o.ID)) + ":" + gen.sp.normSS(string(o.SS))
}

func (gen *generator) textOf(pre string, o O) string {
	if o.ID == "" || o.SS == "" {
		return ""
	}
	if pre == "" {
		pre = gen.sp.urn
	}
	t := pre + ":" + string(o.ID) + ":" + string(o.SS)
	if o.R != "" {
		t += "?+" + string(o.R)
	}
	if o.Q != "" {
		t += "?=" + string(o.Q)
	}
	if o.F != "" {
		t += "#" + string(o.F)
	}
	return t
}

// yields says what is wrong with an outcome, going by the exported graph alone
func (gen *generator) yields(mode, text string, p P) string {
	o := gen.sp.graphs[mode].run(text)
	if (p.Res == "urn") != o.ok {
		return fmt.Sprintf("accepts and rejects wrongly in mode %s (%s)", mode, p.Res)
	}
	if !o.ok {
		return ""
	}
	if bad := sameSplit(mode, p, o); bad != "" {
		return bad
	}
	if bad := kindBad(mode, p.V); bad != "" {
		return bad
	}
	if want := gen.textOf(text[:3], p.V); string(p.V.Str) != want {
		return fmt.Sprintf("string form is %q, not %q", p.V.Str, want)
	}
	if want := gen.nText(p.V); string(p.V.Norm) != want {
		return fmt.Sprintf("normal form is %q, not %q", p.V.Norm, want)
	}
	return ""
}

func sameOutcome(a, b P) bool {
	return a.Res == b.Res && (a.Res != "urn" || a.V == b.V) && (a.Res != "err" || a.Err == b.Err)
}

func alike(v, w O) bool {
	v.Norm, w.Norm = "", ""
	return v == w
}

func (gen *generator) judge(e *Event, before func(string) O, oldMe errs) string {
	names := map[string]O{}
	for _, d := range e.Delta {
		names[d.Slot] = d.V
	}
	proj := func(s string) O {
		if o, ok := names[s]; ok {
			return o
		}
		return before(s)
	}
	if in(prop, "C17", "C12", "C09", "C10", "C22") && e.Op != "setview" {
		w := ""
		if in(e.Op, "parse", "pparse", "norm", "make", "unm", "putview") {
			w = e.D
		}
		for s := range names {
			if s != w {
				return fmt.Sprintf("%s changed something else (%q became %q)", e.Op, before(s).Str, names[s].Str)
			}
		}
	}
	if in(e.Op, "new", "mode", "parse") && in(prop, "C05", "C09") {
		o := 1 - mix(e.M)
		if e.Me[o] != oldMe[o] {
			return e.Op + " changed the Error() of another machine"
		}
	}
	if prop == "C22" {
		switch e.Op {
		case "setview":
			for s := range names {
				if e.grp[s] != e.grp[e.S] {
					return "changing the SCIM view of a URN changed another's"
				}
			}
		case "parse", "pparse":
			if bad := gen.yields(e.mode, string(e.T), P{Res: e.Res, V: e.V}); bad != "" {
				return bad
			}
		case "unm":
			if t, ok := decodeText([]byte(e.Json)); e.Ok {
				o := gen.sp.graphs[typeMode[e.Ty]].run(t)
				now := proj(e.D)
				if !ok || !o.ok {
					return "unmarshals what the parser rejects"
				}
				if e.Ty == "SCIM" {
					if want := gen.sp.head + o.ss; string(now.Scim.Canon) != want {
						return fmt.Sprintf("unmarshalling yields %q", now.Scim.Canon)
					}
				} else if bad := gen.yields(typeMode[e.Ty], t, P{Res: "urn", V: now}); bad != "" {
					return bad
				}
			}
		}
	}
	if prop == "C10" && e.Op == "scribble" && e.Me != oldMe {
		return "overwriting the input changed an error"
	}
	self := e.Me[mix(e.M)]
	if prop == "C21" {
		for _, d := range e.Delta {
			if want := gen.textOf(e.pre[d.Slot], d.V); !d.V.Nil && string(d.V.Str) != want {
				return fmt.Sprintf("string form is %q, not %q", d.V.Str, want)
			}
		}
	}
	switch e.Op {
	case "new":
		if in(prop, "C05", "C09") && self != "" {
			return "a new machine has an error"
		}
	case "mode":
		if prop == "C05" && self != oldMe[mix(e.M)] {
			return "switching the mode changed Error()"
		}
	case "parse", "pparse":
		switch prop {
		case "C05":
			if !in(e.Res, "urn", "err") {
				return "neither exactly a URN nor exactly an error: " + e.Res + " " + e.Err
			}
			if e.Op == "pparse" && e.OkFlag != (e.Res == "urn") {
				return "Parse reports ok wrongly"
			}
			if e.Op == "parse" && (e.Res == "urn" && self != "" || e.Res == "err" && self != "="+e.Err) {
				return "Error() is not the error of the last parse"
			}
		case "C09":
			if !sameOutcome(P{Res: e.Res, Err: e.Err, V: e.V}, e.Fresh) {
				return fmt.Sprintf("not the outcome of a new machine: %s %s (%q), but %s %s (%q) there", e.Res, e.Err, e.V.Str, e.Fresh.Res, e.Fresh.Err, e.Fresh.V.Str)
			}
			if e.Op == "parse" && self != e.FreshMe {
				return "Error() is not that of a new machine"
			}
		case "C10":
			if e.Before != e.After || e.Fault {
				return "parsing wrote to the memory around or in its input"
			}
		case "C04":
			if e.Res == "urn" && (e.Again.Res != "urn" || !alike(e.Again.V, e.V)) {
				return "the string form does not parse to the same URN again"
			}
		case "C13":
			if e.Res == "urn" {
				return kindBad(e.mode, e.V)
			}
		}
	case "norm":
		s := before(e.S)
		v := e.V
		switch prop {
		case "C07":
			_, touched := names[e.S]
			switch {
			case string(v.Str) != gen.nText(s):
				return fmt.Sprintf("normal form is %q, not %q", v.Str, gen.nText(s))
			case string(v.ID) != gen.sp.lowS(string(s.ID)) || string(v.SS) != gen.sp.normSS(string(s.SS)):
				return "ID or SS of the normal form is wrong"
			case v.R != "" || v.Q != "" || v.F != "":
				return "the normal form has components"
			case e.S != e.D && touched:
				return "Normalize changed its receiver"
			case e.Twice.Str != v.Str || e.Twice.ID != v.ID || e.Twice.SS != v.SS:
				return fmt.Sprintf("normalizing again changes it (%q to %q)", v.Str, e.Twice.Str)
			case e.Back.Res != "none" && (e.Back.Res != "urn" || e.Back.V.ID != v.ID || e.Back.V.SS != v.SS):
				return "the normal form does not parse again"
			}
		case "C13":
			if !v.Nil && (v.Kind != "NONE" || v.IsSCIM || !v.Scim.Nil) {
				return "a normalized URN has a kind"
			}
		}
	case "equal":
		if prop == "C08" {
			want := false
			x := nilO
			if e.X != "nil" {
				x = before(e.X)
			}
			if !x.Nil {
				want = gen.nText(before(e.S)) == gen.nText(x)
			}
			switch {
			case e.Panic:
				return "Equal panicked"
			case e.Bool != want:
				return fmt.Sprintf("Equal says %v (%q and %q)", e.Bool, before(e.S).Str, x.Str)
			case !x.Nil && e.Rev != e.Bool:
				return "Equal is not symmetric"
			case len(names) > 0:
				return "Equal changed an operand"
			}
		}
	case "make":
		if prop == "C13" && e.How == "compose" && (e.V.Kind != "NONE" || e.V.IsSCIM || !e.V.Scim.Nil) {
			return "a composed URN has a kind"
		}
		if was := before(e.S); prop == "C13" && e.How != "compose" && (e.V.Kind != was.Kind || e.V.IsSCIM != was.IsSCIM || e.V.Scim.Nil != was.Scim.Nil || e.V.Scim.Canon != was.Scim.Canon) {
			return "assigning or copying changes the kind or the view"
		}
		if prop == "C17" {
			was, now := before(e.S), proj(e.D)
			if e.How == "copy" && e.V != was {
				return "a copy differs"
			}
			if e.V != now {
				return "reading again gives different answers"
			}
			if in(e.How, "setid", "setss") && (now.R != was.R || now.Q != was.Q || now.F != was.F || now.Kind != was.Kind || now.IsSCIM != was.IsSCIM || now.Scim != was.Scim) {
				return "reading changes what was not assigned"
			}
		}
	case "putview":
		if prop == "C17" && proj(e.D).Scim != before(e.S).Scim {
			return "a copy of the SCIM view differs"
		}
	case "read":
		s := before(e.S)
		if prop == "C17" && (e.Panic || e.One != s || e.Two != s || e.Json1 != e.Json2) {
			return "reading gives different answers"
		}
		if prop == "C11" {
			d, ok := decodeText([]byte(e.Json1))
			if e.Panic || !ok || d != string(s.Str) {
				return "does not marshal to its string form"
			}
		}
	case "unm":
		text, isText := decodeText([]byte(e.Json))
		_ = text
		now := proj(e.D)
		switch prop {
		case "C11":
			fits := isText && e.Parsed.Res == "urn"
			switch {
			case e.Ok != fits:
				return fmt.Sprintf("unmarshalling succeeds: %v, the parser accepts: %v (%s)", e.Ok, fits, e.Same)
			case e.Ok && e.Ty == "SCIM" && now.Scim != e.Parsed.V.Scim, e.Ok && e.Ty != "SCIM" && now != e.Parsed.V:
				return "unmarshalling yields something else than the parser"
			case e.Ok && e.Same != "same":
				return "no JSON round trip (" + e.Same
			case isText && !e.Ok && !e.Quotes:
				return "the error does not quote the text"
			}
		case "C12":
			_, changed := names[e.D]
			if e.Ok && now != e.FreshV {
				return fmt.Sprintf("after unmarshalling the receiver is not like a fresh one (%q and %q)", now.Str, e.FreshV.Str)
			}
			if !e.Ok && changed {
				return "a failed unmarshalling changed the receiver"
			}
		case "C13":
			if e.Ok && e.Ty != "SCIM" {
				return kindBad(typeMode[e.Ty], now)
			}
		case "C10":
			if e.Fault || e.After != e.Json {
				return "unmarshalling wrote to its input"
			}
		}
	case "marshal":
		if prop == "C11" {
			if e.Res != "ok" {
				return "marshalling (" + e.Res
			}
			d, ok := decodeText([]byte(e.Json))
			want := string(e.V.Str)
			if e.Ty == "SCIM" {
				want = gen.sp.canon(e.V.Scim)
			}
			if !ok || d != want {
				return fmt.Sprintf("marshals to %q, not %q", d, want)
			}
		}
	}
	return ""
}
