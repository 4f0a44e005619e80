package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// What TLC generated from spec/MCScim.tla: texts near the type names, and the
// values that a caller can make of a SCIM, each with its canonical text and
// what that parses to.

type scimState struct {
	Hist []struct {
		Op string
		Ty string
		ID bs `json:"id"`
		SS bs `json:"ss"`
		T  int
		Ok bool
	}
	C    specSC
	Back struct {
		Ok bool
		Ty string
		Nm bs
		Ot bs
	}
}

var scimTypes = map[string]scimschema.Type{"schemas": scimschema.Schemas, "api": scimschema.API, "param": scimschema.Param, "unsupported": scimschema.Unsupported}

func scimTypesFromModel(path string, look func(string)) {
	n := 0
	tlcLines(path, "TYPE", func(l string) {
		var x struct {
			T  bs
			Ty string
		}
		must(json.Unmarshal([]byte(l), &x))
		look(string(x.T))
		n++
	})
	if n == 0 {
		nothing("no texts in " + path)
	}
	rep.add("texts_from_the_model", int64(n))
}

func scimValues(gen *generator, path string) {
	var texts []bs
	tlcLines(path, "TEXTS", func(s string) { must(json.Unmarshal([]byte(s), &texts)) })
	lines := make(chan string, 64)
	go func() {
		tlcLines(path, "SCIM", func(s string) { lines <- s })
		close(lines)
	}()
	var n, apart int64
	var once sync.Once
	parallel(workers, func(wk int, b *beat) {
		for l := range lines {
			var x scimState
			must(json.Unmarshal([]byte(l), &x))
			atomic.AddInt64(&n, 1)
			if rep.tooMany() {
				continue
			}
			s := &urn.SCIM{}
			var odd string
			what := ""
			b.enter("history", l)
			msg := try(func() {
				for i, c := range x.Hist {
					what += c.Op + " "
					switch c.Op {
					case "ty":
						s.Type = scimTypes[c.Ty]
					case "nm":
						s.Name = string(c.ID)
					case "ot":
						s.Other = string(c.SS)
					case "unm":
						j, _ := json.Marshal(string(texts[c.T-1]))
						if err := json.Unmarshal(j, s); (err == nil) != c.Ok {
							odd = fmt.Sprintf("call %d gives %v", i, err)
						}
					case "view":
						u, ok := urn.Parse([]byte(string(texts[c.T-1])), urn.WithParsingMode(urn.RFC7643Only))
						if ok && u.SCIM() != nil {
							if i%2 == 0 {
								s = u.SCIM()
							} else {
								k := *u.SCIM()
								s = &k
							}
						}
					case "json":
						j, _ := json.Marshal(s)
						if err := json.Unmarshal(j, s); (err == nil) != c.Ok {
							odd = fmt.Sprintf("call %d gives %v", i, err)
						}
					default:
						fail("unknown call " + c.Op)
					}
				}
			})
			b.leave()
			ev := &Event{Op: "scim", Back: noneP}
			if msg == "" {
				msg = try(func() { ev.C = projSCIM(s) })
			}
			if msg != "" {
				ev.C = SC{Ty: x.C.Ty, Nm: B(x.C.Nm), Ot: B(x.C.Ot), Canon: B(msg)}
				rep.suspect("a SCIM value panics: "+msg, "7643", string(x.C.Canon), single(ev))
				continue
			}
			ev.Back = b.parse("7643", string(ev.C.Canon))
			bad := gen.scimBad(ev)
			want := x.C.sc()
			switch {
			case bad != "":
				rep.suspect(kindOfBad(bad), "7643", string(ev.C.Canon), single(ev))
			case ev.C != want || odd != "" || (ev.Back.Res == "urn") != x.Back.Ok,
				x.Back.Ok && (ev.Back.V.Scim.Ty != x.Back.Ty || ev.Back.V.Scim.Nm != B(x.Back.Nm) || ev.Back.V.Scim.Ot != B(x.Back.Ot)):
				// another property's business
				atomic.AddInt64(&apart, 1)
				once.Do(func() { rep.note("scim_mismatch", what+odd+" "+l) })
			}
			if trace.wantN("scimmodel"+x.C.Ty+what, 3) {
				trace.put(ev)
			}
		}
	})
	if n == 0 {
		nothing("no values in " + path)
	}
	rep.add("behaviours_replayed", n)
	rep.add("behaviours_apart_for_other_properties", apart)
}

func (gen *generator) scimBad(ev *Event) string {
	back := ev.Back.V.Scim
	switch {
	case string(ev.C.Canon) != gen.sp.canon(ev.C):
		return fmt.Sprintf("canonical string is %q, not %q", ev.C.Canon, gen.sp.canon(ev.C))
	case gen.scimParses(ev.C) && (ev.Back.Res != "urn" || back.Nil || back.Ty != ev.C.Ty || back.Nm != ev.C.Nm || back.Ot != ev.C.Ot):
		return "the canonical string does not parse back to the parts"
	}
	return ""
}
