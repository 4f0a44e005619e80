package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sync"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// The first calls that a process makes, from several goroutines at once and
// nothing before them: what the library would set up the first time it is
// needed is set up while the others need it too.  One process for each kind of
// call, built with the race detector.

var coldTexts = map[string][]string{
	"2141": {"URN:aA:b%Ab%cD", "urn:aa:b?", "urn:aa:b%4", "x", "urn:urn:b", "urn:aA:" + long1, "urn:aa:" + long1 + "%x"},
	"8141": {"Urn:aA:b%Ab?+r%aB?=q#f", "urn:aa:b?+r?+q", "urn:urn-7:b", "urn:aa:b#%", "x", "urn:aA:" + long1 + "?=" + long1, "urn:aa:" + long1 + "?"},
	"7643": {"URN:ietf:params:scim:schemas:n:%Ab", "urn:ietf:params:scim:api:n", "urn:ietf:params:scim:param:n:", "urn:ietf:params:scim:x", "x", "urn:ietf:params:scim:api:" + "n:" + long1},
}

const long1 = "aAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaAaA%aB"

// coldCalls: the kinds of call, each with what it gives
func coldCalls() []func() string {
	var res []func() string
	for _, mode := range modeNames {
		mode := mode
		for _, t := range coldTexts[mode] {
			t := t
			res = append(res,
				func() string {
					u, ok := urn.Parse([]byte(t), urn.WithParsingMode(modeValue(mode, nil)))
					if u == nil {
						return fmt.Sprint(ok)
					}
					return u.String() + u.Normalize().SS
				},
				func() string {
					m := urn.NewMachine(urn.WithParsingMode(modeValue(mode, nil)))
					u, err := m.Parse([]byte(t))
					return render(u, err) + fmt.Sprint(m.Error())
				},
				func() string {
					j, _ := json.Marshal(t)
					var u urn.URN
					var e urn.URN8141
					var s urn.SCIM
					switch mode {
					case "2141":
						return fmt.Sprint(u.UnmarshalJSON(j)) + u.String()
					case "8141":
						if err := e.UnmarshalJSON(j); err != nil {
							return err.Error()
						}
						return e.String()
					}
					return fmt.Sprint(s.UnmarshalJSON(j)) + s.String()
				})
		}
	}
	composed := func() *urn.URN { return &urn.URN{ID: "Ab", SS: "c%Ab"} }
	shared := composed()
	other := &urn.URN{ID: "aB", SS: "longer%Ab%Cd"}
	scim := &urn.SCIM{Type: scimschema.Param, Name: "n", Other: "o:p"}
	return append(res,
		func() string { return composed().Normalize().SS },
		func() string { return fmt.Sprint(composed().Equal(composed())) },
		func() string { return composed().String() },
		func() string { j, err := composed().MarshalJSON(); return fmt.Sprint(string(j), err) },
		func() string { return shared.Normalize().SS },
		func() string { return fmt.Sprint(shared.Equal(other)) },
		func() string { return fmt.Sprint(other.Equal(shared)) },
		func() string { return shared.String() },
		func() string {
			j, err := json.Marshal([]interface{}{shared, urn.URN8141{URN: other}, scim})
			return fmt.Sprint(string(j), err)
		},
		func() string {
			return fmt.Sprint(shared.IsSCIM(), shared.SCIM() == nil, shared.RFC(), shared.RComponent(), shared.QComponent(), shared.FComponent())
		},
		func() string { return scim.String() },
		func() string { return fmt.Sprint(scimschema.TypeFromString("api"), scimschema.TypeFromString("x")) },
		func() string { return scimschema.Schemas.String() + scimschema.Type(77).String() },
		func() string { return fmt.Sprint(urn.NewMachine().Error()) },
	)
}

// cold makes call number k (or, above their number, all of them in some order)
// from eight goroutines and ends the process
func cold(k int) {
	calls := coldCalls()
	const G = 8
	var gave [G][]string
	var orders [G][]int
	for g := range orders {
		if k < len(calls) {
			orders[g] = []int{k, k, k}
		} else {
			orders[g] = rand.New(rand.NewSource(seed*97 + int64(k*G+g))).Perm(len(calls))
		}
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, i := range orders[g] {
				s := ""
				if msg := try(func() { s = calls[i]() }); msg != "" {
					s = "panic " + msg
				}
				gave[g] = append(gave[g], s)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range gave {
		for n, i := range orders[g] {
			if want := calls[i](); want != gave[g][n] {
				fmt.Printf("APART %q, alone %q\n", gave[g][n], want)
				os.Exit(67)
			}
		}
	}
	fmt.Printf("COLD %d of %d\n", k, len(calls))
	os.Exit(0)
}
