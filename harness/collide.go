package main

import (
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
)

// Different URNs that agree in what code could take for their whole: a check
// sum of the normal form (or of a part), its length, its ends, its bytes in
// another order. They must not be equal.

var sums = []struct {
	name string
	of   func(string) uint32
}{
	{"fnv32a", func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() }},
	{"fnv32", func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() }},
	{"crc32", func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) }},
	{"crc32c", func(s string) uint32 { return crc32.Checksum([]byte(s), castagnoli) }},
	{"adler32", func(s string) uint32 { return adler32.Checksum([]byte(s)) }},
	{"times31", func(s string) uint32 { return poly(s, 31, 0) }},
	{"times33", func(s string) uint32 { return poly(s, 33, 5381) }},
	{"times37", func(s string) uint32 { return poly(s, 37, 0) }},
	{"times131", func(s string) uint32 { return poly(s, 131, 0) }},
	{"times65599", func(s string) uint32 { return poly(s, 65599, 0) }},
	{"sum", func(s string) uint32 { return poly(s, 1, 0) }},
	{"xor", func(s string) uint32 {
		h := uint32(0)
		for i := 0; i < len(s); i++ {
			h ^= uint32(s[i]) << (8 * (i % 2))
		}
		return h
	}},
	{"rotate5", func(s string) uint32 {
		h := uint32(0)
		for i := 0; i < len(s); i++ {
			h = h<<5 ^ h>>27 ^ uint32(s[i])
		}
		return h
	}},
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

func poly(s string, m, h uint32) uint32 {
	for i := 0; i < len(s); i++ {
		h = h*m + uint32(s[i])
	}
	return h
}

func collisions(gen *generator) {
	const many = 260000
	r := rand.New(rand.NewSource(seed * 911))
	ids := []string{"ab", "example", "uuid", "a-b", "oid"}
	type pair struct{ id, ss string }
	all := make([]pair, many)
	const letters = "abcdefghijklmnopqrstuvwxyz0123456789"
	const odd = letters + "ABCDEFGHIJKLMNOPQRSTUVWXYZ.-:_+"
	for i := range all {
		n := 1 + r.Intn(16)
		from := letters
		if i%2 == 0 {
			from = odd
		}
		b := make([]byte, n)
		for k := range b {
			b[k] = from[r.Intn(len(from))]
		}
		all[i] = pair{ids[r.Intn(len(ids))], string(b)}
	}
	keys := []func(p pair) string{
		func(p pair) string { return "urn:" + p.id + ":" + p.ss },
		func(p pair) string { return p.id + ":" + p.ss },
		func(p pair) string { return p.ss },
		func(p pair) string { return p.id + p.ss },
	}
	var found [][2]pair
	type row struct {
		h uint32
		i int
	}
	rows := make([]row, many)
	for _, f := range sums {
		for _, key := range keys {
			for i, p := range all {
				rows[i] = row{f.of(key(p)), i}
			}
			sort.Slice(rows, func(a, b int) bool {
				if rows[a].h != rows[b].h {
					return rows[a].h < rows[b].h
				}
				return rows[a].i < rows[b].i
			})
			n := 0
			for i := 1; i < many && n < 12; i++ {
				a, b := all[rows[i-1].i], all[rows[i].i]
				if rows[i-1].h == rows[i].h && a != b && (key(a) != key(b) || key(a) == key(b) && n < 3) {
					found = append(found, [2]pair{a, b})
					n++
				}
			}
		}
	}
	// the same bytes in another order, the same ends, one bit apart, anywhere
	for _, n := range []int{3, 8, 17, 40, 70, 130, 260, 300, 520, 1030, 2100, 4200, 9000, 70000} {
		for k := 0; k < 24; k++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = letters[r.Intn(36)]
			}
			c := append([]byte{}, b...)
			i := n / 2
			if k%3 == 1 {
				i = r.Intn(n)
			}
			j := (i + 1 + r.Intn(n-1)) % n
			if k%2 == 0 {
				j = (i + 1) % n
			}
			switch k % 8 {
			case 0, 1, 2:
				c[i], c[j] = c[j], c[i]
			case 3:
				c[i] = letters[r.Intn(36)]
			case 4: // the sum stays
				if c[i] < 'y' && c[i] >= 'b' && c[j] <= 'y' && c[j] >= 'b' {
					c[i]++
					c[j]--
				}
			case 5:
				if c[i] >= 'a' {
					c[i] ^= 0x20
				}
			case 6: // turned round
				for x, y := 0, n-1; x < y; x, y = x+1, y-1 {
					c[x], c[y] = c[y], c[x]
				}
			case 7: // shifted
				c = append(c[1:], c[0])
			}
			found = append(found, [2]pair{{"ab", string(b)}, {"ab", string(c)}})
		}
	}
	parallel(workers, func(wk int, b *beat) {
		r := rand.New(rand.NewSource(seed*71 + int64(wk)))
		for i := wk; i < len(found); i += workers {
			w := newWorld(gen, b, r)
			x, y := found[i][0], found[i][1]
			if i%3 == 0 {
				w.opCompose(x.id, x.ss, "a")
			} else {
				w.opPParse([]string{modeNames[i%2]}, "urn:"+x.id+":"+x.ss, "a")
			}
			if i%5 == 0 {
				w.opCompose(strings.ToUpper(y.id), y.ss, "b")
			} else {
				w.opPParse([]string{modeNames[i/2%2]}, "URN:"+y.id+":"+y.ss, "b")
			}
			w.opEqual("a", "b")
			w.opEqual("b", "a")
			w.report()
			if len(x.ss) < 300 && i%40 == 0 {
				w.keepTrace("collision")
			}
		}
	})
	rep.add("pairs_alike_by_a_check_sum", int64(len(found)))
}
