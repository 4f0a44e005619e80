package main

import (
	"fmt"
	"strings"
)

// Streams of texts with structure that single bytes do not have: what the
// escapes say when they are decoded, every byte and pair of bytes many times
// over, identifiers that are registered with specific strings of every shape.
// They suggest inputs; what is right is decided by the specification's graph.

// places: states in which an escape can be read, at least one for each state that
// the escape leads to
func (g *graph) places(escape string) (res []int) {
	seen := map[int]bool{}
	for s := range g.states {
		q := s
		for i := 0; i < len(escape) && q >= 0; i++ {
			if t := g.states[q].on[escape[i]]; t.ok {
				q = t.to
			} else {
				q = -1
			}
		}
		if q < 0 || !g.canAcc[q] || seen[q] && !thorough() {
			continue
		}
		seen[q] = true
		res = append(res, s)
	}
	return res
}

// what decoded escapes may mean to someone who decodes them
func codePoints() (res []string) {
	for _, c := range []int{0, 9, 10, 13, 0x1b, 0x20, 0x22, 0x25, 0x2f, 0x3a, 0x3f, 0x23, 0x41, 0x5c, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xdf, 0xe9, 0x130, 0x131, 0x17f, 0x300, 0x3c3, 0x61c, 0x7ff,
		0x800, 0x1e9e, 0x200b, 0x200d, 0x200e, 0x2028, 0x202e, 0x2060, 0x212a, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10fffd, 0x10ffff} {
		res = append(res, string(rune(c)))
	}
	// no encodings: too long, halves of pairs, too large, cut off, out of place
	for _, s := range []string{"\xc0\x80", "\xc0\xaf", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xed\xa0\xbd\xed\xb8\x80",
		"\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xfe\xff", "\xff\xfe", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\x80", "\xbf\xbf", "\xc3(", "\xc3A",
		"\r\n", "\n\n", "..", "../", "/..", "//", "://", "%00", "%41", "\x00\x00", "e\u0301", "\u0061\u030a", "<>", "'--", "${", "{{", "`", "\\u0041", "\\\"", "&amp;", "a b", "@:"} {
		res = append(res, s)
	}
	return res
}

func escaped(s string, style int) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch style % 4 {
		case 0:
			fmt.Fprintf(&b, "%%%02X", s[i])
		case 1:
			fmt.Fprintf(&b, "%%%02x", s[i])
		case 2:
			fmt.Fprintf(&b, "%%%X%x", s[i]>>4, s[i]&15)
		case 3:
			if isAlnum(s[i]) {
				b.WriteByte(s[i])
			} else {
				fmt.Fprintf(&b, "%%%x%X", s[i]>>4, s[i]&15)
			}
		}
	}
	return b.String()
}

// escapes gives every pair of escaped bytes, in every part that has escapes
func (gen *generator) escapes(mode string, part, of int, f func(string)) {
	g := gen.sp.graphs[mode]
	cnt := 0
	for _, s := range g.places("%aA") {
		for x := part; x < 1<<16; x += of {
			cnt++
			f(g.access[s] + escaped(string([]byte{byte(x >> 8), byte(x)}), cnt))
		}
		for k, c := range codePoints() {
			for style := 0; style < 4; style++ {
				if cnt++; (k+style)%of != part {
					continue
				}
				e := escaped(c, style)
				f(g.access[s] + e)
				f(g.access[s] + "a" + e + "b" + e + "%cD")
				f(g.access[s] + e + "%")
				f(g.access[s] + e + c) // not escaped: most do not belong there
			}
		}
	}
}

// crowds gives every byte, and every pair of bytes, many times over
func (gen *generator) crowds(mode string, part, of int, f func(string)) {
	g := gen.sp.graphs[mode]
	cnt := 0
	for s := range g.states {
		if !g.canAcc[s] {
			continue
		}
		var own []byte
		for c := 0; c < 256; c++ {
			if t := g.states[s].on[c]; t.ok && t.to == s {
				own = append(own, byte(c))
			}
		}
		counts := []int{2, 3, 5, 8, 9, 12, 16, 17, 24, 33, 64}
		for i, c := range own {
			for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 21, 32, 33, 50, 64, 65, 100, 101, 128, 129, 256, 257} {
				if cnt++; cnt%of == part {
					f(g.access[s] + strings.Repeat(string([]byte{c}), n) + g.finish[s])
				}
			}
			for j, d := range own {
				if i == j {
					continue
				}
				if cnt++; cnt%of != part {
					continue
				}
				n := counts[(cnt/of)%len(counts)]
				pair := strings.Repeat(string([]byte{c, d}), n)
				if cnt/of%3 == 0 { // the one, then the other
					pair = strings.Repeat(string([]byte{c}), n) + strings.Repeat(string([]byte{d}), n/2+1)
				}
				f(g.access[s] + pair + g.finish[s])
			}
		}
	}
}

var registered = []string{"uuid", "UUID", "isbn", "ISBN", "issn", "isan", "isni", "oid", "ietf", "ietf:rfc", "ietf:params:scim", "ietf:params:xml:ns", "nbn", "nbn:de", "lex", "epc", "epc:id", "xmpp", "oasis",
	"example", "ogc", "3gpp", "gsma", "imei", "service", "schemas-microsoft-com", "cts", "sha1", "SHA1", "btih", "ed2k", "tree:tiger", "md5", "swift", "mpeg", "nato", "nfc", "liberty", "w3c", "tva",
	"pin", "publicid", "fdc", "fipa", "urn-1", "urn-5", "urn-0", "urn-", "urn", "urns", "xurn", "x-foo", "x", "a1", "local", "localhost", "null", "nil", "true", "0", "00", "000", "1", "doi", "hdl", "ark", "dev", "li", "aws", "arn"}

var nssShapes = []string{"f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "F81D4FAE-7DEC-11D0-A765-00A0C91E6BF6", "f81d4fae7dec11d0a76500a0c91e6bf6", "f81d4fae-7dec-11d0-a765-00a0c91e6bfz", "00000000-0000-0000-0000-000000000000",
	"{f81d4fae}", "0451450523", "0-451-45052-3", "9780306406157", "9780306406158", "978-0-306-40615-7", "045145052X", "045145052x", "0167-6423", "0167-642x", "0000-0000-2CEA-0000-1-0000-0000-Y",
	"1.3.6.1.4.1", "2.16.840.1.113883", "1", "1.", ".1", "1..2", "01.2", "3.1", "2.999", "1.39.1", "rfc:2648", "rfc:02648", "params:scim:schemas:core:2.0:User", "params:xml:ns:xmpp", "params:", "de:bvb:19-146642",
	"eu:council:directive:2010-03-09;2010-19-UE", "id:sgtin:0614141.112345.400", "-:IETF:DTD+XHTML", "foo", "FOO", "Foo", "a123,456", "a123%2C456", "A123%2c456", "a123,z456", "YNCKHTQCWBTRNJIV4WNAE52SJUQCZO5C",
	"0", "00", "-", "--", "_", "a-", "-a", "a--b", "@", "@me", "me@x.org", "$x", "$", "!", "(a)", "(a", "a)", ")(", "()", "a(b(c)d)e", "((a)", "'a'", "'", "a'b", "*", "**", ";a=b", "a;b;c", "a=b", "=", "a=b&c=d", "a,b,,c", ",",
	"+", "a+b", "1+1", ".", "..", "...", "a.b.c", "a:b:c", ":", "::", ":a", "a:", "a::b", "urn:a:b", "URN:a:b", "urn", "urn:", "http:", "http:a.b", "mailto:a@b.c", "a%20b", "%20", "%00", "%41%42", "%2F", "%2f..%2F", "127.0.0.1", "1-2-3", "2024-01-31",
	"12:34:56", "1e5", "0x1F", "-1", "+1", "1,5", "NaN", "null", "true", "undefined", "None", "constructor", "CON", "aA", "Aa", "zZ9", "A1b2C3", "a_b", "_a_", "xn--80ak", "v1.2.3", "v1", "%c3%a9", "%C3%A9"}

// wellKnown gives identifiers that are registered, or look like it, with
// specific strings of many shapes, as they belong together and as they do not
func (gen *generator) wellKnown(mode string, part, of int, f func(string)) {
	cnt := 0
	for _, id := range registered {
		for _, ss := range nssShapes {
			if cnt++; cnt%of != part {
				continue
			}
			t := "urn:" + id + ":" + ss
			f(recased(t, cnt/of))
			if mode == "8141" && cnt/of%2 == 0 {
				s := nssShapes[cnt/of%len(nssShapes)]
				f(t + []string{"?+" + s, "?=" + s, "#" + s, "?+" + ss + "?=" + s, "?=" + ss + "#" + s}[cnt/of%5])
			}
		}
	}
	for k, ss := range nssShapes {
		if k%of != part {
			continue
		}
		for _, ty := range []string{"schemas", "api", "param"} {
			f("urn:ietf:params:scim:" + ty + ":" + ss)
			f("urn:ietf:params:scim:" + ty + ":n:" + ss)
			f("urn:ietf:params:scim:" + ty + ":core:2.0:" + ss)
		}
	}
}
