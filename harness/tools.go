package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// C18 and C19: the two commands, run on files in a scratch directory.  The
// oracle below is the rewriting of spec/SnakeCamel.tla and RemoveComments.tla;
// it is compared with the images that TLC computed for every small file before
// it is believed.

// ---------------------------------------------------------------- oracle

func lowerB(c byte) bool { return c >= 'a' && c <= 'z' }
func digitB(c byte) bool { return c >= '0' && c <= '9' }

// joints rewrites one line: the last joint, until there is none
func snakeLine(s []byte) []byte {
	s = append([]byte{}, s...)
	// The scan goes from the right.  Removing a joint at i can only make new
	// joints at or right of i-1 (the byte behind it became upper case or stays a
	// digit), so the scan goes on two places to the right of where it was.
	i := len(s) - 2
	for i >= 1 {
		if s[i] == '_' && isAlnum(s[i+1]) {
			k := i - 1
			for k >= 0 && digitB(s[k]) {
				k--
			}
			if k >= 0 && lowerB(s[k]) {
				c := s[i+1]
				if lowerB(c) {
					c -= 32
				}
				s = append(append(s[:i:i], c), s[i+2:]...)
				i = len(s) - 2
				if i > 4096 { // long lines: start near the change, far enough to the right
					i = len(s) - 2
				}
				continue
			}
		}
		i--
	}
	return s
}

func snakeFix(f []byte) []byte {
	lines := bytes.Split(f, []byte{10})
	for i := range lines {
		lines[i] = snakeLine(lines[i])
	}
	return bytes.Join(lines, []byte{10})
}

func isWs(c byte) bool { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32 }

func rmFix(f []byte) []byte {
	var out, held []byte
	for len(f) > 0 {
		n := bytes.IndexByte(f, 10) + 1
		if n == 0 {
			n = len(f)
		}
		line := f[:n]
		f = f[n:]
		k := 0
		for k < len(line) && isWs(line[k]) {
			k++
		}
		switch {
		case bytes.HasPrefix(line[k:], []byte("//line")):
			held = nil
		case k == len(line):
			held = append(held, line...)
		default:
			out = append(append(out, held...), line...)
			held = nil
		}
	}
	return append(out, held...)
}

// ---------------------------------------------------------------- running

type tool struct {
	name, op, bin, dir string
	fix                func([]byte) []byte
	runs               int64
}

const toolLimit = 60 * time.Second

// run executes the command; exit -1: it did not end in time
func (t *tool) run(cred *syscall.Credential, dir string, args ...string) int {
	atomic.AddInt64(&t.runs, 1)
	cmd := exec.Command(t.bin, args...)
	cmd.Dir = dir
	if cred != nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
	}
	if err := cmd.Start(); err != nil {
		return -2
	}
	timer := time.AfterFunc(toolLimit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		return -1
	}
	if err == nil {
		return 0
	}
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() > 0 {
		return e.ExitCode()
	}
	return -3
}

func (t *tool) file(dir string, content []byte) *Event {
	p := filepath.Join(dir, "f.go")
	must(os.WriteFile(p, content, 0o644))
	code := t.run(nil, dir, p)
	out, err := os.ReadFile(p)
	if err != nil {
		out = []byte("(gone: " + err.Error() + ")")
	}
	return &Event{Op: t.op, T: B(content), Out: B(out), Exit: code}
}

func (t *tool) check(dir string, content []byte, want []byte, key string) {
	if rep.tooMany() {
		return
	}
	e := t.file(dir, content)
	bad := ""
	switch {
	case e.Exit == -1:
		bad = "does not end"
	case e.Exit != 0:
		bad = fmt.Sprintf("fails (exit %d)", e.Exit)
	case string(e.Out) != string(want):
		bad = fmt.Sprintf("writes (%q, not %q)", clip(string(e.Out)), clip(string(want)))
	}
	if bad != "" {
		rep.suspect(t.name+" "+kindOfBad(bad), "", string(content), single(e))
		return
	}
	if len(content) < 600 && trace.wantN(key, 60) {
		trace.put(e)
		if len(content) < 80 && string(e.Out) != string(e.T) {
			rep.sample(describe([]*Event{e})[0])
		}
	}
	// again: nothing more
	if atomic.LoadInt64(&t.runs)%5 == 0 {
		e = t.file(dir, want)
		if e.Exit != 0 || string(e.Out) != string(want) {
			rep.suspect(t.name+" run again changes more", "", string(want), single(e))
		}
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func checkTool(gen *generator, bin, scratch, filesOut string) {
	t := &tool{bin: bin, dir: scratch}
	if prop == "C18" {
		t.name, t.op, t.fix = "snake2camel", "snake", snakeFix
	} else {
		t.name, t.op, t.fix = "removecomments", "rmc", rmFix
	}
	// every small file, with TLC's images
	var all [][2]string
	tlcLines(filesOut, "FILE", func(s string) {
		var x struct{ T, Out bs }
		must(json.Unmarshal([]byte(s), &x))
		if got := string(t.fix([]byte(x.T))); got != string(x.Out) {
			fail(fmt.Sprintf("the oracle and the specification disagree on %q: %q, %q", string(x.T), got, string(x.Out)))
		}
		all = append(all, [2]string{string(x.T), string(x.Out)})
	})
	if len(all) < 100 {
		nothing("no files from the specification")
	}
	rep.add("small_files", int64(len(all)))
	limit := pick(18000, len(all))
	var one, packed int64
	dirs := make([]string, workers)
	for i := range dirs {
		dirs[i] = filepath.Join(scratch, fmt.Sprint("w", i))
		must(os.MkdirAll(dirs[i], 0o755))
	}
	step := (len(all) + limit - 1) / limit
	parallel(workers, func(w int, b *beat) {
		r := rand.New(rand.NewSource(seed*61 + int64(w)))
		// one by one; all of the smallest, a part of the others
		for i := w; i < len(all); i += workers {
			if len(all[i][0]) <= 4 || (i/workers)%step == int(seed)%step {
				t.check(dirs[w], []byte(all[i][0]), []byte(all[i][1]), fmt.Sprint("small", len(all[i][0])))
				atomic.AddInt64(&one, 1)
			}
		}
		// all, many in one file
		for i := w * 700; i < len(all); i += workers * 700 {
			var f bytes.Buffer
			sep := []string{"\n", "x\n", "\r\n", "_\n"}[r.Intn(4)]
			for k := i; k < i+700 && k < len(all); k++ {
				f.WriteString(all[k][0])
				f.WriteString(sep)
			}
			t.check(dirs[w], f.Bytes(), t.fix(f.Bytes()), "packed")
			atomic.AddInt64(&packed, 1)
		}
		// random ones, larger and stranger
		for i := 0; i < pick(600, 20000); i++ {
			f := randomFile(prop, r)
			t.check(dirs[w], f, t.fix(f), fmt.Sprint("random", len(f)/100))
		}
	})
	// every byte, first and last in a file and everywhere around what matters
	seeds := []string{"a_b", "x1_Z\ny_0", "é_a_b"}
	if prop == "C19" {
		seeds = []string{"x\n//line 1\ny\n", " //line", "\n\n//line\n", "a //line\n"}
	}
	extra := []string{"\ufeff", "\xfe\xff", "\xff\xfe", "\r\n", "\n\n", "\n", "\x1a\n", "\x00\x00", "//", "#!/bin/sh\n", "\u2028", "\u0085", "\u00a0", "__", "\x1a\x1a"}
	extra = append(extra, contexts...)
	extra = append(extra, toolWords(prop)...)
	var bytewise int64
	parallel(workers, func(w int, b *beat) {
		for c := w; c < 256+len(extra); c += workers {
			x := string([]byte{byte(c)})
			if c >= 256 {
				x = extra[c-256]
			}
			var f bytes.Buffer
			for _, s := range seeds {
				for _, e := range []string{x + s, s + x, x + "\n" + s, s + "\n" + x} {
					t.check(dirs[w], []byte(e), t.fix([]byte(e)), "byte at an end")
					atomic.AddInt64(&bytewise, 1)
				}
				for i := 0; i <= len(s); i++ {
					f.WriteString("k\n" + s[:i] + x + s[i:] + "\nk\n")
					if c >= 256 && i == 0 { // as words, and around it
						f.WriteString("k\n" + x + " " + s + "\nk\n" + s + " " + x + "\n" + x + s + x + "\n" + x + "\n" + s + "\n" + x + "\n" + x + " = " + s + " " + x + "\n\t" + x + s + "\n")
					}
					if i < len(s) {
						f.WriteString("k\n" + s[:i] + x + s[i+1:] + "\nk\n")
					}
				}
			}
			t.check(dirs[w], f.Bytes(), t.fix(f.Bytes()), "byte inside")
		}
		// sizes at which buffers end, and many lines
		sizes := []int{511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 262144}
		if thorough() {
			sizes = append(sizes, 1<<20, 1<<20+1, 1<<24)
		}
		for i := w; i < 6*len(sizes); i += workers {
			n := sizes[i/6]
			fill := []string{"x", "x\n", " \n", "\t", "\n", "ab cd\n"}[i%6]
			for _, s := range seeds {
				k := n - len(s)
				e := strings.Repeat(fill, k/len(fill)+1)[:k] + s
				if fill != "\n" && s == seeds[0] && fill[len(fill)-1] == '\n' {
					e = s + "\n" + e
				}
				t.check(dirs[w], []byte(e), t.fix([]byte(e)), "size")
				atomic.AddInt64(&bytewise, 1)
			}
		}
	})
	rep.add("files_by_byte_and_size", bytewise)
	// the sources themselves
	for _, pat := range []string{"*.go", "*.rl", "scim/schema/*.go", "tools/*/*.go"} {
		fs, _ := filepath.Glob(filepath.Join(repoRoot, pat))
		for _, p := range fs {
			if c, err := os.ReadFile(p); err == nil {
				t.check(dirs[0], c, t.fix(c), "source")
			}
		}
	}
	rep.add("files_one_by_one", one)
	rep.add("files_with_many_lines", packed)
	checkMisuse(t, filepath.Join(scratch, "misuse"))
	rep.add("runs", t.runs)
}

// contexts: what a line may be in sources; to the commands all lines are alike
var contexts = []string{"//go:generate ", "//go:build ", "//go:embed ", "//nolint", "//export ", "// +build ", "//sys ", "//#cgo ", "//", "// ", "/*", "*/", "/* x */", "/**", "* ", "#", "#line 1 ", "# 1 ", "%%{", "}%%", "%%", "<!--", "\"\"\"",
	"// Code generated by ragel. DO NOT EDIT.\n", "// Code generated", "DO NOT EDIT", "package x\n", "import \"C\"\n", "import \"", "const ", "var ", "func ", "func (m *machine) ", "type ", "case ", "goto ", "return ", "const(", "struct{", "}", "{", "//line x.rl:1\n", "x //line",
	"\"", "'", "\"a\\", "\\", "\\\n", "`", "``", "`a\nb`\n", "http://", "https://x.y/", "file://", "a.b.", "x.", "_ = ", "_, ", "0x_", "1_000", "0b1_0", "json:\"", "TODO", "FIXME", "@", "$", "${", "<<<<<<< HEAD\n", "=======\n", ">>>>>>> x\n", "+", "-", "+++ ", "--- ", "@@ ",
	"\t\t", "    ", " \t ", "_test", "Test_", "Benchmark_", "Example_", "_start", "en_", "first_final", "error", "m.cs = ", "eof", "tr1:\n", "st_case_1:\n", "_again", "_out", "_"}

// toolWords: what the command's own sources speak of
func toolWords(prop string) (res []string) {
	dir := map[string]string{"C18": "tools/snake2camel", "C19": "tools/removecomments"}[prop]
	d := &dictionary{}
	d.read(repoRoot, []string{dir + "/*.go"})
	for _, w := range d.words {
		if len(w) <= 40 && len(res) < 60 {
			res = append(res, w)
		}
	}
	return res
}

func randomFile(prop string, r *rand.Rand) []byte {
	var b bytes.Buffer
	lines := []int{1, 2, 3, 6, 15, 60}[r.Intn(6)]
	nl := []string{"\n", "\n", "\r\n", "\r"}[r.Intn(4)]
	snake := []string{"a", "b", "z", "A", "Z", "0", "9", "_", "_", "_", "a_b", "en_main", "x1_", "_a", "__", "first_final", "a1_2b_c", "é", "\xff", " ", "\t", ".", "-", "\x00", "ab12_34cd", "A_b", "_1", "a_1_2_3", "\v", "\u00a0", "(", "*", "{", "`", "@", "[", "\r", "/*", "*/", "\"", "//", "'"}
	rm := []string{"//line", "//line x.rl:1", " ", "\t", "  //line", "//", "/", "line", "//lin", "//Line", "// line", "x //line y", "//linear", "\v", "\f", "\r", "\x00", "é", "\xff", "\u00a0", "a", "\t//line \"a\":7", "/*line 3*/", "//line\r", "\u2028", "\ufeff", "*/", "\\"}
	words := snake
	if prop == "C19" {
		words = rm
	}
	if r.Intn(6) == 0 {
		words = append(append([]string{}, snake...), rm...)
	}
	for i := 0; i < lines; i++ {
		if r.Intn(8) == 0 {
			b.WriteString(contexts[r.Intn(len(contexts))])
		}
		n := r.Intn([]int{1, 3, 6, 14}[r.Intn(4)])
		if r.Intn(300) == 0 {
			n = 30000 // a line longer than the buffers of line readers
		}
		if n == 30000 {
			w := []string{"xY", "x ", ".Aé", "ab\t"}[r.Intn(4)]
			if r.Intn(2) == 0 && prop == "C19" {
				b.WriteString("//line ")
			}
			if r.Intn(2) == 0 {
				b.WriteString("a_b ")
			}
			b.WriteString(strings.Repeat(w, n))
			b.WriteString(" a_b")
		} else {
			for ; n > 0; n-- {
				b.WriteString(words[r.Intn(len(words))])
			}
		}
		if i+1 < lines || r.Intn(2) == 0 {
			b.WriteString(nl)
		}
		if r.Intn(10) == 0 {
			nl = []string{"\n", "\r\n", "\n\n", "\n \n"}[r.Intn(4)]
		}
	}
	return b.Bytes()
}

// ---------------------------------------------------------------- misuse

// snapshot of a directory: names, kinds, contents
func snapshot(dir string) string {
	var s strings.Builder
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		fmt.Fprint(&s, p, i.Mode(), i.Size(), i.ModTime().UnixNano())
		if i.Mode().IsRegular() {
			c, _ := os.ReadFile(p)
			fmt.Fprintf(&s, "%q", c)
		}
		return nil
	})
	return s.String()
}

func checkMisuse(t *tool, dir string) {
	must(os.MkdirAll(dir, 0o755))
	content := []byte("package a_b\n//line x.rl:1\nvar en_main = 1\n")
	a, b := filepath.Join(dir, "a.go"), filepath.Join(dir, "b.go")
	sub := filepath.Join(dir, "sub")
	link := filepath.Join(dir, "dangling")
	loop := filepath.Join(dir, "loop")
	closed := filepath.Join(dir, "closed.go")
	must(os.WriteFile(a, content, 0o644))
	must(os.WriteFile(b, content, 0o644))
	must(os.WriteFile(closed, content, 0))
	must(os.MkdirAll(sub, 0o755))
	must(os.WriteFile(filepath.Join(sub, "c.go"), content, 0o644))
	must(os.Symlink(filepath.Join(dir, "nowhere"), link))
	must(os.Symlink(loop, loop))
	nobody := &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
	cases := []struct {
		name string
		cred *syscall.Credential
		args []string
	}{
		{"no argument", nil, nil},
		{"two files", nil, []string{a, b}},
		{"the same file twice", nil, []string{a, a}},
		{"three arguments", nil, []string{a, b, "x"}},
		{"no such file", nil, []string{filepath.Join(dir, "missing.go")}},
		{"no such directory", nil, []string{filepath.Join(dir, "missing", "x.go")}},
		{"a directory", nil, []string{sub}},
		{"the directory with files", nil, []string{dir}},
		{"an empty name", nil, []string{""}},
		{"a dangling link", nil, []string{link}},
		{"a link to itself", nil, []string{loop}},
		{"a file as directory", nil, []string{a + "/x"}},
		{"an option and a file", nil, []string{"-w", a}},
		{"a file and an empty name", nil, []string{a, ""}},
		{"an unreadable file", nobody, []string{closed}},
		{"an unreadable file, with one that is not", nobody, []string{closed, b}},
	}
	for _, c := range cases {
		before := snapshot(dir)
		code := t.run(c.cred, dir, c.args...)
		if code == -2 && c.cred != nil {
			rep.add("misuse_not_possible_here", 1) // no way to become another user
			continue
		}
		same := snapshot(dir) == before
		e := &Event{Op: "toolbad", Exit: code, Keep: same}
		rep.add("misuses", 1)
		if code == 0 || code == -1 || code == -2 || !same {
			rep.suspect(fmt.Sprintf("%s with %s: exit %d, nothing changed: %v", t.name, c.name, code, same), "", c.name, single(e))
		} else {
			trace.put(e)
		}
	}
}
