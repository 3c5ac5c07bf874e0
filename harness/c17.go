package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/nyaosorg/go-readline-ny/completion"
	"github.com/nyaosorg/go-readline-ny/keys"
	"golang.org/x/sys/unix"
)

// ---- C17: completion ----

const compSpaces = " \t\r\n\v\f"

// refWord finds the word before the cursor: its start, its text without quotation
// marks and the words before it. behindDelim: the cursor stands right behind a
// delimiter, where nothing is claimed.
func refWord(us []Unit, cur int, quotes, del string) (start int, fields []string, behindDelim bool) {
	open := map[string]bool{}
	inQuote := func() bool {
		for _, v := range open {
			if v {
				return true
			}
		}
		return false
	}
	var sb strings.Builder
	inWord := false
	start = -1
	for i := 0; i < cur; i++ {
		c := us[i].S
		behindDelim = false
		switch {
		case strings.Contains(quotes, c):
			if !inWord {
				inWord, start = true, i
			}
			open[c] = !open[c]
		case inQuote():
			sb.WriteString(c)
		case strings.Contains(compSpaces, c):
			if inWord {
				fields = append(fields, sb.String())
				sb.Reset()
				inWord = false
			}
		case strings.Contains(del, c):
			fields = append(fields, sb.String(), c)
			sb.Reset()
			inWord = false
			behindDelim = true
		default:
			if !inWord {
				inWord, start = true, i
			}
			sb.WriteString(c)
		}
	}
	if !inWord {
		start = cur
	}
	return start, append(fields, sb.String()), behindDelim
}

func foldPrefix(s, prefix string) bool {
	a, b := []rune(s), []rune(prefix)
	return len(a) >= len(b) && strings.EqualFold(string(a[:len(b)]), prefix)
}

// refCommon returns how many characters all candidates share, ignoring case.
func refCommon(list []string) int {
	n := 0
	first := []rune(list[0])
	for n < len(first) {
		for _, s := range list {
			r := []rune(s)
			if n >= len(r) || !strings.EqualFold(string(r[n]), string(first[n])) {
				return n
			}
		}
		n++
	}
	return n
}

// compExpect says what completing word to one of list has to insert in its place:
// one of want; nil means the text stays as it is.
func compExpect(word string, list []string, quotes, del, postfix string) (want []string, matched []int) {
	for i, s := range list {
		if foldPrefix(s, word) {
			matched = append(matched, i)
		}
	}
	if len(matched) == 0 {
		return nil, matched
	}
	var ms []string
	special := false
	for _, i := range matched {
		ms = append(ms, list[i])
		special = special || strings.ContainsAny(list[i], compSpaces+del)
	}
	q := ""
	if special && quotes != "" {
		q = quotes[:1]
	}
	if len(ms) == 1 {
		if strings.EqualFold(ms[0], word) {
			return nil, matched
		}
		return []string{q + ms[0] + q + postfix}, matched
	}
	n := refCommon(ms)
	if n == len([]rune(word)) {
		return nil, matched
	}
	// spelled like the shortest candidate
	bytes, runes := len(ms[0]), len([]rune(ms[0]))
	for _, s := range ms {
		bytes, runes = min(bytes, len(s)), min(runes, len([]rune(s)))
	}
	for _, s := range ms {
		if len(s) == bytes || len([]rune(s)) == runes {
			want = append(want, q+string([]rune(s)[:n]))
		}
	}
	return want, matched
}

type spyList struct {
	quotes, del string
	full, base  []string
	calls       [][]string
}

func (l *spyList) Delimiters() string { return l.del }
func (l *spyList) Enclosures() string { return l.quotes }
func (l *spyList) List(fields []string) ([]string, []string) {
	l.calls = append(l.calls, append([]string(nil), fields...))
	return l.full, l.base
}

var haveTTY = -1

// controllingTTY gives this process a terminal of its own (the listing asks /dev/tty
// for its size).
func controllingTTY() bool {
	if haveTTY >= 0 {
		return haveTTY == 1
	}
	haveTTY = 0
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		return false
	}
	if unix.IoctlSetPointerInt(int(m.Fd()), unix.TIOCSPTLCK, 0) != nil {
		return false
	}
	n, err := unix.IoctlGetInt(int(m.Fd()), unix.TIOCGPTN)
	if err != nil {
		return false
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		return false
	}
	if unix.IoctlSetWinsize(int(s.Fd()), unix.TIOCSWINSZ, &unix.Winsize{Row: 24, Col: 200}) != nil {
		return false
	}
	if unix.IoctlSetInt(int(s.Fd()), unix.TIOCSCTTY, 0) != nil {
		return false
	}
	keepOpen = append(keepOpen, m, s)
	haveTTY = 1
	return true
}

var keepOpen []*os.File

func flipCase(c *Ctx, s string) string {
	rs := []rune(s)
	for i, r := range rs {
		if c.P(1, 4) {
			if f := unicode.SimpleFold(r); utf8.RuneLen(f) == utf8.RuneLen(r) && f != r {
				rs[i] = f
			} else if unicode.IsUpper(r) {
				rs[i] = unicode.ToLower(r)
			} else {
				rs[i] = unicode.ToUpper(r)
			}
		}
	}
	return string(rs)
}

var ansiSeq = regexp.MustCompile("\x1b\\[[0-9;?]*[a-zA-Z]")

const compKey = "\x1B[comp~"

// compStep presses the completion key and judges the outcome. expectList: the
// candidates are to be listed when there is nothing to extend.
type compCheck struct {
	s      *Sess
	quotes string
	del    string
	post   string
	lists  bool
}

func (k *compCheck) judge(c *Ctx, before string, bcur int, bus []Unit, list, base []string, out []byte) bool {
	s := k.s
	start, fields, _ := refWord(bus, bcur, k.quotes, k.del)
	word := fields[len(fields)-1]
	want, matched := compExpect(word, list, k.quotes, k.del, k.post)
	head, tail := unitsText(bus[:start]), unitsText(bus[bcur:])
	after := s.B.String()
	left := s.B.SubString(0, s.B.Cursor)
	c.eval(fmt.Sprint(word, "|", len(matched), "|", want, "|", after))
	situation := fmt.Sprintf("completing %q (cursor behind %q) with candidates %q", before, unitsText(bus[:bcur]), list)
	if want == nil {
		c.stat("kept", 1)
		if after != before || s.B.Cursor != bcur {
			c.failf("%s changed the line to %q (cursor %d), it should stay", situation, after, s.B.Cursor)
			return false
		}
		if len(matched) > 1 && k.lists {
			_, text := controlTokens(out)
			for _, i := range matched {
				if b := strings.TrimRight(strings.ReplaceAll(base[i], "\t", ""), " "); !strings.Contains(text, b) {
					c.failf("%s did not list %q but %q", situation, b, text)
					return false
				}
			}
			shown := map[string]bool{}
			for _, t := range strings.FieldsFunc(ansiSeq.ReplaceAllString(string(out), "\n"), func(r rune) bool { return r <= ' ' || unicode.IsSpace(r) }) {
				shown[t] = true
			}
			for i := range list {
				b := base[i]
				if b == "" || strings.ContainsAny(b, "^<>") || strings.IndexFunc(b, func(r rune) bool { return r <= ' ' || unicode.IsSpace(r) }) >= 0 ||
					strings.Contains(after, b) || strings.Contains("$", b) {
					continue
				}
				for _, m := range matched {
					if strings.Contains(base[m], b) {
						b = ""
						break
					}
				}
				if b != "" && shown[b] {
					c.failf("%s listed %q which does not match", situation, b)
					return false
				}
			}
			if controllingTTY() {
				c.stat("listed", 1)
			}
		}
		return true
	}
	for _, w := range want {
		if after == head+w+tail && left == head+w {
			if len(matched) == 1 {
				c.stat("single", 1)
			} else {
				c.stat("extended", 1)
			}
			return true
		}
	}
	c.failf("%s gave %q with the cursor behind %q; want %q%q%q", situation, after, left, head, want, tail)
	return false
}

func (c *Ctx) compLine(p []rune, quotes, del string) string {
	var sb strings.Builder
	word := func() {
		q := ""
		if quotes != "" && c.P(1, 3) {
			q = string(pick(c.RNG, []rune(quotes)))
		}
		sb.WriteString(q)
		for i := c.N(6); i > 0; i-- {
			if q != "" && c.P(1, 5) {
				sb.WriteString(pick(c.RNG, []string{" ", "  "}))
			}
			if q != "" && del != "" && c.P(1, 8) {
				sb.WriteRune(pick(c.RNG, []rune(del)))
			}
			sb.WriteRune(pick(c.RNG, p))
			if quotes != "" && c.P(1, 15) {
				sb.WriteRune(pick(c.RNG, []rune(quotes)))
			}
		}
		if c.P(3, 4) {
			sb.WriteString(q)
		}
	}
	for i := c.Range(1, 5); i > 0; i-- {
		word()
		switch {
		case del != "" && c.P(1, 4):
			sb.WriteRune(pick(c.RNG, []rune(del)))
		case c.P(3, 4):
			sb.WriteString(pick(c.RNG, []string{" ", "  ", "\t"}))
		}
	}
	if c.P(3, 4) {
		word()
	}
	return sb.String()
}

var compAlphas = [][]rune{
	[]rune("ab"), []rune("abAB"), []rune("aéÉbБб"), []rune("a漢字b"), []rune("aé😀b\U0001F468"), []rune("ÀàæÆx."), []rune("σςΣxβ"),
}

func c17(c *Ctx) {
	tty := controllingTTY()
	alpha := pick(c.RNG, compAlphas)
	quotes := pick(c.RNG, []string{`"'`, `"'`, `"`, `'`, ""})
	del := pick(c.RNG, []string{"&|><;", "=,", ":", ""})
	spy := &spyList{quotes: quotes, del: del}
	s := newSess(c, pick(c.RNG, []int{40, 80, 80, 200}), "$ ")
	s.top = 2
	s.ed.Default = c.compLine(alpha, quotes, del)
	nu := len(c.Caps.Segment(s.ed.Default))
	s.ed.Cursor = nu
	if c.P(1, 3) {
		s.ed.Cursor = c.N(nu + 1)
	}
	post := pick(c.RNG, []string{"", " ", " ", "=>"})
	lists := tty && c.P(1, 3)
	k := &compCheck{s: s, quotes: quotes, del: del, post: post, lists: lists}
	if lists {
		s.ed.BindKey(compKey, completion.CmdCompletionOrList{Completion: spy, Postfix: post})
	} else {
		s.ed.BindKey(compKey, completion.CmdCompletion{Completion: spy, Postfix: post})
	}
	s.ed.History = hist{}
	s.m = NewModel(c.Caps, s.ed.Default, s.ed.Cursor, nil)
	c.logf("line %q cursor %d quotes %q delimiters %q postfix %q", s.ed.Default, s.ed.Cursor, quotes, del, post)
	var before string
	var bcur int
	var bus []Unit
	rounds := c.Range(1, 4)
	s.gen = func() []kstep {
		if rounds--; rounds < 0 {
			return nil
		}
		before, bcur, bus = s.B.String(), s.B.Cursor, s.cells()
		_, fields, behind := refWord(bus, bcur, quotes, del)
		if behind || bcur == 0 {
			c.stat("not_claimed", 1)
			return []kstep{{key: string(pick(c.RNG, alpha)), op: "self"}}
		}
		word := fields[len(fields)-1]
		spy.full, spy.base, spy.calls = nil, nil, nil
		stem := word
		for i := c.N(c.size(3)); i > 0; i-- {
			stem += string(pick(c.RNG, alpha))
		}
		cands := pick(c.RNG, []int{0, 1, 1, 2, 2, 3, 5})
		if c.P(1, 25) {
			cands = c.Range(10, 120)
			c.stat("many_candidates", 1)
		}
		for i := cands; i > 0; i-- {
			w := pick(c.RNG, []string{stem, stem, stem, word})
			for j := c.N(4); j > 0; j-- {
				w += string(pick(c.RNG, alpha))
				if c.P(1, 8) {
					w += " "
				}
				if del != "" && c.P(1, 12) {
					w += string(pick(c.RNG, []rune(del)))
				}
			}
			if c.P(1, 5) {
				w = flipCase(c, w)
			}
			spy.full = append(spy.full, w)
		}
		for i := c.N(3); i > 0; i-- { // not matching, unless by chance
			w := ""
			for j := c.N(4); j > 0; j-- {
				w += string(pick(c.RNG, alpha))
			}
			at := c.N(len(spy.full) + 1)
			spy.full = append(spy.full[:at], append([]string{w}, spy.full[at:]...)...)
		}
		base := spy.full
		if c.P(1, 3) {
			spy.base = make([]string, len(spy.full))
			for i := range spy.base {
				spy.base[i] = fmt.Sprintf("<%d-%d>", rounds, i)
			}
			base = spy.base
		}
		c.logf("candidates %q", spy.full)
		steps := []kstep{{key: compKey, op: "complete", check: func() {
			if len(spy.calls) > 0 {
				got := spy.calls[0]
				if fmt.Sprint(got) != fmt.Sprint(fields) {
					c.failf("completing %q (cursor %d) asked for candidates of %q, the words are %q", before, bcur, got, fields)
					return
				}
			}
			if !k.judge(c, before, bcur, bus, spy.full, base, s.out.last) {
				return
			}
			us := s.cells()
			if !anyLoose(us) && maxUnit(us) <= s.viewWidth()-2 {
				if why := s.screenMatches(us, s.B.Cursor, nil); why != "" {
					c.failf("after completing %q the screen is wrong: %s", before, why)
				}
			}
		}}}
		if c.P(1, 2) {
			steps = append(steps, kstep{key: pick(c.RNG, keysOf["undo"]), op: "undo", check: func() {
				want, _ := compExpect(fields[len(fields)-1], spy.full, quotes, del, post)
				if want == nil {
					return
				}
				c.stat("undone", 1)
				if s.B.String() != before {
					c.failf("one undo after completing %q gave %q", before, s.B.String())
				}
			}})
			rounds = 0
		}
		return steps
	}
	s.atWait = func(*kstep, int) {}
	s.runChecked()
	c.sample("line %q, word completed with %q", before, spy.full)
}

// ---- C18: file candidates ----

type fnode struct {
	name string
	kind byte   // f file, d directory, l symlink, p fifo
	to   string // symlink target
	kids []*fnode
}

var fileAlphas = [][]rune{[]rune("ab"), []rune("abAB"), []rune("aA.é漢"), []rune("ab c-_"), []rune(".a"), []rune("σςΣäb")}

func (c *Ctx) tree(alpha []rune, depth int) []*fnode {
	var out []*fnode
	seen := map[string]bool{".": true, "..": true, "": true}
	n := pick(c.RNG, []int{0, 1, 1, 2, 4, 8})
	longest := 5
	if depth == 3 && c.P(1, 40) {
		n, longest = c.Range(20, 150), 60
		c.stat("large_directories", 1)
	} else if depth == 3 && c.P(1, 400) {
		n, longest = c.Range(1000, 2500), 30
		c.stat("huge_directories", 1)
	}
	for i := 0; i < n; i++ {
		w := ""
		for j := c.Range(1, longest); j > 0; j-- {
			w += string(pick(c.RNG, alpha))
		}
		w = strings.Trim(w, " ")
		if seen[w] {
			continue
		}
		seen[w] = true
		f := &fnode{name: w, kind: 'f'}
		switch x := c.N(12); {
		case x < 4 && depth > 0:
			f.kind = 'd'
			f.kids = c.tree(alpha, depth-1)
		case x < 6:
			f.kind = 'l'
			f.to = pick(c.RNG, []string{"/nonexistent/x", ".", "..", "self", w, "a", "b"})
		case x == 6:
			f.kind = 'p'
		}
		out = append(out, f)
	}
	return out
}

func makeTree(dir string, nodes []*fnode) error {
	for _, f := range nodes {
		p := filepath.Join(dir, f.name)
		var err error
		switch f.kind {
		case 'f':
			err = os.WriteFile(p, nil, 0o600)
		case 'd':
			if err = os.Mkdir(p, 0o700); err == nil {
				err = makeTree(p, f.kids)
			}
		case 'l':
			err = os.Symlink(f.to, p)
		case 'p':
			err = unix.Mkfifo(p, 0o600)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// refFiles lists what has to be offered for a typed path, using only names read by
// Readdirnames and Lstat.
func refFiles(typed string) []string {
	i := strings.LastIndexByte(typed, '/') + 1
	dir, base := typed[:i], typed[i:]
	list := func(dir, base string) (out []string) {
		d := dir
		if d == "" {
			d = "."
		}
		f, err := os.Open(d)
		if err != nil {
			return nil
		}
		defer f.Close()
		names, err := f.Readdirnames(-1)
		if err != nil {
			return nil
		}
		for _, n := range names {
			if !foldPrefix(n, base) {
				continue
			}
			full := dir + n
			if st, err := os.Lstat(filepath.Join(d, n)); err == nil && st.Mode()&(os.ModeDir|os.ModeSymlink) != 0 {
				full += "/"
			}
			out = append(out, full)
		}
		return
	}
	out := list(dir, base)
	if len(out) == 1 && strings.HasSuffix(out[0], "/") {
		out = append(out, list(out[0], "")...)
	}
	sort.Strings(out)
	return out
}

func c18(c *Ctx) {
	parent, err := os.MkdirTemp("", "rlmon18-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(parent)
	root := filepath.Join(parent, "root")
	if err := os.Mkdir(root, 0o700); err != nil {
		panic(err)
	}
	old, _ := os.Getwd()
	defer os.Chdir(old)
	alpha := pick(c.RNG, fileAlphas)
	nodes := c.tree(alpha, 3)
	if err := makeTree(root, nodes); err != nil {
		panic(err)
	}
	if err := os.Chdir(root); err != nil {
		panic(err)
	}
	var paths []string
	var walk func(prefix string, ns []*fnode)
	walk = func(prefix string, ns []*fnode) {
		paths = append(paths, prefix)
		for _, n := range ns {
			paths = append(paths, prefix+n.name)
			if n.kind == 'l' || n.kind == 'f' {
				paths = append(paths, prefix+n.name+"/")
			}
			if n.kind == 'd' {
				walk(prefix+n.name+"/", n.kids)
			}
		}
	}
	walk("", nodes)
	for i := 0; i < 12; i++ {
		t := pick(c.RNG, paths)
		switch c.N(9) {
		case 0:
			t = "./" + t
		case 1:
			t = root + "/" + t
		case 2:
			t = strings.ReplaceAll(t, "/", "//")
		case 3:
			t = "missing/" + t
		case 4:
			t = t + string(pick(c.RNG, alpha))
		case 5:
			t = pick(c.RNG, []string{".", "..", "", "./", "../", "../root/", "../ROOT", "../r"})
		}
		if rs := []rune(t); len(rs) > 0 && c.P(1, 2) {
			if cut := c.N(3); cut < len(rs) {
				t = string(rs[:len(rs)-cut])
			}
		}
		if i := strings.LastIndexByte(t, '/') + 1; c.P(1, 3) {
			t = t[:i] + flipCase(c, t[i:])
		}
		if t == "" && c.P(1, 2) {
			t = string(pick(c.RNG, alpha))
		}
		if strings.HasPrefix(t, "/") && !strings.HasPrefix(t, root+"/") {
			continue
		}
		want := refFiles(t)
		fields := []string{t}
		if c.P(1, 2) {
			fields = []string{"ls", "-l", t}
		}
		full, base := completion.File{}.List(fields)
		c.eval(fmt.Sprint(t, "|", want))
		got := append([]string(nil), full...)
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.logf("tree %q", paths)
			c.failf("candidates for %q are %q, the directory says %q", t, got, want)
			return
		}
		if len(base) != len(full) {
			c.failf("for %q there are %d candidates with %d base names", t, len(full), len(base))
			return
		}
		for i := range full {
			if !strings.HasSuffix(full[i], base[i]) || strings.Contains(strings.TrimSuffix(base[i], "/"), "/") {
				c.failf("for %q candidate %q has the base name %q", t, full[i], base[i])
				return
			}
		}
		c.stat(fmt.Sprintf("candidates_%d", min(len(full), 4)), 1)
		if len(full) > 1 && strings.HasSuffix(want[0], "/") && strings.HasPrefix(want[1], want[0]) {
			c.stat("only_directory", 1)
		}
		c.c18line(t, want)
		if c.failed() {
			c.logf("tree %q", paths)
			return
		}
	}
	c.sample("tree of %d paths %.300q", len(paths), paths)
}

// c18line completes the path in an editor.
func (c *Ctx) c18line(t string, cands []string) {
	if strings.ContainsAny(t, `"'`+compSpaces+"&|><;") {
		return
	}
	s := newSess(c, 200, "$ ")
	s.top = 2
	s.ed.Default = "ls " + t
	s.ed.Cursor = len(c.Caps.Segment(s.ed.Default))
	s.ed.BindKey(keys.Code(compKey), completion.CmdCompletion{Completion: completion.File{}, Postfix: " "})
	k := &compCheck{s: s, quotes: `"'`, del: "&|><;", post: " "}
	var before string
	var bcur int
	var bus []Unit
	done := false
	s.gen = func() []kstep {
		if done {
			return nil
		}
		done = true
		before, bcur, bus = s.B.String(), s.B.Cursor, s.cells()
		return []kstep{{key: compKey, op: "complete", check: func() {
			k.judge(c, before, bcur, bus, cands, cands, nil)
		}}}
	}
	s.atWait = func(*kstep, int) {}
	s.runChecked()
}

func init() {
	reg("C17", c17)
	reg("C18", c18)
}
