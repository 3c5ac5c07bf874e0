package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

// ---- C07: no raw control characters ----

// controlTokens splits terminal output into its control tokens (single control
// characters and escape sequences) and the rest.
func controlTokens(b []byte) (toks []string, text string) {
	var sb strings.Builder
	for i := 0; i < len(b); {
		r, n := utf8.DecodeRune(b[i:])
		switch {
		case r == 0x1B:
			j := i + 1
			if j < len(b) && b[j] == '[' {
				j++
				for j < len(b) && (b[j] < 0x40 || b[j] > 0x7E) && b[j] >= 0x20 {
					j++
				}
				if j < len(b) {
					j++
				}
			} else if j < len(b) && b[j] == ']' {
				for j < len(b) && b[j] != 7 {
					j++
				}
				if j < len(b) {
					j++
				}
			} else if j < len(b) {
				j++
			}
			toks = append(toks, string(b[i:j]))
			i = j
			continue
		case r < 0x20 || r == 0x7F || (r >= 0x80 && r < 0xA0):
			toks = append(toks, string(r))
		default:
			sb.Write(b[i : i+n])
		}
		i += n
	}
	return toks, sb.String()
}

// hostile fragments that would drive the terminal if they reached it raw
var hostile = []string{
	"\x1b[31m", "\x1b[5;5H", "\x1b]0;pwn\x07", "\x1b[2J", "\x1bc", "\x1b[6n", "\x1b[?25l",
	"\x08", "\r", "\n", "\x0b", "\x0c", "\x0e", "\x0f", "\x05", "\x07", "\x00", "\x7f", "\x1b", "\x1d", "\x18",
	"\u009b31m", "\u0085", "\u008d", "\u0090", "\u009d0;x", "\u0080", "\u009f", "\x01", "\x11",
}

type c07run struct {
	out  []byte
	rows []string
	text string
	s    *Sess
}

type c07script struct {
	w       int
	def     string
	cursor  int
	hist    []string
	predict bool
	steps   []kstep
	pastes  []string
}

func (c *Ctx) c07play(sc *c07script, tr func(string) string) (r c07run) {
	s := newSess(c, sc.w, "> ")
	s.out.keep = true
	s.ed.Default = tr(sc.def)
	s.ed.Cursor = sc.cursor
	var h hist
	for _, e := range sc.hist {
		h = append(h, tr(e))
	}
	s.ed.History = h
	if sc.predict {
		s.ed.PredictColor = readline.PredictColorBlueItalic
	}
	paste := 0
	s.ed.BindKey(keys.Code(pasteKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		b.InsertAndRepaint(tr(sc.pastes[paste]))
		paste++
		return readline.CONTINUE
	}))
	s.ed.BindKey(keys.Code(repaintNLKey), readline.CmdRepaintOnNewline)
	for _, k := range sc.steps {
		if k.op == "quoted" {
			k.key = tr(k.key)
		}
		s.queue = append(s.queue, kstep{key: k.key, op: k.op})
	}
	s.atWait = func(k *kstep, oc int) {
		r.rows = append(r.rows, fmt.Sprintf("%d,%d:%s", s.vt.cy, s.vt.cx, s.vt.RowText(s.vt.cy)))
	}
	res := s.runChecked()
	r.out, r.text, r.s = s.out.all, res.text, s
	return
}

func init() {
	reg("C07", c07)
	reg("C09", c09)
	reg("C10", c10)
}

func c07(c *Ctx) {
	twin := c.P(2, 3)
	// the twin replaces each control character by a wide character (a space by a wide space)
	space := pick(c.RNG, []rune{'\n', '\r', 0x0B, 0x0C})
	toWide := map[rune]rune{}
	for i := rune(0); i < 0x20; i++ {
		switch i {
		case '\t', '\n', '\r', 0x0B, 0x0C:
		default:
			toWide[i] = 0x4E00 + i
		}
	}
	toWide[space] = 0x3000
	back := map[rune]string{}
	for k, v := range toWide {
		back[v] = "^" + string(k^0x40)
	}
	p := c.profile(2)
	if twin {
		p = &profile{sets: [][]rune{alphabets["ascii"], alphabets["words"], []rune("漢字かab é\t\u0080\u009b\u009d")}}
	}
	gen := func(max int) string {
		var sb strings.Builder
		for i := c.N(max + 1); i > 0; i-- {
			if c.P(1, 3) {
				sb.WriteString(pick(c.RNG, hostile))
			} else {
				sb.WriteString(p.text(c, 4))
			}
		}
		t := sb.String()
		if twin {
			t = strings.Map(func(r rune) rune {
				switch {
				case r == '\n' || r == '\r' || r == 0x0B || r == 0x0C:
					return space
				case r == 0x3000 || 0x4E00 <= r && r < 0x4E20: // the replacements
					return 'a'
				}
				return r
			}, t)
		}
		return t
	}
	sc := &c07script{w: pick(c.RNG, []int{80, 40, 24, 200}), predict: c.P(1, 2)}
	sc.def = gen(6)
	sc.cursor = c.N(10)
	for i := c.N(5); i > 0; i-- {
		sc.hist = append(sc.hist, gen(8))
	}
	var dummy Sess
	dummy.c = c
	for i := c.Range(3, 25); i > 0; i-- {
		switch k := c.N(20); {
		case k < 5:
			for _, r := range gen(2) {
				sc.steps = append(sc.steps, kstep{key: pick(c.RNG, quoteKeys), op: "quote"}, kstep{key: string(r), op: "quoted"})
			}
		case k < 8:
			sc.steps = append(sc.steps, kstep{key: string(pick(c.RNG, asciiLetters)), op: "self"})
		case k < 10:
			sc.pastes = append(sc.pastes, gen(5))
			sc.steps = append(sc.steps, kstep{key: pasteKey, op: "paste"})
		case k < 12:
			sc.steps = append(sc.steps, kstep{key: "\x12", op: "isearch"})
			for j := c.N(3); j > 0; j-- {
				sc.steps = append(sc.steps, kstep{key: string(pick(c.RNG, asciiLetters)), op: "search"})
			}
			if c.P(1, 3) {
				sc.steps = append(sc.steps, kstep{key: pick(c.RNG, []string{"\x12", "\x13", "\x01", "\u0085"}), op: "search"})
			}
			sc.steps = append(sc.steps, kstep{key: pick(c.RNG, []string{"\r", "\x07"}), op: "isearch-end"})
		default:
			op := pick(c.RNG, []string{"bol", "eol", "bchar", "fchar", "bchar", "fchar", "bdel", "del", "swap", "bword", "fword", "prev", "prev", "next", "undo", "wordrubout", "clear", "killline", "linediscard"})
			sc.steps = append(sc.steps, kstep{key: pick(c.RNG, keysOf[op]), op: op})
		}
	}
	c.logf("width %d twin %v default %q history %q prediction %v pastes %q", sc.w, twin, sc.def, sc.hist, sc.predict, sc.pastes)
	id := func(s string) string { return s }
	a := c.c07play(sc, id)
	if c.failed() {
		return
	}
	toks, _ := controlTokens(a.out)
	seen := map[string]int{}
	for _, t := range toks {
		seen[t]++
		c.stat("control_tokens", 1)
		r, _ := utf8.DecodeRuneInString(t)
		switch r {
		case 0x1B, '\n', '\r', '\b', 0x07:
		default:
			c.failf("the raw control character %q was sent to the terminal", t)
			return
		}
		for _, x := range []string{"\x1b[31m", "\x1b[5;5H", "\x1bc", "\x1b[6n", "\x1b]"} {
			if strings.HasPrefix(t, x) {
				c.failf("the sequence %q of the content was sent to the terminal", t)
				return
			}
		}
	}
	c.eval("raw|" + string(a.out))
	if !utf8.Valid(a.out) {
		c.failf("the output is not valid UTF-8: %q", tailBytes(a.out, 200))
		return
	}
	if !twin {
		c.sample("%d bytes of output, tokens %q", len(a.out), keysSorted(seen))
		return
	}
	b := c.c07play(sc, func(t string) string {
		return strings.Map(func(r rune) rune {
			if w, ok := toWide[r]; ok {
				return w
			}
			return r
		}, t)
	})
	if c.failed() {
		return
	}
	toksB, _ := controlTokens(b.out)
	seenB := map[string]int{}
	for _, t := range toksB {
		seenB[t]++
	}
	for t, n := range seen {
		if n == seenB[t] {
			continue
		}
		if seenB[t] == 0 || len(t) == 1 {
			c.failf("control token %q sent %d times, but %d times when the control characters of the content are replaced by printable ones", t, n, seenB[t])
			return
		}
	}
	show := func(t string) string {
		var sb strings.Builder
		for _, r := range t {
			if v, ok := back[r]; ok {
				sb.WriteString(v)
			} else {
				sb.WriteRune(r)
			}
		}
		return sb.String()
	}
	for i := range a.rows {
		if i >= len(b.rows) {
			break
		}
		c.eval("row|" + a.rows[i])
		if strings.ReplaceAll(a.rows[i], " ", "") != strings.ReplaceAll(show(b.rows[i]), " ", "") {
			c.failf("after %d keys the row shows %q; with the control characters in visible form it should be %q", i, a.rows[i], show(b.rows[i]))
			return
		}
	}
	c.stat("twins", 1)
	c.sample("%d key waits; tokens %q", len(a.rows), keysSorted(seen))
}

func tailBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func keysSorted(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

// ---- C09: history ----

var histOps = []weighted{
	{"self", 25}, {"prev", 40}, {"next", 30}, {"bdel", 10}, {"bchar", 4}, {"killwhole", 2}, {"linediscard", 2}, {"killline", 2},
	{"wordrubout", 2}, {"undo", 8}, {"paste", 4}, {"swap", 3}, {"isearch", 2}, {"del", 2}, {"bol", 2},
}

func c09(c *Ctx) {
	p := c.profile(c.N(3))
	s := newSess(c, c.termWidth(), "> ")
	cont := &simplehistory.Container{}
	var h []string
	use := c.P(2, 3)
	add := func(t string) {
		h = append(h, t)
		cont.Add(t)
	}
	for i := c.entries(8); i > 0; i-- {
		if len(h) > 0 && c.P(1, 6) {
			add(pick(c.RNG, h))
		} else {
			add(p.long(c, 8))
		}
	}
	if use {
		s.ed.History = cont
	} else {
		s.ed.History = hist(h)
	}
	s.ed.HistoryCycling = c.P(1, 2)
	var text string
	s.bindCommon(&text)
	sessions := c.Range(1, 3)
	for n := 0; n < sessions && !c.failed(); n++ {
		c.logf("session %d: history %q cycling %v", n, h, s.ed.HistoryCycling)
		s.last, s.queue, s.is, s.ended, s.stopped, s.B = nil, nil, nil, false, false, nil
		s.ed.Default = p.text(c, 4)
		s.m = NewModel(c.Caps, s.ed.Default, 0, h)
		hp := len(h)
		kept := map[int]string{}
		shown := s.ed.Default // text at the previous wait
		entry := func(i int) string {
			if t, ok := kept[i]; ok {
				return t
			}
			if i < len(h) {
				return h[i]
			}
			return ""
		}
		pend := false
		keysLeft := c.Range(5, c.size(50))
		s.atWait = func(k *kstep, oc int) {
			c.stat("op_"+k.op, 1)
			got := s.B.String()
			if (k.op == "prev" || k.op == "next") && pend {
				s.stopped = true // an unfinished composed character, judged elsewhere
				return
			}
			want := ""
			switch k.op {
			case "prev", "next":
				to := hp
				if k.op == "next" {
					if hp < len(h) {
						to = hp + 1
					}
				} else if hp > 0 {
					to = hp - 1
				} else if s.ed.HistoryCycling {
					to = len(h)
				}
				if to == hp {
					want = shown
					c.stat("stayed", 1)
				} else {
					kept[hp] = shown
					if hp < len(h) && shown != h[hp] {
						c.stat("edited_entry_left", 1)
					}
					want = entry(to)
					if _, ok := kept[to]; ok {
						c.stat("revisited", 1)
					}
					hp = to
				}
				c.eval(fmt.Sprint(k.op, "|", hp, "|", want, "|", shown))
				if got != want {
					c.failf("%s from entry %d: the line is %q, want %q (history %q, line before %q)", k.op, hp, got, want, h, shown)
				}
				if us := s.cells(); s.B.Cursor > len(us) {
					c.failf("cursor %d outside the line %q", s.B.Cursor, got)
				}
			}
			shown = got
			if s.is == nil {
				s.m.cells, s.m.cur = s.cells(), s.B.Cursor
			}
			pend = s.m.pending != ""
		}
		s.gen = func() []kstep {
			if keysLeft--; keysLeft <= 0 {
				return nil
			}
			if c.P(1, 12) {
				// a long way up or down
				var steps []kstep
				op := pick(c.RNG, []string{"prev", "prev", "next"})
				for i := c.N(c.size(10)); i > 0; i-- {
					steps = append(steps, s.opStep(op))
				}
				return append(steps, s.opStep(op))
			}
			op := pickOp(c.RNG, histOps)
			switch op {
			case "paste":
				return []kstep{s.pasteStep(&text, p.text(c, 6))}
			case "isearch":
				return s.isearchSteps([]rune(strings.Map(func(r rune) rune {
					if r < ' ' || r >= 0x7F {
						return -1
					}
					return r
				}, p.text(c, 2))), pick(c.RNG, []string{"\r", "\x07"}))
			}
			return s.steps(op, p)
		}
		r := s.runChecked()
		if c.failed() {
			return
		}
		if r.err == nil && r.text != shown && !pend {
			c.failf("ReadLine returned %q, the line was %q", r.text, shown)
		}
		// the container is as it was
		if s.ed.History.Len() != len(h) {
			c.failf("the history has %d entries, %d were added", s.ed.History.Len(), len(h))
			return
		}
		for i, t := range h {
			if got := s.ed.History.At(i); got != t {
				c.failf("history entry %d is %q, added was %q", i, got, t)
				return
			}
		}
		c.eval(fmt.Sprint("container|", h))
		if use && r.err == nil {
			add(r.text)
			c.stat("lines_added", 1)
		}
	}
	c.sample("%d entries, cycling %v, %d key waits", len(h), s.ed.HistoryCycling, s.waits)
}

// ---- C10: incremental search ----

var searchAlpha = []rune("abcABC xyz12éÉ漢字бБ\u3000\u00A0😀")

func c10(c *Ctx) {
	w := pick(c.RNG, []int{80, 40, 60, 30, 120})
	searchAlpha := searchAlpha
	if c.P(2, 3) {
		i := c.N(len(searchAlpha) - 6)
		searchAlpha = searchAlpha[i : i+c.Range(2, 6)]
	}
	s := newSess(c, w, "> ")
	s.top = 2
	rnd := func(max int) string {
		rs := make([]rune, c.N(max+1))
		for i := range rs {
			if c.P(1, 60) {
				rs[i] = pick(c.RNG, []rune("\x01\x1b\u0085\u009b\x7f"))
			} else {
				rs[i] = pick(c.RNG, searchAlpha)
			}
		}
		return string(rs)
	}
	var h hist
	for i := c.entries(9); i > 0; i-- {
		if len(h) > 0 && c.P(1, 4) {
			h = append(h, pick(c.RNG, h)) // duplicates
		} else {
			h = append(h, rnd(c.size(pick(c.RNG, []int{2, 6, 12, 50}))))
		}
	}
	s.ed.History = h
	s.ed.Default = rnd(c.size(20))
	s.ed.Cursor = c.N(c.size(20))
	s.m = NewModel(c.Caps, s.ed.Default, s.ed.Cursor, h)
	c.logf("width %d history %q default %q", w, []string(h), s.ed.Default)
	var is *ISearch
	var before string
	var beforeCur int
	checkRow := func(k string) {
		us := c.Caps.Segment(is.drawn())
		y := s.vt.cy
		c.eval(fmt.Sprint("row|", is.drawn()))
		if got := s.vt.Span(y, 0, 2); got != ">" {
			c.failf("in the search the prompt is shown as %q", got)
			return
		}
		// the row shows a beginning of the text, as much as clearly fits at least
		x, ok := 2, false
		for n := 0; ; n++ {
			if (n == len(us) || x-2+us[n].width(0) >= s.viewWidth()-4) && s.vt.EmptyFrom(y, x) {
				ok = true
				break
			}
			if n == len(us) {
				break
			}
			uw := us[n].width(0)
			if x+uw > w || s.vt.Span(y, x, x+uw) != us[n].visible() {
				break
			}
			x += uw
		}
		if !ok {
			c.failf("after %q in the search the row shows %q, want %q", k, s.vt.RowText(y), "> "+is.drawn())
		}
	}
	endCheck := func(k string) {
		got, cur := s.B.String(), s.B.Cursor
		switch k {
		case "\r":
			c.stat("accepted", 1)
			if got != is.found {
				c.failf("Enter in the search gave %q, found was %q", got, is.found)
			} else if cur != len(s.B.Buffer) {
				c.failf("after Enter in the search the cursor is at %d of %d", cur, len(s.B.Buffer))
			}
		default:
			c.stat("cancelled", 1)
			if got != before || cur != beforeCur {
				c.failf("after cancelling the search with %q the line is %q (cursor %d), before it was %q (%d)", k, got, cur, before, beforeCur)
			}
		}
		c.eval(fmt.Sprint("end|", k, "|", got, "|", cur))
		if why := s.screenMatches(s.cells(), cur, nil); why != "" {
			c.failf("after the search: %s", why)
		}
	}
	rounds := c.Range(1, 4)
	s.atWait = func(*kstep, int) {}
	round := func() []kstep {
		var q []kstep
		q = append(q, kstep{key: "\x12", op: "isearch", apply: func() int {
			is = s.m.startISearch()
			checkRow("^R")
			return oContinue
		}})
		changed, n := false, 0
		for i := c.Range(0, c.size(9)); i > 0; i-- {
			k := string(pick(c.RNG, searchAlpha))
			switch x := c.N(10); {
			case x < 2 && changed:
				k = "\x12"
			case x < 4 && changed:
				k = "\x13"
			case x < 5 && n > 0:
				k = pick(c.RNG, []string{"\b", "\x7F"})
			case x < 6:
				k = pick(c.RNG, []string{"\x01", "\x05", "\x19", "\u0085"})
			case x < 8 && len(h) > 0:
				if e := []rune(pick(c.RNG, h)); len(e) > 0 {
					k = string(e[c.N(len(e))])
				}
			}
			switch k {
			case "\b", "\x7F":
				if n == 0 {
					continue
				}
				n--
				changed = true
			case "\x1b":
				continue
			case "\x12", "\x13", "\x01", "\x05", "\x19", "\u0085", "\u009b":
			default:
				n++
				changed = true
			}
			q = append(q, kstep{key: k, op: "search", apply: func() int {
				is.key(k)
				if is.found != "" {
					c.stat("found", 1)
				} else {
					c.stat("not_found", 1)
				}
				if k == "\x12" || k == "\x13" {
					c.stat("steps", 1)
				}
				checkRow(k)
				return oContinue
			}})
		}
		end := pick(c.RNG, []string{"\r", "\r", "\x07", "\x03", "\x1B"})
		q = append(q, kstep{key: end, op: "search-end", apply: func() int {
			endCheck(end)
			return oContinue
		}})
		if end == "\r" && c.P(1, 2) {
			q = append(q, kstep{key: "\x1F", op: "undo", apply: func() int {
				got := s.B.String()
				c.stat("undone", 1)
				c.eval("undo|" + got)
				if got != before && !(is.found == "" && before == "") {
					c.failf("undo after Enter in the search gave %q, before the search the line was %q", got, before)
				}
				return oContinue
			}})
		}
		return q
	}
	s.gen = func() []kstep {
		if rounds--; rounds < 0 {
			return nil
		}
		// remember the line when the search starts
		before, beforeCur = s.B.String(), s.B.Cursor
		if rounds >= 1 && c.P(1, 2) {
			op := pick(c.RNG, []string{"bchar", "bol", "bdel", "prev", "eol"})
			rounds++
			if c.P(1, 2) {
				rounds--
			}
			return []kstep{{key: keysOf[op][0], op: op}}
		}
		return round()
	}
	s.runChecked()
	c.sample("%d entries, %d key waits", len(h), s.waits)
}
