package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/completion"
	"github.com/nyaosorg/go-readline-ny/keys"
)

// ---- C16: syntax colouring ----

type recColoring struct {
	passes [][]rune
	n      int // index of the next code point within the pass
	salt   uint64
	cols   [][]readline.ColorSequence
	def    readline.ColorSequence
	early  bool // Next before any Init
}

var palette = []readline.ColorSequence{
	readline.SGR1(31), readline.SGR2(1, 32), readline.SGR3(33, 49, 1), readline.SGR4(0, 38, 5, 200),
	readline.ColorReset, readline.Red, readline.DarkCyan, readline.SGR1(7),
	// colours that differ from others in one code only
	readline.SGR1(32), readline.SGR2(1, 33), readline.SGR3(33, 49, 22), readline.SGR4(0, 38, 5, 201),
	readline.SGR3(33, 40, 1), readline.SGR4(0, 48, 5, 200), readline.SGR1(0).Add(38).Add(2).Add(1).Add(2).Add(3),
	readline.SGR1(0).Add(38).Add(2).Add(1).Add(2).Add(4), readline.SGR2(33, 49),
}

func (rc *recColoring) Init() readline.ColorSequence {
	rc.passes = append(rc.passes, nil)
	rc.cols = append(rc.cols, nil)
	rc.n = 0
	return rc.def
}

func (rc *recColoring) Next(r rune) readline.ColorSequence {
	if len(rc.passes) == 0 {
		rc.early = true
		return readline.ColorReset
	}
	k := len(rc.passes) - 1
	rc.passes[k] = append(rc.passes[k], r)
	if r == readline.CursorPositionDummyRune {
		return palette[7]
	}
	h := (uint64(r)*0x9E3779B97F4A7C15 ^ uint64(rc.n/3)*0xC2B2AE3D27D4EB4F ^ rc.salt) >> 17
	rc.n++
	col := palette[h%uint64(len(palette))]
	rc.cols[k] = append(rc.cols[k], col)
	return col
}

func sgrOf(c readline.ColorSequence) string {
	var sb strings.Builder
	c.WriteTo(&sb)
	return strings.TrimSuffix(strings.TrimPrefix(sb.String(), "\x1B["), "m")
}

func c16(c *Ctx) {
	rc := &recColoring{salt: c.next(), def: pick(c.RNG, palette)}
	checked := 0
	cfg := screenCfg{ops: screenOps, each: func(s *Sess, k *kstep) {
		checked++
		got := []rune(s.B.String())
		want := append([]rune{}, []rune(s.B.SubString(0, s.B.Cursor))...)
		want = append(want, readline.CursorPositionDummyRune)
		want = append(want, []rune(s.B.SubString(s.B.Cursor, len(s.B.Buffer)))...)
		if rc.early {
			c.failf("the colouring was asked for a colour before being initialised")
			return
		}
		for _, p := range rc.passes {
			marks := 0
			for _, r := range p {
				if r == readline.CursorPositionDummyRune {
					marks++
				}
			}
			if marks != 1 {
				c.failf("after %s: a painting pass gave the colouring %q with %d cursor markers", k.op, string(p), marks)
				return
			}
			c.stat("passes", 1)
		}
		n := len(rc.passes)
		// erasing to the end of the row needs no painting pass
		if n > 0 && len(got) == 0 && k.op != "killline" && k.op != "killwhole" {
			c.stat("empty_lines", 1)
			if s.vt.SGR != sgrOf(rc.def) {
				c.failf("after %s, with an empty line: the colour in force is %q, the default colour is %q", k.op, s.vt.SGR, sgrOf(rc.def))
				return
			}
		}
		if n == 0 || k.op == "killline" || k.op == "killwhole" || len(got) == 0 {
			rc.passes, rc.cols = nil, nil
			return
		}
		last := rc.passes[n-1]
		cols := rc.cols[n-1]
		c.eval(fmt.Sprint("pass|", string(last)))
		if string(last) != string(want) {
			c.failf("after %s: the colouring was given %q, the line with the cursor marker is %q", k.op, string(last), string(want))
			return
		}
		if s.vt.SGR != sgrOf(rc.def) {
			c.failf("after %s: the colour in force is %q, the default colour is %q", k.op, s.vt.SGR, sgrOf(rc.def))
			return
		}
		// colours on the screen, from the first visible unit on
		us := s.cells()
		pos := make([]int, len(us)+1)
		runes := make([]int, len(us)+1)
		for i, u := range us {
			pos[i+1] = pos[i] + u.width(pos[i])
			runes[i+1] = runes[i] + len([]rune(u.S))
		}
		best := ""
		ok := false
		for vs := 0; vs <= s.B.Cursor && !ok; vs++ {
			if pos[s.B.Cursor]-pos[vs] != s.vt.cx-s.top {
				continue
			}
			best = ""
			for i := vs; i < len(us); i++ {
				x := s.top + pos[i] - pos[vs]
				if x >= s.vt.W || s.vt.rows[s.vt.cy][x].s == "" {
					break
				}
				if us[i].kind == kTab {
					continue // painted as spaces, their colour cannot be seen
				}
				match := false
				for _, col := range cols[runes[i]:runes[i+1]] {
					match = match || sgrOf(col) == s.vt.rows[s.vt.cy][x].sgr
				}
				if !match {
					best = fmt.Sprintf("unit %d (%q) is painted in %q, the colouring returned %q", i, us[i].S, s.vt.rows[s.vt.cy][x].sgr, sgrOf(cols[runes[i]]))
					break
				}
				c.stat("coloured_cells", 1)
			}
			ok = best == ""
		}
		if !ok && best != "" {
			c.failf("after %s: %s; line %q", k.op, best, string(got))
		}
		rc.passes, rc.cols = nil, nil
	}}
	_, r := c.screenSession(c.N(3), cfg, func(x *Sess) {
		x.ed.Coloring = rc
		if c.P(1, 3) {
			// a prompt that leaves its colour in force
			x.prompt += "\x1B[35m"
			x.ed.PromptWriter = func(w io.Writer) (int, error) { return io.WriteString(w, x.prompt) }
		}
		if x.ed.Default != "" && strings.ContainsRune(x.ed.Default, readline.CursorPositionDummyRune) {
			x.ed.Default = "abc"
		}
	})
	c.sample("%d waits judged, result %q", checked, r.text)
}

// c16twin compares a coloured session with a monochrome one.
func c16twin(c *Ctx) {
	p := c.profile(c.N(3))
	var ks []string
	for i := c.Range(3, 40); i > 0; i-- {
		if c.P(2, 3) {
			if r := p.rune(c); r >= ' ' && r != 0x7F {
				ks = append(ks, string(r))
			}
		} else {
			op := pick(c.RNG, []string{"bol", "eol", "bchar", "fchar", "bdel", "del", "swap", "bword", "fword", "killline", "undo", "wordrubout", "clear", "prev"})
			ks = append(ks, keysOf[op][0])
		}
	}
	w := c.termWidth()
	def := p.text(c, 12)
	h := hist{p.text(c, 12), p.text(c, 6)}
	c.logf("keys %q width %d default %q", ks, w, def)
	play := func(col readline.Coloring) (rows []string, res string) {
		s := newSess(c, w, "> ")
		s.ed.Coloring = col
		s.ed.Default = def
		s.ed.History = h
		for _, k := range ks {
			s.queue = append(s.queue, kstep{key: k, op: "key"})
		}
		loose := false
		s.atWait = func(*kstep, int) {
			row := fmt.Sprint(s.vt.cx, ":", s.vt.RowText(s.vt.cy))
			if loose = loose || anyLoose(s.cells()); loose {
				// the columns of such a unit are not defined, nor those of what is drawn after it
				row = ""
			}
			rows = append(rows, fmt.Sprint(row, "|", s.B.String(), "|", s.B.Cursor))
		}
		r := s.runChecked()
		return rows, r.text
	}
	a, ra := play(nil)
	var col readline.Coloring = &coloring.VimBatch{}
	if c.P(1, 2) {
		col = &recColoring{salt: c.next(), def: pick(c.RNG, palette)}
	}
	b, rb := play(col)
	if c.failed() {
		return
	}
	if ra != rb {
		c.failf("with colouring ReadLine returns %q, without %q", rb, ra)
		return
	}
	for i := range a {
		if i < len(b) {
			c.eval("twin|" + a[i])
			if a[i] != b[i] {
				c.failf("after %d keys the row with colouring is %q, without %q", i, b[i], a[i])
				return
			}
		}
	}
	c.stat("twins", 1)
}

func init() {
	reg("C16", func(c *Ctx) {
		if c.Idx%4 == 3 {
			c16twin(c)
		} else {
			c16(c)
		}
	})
	reg("C20", c20)
	reg("C24", c24)
}

// ---- C20: nothing crashes or hangs ----

type fixedList []string

func (fixedList) Delimiters() string { return "&|><;" }
func (fixedList) Enclosures() string { return `"'` }
func (f fixedList) List(fields []string) ([]string, []string) {
	return f, f
}

func (c *Ctx) hostileKey(p *profile) string {
	switch c.N(14) {
	case 0:
		b := make([]byte, c.Range(1, 6))
		for i := range b {
			b[i] = byte(c.N(256))
		}
		return string(b)
	case 1:
		return pick(c.RNG, []string{"", "\xff", "\xc3", "\xe6\xbc", "\xed\xa0\x80", "\x80", "\xf4\x90\x80\x80", "\x1B\xff", "\x1B[", "\x1B\x1B", "\x1B[999999999C", "\x1Bq", "\x1B]0;x\x07", "\x00", "\x00\x00", "‍", "‍‍", "️", "\U0001F3FB", "a‍"})
	case 2:
		return p.text(c, 5)
	case 3:
		if c.P(1, 4) {
			return strings.Repeat(pick(c.RNG, []string{"x", "漢", "\t", "\x01", "é"}), c.Range(100, 3000))
		}
		return "\t"
	case 4, 5, 6, 7:
		return string(p.rune(c))
	default:
		ops := []string{}
		for _, o := range screenOps {
			if ks := keysOf[o.op]; ks != nil {
				ops = append(ops, ks...)
			}
		}
		ops = append(ops, "\x16", "\x11", "\x12", "\x19", "\x1Bv", "\x1By", "\x1B[1;5C", "\x13", "\r\n", "\x07")
		return pick(c.RNG, ops)
	}
}

func c20(c *Ctx) {
	p := c.profile(2)
	w := pick(c.RNG, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 80, 200, 32768, 65536, 1 << 20, math.MaxInt32, -1, -5, math.MinInt32})
	vt := false
	s := &Sess{c: c, caps: c.Caps}
	s.out = &recWriter{}
	s.tty = &FakeTty{W: w, H: pick(c.RNG, []int{0, 1, 24, -1})}
	prompt := pick(c.RNG, []string{"", "> ", strings.Repeat("p", 300), "\x1B", "\x1B[", "\x1B]0;", "\b\b\b", "\n\n", "\r", "\xff\xfe", "‍", "\t", c.randomPrompt(20), p.text(c, 20)})
	s.ed = &readline.Editor{Writer: s.out, Tty: s.tty}
	switch c.N(8) {
	case 0: // no prompt function
	case 1:
		s.ed.PromptWriter = func(io.Writer) (int, error) { return 0, errOut }
	case 2:
		s.ed.PromptWriter = func(w io.Writer) (int, error) { return -7, nil }
	default:
		s.ed.PromptWriter = func(w io.Writer) (int, error) { return io.WriteString(w, prompt) }
	}
	s.ed.Default = p.text(c, pick(c.RNG, []int{0, 3, 40}))
	if c.P(1, 10) {
		s.ed.Default += string([]byte{0xff, 0xc3, byte(c.N(256)), 0xe3, 0x81})
	}
	s.ed.Cursor = pick(c.RNG, []int{0, 1, 2, 5, 100, 1 << 40, -1, -100, math.MaxInt64, math.MinInt64})
	if c.P(1, 25) {
		s.ed.Default = strings.Repeat(pick(c.RNG, []string{"x", "漢 ", "a\tb", "\U0001F468‍\U0001F33E"}), 12000)
		c.stat("huge_default", 1)
	}
	var h hist
	for i := c.N(5); i > 0; i-- {
		h = append(h, p.text(c, 20))
	}
	if c.P(1, 8) {
		h = append(h, "\xff\x80", strings.Repeat("long ", 3000))
	}
	if c.P(4, 5) {
		s.ed.History = h
	}
	s.ed.HistoryCycling = c.P(1, 2)
	if c.P(1, 2) {
		s.ed.PredictColor = readline.PredictColorBlueItalic
		if c.P(1, 2) {
			sfx := p.text(c, 30)
			s.ed.Predictor = func(*readline.Buffer) string { return sfx }
		}
	}
	switch c.N(3) {
	case 0:
		s.ed.Coloring = &coloring.VimBatch{}
	case 1:
		s.ed.Coloring = &recColoring{def: 0}
	}
	// every bundled command on some key
	resize := c.P(1, 3)
	type bound struct{ key, name string }
	var extra []bound
	for i, n := range functionNames {
		if resize && (n == "QUOTED_INSERT" || n == "ISEARCH_BACKWARD") {
			continue
		}
		if f, ok := readline.NameToFunc[n]; ok {
			k := fmt.Sprintf("\x1B[%d;9~", i)
			s.ed.BindKey(keys.Code(k), f)
			extra = append(extra, bound{k, n})
		}
	}
	cands := fixedList{p.text(c, 6), p.text(c, 6), "", "ab", "abc", "A b"}
	s.ed.BindKey(keys.CtrlI, completion.CmdCompletion{Completion: cands, Postfix: pick(c.RNG, []string{"", " "})})
	extra = append(extra, bound{"\t", "COMPLETION"})
	s.ed.BindKey("\x1B[98;9~", completion.CmdCompletion{Completion: fixedList{}})
	extra = append(extra, bound{"\x1B[98;9~", "COMPLETION-NONE"})
	s.ed.BindKey(keys.Code(probeKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		s.B = b
		return readline.CONTINUE
	}))
	if resize {
		for _, k := range []string{"\x16", "\x11", "\x12"} {
			s.ed.BindKey(keys.Code(k), readline.CmdUndo)
		}
	}
	c.logf("width %d height %d prompt %q default %.200q cursor %d history %.300q resize %v", w, s.tty.H, prompt, s.ed.Default, s.ed.Cursor, []string(h), resize)
	_ = vt
	n := 0
	total := c.Range(5, 80)
	if len(s.ed.Default) > 10000 {
		total = 12
	}
	grow := c.P(1, 200)
	if grow {
		total = 30
	}
	key := ""
	s.tty.next = func() (string, error) {
		n++
		if n == 1 {
			return probeKey, nil
		}
		if n == 2 && s.B == nil {
			c.failf("the first key was not processed at top level")
			return "", errStop
		}
		b := s.B
		c.eval(fmt.Sprintf("%q|%d|%d", key, b.Cursor, len(b.Buffer)))
		if !(0 <= b.ViewStart && b.ViewStart <= b.Cursor && b.Cursor <= len(b.Buffer)) {
			c.failf("after key %.80q: view start %d, cursor %d, length %d (line %.200q, width %d)", key, b.ViewStart, b.Cursor, len(b.Buffer), b.String(), s.tty.W)
			return "", errStop
		}
		c.max("line_length", len(b.Buffer))
		if n > total {
			return "", errStop
		}
		if resize && c.P(1, 4) {
			nw := pick(c.RNG, []int{0, 1, 3, 5, 9, 20, 80, 1 << 20, -3})
			c.logf("resize to %d", nw)
			s.tty.W = nw
			s.tty.onSize(nw)
			c.stat("resizes", 1)
			if !(0 <= b.ViewStart && b.ViewStart <= b.Cursor && b.Cursor <= len(b.Buffer)) {
				c.failf("after resizing to %d: view start %d, cursor %d, length %d", nw, b.ViewStart, b.Cursor, len(b.Buffer))
				return "", errStop
			}
		}
		if grow {
			key = strings.Repeat("word 漢\t", 600)
		} else if c.P(1, 4) {
			e := pick(c.RNG, extra)
			key = e.key
			c.stat("cmd_"+e.name, 1)
		} else {
			key = c.hostileKey(p)
		}
		c.logf("key %.100q", key)
		return key, nil
	}
	if c.P(1, 2) {
		s.ed.LineFeedWriter = func(readline.Result, io.Writer) (int, error) { return 0, errOut }
	}
	// several inputs with the same editor
	for i := 0; i < 2 && !c.failed(); i++ {
		r := s.runChecked()
		if c.failed() {
			return
		}
		if r.err == errStop {
			break
		}
		c.stat("ended_early", 1)
		n, s.B = 0, nil
	}
	c.stat(fmt.Sprintf("width_%d", w), 1)
	c.sample("width %d prompt %.30q: %d keys", w, prompt, n)
}

// ---- C24: everything is delivered while waiting ----

func c24(c *Ctx) {
	p := c.profile(c.N(3))
	prompt := pick(c.RNG, prompts)
	w := 20 + c.N(80)
	s := newSess(c, w, prompt)
	kind := c.N(5)
	var bw *bufio.Writer
	size := pick(c.RNG, []int{16, 17, 64, 1000, 4096, 1 << 16, 1 << 20})
	switch kind {
	case 0:
	case 1: // a buffered writer as Writer
		bw = bufio.NewWriterSize(s.out, size)
		s.ed.Writer = bw
	case 2: // Out given by the caller
		bw = bufio.NewWriterSize(s.out, size)
		s.ed.Out = bw
		s.ed.Writer = nil
	case 3: // both
		bw = bufio.NewWriterSize(s.out, size)
		s.ed.Out = bw
		s.ed.Writer = io.Discard
	case 4: // after an explicit Init
		s.ed.Init()
	}
	s.vt.CursorOn = c.P(1, 2) // as the program left it
	s.ed.Default = p.long(c, 20)
	h := hist{p.text(c, 20), p.text(c, c.size(50))}
	s.ed.History = h
	if c.P(1, 3) {
		s.ed.PredictColor = readline.PredictColorBlueItalic
	}
	var text string
	s.m = NewModel(c.Caps, s.ed.Default, 0, h)
	s.bindCommon(&text)
	s.ed.BindKey(keys.Code(repaintNLKey), readline.CmdRepaintOnNewline)
	// Delivery is seen by comparing with the output of a twin buffer pointer: at a
	// wait nothing may be held back in the editor's own writer.
	c.logf("writer kind %d size %d width %d prompt %q default %q", kind, size, w, prompt, s.ed.Default)
	nested := false
	check := func(where string) {
		c.eval(fmt.Sprint(where, "|", kind, "|", hashStr(s.vt.RowText(s.vt.cy))))
		if n := s.ed.Out.Buffered(); n != 0 {
			c.failf("%s: %d bytes are held back while waiting for a key", where, n)
			return
		}
		if len(s.vt.pend) != 0 {
			c.failf("%s: the terminal got an incomplete sequence %q", where, s.vt.pend)
			return
		}
		if !s.vt.CursorOn {
			c.failf("%s: the cursor is invisible while waiting for a key", where)
			return
		}
	}
	orig := s.tty.next
	started := false
	s.tty.next = func() (string, error) {
		where := "first key"
		if s.last != nil {
			where = fmt.Sprintf("after %s (%q)", s.last.op, s.last.key)
			switch s.last.op {
			case "quote", "isearch", "iskey":
				c.stat("nested_waits", 1)
			}
		}
		check(where)
		if c.failed() {
			return "", errStop
		}
		if started && s.last != nil && !nested {
			c.stat("top_level_keys", 1)
			if s.vt.visPaint > 0 && s.last.op != "quote" {
				c.failf("%s: %d characters were painted while the cursor was visible", where, s.vt.visPaint)
				return "", errStop
			}
		}
		started = true
		k, err := orig()
		nested = false
		if s.last != nil {
			switch s.last.op {
			case "quoted", "iskey", "isend", "isearch", "quote":
				nested = s.last.op == "quoted"
			}
		}
		s.vt.visPaint = 0
		return k, err
	}
	s.atWait = func(*kstep, int) {
		if s.m.pending == "" && s.is == nil {
			s.m.cells, s.m.cur = s.cells(), s.B.Cursor
		}
	}
	n := c.Range(5, 40)
	s.gen = func() []kstep {
		if n--; n <= 0 {
			return nil
		}
		op := pickOp(c.RNG, screenOps)
		switch op {
		case "paste":
			return []kstep{s.pasteStep(&text, p.text(c, 300))}
		case "replace":
			return []kstep{s.replaceStep(&text, p.text(c, 10))}
		case "repaintnl", "noop":
			return []kstep{{key: repaintNLKey, op: "repaintnl"}}
		case "isearch":
			return s.isearchSteps([]rune("ab"), pick(c.RNG, []string{"\r", "\x07"}))
		case "delabort":
			op = "bol"
		}
		return s.steps(op, p)
	}
	r := s.runChecked()
	if c.failed() || r.err != nil {
		return
	}
	if n := s.ed.Out.Buffered(); n != 0 {
		c.failf("%d bytes are held back when ReadLine returns", n)
	}
	if bw != nil && s.ed.Out != bw {
		c.failf("the buffered writer of the caller was not used")
	}
	if s.out.n == 0 {
		c.failf("nothing reached the writer of the caller")
	}
	c.stat(fmt.Sprintf("writer_kind_%d", kind), 1)
	c.sample("writer kind %d buffer %d: %d waits", kind, size, s.waits)
}
