package main

import (
	"context"
	"fmt"
	"io"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

const repaintNLKey = "\x1B[rnl~"

// promptWidth is the column of a plain prompt's end on a wide terminal.
func promptColumn(caps Caps, prompt string) int {
	vt := NewVT(900, 3, caps)
	vt.Write([]byte(prompt))
	return vt.cx
}

// sentinel fills the screen so that writes to other rows are visible.
func (s *Sess) sentinel() {
	for y := 0; y < s.vt.H; y++ {
		for x := 0; x < s.vt.W; x++ {
			s.vt.rows[y][x] = VTCell{s: string(rune('A' + y))}
		}
	}
	// the editor starts on an empty row in the middle of the screen
	s.vt.cy = 3
	s.vt.rows[3] = make([]VTCell, s.vt.W)
}

func maxUnit(us []Unit) int {
	m := 4
	for _, u := range us {
		m = max(m, u.w)
	}
	return m
}

var screenOps = []weighted{
	{"self", 50}, {"bol", 5}, {"eol", 5}, {"bchar", 14}, {"fchar", 14}, {"bdel", 8}, {"del", 6}, {"delabort", 2},
	{"killline", 3}, {"killwhole", 1}, {"wordrubout", 4}, {"linediscard", 2}, {"swap", 9},
	{"bword", 5}, {"fword", 5}, {"paste", 6}, {"replace", 3}, {"undo", 8}, {"prev", 3}, {"next", 3},
	{"clear", 2}, {"repaintnl", 2}, {"isearch", 2}, {"quoted", 2}, {"noop", 1},
}

// screenSession runs random editing and calls check at every key wait outside
// incremental search.
type screenCfg struct {
	ops    []weighted
	suffix func(text string) string
	// when the terminal is resized between keys (synchronously)
	resize bool
	each   func(s *Sess, k *kstep)
	noView bool // do not judge the screen (done by each)
}

func (c *Ctx) screenSession(level int, cfg screenCfg, setup func(*Sess)) (*Sess, result) {
	p := c.profile(level)
	prompt := pick(c.RNG, prompts)
	top := promptColumn(c.Caps, prompt)
	w := top + 3 + c.Range(13, 30)
	if c.P(1, 3) {
		w = top + c.Range(50, 90)
	} else if c.P(1, 40) {
		w = top + c.Range(120, 400)
	}
	s := newSess(c, w, prompt)
	s.top = top
	s.sentinel()
	s.ed.Default = p.long(c, pick(c.RNG, []int{0, 5, 30}))
	s.ed.Cursor = c.N(c.size(30))
	var h hist
	for i := c.N(4); i > 0; i-- {
		h = append(h, p.long(c, 25))
	}
	s.ed.History = h
	var text string
	s.bindCommon(&text)
	s.ed.BindKey(keys.Code(repaintNLKey), readline.CmdRepaintOnNewline)
	s.ed.BindKey(keys.Code("\x1B[noop~"), readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
		return readline.CONTINUE
	}))
	// the reference only steers the generator here (is a search going on, ...)
	s.m = NewModel(c.Caps, s.ed.Default, s.ed.Cursor, h)
	if setup != nil {
		setup(s)
	}
	c.logf("width %d prompt %q default %q cursor %d history %q caps %s", w, s.prompt, s.ed.Default, s.ed.Cursor, []string(h), c.Caps.Name)
	n := c.Range(5, c.size(70))
	rows := ""
	lastRow, lastEnd := "", ""
	lastStart := 0
	rightward := map[string]bool{"self": true, "fchar": true, "fword": true, "eol": true, "paste": true}
	bells := 0
	s.atWait = func(k *kstep, oc int) {
		c.stat("op_"+k.op, 1)
		if s.m.pending == "" && s.is == nil && s.B.String() != s.m.text() {
			// resynchronise the steering reference with the real line
			s.m.cells, s.m.cur = s.cells(), s.B.Cursor
			s.m.undo = nil
		}
		s.m.cur = min(s.B.Cursor, len(s.m.cells))
		bells = s.vt.Bells
		if s.is != nil {
			return
		}
		us := s.cells()
		suf := ""
		if cfg.suffix != nil && len(us) > 0 && s.B.Cursor == len(us) {
			suf = cfg.suffix(s.B.String())
		}
		sufUs := c.Caps.Segment(suf)
		if anyLoose(us) || anyLoose(sufUs) {
			c.stat("stopped_loose", 1)
			s.stopped = true
			return
		}
		if maxUnit(us) > s.viewWidth()-2 || maxUnit(sufUs) > s.viewWidth()-2 {
			c.stat("stopped_narrow", 1)
			s.stopped = true
			return
		}
		if cfg.each != nil {
			cfg.each(s, k)
		}
		if cfg.noView {
			return
		}
		if s.vt.wrapped > 0 {
			c.failf("after %s (%q): text was painted over the right edge (line %q, cursor %d)", k.op, k.key, s.B.String(), s.B.Cursor)
			return
		}
		if why := s.screenMatches(us, s.B.Cursor, sufUs); why != "" {
			c.failf("after %s (%q): %s; line %q cursor %d width %d", k.op, k.key, why, s.B.String(), s.B.Cursor, s.vt.W)
			return
		}
		c.eval(fmt.Sprint(s.vt.RowText(s.vt.cy), "|", s.vt.cx, "|", k.op))
		if vs := s.B.ViewStart; vs > lastStart && rightward[k.op] {
			// scrolled to the right: what stands before the cursor stays in view
			c.stat("scrolled_right", 1)
			if shown := unitsWidth(us, vs, s.B.Cursor); shown < s.viewWidth()/3-maxUnit(us) {
				c.failf("after %s (%q): scrolled so far that only %d columns before the cursor are in view (row %q, cursor %d of line %q)", k.op, k.key, shown, s.vt.RowText(s.vt.cy), s.B.Cursor, s.B.String())
				return
			}
		}
		lastStart = s.B.ViewStart
		lastRow, lastEnd = s.vt.RowText(s.vt.cy), ""
		if suf != "" {
			lastRow, lastEnd = strings.TrimRight(s.vt.Span(s.vt.cy, 0, s.vt.cx), " "), suf
		}
		if len(us) > 0 && unitsWidth(us, 0, len(us)) >= s.viewWidth() {
			c.stat("scrolled_views", 1)
		}
		o := s.otherRows()
		switch k.op {
		case "probe0", "clear", "repaintnl", "resize":
		default:
			if o != rows {
				c.failf("after %s (%q): other rows changed: %q -> %q", k.op, k.key, rows, o)
			}
		}
		rows = o
	}
	_ = bells
	s.gen = func() []kstep {
		if n--; n <= 0 {
			return nil
		}
		op := pickOp(c.RNG, cfg.ops)
		switch op {
		case "paste":
			return []kstep{s.pasteStep(&text, p.text(c, c.size(30)))}
		case "replace":
			return []kstep{s.replaceStep(&text, p.text(c, 10))}
		case "repaintnl":
			return []kstep{{key: repaintNLKey, op: "repaintnl", apply: func() int { s.m.flush(); return oContinue }}}
		case "noop":
			return []kstep{{key: "\x1B[noop~", op: "noop", apply: func() int { s.m.flush(); return oContinue }}}
		case "isearch":
			q := []rune(strings.Map(func(r rune) rune {
				if r < ' ' || r == 0x7F {
					return -1
				}
				return r
			}, p.text(c, 2)))
			return s.isearchSteps(q, pick(c.RNG, []string{"\r", "\x07", "\x1B", "\x03"}))
		case "delabort":
			if len(s.m.cells) == 0 {
				op = "bol"
			}
		}
		return s.steps(op, p)
	}
	r := s.run()
	if r.panic != nil {
		c.failf("panic while processing key (%s): %v\n%s", s.last.op, r.panic, r.stack)
	}
	if !c.failed() && r.err == nil && s.ended && !cfg.noView && s.m.pending == "" {
		// the finished line stays on the row above
		y := s.vt.cy - 1
		got := s.vt.RowText(y)
		if lastEnd != "" {
			got = strings.TrimRight(s.vt.Span(y, 0, s.vt.W), " ")
		}
		c.stat("finished_rows", 1)
		if got != lastRow {
			c.failf("after Enter the row of the line shows %q, while editing %q (prediction %q)", got, lastRow, lastEnd)
		}
	}
	return s, r
}

func init() {
	reg("C05", func(c *Ctx) {
		s, _ := c.screenSession(c.N(3), screenCfg{ops: screenOps}, nil)
		c.sample("width %d: %d key waits judged, last row %q", s.vt.W, s.waits, s.vt.RowText(s.vt.cy))
	})

	reg("C08", c08)
	reg("C06", c06)
}

// C06

func (c *Ctx) randomPrompt(maxLen int) string {
	var sb strings.Builder
	n := c.N(maxLen + 1)
	prevNarrow := false
	raw := []rune("abcXYZ019$#>~: []/.,mKhJ;漢字か　éｱﾂБ→😀🐶ﾃ€")
	for i := 0; i < n; i++ {
		switch k := c.N(20); {
		case k < 12:
			r := pick(c.RNG, raw)
			sb.WriteRune(r)
			prevNarrow = true
			continue
		case k < 14:
			sb.WriteString(pick(c.RNG, []string{"\x1B[0m", "\x1B[31m", "\x1B[1;32;40m", "\x1B[0;38;5;196m", "\x1B[m", "\x1B[0;38;2;1;22;133m", "\x1B[?25h", "\x1B[K"}))
			continue // a colour sequence does not move the cursor
		case k < 15:
			title := make([]rune, c.N(8))
			for j := range title {
				title[j] = pick(c.RNG, raw)
			}
			sb.WriteString("\x1B]" + pick(c.RNG, []string{"0", "1", "2"}) + ";" + string(title) + "\x07")
			continue
		case k < 16:
			sb.WriteString(pick(c.RNG, []string{"\n", "\r\n", "\n"}))
		case k < 17:
			sb.WriteString("\r")
		default:
			if prevNarrow {
				sb.WriteString("\b")
			} else {
				sb.WriteString("-")
				prevNarrow = true
				continue
			}
		}
		prevNarrow = false
	}
	return sb.String()
}

func c06(c *Ctx) {
	w := pick(c.RNG, []int{80, 40, 30, 20})
	lens := []int{3, 8, 16, 40}
	if c.P(1, 12) {
		w = c.Range(120, 420)
		lens = []int{16, 150, 300}
		c.stat("wide_terminals", 1)
	}
	useDefault := c.P(1, 15)
	prompt := c.randomPrompt(pick(c.RNG, lens))
	if c.P(1, 10) {
		prompt += strings.Repeat("p", max(0, w-promptColumn(c.Caps, prompt)-c.Range(0, 6)))
	}
	s := newSess(c, w, prompt)
	if useDefault {
		s.ed.PromptWriter = nil
		prompt = "\n> "
	} else if c.P(1, 3) {
		// the prompt may be written in pieces, and what the function returns does not matter
		full := prompt
		wrong := c.N(100)
		s.ed.PromptWriter = func(o io.Writer) (int, error) {
			for i := 0; i < len(full); i++ {
				o.Write([]byte{full[i]})
			}
			return wrong, nil
		}
	}
	s.sentinel()
	for y := range s.vt.rows {
		s.vt.rows[y] = make([]VTCell, w)
	}
	s.vt.cy = 0
	// what a terminal shows for the prompt alone
	var ref, term *VT
	var col, room int
	var fresh bool
	setPrompt := func() {
		ref = NewVT(900, 3, c.Caps)
		ref.Write([]byte(prompt))
		col = ref.cx
		ref.Write([]byte("\x1B[0K")) // the text takes what the prompt left behind the cursor
		fresh = col >= w-3
		if fresh {
			col = 0
		}
		room = w - col - 3 - 2
		c.logf("width %d prompt %q: text expected to start at column %d fresh row %v", w, prompt, col, fresh)
		term = NewVT(w, s.vt.H, c.Caps)
		term.Write([]byte(prompt))
		if fresh {
			term.Write([]byte("\n"))
		}
	}
	setPrompt()
	step := 0
	if !useDefault && c.P(1, 3) {
		// a prompt that differs at each call
		next := prompt
		s.ed.PromptWriter = func(o io.Writer) (int, error) {
			prompt = next
			setPrompt()
			next = c.randomPrompt(pick(c.RNG, lens))
			c.stat("changing_prompts", 1)
			return io.WriteString(o, prompt)
		}
	}
	typed := "q"
	expect := func(where string) {
		y := s.vt.cy
		if len(typed)-1 > room {
			return // the next prompt left so little room that the text is scrolled
		}
		if s.vt.cx != col+len(typed)-1 {
			c.failf("%s: the cursor is at column %d, want %d (prompt %q width %d)", where, s.vt.cx, col+len(typed)-1, prompt, w)
			return
		}
		c.eval(fmt.Sprint(where, "|", prompt, "|", w))
		if fresh {
			c.stat("fresh_row", 1)
			if s.vt.Span(y, 0, w) != typed[1:] {
				c.failf("%s: the row shows %q, want a fresh row with %q", where, s.vt.RowText(y), typed[1:])
			}
			return
		}
		if got, want := s.vt.Span(y, 0, col), ref.Span(ref.cy, 0, col); got != want {
			c.failf("%s: the prompt on the row is %q, want %q", where, got, want)
			return
		}
		if got := s.vt.Span(y, col, w); got != typed[1:] {
			c.failf("%s: behind the prompt stands %q, want %q", where, got, typed[1:])
		}
	}
	row, above := 0, []string{}
	s.atWait = func(k *kstep, oc int) {
		defer func() {
			row, above = s.vt.cy, nil
			for y := 0; y <= row; y++ {
				above = append(above, s.vt.RowText(y))
			}
		}()
		switch k.op {
		case "repaint-on-newline":
			// the old rows stay, the whole prompt stands below them
			if y := row + 1 + term.cy; y < s.vt.H {
				c.stat("on_newline", 1)
				if s.vt.cy != y {
					c.failf("%s: editing goes on on row %d, want %d", k.op, s.vt.cy, y)
					return
				}
				for y := 0; y < s.vt.cy; y++ {
					want := ""
					if y <= row {
						want = above[y]
					} else {
						want = term.RowText(y - row - 1)
					}
					if got := s.vt.RowText(y); got != want {
						c.failf("%s: row %d shows %q, want %q", k.op, y, got, want)
						return
					}
				}
			}
			expect(k.op)
		case "clear-screen":
			// the whole prompt stands at the top of the cleared screen
			for y := 0; y < s.vt.cy; y++ {
				if got, want := s.vt.RowText(y), term.RowText(y); got != want {
					c.failf("after clear-screen row %d shows %q, want %q of the prompt", y, got, want)
					return
				}
			}
			expect(k.op)
		case "probe0":
			if s.vt.cy != term.cy {
				c.failf("editing starts on row %d, the prompt ends on row %d (fresh row %v)", s.vt.cy, term.cy, fresh)
				return
			}
			for y := 0; y < s.vt.cy; y++ {
				if got, want := s.vt.RowText(y), term.RowText(y); got != want {
					c.failf("at first row %d shows %q, want %q of the prompt", y, got, want)
					return
				}
			}
			expect("first paint")
		default:
			expect(k.op)
		}
	}
	s.ed.BindKey(keys.Code(repaintNLKey), readline.CmdRepaintOnNewline)
	seq := []kstep{
		{key: "x", op: "typing", apply: func() int { typed += "x"; return oContinue }},
		{key: "\x0C", op: "clear-screen"},
		{key: "y", op: "typing2", apply: func() int { typed += "y"; return oContinue }},
		{key: repaintNLKey, op: "repaint-on-newline"},
		{key: "z", op: "typing3", apply: func() int { typed += "z"; return oContinue }},
	}
	s.gen = func() []kstep {
		for step < len(seq) {
			k := seq[step]
			step++
			if k.apply != nil && len(typed) > room {
				continue
			}
			return []kstep{k}
		}
		return nil
	}
	s.runChecked()
	c.sample("prompt %q at width %d: text starts at column %d", prompt, w, col)
}

// C08

func c08(c *Ctx) {
	salt := c.next()
	p := c.profile(pick(c.RNG, []int{0, 1, 2}))
	pool := []string{}
	for i := 0; i < 6; i++ {
		pool = append(pool, p.text(c, pick(c.RNG, []int{3, 8, 40})))
	}
	custom := c.P(1, 2)
	disabled := c.P(1, 8)
	var s *Sess
	predict := func(text string) string {
		if disabled {
			return ""
		}
		if custom {
			return pool[int((hashStr(text)^salt)%uint64(len(pool)))]
		}
		h := s.ed.History
		for i := h.Len() - 1; i >= 0; i-- {
			if strings.HasPrefix(h.At(i), text) {
				return h.At(i)[len(text):]
			}
		}
		return ""
	}
	var before string
	var beforeEnd, pend bool
	ops := append([]weighted{{"fchar", 20}, {"prev", 6}, {"eol", 6}}, screenOps...)
	cfg := screenCfg{ops: ops, suffix: predict, each: func(s *Sess, k *kstep) {
		got := s.B.String()
		if k.op == "fchar" && beforeEnd && !pend && before != "" {
			want := before + predict(before)
			c.stat("accepted", 1)
			c.eval("accept|" + want)
			if got != want {
				c.failf("forward-char at the end of %q gave %q, the predictor says %q", before, got, want)
			}
		}
		// the colour tells predicted from real text
		us := s.cells()
		predicted := false
		if len(us) > 0 && s.B.Cursor == len(us) {
			x := s.vt.cx
			shown := 0
			for ; x < s.vt.W; x++ {
				cell := s.vt.rows[s.vt.cy][x]
				if cell.s == "" || cell.s == " " {
					continue
				}
				shown++
				if cell.sgr != "3;22;34" {
					c.failf("predicted text %q is painted in colour %q", cell.s, cell.sgr)
					return
				}
			}
			if shown > 0 {
				predicted = true
				c.stat("predictions_shown", 1)
			} else if k.op == "self" && !pend && s.m.pending == "" {
				// typed at the end: as much of the prediction as has room is shown
				suf := predict(got)
				lead := len(suf) - len(strings.TrimLeft(suf, " \t\u3000"))
				if room := s.vt.W - s.vt.cx - 3 - 2 - 4*lead; strings.TrimSpace(suf) != "" && room > maxUnit(c.Caps.Segment(suf)) {
					c.failf("after typing %q the prediction %q is not shown (row %q)", got, suf, s.vt.RowText(s.vt.cy))
					return
				}
			}
		}
		// what a command is told about the prediction
		if atEnd := s.B.Cursor == len(us); s.m.pending == "" && (!atEnd || predicted) {
			var sb strings.Builder
			for _, m := range s.B.Suffix() {
				m.WriteTo(&sb)
			}
			want := ""
			if atEnd {
				want = predict(got)
			}
			c.stat("suffix_asked", 1)
			if sb.String() != want {
				c.failf("Suffix() = %q, want %q (line %q cursor %d)", sb.String(), want, got, s.B.Cursor)
				return
			}
		}
		for x := s.top; x < s.vt.cx; x++ {
			if cell := s.vt.rows[s.vt.cy][x]; cell.s != "" && cell.s != " " && (cell.sgr == "3;22;34" || cell.ital) {
				c.failf("text of the line is painted in the colour of predictions (row %q)", s.vt.RowText(s.vt.cy))
				return
			}
		}
		before = got
		beforeEnd = s.B.Cursor == len(s.B.Buffer)
		pend = s.m.pending != ""
		s.m.predict = nil
	}}
	s2, r := c.screenSession(c.N(3), cfg, func(x *Sess) {
		s = x
		// default predictor: entries that share prefixes
		if !custom {
			var h hist
			for i := c.entries(8); i > 0; i-- {
				base := ""
				if len(h) > 0 && c.P(2, 3) {
					rs := []rune(pick(c.RNG, h))
					base = string(rs[:c.N(len(rs)+1)])
				}
				h = append(h, base+p.text(c, 6))
			}
			if len(h) > 1000 {
				// the line to start from is the beginning of an old entry only
				h[c.N(60)] = "ZQZ" + p.text(c, 6)
				x.ed.Default, x.ed.Cursor = "ZQ", 2
				x.m = NewModel(c.Caps, "ZQ", 2, h)
			}
			x.ed.History = h
			x.m.hist, x.m.hp = h, len(h)
		} else {
			x.ed.Predictor = func(b *readline.Buffer) string {
				if disabled {
					return "never"
				}
				return predict(b.String())
			}
		}
		switch c.N(8) {
		case 0:
			x.endKey = keysOf["intr"][0]
		case 1:
			// a command of the application ends the line
			x.endKey = "\x1B[fin~"
			rc := pick(c.RNG, []readline.Result{readline.ENTER, readline.INTR, readline.ABORT})
			x.ed.BindKey(keys.Code(x.endKey), readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result { return rc }))
		}
		if disabled {
			c.stat("disabled", 1)
		} else {
			x.ed.PredictColor = readline.PredictColorBlueItalic
		}
	})
	if c.failed() || !s2.ended || r.err == errStop {
		return
	}
	if r.err != nil {
		c.stat("finished_otherwise", 1)
		for x, cell := range s2.vt.rows[s2.vt.cy-1] {
			if cell.s != "" && cell.s != " " && (cell.sgr == "3;22;34" || cell.ital) {
				c.failf("the input ended with %v and a prediction is still shown at column %d of row %q", r.err, x, s2.vt.RowText(s2.vt.cy-1))
				return
			}
		}
	}
	if s2.vt.italic {
		c.failf("the input is over and the colour of predictions is still in force")
		return
	}
	// finished: the row above the cursor shows no prediction any more
	y := s2.vt.cy - 1
	if y >= 0 && r.err == nil && before == r.text {
		c.stat("finished", 1)
		for x := 0; x < s2.vt.W; x++ {
			if cell := s2.vt.rows[y][x]; cell.s != "" && cell.s != " " && (cell.sgr == "3;22;34" || cell.ital) {
				c.failf("the finished line %q still shows a prediction: %q", r.text, s2.vt.RowText(y))
				return
			}
		}
	}
	if r.err == nil && r.text != before && s2.m.pending == "" && before != "" {
		c.failf("the line was %q, ReadLine returned %q", before, r.text)
	}
	c.sample("custom predictor %v, result %q", custom, r.text)
}
