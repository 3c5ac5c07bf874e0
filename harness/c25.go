package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	reg("C25", c25)
	reg("C26", c26)
	reg("C27", c27)
}

// ---- C25: the bundled colouring ----

// batchColors gives the colour of every code point, decided from counts alone.
func batchColors(rs []rune) []string {
	out := make([]string, len(rs))
	for i, r := range rs {
		percents := strings.Count(string(rs[:i]), "%")
		quotes := strings.Count(string(rs[:i]), `"`)
		switch {
		case r == 0x3000:
			out[i] = "37;22;41"
		case r == '%' || percents%2 == 1:
			out[i] = "36;49;1"
		case r == '"' || quotes%2 == 1:
			out[i] = "35;49;1"
		case r == '&':
			out[i] = "33;22;49"
		default:
			out[i] = "39;49;1"
		}
	}
	return out
}

func c25(c *Ctx) {
	alpha := []rune("ab  %%\"\"&&'|　漢é\\^")
	if c.P(1, 4) {
		alpha = append(alpha, []rune("\U0001F600\x01\t~")...)
	}
	text := func(max int) string {
		rs := make([]rune, c.N(max+1))
		for i := range rs {
			rs[i] = pick(c.RNG, alpha)
		}
		return string(rs)
	}
	// 1. asked directly: passes over several texts with one colouring
	vb := &coloring.VimBatch{}
	for i := c.Range(1, 4); i > 0; i-- {
		rs := []rune(text(c.size(20)))
		want := batchColors(rs)
		if def := sgrOf(vb.Init()); def != "0" {
			c.failf("the default colour is %q", def)
			return
		}
		mark := c.N(len(rs) + 1)
		for j := 0; j <= len(rs); j++ {
			if j == mark {
				vb.Next(readline.CursorPositionDummyRune)
			}
			if j == len(rs) {
				break
			}
			c.eval(fmt.Sprint("next|", string(rs[:j+1])))
			c.stat("colour_"+want[j], 1)
			if got := sgrOf(vb.Next(rs[j])); got != want[j] {
				c.failf("in %q the character %d (%q) is coloured %q, want %q (cursor marker before character %d)", string(rs), j, rs[j], got, want[j], mark)
				return
			}
		}
		if c.P(1, 3) {
			// a pass that ends early leaves nothing behind
			vb.Init()
			for _, r := range text(6) {
				vb.Next(r)
			}
		}
	}
	// 2. on the screen
	if c.Idx%4 != 0 {
		return
	}
	s := newSess(c, 200, "> ")
	s.top = 2
	s.ed.Coloring = &coloring.VimBatch{}
	s.ed.Default = text(20)
	s.ed.Cursor = c.N(20)
	h := hist{text(20), text(30)}
	s.ed.History = h
	c.logf("default %q cursor %d history %q", s.ed.Default, s.ed.Cursor, []string(h))
	s.atWait = func(k *kstep, oc int) {
		line := s.B.String()
		rs := []rune(line)
		want := batchColors(rs)
		if k.op == "killline" || k.op == "killwhole" || len(c.Caps.Segment(line)) != len(rs) {
			return
		}
		us := s.cells()
		x := s.top
		for i, u := range us {
			if cell := s.vt.rows[s.vt.cy][x]; u.kind != kTab && cell.s != "" {
				c.eval("screen|" + line)
				c.stat("screen_cells", 1)
				if cell.sgr != want[i] {
					c.failf("after %s the character %d (%q) of %q is painted in %q, want %q", k.op, i, rs[i], line, cell.sgr, want[i])
					return
				}
			}
			x += u.width(x - s.top)
			if x >= s.vt.W-20 {
				break
			}
		}
		if len(rs) > 0 && s.vt.SGR != "0" {
			c.failf("after %s the colour in force is %q", k.op, s.vt.SGR)
		}
	}
	n := c.Range(5, 40)
	s.gen = func() []kstep {
		if n--; n <= 0 {
			return nil
		}
		if c.P(1, 2) {
			return []kstep{{key: string(pick(c.RNG, []rune("ab%\"& 　"))), op: "self"}}
		}
		return []kstep{s.opKey(pick(c.RNG, []string{"bol", "eol", "bchar", "fchar", "bdel", "del", "swap", "bword", "fword", "prev", "next", "undo", "wordrubout", "clear", "killline"}))}
	}
	s.runChecked()
	c.sample("default %q: %d waits", s.ed.Default, s.waits)
}

// ---- C26: commands of the application ----

type ctxKey struct{}

var macroOps = []weighted{
	{"self", 40}, {"bol", 4}, {"eol", 4}, {"bchar", 10}, {"fchar", 8}, {"bdel", 8}, {"del", 5}, {"killline", 3}, {"killwhole", 1},
	{"wordrubout", 4}, {"linediscard", 2}, {"swap", 8}, {"bword", 5}, {"fword", 5}, {"undo", 8}, {"prev", 4}, {"next", 3}, {"clear", 2},
	{"yank", 1}, {"quote", 3}, {"isearch", 2}, {"none", 2}, {"nil", 1},
}

func c26(c *Ctx) {
	p := &profile{sets: [][]rune{alphabets["ascii"], alphabets["words"], []rune("漢字é か\"'")}}
	w := pick(c.RNG, []int{80, 40, 24, 150})
	def := p.text(c, c.size(15))
	cur := c.N(15)
	var h hist
	for i := c.N(5); i > 0; i-- {
		h = append(h, p.text(c, 12))
	}
	predict := c.P(1, 4)
	cancelled := c.P(1, 8) // the commands' own business
	// groups of keys: a group is pressed key by key in one run and is one command in the other
	type group struct {
		cmds  []string   // keys whose commands run
		feed  [][]string // what the terminal delivers while the command runs
		extra []string   // further keys the command reads itself and inserts
		macro bool
	}
	var groups []group
	for i := c.Range(1, c.size(14)); i > 0; i-- {
		g := group{macro: c.P(2, 3)}
		for j := c.Range(1, 5); j > 0; j-- {
			op := pickOp(c.RNG, macroOps)
			switch op {
			case "self":
				g.cmds, g.feed = append(g.cmds, string(p.rune(c))), append(g.feed, nil)
			case "quote":
				g.cmds, g.feed = append(g.cmds, pick(c.RNG, quoteKeys)), append(g.feed, []string{string(pick(c.RNG, []rune("a\x01\x03\r")))})
			case "isearch":
				g.cmds, g.feed = append(g.cmds, "\x12"), append(g.feed, []string{string(pick(c.RNG, []rune("abe"))), pick(c.RNG, []string{"\r", "\x07"})})
			case "none":
			case "nil":
				// a command without function does nothing
				g.cmds, g.feed = append(g.cmds, "\x1B[nil~"), append(g.feed, nil)
			default:
				g.cmds, g.feed = append(g.cmds, pick(c.RNG, keysOf[op])), append(g.feed, nil)
			}
		}
		if g.macro && c.P(1, 3) {
			for j := c.Range(1, 3); j > 0; j-- {
				g.extra = append(g.extra, string(pick(c.RNG, []rune("xyz漢"))))
			}
		}
		groups = append(groups, g)
	}
	end := pick(c.RNG, []readline.Result{readline.ENTER, readline.INTR, readline.ABORT})
	for i := range groups {
		c.logf("group %d: %q, terminal delivers %q, reads %q, one command %v", i, groups[i].cmds, groups[i].feed, groups[i].extra, groups[i].macro)
	}
	c.logf("width %d default %q cursor %d history %q prediction %v, ended by a command returning %d", w, def, cur, []string(h), predict, end)
	type state struct {
		text string
		cur  int
		row  string
	}
	token := new(int)
	play := func(asCommands bool) (states []state, text string, err error) {
		s := newSess(c, w, "> ")
		s.ctx = context.WithValue(context.Background(), ctxKey{}, token)
		if cancelled {
			ctx, cancel := context.WithCancel(s.ctx)
			cancel()
			s.ctx = ctx
		}
		s.ed.Default, s.ed.Cursor, s.ed.History = def, cur, h
		if predict {
			s.ed.PredictColor = readline.PredictColorBlueItalic
		}
		var hooks []readline.Result
		s.ed.LineFeedWriter = func(r readline.Result, w io.Writer) (int, error) {
			hooks = append(hooks, r)
			return io.WriteString(w, "\n")
		}
		var inner bool // a command of ours is running
		note := func() {
			states = append(states, state{s.B.String(), s.B.Cursor, s.vt.RowText(s.vt.cy) + fmt.Sprint(s.vt.cx)})
		}
		judge := func(ctx context.Context, b *readline.Buffer) {
			c.eval("")
			if ctx == nil || ctx.Value(ctxKey{}) != any(token) {
				c.failf("a command was not given the context of ReadLine")
			}
			if b.Editor != s.ed {
				c.failf("a command was given the buffer of another editor")
			}
		}
		for i := range groups {
			g := groups[i]
			s.ed.BindKey(keys.Code(fmt.Sprintf("\x1B[g%d~", i)), readline.AnonymousCommand(func(ctx context.Context, b *readline.Buffer) readline.Result {
				judge(ctx, b)
				inner = true
				defer func() { inner = false }()
				if asCommands && g.macro {
					for _, k := range g.cmds {
						if rc := b.LookupCommand(k).Call(ctx, b); rc != readline.CONTINUE {
							c.failf("the command of %q returned %d", k, rc)
						}
						c.stat("called", 1)
					}
				}
				for _, want := range g.extra {
					k, err := b.GetKey()
					if err != nil || k != want {
						c.failf("a command reading a key got %q, %v; the terminal delivered %q", k, err, want)
					}
					c.stat("read_keys", 1)
					b.InsertAndRepaint(k)
				}
				return readline.CONTINUE
			}))
		}
		s.ed.BindKey("\x1B[nil~", &readline.GoCommand{Name: "NOTHING"})
		s.ed.BindKey("\x1B[end~", readline.AnonymousCommand(func(ctx context.Context, b *readline.Buffer) readline.Result {
			judge(ctx, b)
			b.InsertAndRepaint("$")
			return end
		}))
		// the script of the terminal
		script := []string{probeKey}
		marks := map[int]bool{}
		for i, g := range groups {
			name := fmt.Sprintf("\x1B[g%d~", i)
			if asCommands && g.macro {
				script = append(script, name)
				for _, f := range g.feed {
					script = append(script, f...)
				}
			} else {
				for j, k := range g.cmds {
					script = append(script, k)
					script = append(script, g.feed[j]...)
				}
				if g.macro {
					script = append(script, name)
				}
			}
			script = append(script, g.extra...)
			marks[len(script)] = true
		}
		script = append(script, "\x1B[end~")
		n := 0
		s.tty.next = func() (string, error) {
			if b := s.ed.Out.Buffered(); b != 0 {
				c.failf("%d bytes are held back while a key is awaited (inside a command: %v)", b, inner)
			}
			if marks[n] && s.B != nil {
				note()
			}
			if n >= len(script) {
				c.failf("the editor goes on after a command returned %d", end)
				return "", errStop
			}
			n++
			return script[n-1], nil
		}
		r := s.runChecked()
		if c.failed() {
			return
		}
		c.stat(fmt.Sprintf("result_%d", end), 1)
		if len(hooks) != 1 || hooks[0] != end {
			c.failf("the line-feed hook was called with %v after a command returned %d", hooks, end)
		}
		if r.text != s.B.String() {
			c.failf("ReadLine returned %q, the command left the line %q", r.text, s.B.String())
		}
		wantErr := map[readline.Result]error{readline.ENTER: nil, readline.INTR: readline.CtrlC, readline.ABORT: io.EOF}[end]
		if r.err != wantErr {
			c.failf("a command returned %d, ReadLine the error %v, want %v", end, r.err, wantErr)
		}
		if !strings.Contains(r.text, "$") {
			c.failf("the insertion of the last command is missing in %q", r.text)
		}
		return states, r.text, r.err
	}
	a, ta, ea := play(false)
	if c.failed() {
		return
	}
	b, tb, eb := play(true)
	if c.failed() {
		return
	}
	if ta != tb || ea != eb {
		c.failf("pressed one by one the keys give %q, %v; called from commands %q, %v", ta, ea, tb, eb)
		return
	}
	for i := range a {
		if i >= len(b) {
			c.failf("fewer key waits than groups")
			return
		}
		c.eval(fmt.Sprint(a[i]))
		if a[i] != b[i] {
			c.failf("after group %d: pressed one by one %q (cursor %d, row %q), called from commands %q (cursor %d, row %q)",
				i, a[i].text, a[i].cur, a[i].row, b[i].text, b[i].cur, b[i].row)
			return
		}
	}
	c.sample("%d groups, result %q %v", len(groups), ta, ea)
}

// ---- C27: a used editor is like a new one ----

type c27sess struct {
	keys   []string
	def    string
	cursor int
	width  int
	fault  string
	at     int
	grow   []string // history entries added before this input
}

func (c *Ctx) c27sess(p *profile) c27sess {
	j := c27sess{def: p.text(c, c.size(15)), cursor: c.N(15), width: pick(c.RNG, []int{80, 40, 20, 150})}
	for i := c.N(3); i > 0; i-- {
		j.grow = append(j.grow, p.text(c, 12))
	}
	for i := c.Range(1, c.size(30)); i > 0; i-- {
		switch x := c.N(20); {
		case x < 9:
			j.keys = append(j.keys, string(p.rune(c)))
		case x < 10:
			j.keys = append(j.keys, "\x12", string(pick(c.RNG, asciiLetters)), pick(c.RNG, []string{"\r", "\x07", "\x1B"}))
		case x < 11:
			j.keys = append(j.keys, pick(c.RNG, quoteKeys), string(pick(c.RNG, []rune("a\x01\x03"))))
		case x < 12:
			j.keys = append(j.keys, pasteKey)
		case x < 13:
			j.keys = append(j.keys, "\U0001F468", "‍", "\U0001F33E")
		default:
			op := pick(c.RNG, []string{"bol", "eol", "bchar", "fchar", "fchar", "bdel", "del", "swap", "bword", "fword", "prev", "prev", "next", "undo", "undo", "clear", "killline", "killwhole", "wordrubout", "linediscard"})
			j.keys = append(j.keys, pick(c.RNG, keysOf[op]))
		}
	}
	switch c.N(10) {
	case 0, 1, 2:
		j.keys = append(j.keys, "\r")
	case 3:
		j.keys = append(j.keys, "\x03")
	case 4:
		j.keys = append(j.keys, "\x1B", "\x04")
	case 5:
		j.fault, j.at = "getkey", c.N(len(j.keys)+1)
	case 6:
		j.keys = append(j.keys, panicKey)
	case 7:
		j.fault = "open"
	case 8:
		j.fault = "size"
	case 9:
		j.keys = append(j.keys, "\U0001F468", "‍", "\r") // ends with a joiner waiting
	}
	return j
}

type c27res struct {
	text  string
	err   string
	panic string
	out   string
	hooks string
}

func c27(c *Ctx) {
	errTty = c.pickErr(errOther)
	p := c.profile(c.N(3))
	n := c.Range(2, 4)
	sess := make([]c27sess, n)
	for i := range sess {
		sess[i] = c.c27sess(p)
		c.logf("input %d: keys %q default %q cursor %d width %d added %q fault %s@%d", i, sess[i].keys, sess[i].def, sess[i].cursor, sess[i].width, sess[i].grow, sess[i].fault, sess[i].at)
	}
	color, predict, cycle, hook := c.P(1, 3), c.P(1, 3), c.P(1, 2), c.P(1, 2)
	c.logf("colouring %v prediction %v cycling %v hook %v", color, predict, cycle, hook)
	type used struct {
		ed    *readline.Editor
		tty   *FakeTty
		rec   *recWriter
		hist  hist
		hooks []readline.Result
	}
	mk := func() *used {
		u := &used{tty: &FakeTty{H: 24}, rec: &recWriter{keep: true}}
		u.ed = &readline.Editor{Writer: u.rec, Tty: u.tty, HistoryCycling: cycle,
			PromptWriter: func(w io.Writer) (int, error) { return io.WriteString(w, "$ ") }}
		if color {
			u.ed.Coloring = &coloring.VimBatch{}
		}
		if predict {
			u.ed.PredictColor = readline.PredictColorBlueItalic
		}
		if hook {
			u.ed.LineFeedWriter = func(r readline.Result, w io.Writer) (int, error) {
				u.hooks = append(u.hooks, r)
				return io.WriteString(w, "\n")
			}
		}
		u.ed.BindKey(keys.Code(panicKey), readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
			panic("harness: command")
		}))
		u.ed.BindKey(keys.Code(pasteKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
			b.InsertAndRepaint("pasted text")
			return readline.CONTINUE
		}))
		return u
	}
	play := func(u *used, j c27sess) (r c27res) {
		u.ed.Default, u.ed.Cursor = j.def, j.cursor
		u.ed.History = u.hist
		u.rec.all, u.hooks = nil, nil
		u.tty.W = j.width
		u.tty.openErr, u.tty.sizeErr = nil, nil
		switch j.fault {
		case "open":
			u.tty.openErr = errTty
		case "size":
			u.tty.sizeErr = errTty
		}
		k := 0
		u.tty.next = func() (string, error) {
			if j.fault == "getkey" && k >= j.at || k > len(j.keys)+60 {
				return "", errTty
			}
			k++
			if k > len(j.keys) {
				return "\r", nil
			}
			return j.keys[k-1], nil
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.panic = fmt.Sprint(e)
					if r.panic != "harness: command" {
						r.panic += "\n" + trimStack(debug.Stack())
					}
				}
			}()
			text, err := u.ed.ReadLine(context.Background())
			r.text, r.err = text, fmt.Sprint(err)
			c.stat("settings_kept", 1)
			if d, h := u.ed.Default, fmt.Sprintf("%q", u.ed.History); d != j.def || h != fmt.Sprintf("%q", u.hist) || u.ed.HistoryCycling != cycle {
				c.failf("after the input the default is %q (was %q), the history %s (was %q), cycling %v (was %v)", d, j.def, h, u.hist, u.ed.HistoryCycling, cycle)
			}
			if (u.ed.PredictColor[0] != "") != predict || color && u.ed.Coloring == nil || u.ed.Writer != u.rec || u.ed.Tty != u.tty {
				c.failf("after the input the settings are not those made before: %+v", u.ed)
			}
			if errors.Is(err, errStop) {
				c.failf("unexpected error %v", err)
			}
		}()
		r.out, r.hooks = string(u.rec.all), fmt.Sprint(u.hooks)
		return r
	}
	old := mk()
	var hs hist
	for i, j := range sess {
		hs = append(append(hist{}, hs...), j.grow...)
		old.hist = hs
		fresh := mk()
		fresh.hist = hs
		a, b := play(old, j), play(fresh, j)
		c.eval(fmt.Sprint(a.text, "|", a.err, "|", a.out))
		if i > 0 {
			c.stat("used_again", 1)
			c.stat("after_fault_"+sess[i-1].fault, 1)
		}
		if strings.Contains(a.panic, "\n") {
			c.failf("input %d: panic %s", i, a.panic)
			return
		}
		if a != b {
			d := 0
			for d < len(a.out) && d < len(b.out) && a.out[d] == b.out[d] {
				d++
			}
			c.failf("input %d of a used editor: text %q error %s panic %q hooks %s; of a new editor: text %q error %s panic %q hooks %s (output differs from byte %d: %.60q / %.60q)",
				i, a.text, a.err, a.panic, a.hooks, b.text, b.err, b.panic, b.hooks, d, a.out[min(d, len(a.out)):], b.out[min(d, len(b.out)):])
			return
		}
		if a.err == "<nil>" && a.panic == "" && c.P(1, 2) {
			hs = append(append(hist{}, hs...), a.text)
		}
	}
	c.sample("%d inputs, last %q", n, sess[n-1].keys)
}
