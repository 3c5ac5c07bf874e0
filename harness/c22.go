package main

import (
	"context"
	"fmt"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

// ---- C22: the buffer operations for user-defined commands ----

const apiKey = "\x1B[api~"

type apiOp struct {
	name string
	a, b int
	s    string
}

func c22(c *Ctx) {
	p := c.profile(c.N(3))
	defer c.setQuotes()()
	w := pick(c.RNG, []int{80, 40, 60, 120, 30, 300})
	s := newSess(c, w, "> ")
	s.top = 2
	s.sentinel()
	s.ed.Default = p.long(c, 30)
	s.ed.Cursor = c.N(c.size(20))
	var cells []Unit // reference
	cur := 0
	type snap struct {
		cells []Unit
		noop  bool
	}
	var undo []snap
	push := func() { undo = append(undo, snap{cells: append([]Unit(nil), cells...)}) }
	// everything that can be asked without changing anything
	query := func(b *readline.Buffer, after string) bool {
		pos := make([]int, len(cells)+1)
		for i, u := range cells {
			pos[i+1] = pos[i] + u.width(pos[i])
		}
		bad := func(f string, a ...any) bool {
			c.failf("after %s: %s (line %q cursor %d)", after, fmt.Sprintf(f, a...), unitsText(cells), cur)
			return false
		}
		if got := b.String(); got != unitsText(cells) {
			return bad("String() = %q, want %q", got, unitsText(cells))
		}
		if len(b.Buffer) != len(cells) {
			return bad("the line has %d characters, want %d", len(b.Buffer), len(cells))
		}
		if b.Cursor != cur {
			return bad("Cursor = %d, want %d", b.Cursor, cur)
		}
		i := c.N(len(cells) + 1)
		j := i + c.N(len(cells)-i+1)
		if got := b.SubString(i, j); got != unitsText(cells[i:j]) {
			return bad("SubString(%d,%d) = %q, want %q", i, j, got, unitsText(cells[i:j]))
		}
		if !anyLoose(cells[i:j]) {
			if got := int(b.GetWidthBetween(i, j)); got != pos[j]-pos[i] {
				return bad("GetWidthBetween(%d,%d) = %d, want %d", i, j, got, pos[j]-pos[i])
			}
		}
		top := wordTop(cells, cur)
		if got := b.CurrentWordTop(); got != top {
			return bad("CurrentWordTop() = %d, want %d", got, top)
		}
		if word, at := b.CurrentWord(); at != top || word != unitsText(cells[top:cur]) {
			return bad("CurrentWord() = %q,%d, want %q,%d", word, at, unitsText(cells[top:cur]), top)
		}
		for i, u := range cells {
			if b.Buffer[i].String() != u.S {
				return bad("character %d is %q, want %q", i, b.Buffer[i].String(), u.S)
			}
		}
		if got := int(b.ViewWidth()); got != w-2-3 {
			return bad("ViewWidth() = %d on a terminal of %d columns behind a prompt of 2", got, w)
		}
		return true
	}
	repainted := false
	var ops []apiOp
	run := func(b *readline.Buffer) {
		repainted = false
		for n := c.Range(1, 6); n > 0 && !c.failed(); n-- {
			op := apiOp{name: pick(c.RNG, []string{"InsertString", "InsertString", "Delete", "Delete", "ReplaceAndRepaint", "ReplaceAndRepaint", "InsertAndRepaint", "Undo", "Cursor", "DrawFromHead", "RepaintAfterPrompt", "RepaintLastLine", "RepaintAll", "GotoHead", "BadDelete"})}
			t := p.text(c, c.size(pick(c.RNG, []int{1, 4, 20})))
			us := c.Caps.Segment(t)
			switch op.name {
			case "InsertString":
				op.a, op.s = c.N(len(cells)+1), t
				push()
				got := b.InsertString(op.a, t)
				cells = spliced(cells, op.a, 0, us)
				repainted = false
				if got != len(us) {
					c.failf("InsertString(%d,%q) reported %d characters, inserted were %d", op.a, t, got, len(us))
				}
				if len(us) == 0 {
					undo[len(undo)-1].noop = true
				}
			case "Delete":
				op.a = c.N(len(cells) + 1)
				op.b = c.N(len(cells) - op.a + 1)
				pos := 0
				width := 0
				for i, u := range cells {
					uw := u.width(pos)
					if i >= op.a && i < op.a+op.b {
						width += uw
					}
					pos += uw
				}
				loose := anyLoose(cells)
				if op.b > 0 {
					push()
				}
				got := int(b.Delete(op.a, op.b))
				cells = spliced(cells, op.a, op.b, nil)
				repainted = false
				if !loose && got != width {
					c.failf("Delete(%d,%d) reported a width of %d, removed were %d columns", op.a, op.b, got, width)
				}
				if b.Cursor > len(cells) {
					b.Cursor = len(cells)
				}
				cur = b.Cursor
			case "BadDelete":
				op.a = c.N(len(cells) + 3)
				op.b = pick(c.RNG, []int{0, -1, len(cells) - op.a + 1 + c.N(5), 1 << 30})
				if op.a+op.b <= len(cells) && op.b > 0 {
					continue
				}
				if got := b.Delete(op.a, op.b); got != 0 {
					c.failf("Delete(%d,%d) on a line of %d characters reported width %d", op.a, op.b, len(cells), got)
				}
			case "ReplaceAndRepaint":
				op.a, op.s = c.N(cur+1), t
				push()
				b.ReplaceAndRepaint(op.a, t)
				if len(us) == 0 && cur == op.a {
					undo[len(undo)-1].noop = true
				}
				cells = spliced(cells, op.a, cur-op.a, us)
				cur = op.a + len(us)
				repainted = true
			case "InsertAndRepaint":
				op.s = t
				push()
				b.InsertAndRepaint(t)
				if len(us) == 0 {
					undo[len(undo)-1].noop = true
				}
				cells = spliced(cells, cur, 0, us)
				cur += len(us)
				repainted = true
			case "Undo":
				before := unitsText(cells)
				readline.CmdUndo.Call(context.Background(), b)
				got := b.String()
				repainted = true
				// an insertion of nothing may or may not count as an edit
				match := false
				for len(undo) > 0 {
					u := undo[len(undo)-1]
					undo = undo[:len(undo)-1]
					cells = u.cells
					if unitsText(cells) == got {
						match = true
						break
					}
					if !u.noop {
						break
					}
				}
				c.eval("undo|" + got)
				c.stat("undone", 1)
				if !match && !(got == before && len(undo) == 0) {
					c.failf("undo turned %q into %q, before the last operation it was %q", before, got, unitsText(cells))
				}
				cur = b.Cursor
				if cur < 0 || cur > len(b.Buffer) {
					c.failf("after undo the cursor is at %d of %d", cur, len(b.Buffer))
					return
				}
			case "Cursor":
				cur = c.N(len(cells) + 1)
				b.Cursor = cur
				b.ResetViewStart()
				op.a = cur
				repainted = false
			case "DrawFromHead":
				b.ResetViewStart()
				b.DrawFromHead()
				repainted = true
			case "RepaintAfterPrompt":
				b.RepaintAfterPrompt()
				repainted = true
			case "RepaintLastLine":
				b.ResetViewStart()
				b.RepaintLastLine()
				repainted = true
			case "RepaintAll":
				// the usual way: something was printed, then all of the line again
				b.Out.WriteString(pick(c.RNG, []string{"\n", "\r\n", "\nmessage\r\n", "\r"}))
				b.RepaintAll()
				repainted = true
			case "GotoHead":
				b.GotoHead()
				b.Out.Flush()
				if s.vt.cx != s.top {
					c.failf("GotoHead moved the cursor to column %d, the line starts at %d", s.vt.cx, s.top)
				}
				repainted = false
			}
			ops = append(ops, op)
			c.logf("%s(%d,%d,%q)", op.name, op.a, op.b, op.s)
			c.stat("api_"+op.name, 1)
			c.eval(fmt.Sprint(op, "|", unitsText(cells), "|", cur))
			if c.failed() || !query(b, fmt.Sprintf("%s(%d,%d,%q)", op.name, op.a, op.b, op.s)) {
				return
			}
		}
		if c.P(2, 3) {
			b.RepaintAfterPrompt()
			repainted = true
		} else {
			// a command has to leave a valid view
			b.ResetViewStart()
			if !repainted {
				b.RepaintAfterPrompt()
				repainted = true
			}
		}
	}
	s.ed.BindKey(keys.Code(apiKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		run(b)
		return readline.CONTINUE
	}))
	c.logf("width %d default %q cursor %d caps %s", w, s.ed.Default, s.ed.Cursor, c.Caps.Name)
	first := true
	s.atWait = func(k *kstep, oc int) {
		if first {
			first = false
			cells = c.Caps.Segment(s.ed.Default)
			cur = s.B.Cursor
			undo = []snap{{nil, len(cells) == 0}}
		}
		if !query(s.B, k.op) {
			return
		}
		us := s.cells()
		if anyLoose(us) || maxUnit(us) > s.viewWidth()-2 {
			return
		}
		if k.op == "api" && !repainted {
			return
		}
		c.stat("screens", 1)
		if why := s.screenMatches(us, s.B.Cursor, nil); why != "" {
			c.failf("after the command: %s; line %q cursor %d", why, unitsText(us), s.B.Cursor)
		}
	}
	n := c.Range(1, 8)
	s.gen = func() []kstep {
		if n--; n < 0 {
			return nil
		}
		return []kstep{{key: apiKey, op: "api"}}
	}
	r := s.runChecked()
	if !c.failed() && r.err == nil && r.text != unitsText(cells) {
		c.failf("ReadLine returned %q, the line was %q", r.text, unitsText(cells))
	}
	c.sample("%d operations, result %q", len(ops), r.text)
}

func init() { reg("C22", c22) }
