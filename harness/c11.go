package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// C11: the clipboard tool in PATH is a script of the harness which keeps the
// clipboard in the file $RLMON_CLIP and fails while $RLMON_CLIP.fail exists.
// With RLMON_CLIPDIR unset there is no clipboard tool at all.

func init() { reg("C11", c11) }

func c11(c *Ctx) {
	dir := os.Getenv("RLMON_CLIPDIR")
	clip := filepath.Join(dir, fmt.Sprintf("clip-%d", os.Getpid()))
	avail := dir != ""
	broken := false
	setBroken := func(b bool) {
		if !avail {
			return
		}
		broken = b
		if b {
			os.WriteFile(clip+".fail", nil, 0o600)
		} else {
			os.Remove(clip + ".fail")
		}
	}
	setClip := func(t string) {
		if avail {
			os.WriteFile(clip, []byte(t), 0o600)
		}
	}
	getClip := func() string {
		b, _ := os.ReadFile(clip)
		return string(b)
	}
	if avail {
		os.Setenv("RLMON_CLIP", clip)
		setBroken(false)
		setClip("")
		defer os.Remove(clip)
		defer os.Remove(clip + ".fail")
	}
	p := c.profile(c.N(3))
	defer c.setQuotes()()
	s := newSess(c, c.termWidth(), "> ")
	s.ed.Default = p.long(c, 25)
	s.ed.Cursor = c.N(c.size(25))
	s.m = NewModel(c.Caps, s.ed.Default, s.ed.Cursor, nil)
	c.logf("clipboard %v default %q cursor %d caps %s", avail, s.ed.Default, s.ed.Cursor, c.Caps.Name)
	var cells []Unit // at the previous wait
	var cur int
	var clipBefore string
	usable := func() bool { return avail && !broken }
	s.atWait = func(k *kstep, oc int) {
		c.stat("op_"+k.op, 1)
		now, ncur := s.cells(), s.B.Cursor
		left, right := unitsText(cells[:min(cur, len(cells))]), unitsText(cells[min(cur, len(cells)):])
		cut := func(removed, rest string) {
			c.eval(fmt.Sprint(k.op, "|", removed, "|", rest, "|", usable()))
			if got := unitsText(now); got != rest {
				c.failf("%s on %q|%q left %q, want %q", k.op, left, right, got, rest)
				return
			}
			if !usable() {
				c.stat("cut_without_clipboard", 1)
				return
			}
			got := getClip()
			if removed == "" {
				if got != "" && got != clipBefore {
					c.failf("%s removed nothing but the clipboard holds %q", k.op, got)
				}
				return
			}
			c.stat("cut_to_clipboard", 1)
			if got != removed {
				c.failf("%s removed %q, the clipboard holds %q", k.op, removed, got)
			}
		}
		pasted := func(t string) {
			c.eval(fmt.Sprint(k.op, "|", left, "|", t, "|", right, "|", usable()))
			if !usable() {
				t = ""
				c.stat("paste_without_clipboard", 1)
			} else {
				c.stat("pasted", 1)
			}
			if got := unitsText(now); got != left+t+right {
				c.failf("%s of %q into %q|%q gave %q (clipboard usable: %v)", k.op, t, left, right, got, usable())
				return
			}
			if got := unitsText(now[:ncur]); got != left+t {
				c.failf("%s of %q into %q|%q left the cursor behind %q", k.op, t, left, right, got)
			}
		}
		switch k.op {
		case "killline":
			cut(right, left)
		case "linediscard":
			cut(left, right)
		case "wordrubout":
			e := cur
			top := 0
			for e > 0 && isSpaceUnit(cells[e-1]) {
				e--
			}
			top = wordTop(cells, e)
			cut(unitsText(cells[top:cur]), unitsText(cells[:top])+right)
		case "yank":
			pasted(strings.TrimRight(clipBefore, "\r\n\000"))
		case "yankq":
			t := clipBefore
			if strings.Contains(t, " ") && !strings.HasPrefix(t, `"`) {
				t = `"` + strings.ReplaceAll(t, `"`, `""`) + `"`
				if usable() {
					c.stat("quoted", 1)
				}
			}
			pasted(t)
		}
		cells, cur = now, ncur
		s.m.cells, s.m.cur = now, ncur
		clipBefore = getClip()
		if avail && c.P(1, 12) {
			setBroken(!broken)
			c.logf("clipboard broken: %v", broken)
		}
		if c.P(1, 8) {
			t := p.text(c, c.size(pick(c.RNG, []int{3, 10, 60})))
			t += pick(c.RNG, []string{"", "", "\n", "\r\n", "\r\n\n", "\x00"})
			if c.P(1, 20) {
				t = strings.Repeat("0123456789abcdef ", 8000) + t // larger than a pipe
			}
			setClip(t)
			clipBefore = t
			if len(t) < 200 {
				c.logf("clipboard set to %q", t)
			}
		}
	}
	n := c.Range(4, c.size(24))
	s.gen = func() []kstep {
		if n--; n <= 0 {
			return nil
		}
		op := pickOp(c.RNG, []weighted{{"self", 10}, {"killline", 12}, {"linediscard", 8}, {"wordrubout", 14}, {"yank", 18}, {"yankq", 12}, {"bchar", 6}, {"bword", 8}, {"eol", 6}, {"bol", 2}, {"undo", 5}})
		if len(cells) > 20000 {
			n = min(n, 4)
		}
		if strings.HasPrefix(op, "yank") && len(cells)+len(clipBefore) > 300000 {
			op = "killline"
		}
		if op == "yankq" && strings.ContainsAny(clipBefore, "\r\n\x00") {
			op = "yank"
		}
		if op == "self" {
			for {
				r := p.rune(c)
				if r >= ' ' && r != 0x7F && !c.Caps.isZWJ(r) && !c.Caps.isVS(r) && !(r >= 0x1F3FB && r <= 0x1F3FF) {
					return s.typeSteps(r)
				}
			}
		}
		return []kstep{s.opKey(op)}
	}
	s.runChecked()
	c.sample("clipboard %v: %d keys", avail, s.waits)
}

// opKey is opStep without a reference.
func (s *Sess) opKey(op string) kstep { return kstep{key: pick(s.c.RNG, keysOf[op]), op: op} }
