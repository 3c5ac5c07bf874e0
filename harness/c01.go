package main

import (
	"fmt"
	"io"

	readline "github.com/nyaosorg/go-readline-ny"
)

var editOps = []weighted{
	{"self", 60}, {"quoted", 4}, {"unbound", 2}, {"altchar", 2},
	{"bol", 4}, {"eol", 4}, {"bchar", 12}, {"fchar", 8}, {"bdel", 8}, {"del", 5}, {"delabort", 4},
	{"killline", 2}, {"killwhole", 1}, {"wordrubout", 4}, {"linediscard", 2}, {"clear", 1},
	{"swap", 8}, {"bword", 6}, {"fword", 6},
}

// seqKeys are keys of several characters, with and without binding.
var seqKeys = []string{"\x1B[5~", "\x1B[6~", "\x1B[2~", "\x1B[15~", "\x1BOP", "\x1B[Z", "\x1B[1;2A", "\x1B[D", "\x1B[H", "\x1B[3~"}

// moreSteps turns an operation name into keys.
func (s *Sess) steps(op string, p *profile) []kstep {
	c := s.c
	switch op {
	case "self":
		return s.typeSteps(p.rune(c))
	case "quoted":
		if c.P(1, 5) {
			return s.quoted(pick(c.RNG, seqKeys))
		}
		return s.quoted(string(p.rune(c)))
	case "unbound":
		switch c.N(4) {
		case 0:
			if k := pick(c.RNG, seqKeys); !isBoundKey(k) {
				return s.selfKey(k)
			}
		case 1:
			// several characters in one key, as terminals deliver pasted text
			if k := p.text(c, c.Range(2, 6)); !isBoundKey(k) {
				return s.selfKey(k)
			}
		}
		return s.selfKey(pick(c.RNG, unboundCtrl))
	case "altchar":
		// an Alt combination without binding inserts its character
		return s.selfKey("\x1B" + string(pick(c.RNG, []rune("acdeghq029{}"))))
	case "delabort":
		if s.m != nil && len(s.m.cells) == 0 && s.m.pending == "" && c.P(9, 10) {
			return s.typeSteps(p.rune(c))
		}
	case "probe":
		return []kstep{{key: probeKey, op: "probe", apply: func() int { s.m.flush(); return oContinue }}}
	}
	return []kstep{s.opStep(op)}
}

func (s *Sess) selfKey(k string) []kstep {
	return []kstep{{key: k, op: "self", apply: func() int {
		if s.m != nil {
			s.m.self(k)
		}
		return oContinue
	}}}
}

func init() {
	reg("C01", func(c *Ctx) {
		level := c.N(3)
		p := c.profile(level)
		defer c.setQuotes()()
		w := c.termWidth()
		if c.P(1, 8) {
			w = c.N(12)
		}
		s := newSess(c, w, pick(c.RNG, prompts))
		// now and then the same editor reads several lines
		lines := 1
		if c.P(1, 5) {
			lines = c.Range(2, 4)
		}
		for i := 0; i < lines && !c.failed(); i++ {
			c01line(c, s, p, w)
		}
	})
}

func c01line(c *Ctx, s *Sess, p *profile, w int) {
	s.ed.Default = p.long(c, 12)
	s.ed.Cursor = 0
	if c.P(1, 2) {
		s.ed.Cursor = c.N(c.size(14))
	}
	s.last, s.queue, s.ended, s.stopped, s.B = nil, nil, false, false, nil
	s.m = NewModel(c.Caps, s.ed.Default, s.ed.Cursor, nil)
	c.logf("width %d prompt %q default %q cursor %d caps %s", w, s.prompt, s.ed.Default, s.ed.Cursor, c.Caps.Name)
	n := c.Range(5, c.size(60))
	end := oEnter
	prev := ""
	var prevCur int
	s.atWait = func(k *kstep, oc int) {
		got, gc := s.B.String(), s.B.Cursor
		want := s.m.text()
		changed := got != prev || gc != prevCur
		key := ""
		if changed {
			key = k.op + "|" + got + fmt.Sprint(gc, c.Caps.Name)
		}
		c.eval(key)
		c.stat("op_"+k.op, 1)
		if s.m.pending != "" {
			// the character before a typed joiner is held back until the next key
			c.stat("pending_joiner", 1)
		} else if got != want || gc != s.m.cur {
			c.failf("after %s (key %q): text %q cursor %d, list model has %q cursor %d (before: %q cursor %d)",
				k.op, k.key, got, gc, want, s.m.cur, prev, prevCur)
		}
		prev, prevCur = got, gc
	}
	s.gen = func() []kstep {
		n--
		if n == 0 {
			switch c.N(10) {
			case 0:
				end = oIntr
				return []kstep{s.opStep("intr")}
			case 1:
				// empty the line, then Ctrl-D
				end = oEOF
				return []kstep{s.opStep("killwhole"), s.opStep("delabort")}
			}
		}
		if n <= 0 {
			return nil
		}
		op := pickOp(c.RNG, editOps)
		if op == "delabort" && len(s.m.cells) == 0 && s.m.pending == "" {
			end = oEOF
			return []kstep{s.opStep("delabort")}
		}
		return s.steps(op, p)
	}
	r := s.runChecked()
	if c.failed() {
		return
	}
	s.m.flush()
	want := s.m.text()
	var wantErr error
	switch end {
	case oIntr:
		want, wantErr = "", readline.CtrlC
	case oEOF:
		want, wantErr = "", io.EOF
	}
	c.eval(fmt.Sprint("ret|", r.text, r.err))
	c.stat(fmt.Sprintf("end_%d", end), 1)
	if r.text != want || r.err != wantErr {
		c.failf("ReadLine returned (%q, %v), want (%q, %v)", r.text, r.err, want, wantErr)
	}
	c.sample("width %d, %d keys, result %q err %v", w, s.waits, r.text, r.err)
}
