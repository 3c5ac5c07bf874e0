package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

var undoOps = []weighted{
	{"self", 40}, {"bol", 3}, {"eol", 3}, {"bchar", 10}, {"fchar", 6}, {"bdel", 8}, {"del", 5},
	{"killline", 4}, {"killwhole", 3}, {"wordrubout", 5}, {"linediscard", 4}, {"swap", 10},
	{"bword", 4}, {"fword", 4}, {"paste", 8}, {"replace", 8}, {"prev", 6}, {"next", 5}, {"isearch", 3},
	{"undo", 25}, {"quoted", 3}, {"altchar", 2}, {"unbound", 2},
}

var undoOpsLong = []weighted{
	{"self", 60}, {"bol", 2}, {"eol", 2}, {"bchar", 8}, {"fchar", 4}, {"bdel", 6}, {"del", 5},
	{"killline", 1}, {"wordrubout", 2}, {"swap", 8}, {"paste", 4}, {"replace", 3}, {"prev", 1}, {"undo", 4},
}

const pasteKey = "\x1B[paste~"
const replaceKey = "\x1B[replace~"

// bindCommon binds the two inserting user commands used by several properties.
func (s *Sess) bindCommon(text *string) {
	s.bindPaste(pasteKey, text)
	s.ed.BindKey(keys.Code(replaceKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		b.ReplaceAndRepaint(b.CurrentWordTop(), *text)
		return readline.CONTINUE
	}))
}

func (s *Sess) pasteStep(text *string, t string) kstep {
	*text = t
	return kstep{key: pasteKey, op: "paste", apply: func() int {
		s.m.flush()
		s.m.paste(t)
		return oContinue
	}}
}

func (s *Sess) replaceStep(text *string, t string) kstep {
	*text = t
	return kstep{key: replaceKey, op: "replace", apply: func() int {
		s.m.flush()
		s.m.replaceAt(wordTop(s.m.cells, s.m.cur), t)
		return oContinue
	}}
}

// isearchSteps is a complete incremental search.
func (s *Sess) isearchSteps(query []rune, end string) []kstep {
	out := []kstep{{key: "\x12", op: "isearch", apply: func() int { s.is = s.m.startISearch(); return oContinue }}}
	for _, r := range query {
		k := string(r)
		out = append(out, kstep{key: k, op: "iskey", apply: func() int { s.is.key(k); return oContinue }})
	}
	return append(out, kstep{key: end, op: "isend", apply: func() int {
		s.is.key(end)
		s.is = nil
		return oContinue
	}})
}

func init() {
	reg("C02", func(c *Ctx) {
		p := c.profile(c.N(3))
		w := c.termWidth()
		s := newSess(c, w, "> ")
		s.ed.Default = p.long(c, 10)
		s.ed.Cursor = c.N(c.size(12))
		var h hist
		for i := c.N(5); i > 0; i-- {
			h = append(h, p.long(c, 10))
		}
		s.ed.History = h
		s.ed.HistoryCycling = c.P(1, 3)
		s.m = NewModel(c.Caps, s.ed.Default, s.ed.Cursor, h)
		s.m.cycling = s.ed.HistoryCycling
		if c.P(1, 4) {
			// accepting a prediction is one edit
			pool := []string{p.text(c, 8), p.text(c, 3), "", p.text(c, c.size(5))}
			s.m.predict = func(t string) string { return pool[hashStr(t)%uint64(len(pool))] }
			s.ed.PredictColor = readline.PredictColorBlueItalic
			s.ed.Predictor = func(b *readline.Buffer) string { return s.m.predict(b.String()) }
			c.stat("with_prediction", 1)
		}
		clip := ""
		if dir := os.Getenv("RLMON_CLIPDIR"); dir != "" {
			clip = filepath.Join(dir, fmt.Sprintf("clip-%d", os.Getpid()))
			os.Setenv("RLMON_CLIP", clip)
			os.WriteFile(clip, []byte(p.text(c, 8)), 0o600)
			defer os.Remove(clip)
		}
		var text string
		s.bindCommon(&text)
		c.logf("width %d default %q cursor %d history %q cycling %v caps %s", w, s.ed.Default, s.ed.Cursor, []string(h), s.ed.HistoryCycling, c.Caps.Name)
		n := c.Range(5, 60)
		ops := undoOps
		if c.P(1, 30) {
			// a long input: the records of hundreds of edits have to be kept
			n = c.Range(200, 900)
			if c.P(1, 25) {
				n = c.Range(2000, 4000)
				c.stat("very_long_inputs", 1)
			}
			ops = undoOpsLong
			c.stat("long_inputs", 1)
		}
		unwinding, emptied := false, false
		undo := func() kstep {
			k := kstep{key: pick(c.RNG, keysOf["undo"]), op: "undo"}
			k.apply = func() int {
				m := s.m
				m.flush()
				before := m.text()
				got := s.B.String()
				// A command that removed nothing may or may not have left a record.
				alts := []int{}
				d := len(m.undo)
				if d > 0 {
					alts = append(alts, d-1)
					for d > 0 && unitsText(m.undo[d-1].cells) == before {
						d--
					}
					if d > 0 && d != len(m.undo) {
						alts = append(alts, d-1)
					}
				}
				if len(alts) == 0 {
					c.eval("")
					if got != before {
						c.failf("undo with nothing left to undo changed %q to %q", before, got)
					}
					return oContinue
				}
				for _, a := range alts {
					if want := unitsText(m.undo[a].cells); want == got {
						m.cells = m.undo[a].cells
						m.undo = m.undo[:a]
						m.cur = s.B.Cursor
						c.eval(fmt.Sprint("undo|", before, "|", got))
						c.max("undo_depth", a+1)
						if !unitsEqual(m.cells, s.cells()) {
							// same text, split differently: the next commands may act on
							// other units than the reference
							c.stat("resegmented", 1)
							m.cells = s.cells()
						}
						return oContinue
					}
				}
				c.failf("undo turned %q into %q, but before the most recent edit the line was %q", before, got, unitsText(m.undo[len(m.undo)-1].cells))
				return oContinue
			}
			return k
		}
		s.atWait = func(k *kstep, oc int) {
			c.stat("op_"+k.op, 1)
			if c.failed() || k.op == "undo" {
				return
			}
			if s.m.pending == "" && s.is == nil && (s.B.String() != s.m.text() || s.B.Cursor != s.m.cur) {
				// the edit itself is judged by other properties
				c.stat("diverged", 1)
				s.stopped = true
			}
		}
		s.gen = func() []kstep {
			n--
			if n > 0 {
				op := pickOp(c.RNG, ops)
				if clip != "" && len(s.m.cells) < 300 && c.P(1, 5) {
					op = "yank"
				}
				switch op {
				case "yank":
					return []kstep{{key: pick(c.RNG, keysOf["yank"]), op: op, apply: func() int {
						b, _ := os.ReadFile(clip)
						s.m.clip, s.m.clipOK = string(b), true
						c.stat("yanked", 1)
						return s.m.op("yank")
					}}}
				case "undo":
					return []kstep{undo()}
				case "paste":
					return []kstep{s.pasteStep(&text, p.text(c, c.size(8)))}
				case "replace":
					return []kstep{s.replaceStep(&text, p.text(c, 8))}
				case "isearch":
					q := []rune{}
					if len(h) > 0 && c.P(2, 3) {
						for _, r := range pick(c.RNG, h) {
							if r >= ' ' && r < 0x7F && len(q) < 2 {
								q = append(q, r)
							}
						}
					}
					return s.isearchSteps(q, pick(c.RNG, []string{"\r", "\r", "\x07", "\x1B"}))
				}
				return s.steps(op, p)
			}
			if !unwinding {
				unwinding = true
				c.stat("unwound", 1)
			}
			if len(s.m.undo) > 0 {
				return []kstep{undo()}
			}
			if !emptied {
				emptied = true
				if s.m.text() != "" {
					c.failf("all edits undone but the line is %q", s.m.text())
				}
				c.stat("unwound_to_empty", 1)
				return []kstep{undo(), undo()}
			}
			return nil
		}
		r := s.run()
		if r.panic != nil {
			c.failf("panic while processing key (%s): %v\n%s", s.last.op, r.panic, r.stack)
		}
		c.sample("%d keys, default %q, walked back to %q", s.waits, s.ed.Default, r.text)
	})
}
