package main

import (
	"context"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/completion"
	"github.com/nyaosorg/go-readline-ny/keys"
)

type fixedCompletion struct {
	quotes, del string
	list        func([]string) ([]string, []string)
}

func (f fixedCompletion) Delimiters() string                    { return f.del }
func (f fixedCompletion) Enclosures() string                    { return f.quotes }
func (f fixedCompletion) List(w []string) (full, base []string) { return f.list(w) }

// joiner-heavy alphabet for the exhaustive part
var trickyRunes = []rune{'a', ' ', '\t', 0x1B, 0x7F, 0x200C, 0x200D, 0xFE0F, 0x1F3FB, 0x20E3, 0x1F468, 0x2500, 0x1F3F3, 0x0301, 0x1F1E6}

func roundTrip(c *Ctx, str string) bool {
	var sb strings.Builder
	for _, m := range readline.StringToMoji(str) {
		m.WriteTo(&sb)
	}
	c.eval("rt|" + str)
	if sb.String() != str {
		c.failf("StringToMoji(%+q) written back gives %+q (caps %s)", str, sb.String(), c.Caps.Name)
		return false
	}
	return true
}

func init() {
	reg("C03", func(c *Ctx) {
		// part 1: splitting and writing back
		p := c.profile(2)
		n := len(trickyRunes)
		total := n * n * n * n
		for i := c.Idx % 97; i < total; i += 97 {
			rs := []rune{trickyRunes[i%n], trickyRunes[i/n%n], trickyRunes[i/n/n%n], trickyRunes[i/n/n/n]}
			if !roundTrip(c, string(rs[:1+(i/97)%4])) || !roundTrip(c, string(rs)) {
				return
			}
		}
		for i := 0; i < 30; i++ {
			if !roundTrip(c, p.text(c, c.size(12))) {
				return
			}
		}
		// part 2: through a whole input
		s := newSess(c, c.termWidth(), "> ")
		s.ed.Default = p.long(c, 8)
		if c.P(1, 2000) {
			s.ed.Default = strings.Repeat(p.text(c, 40)+"x", c.Range(1000, 4000))
			c.stat("enormous", 1)
		}
		s.ed.Cursor = c.N(c.size(10))
		h := hist{p.text(c, 10), p.text(c, c.size(10))}
		s.ed.History = h
		var pasted, cand, predicted string
		s.bindPaste(pasteKey, &pasted)
		s.ed.BindKey(keys.Code("\x1B[ins~"), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
			b.Cursor += b.InsertString(b.Cursor, pasted)
			b.RepaintAfterPrompt()
			return readline.CONTINUE
		}))
		s.ed.BindKey(keys.Code("\x1B[cmpl~"), completion.CmdCompletion{Completion: fixedCompletion{"", "", func([]string) ([]string, []string) {
			return []string{cand}, nil
		}}})
		if c.P(1, 2) {
			s.ed.PredictColor = readline.PredictColorBlueItalic
			s.ed.Predictor = func(*readline.Buffer) string { return predicted }
		}
		c.logf("default %+q cursor %d history %+q", s.ed.Default, s.ed.Cursor, []string(h))
		want := s.ed.Default // text expected at the next comparison
		recalled := false
		rounds := c.Range(1, 6)
		compare := func(how string) func() {
			return func() {
				got := s.B.String()
				c.eval(how + "|" + want)
				c.stat("in_"+how, 1)
				if got != want {
					c.failf("text entered by %s: line is %+q, want %+q (caps %s)", how, got, want, c.Caps.Name)
				}
			}
		}
		split := func() (string, string) {
			return s.B.SubString(0, s.B.Cursor), s.B.SubString(s.B.Cursor, len(s.B.Buffer))
		}
		settle := func(how string) kstep { return kstep{key: probeKey, op: "probe", check: compare(how)} }
		first := true
		s.gen = func() []kstep {
			if first {
				first = false
				return []kstep{settle("default")}
			}
			if rounds--; rounds < 0 {
				return nil
			}
			var out []kstep
			move := func() {
				for i := c.N(4); i > 0; i-- {
					op := pick(c.RNG, []string{"bol", "eol", "bchar", "bchar", "fword", "bword"})
					out = append(out, kstep{key: pick(c.RNG, keysOf[op]), op: op})
				}
			}
			way := pick(c.RNG, []string{"typed", "typed", "pasted", "inserted", "recalled", "completed", "predicted", "searched"})
			txt := p.text(c, c.size(8))
			switch way {
			case "typed":
				move()
				var l, r string
				out = append(out, kstep{key: probeKey, op: "probe", check: func() { l, r = split(); want = l + txt + r }})
				for _, ru := range txt {
					out = append(out, s.typeSteps(ru)...)
				}
				if c.P(1, 3) {
					// leave the last character to the next command
					out = append(out, kstep{key: pick(c.RNG, keysOf["bol"]), op: "bol"})
				}
				return append(out, settle("typing"))
			case "pasted", "inserted":
				move()
				key := pasteKey
				if way == "inserted" {
					key = "\x1B[ins~"
				}
				pasted = txt
				return append(out, kstep{key: probeKey, op: "probe", check: func() { l, r := split(); want = l + txt + r }},
					kstep{key: key, op: way}, settle(way))
			case "recalled":
				if recalled {
					return []kstep{settle("nothing")}
				}
				recalled = true
				return []kstep{{key: pick(c.RNG, keysOf["prev"]), op: "prev", check: func() { want = h[1] }}, settle("recall")}
			case "completed":
				cand = "zq" + txt
				out = append(out, kstep{key: "\x05", op: "eol"}, kstep{key: " ", op: "self"}, kstep{key: "z", op: "self"},
					kstep{key: "q", op: "self"}, kstep{key: probeKey, op: "probe", check: func() {
						l, r := split()
						want = strings.TrimSuffix(l, "zq") + cand + r
						if strings.EqualFold(cand, "zq") {
							want = l + r
						}
					}}, kstep{key: "\x1B[cmpl~", op: "complete"})
				return append(out, settle("completion"))
			case "predicted":
				if s.ed.Predictor == nil || s.ed.PredictColor[0] == "" {
					return []kstep{settle("nothing")}
				}
				predicted = txt
				return append(out, kstep{key: "\x05", op: "eol"}, kstep{key: probeKey, op: "probe", check: func() {
					want = s.B.String()
					if want != "" {
						want += txt
					}
				}}, kstep{key: "\x06", op: "fchar"}, settle("prediction"))
			case "searched":
				out = append(out, kstep{key: "\x12", op: "isearch"})
				// the empty search string typed and erased finds the newest entry
				out = append(out, kstep{key: "\x08", op: "iskey"}, kstep{key: "\r", op: "isend", check: func() { want = h[1] }})
				return append(out, settle("search"))
			}
			return nil
		}
		s.atWait = func(k *kstep, oc int) {}
		r := s.runChecked()
		if c.failed() {
			return
		}
		c.eval("ret|" + r.text)
		if r.err != nil || r.text != want {
			c.failf("ReadLine returned %+q, %v; want %+q", r.text, r.err, want)
		}
		c.sample("returned %+q", r.text)
	})
}
