package main

// Text and key generators.

var asciiLetters = []rune("abcdefgxyzABC0123.,-_=/+*?")

var alphabets = map[string][]rune{
	"ascii":  []rune("abcdefghij xyz ABC 012 .,- "),
	"words":  []rune(`ab c  de "x y" 'p q' f%g&h `),
	"wide":   []rune("ab\u6F22\u5B57\u304B\u306A\u3000\uFF21\uFF71\uFF72\u00C4\u00E9\u2460\u2500\u2502\u2192\u2026 "),
	"ctrl":   []rune("ab \t\x00\x01\x02\x03\x07\x08\x0a\x0c\x0d\x0e\x1b\x1f\x7f\u0080\u0085\u0090\u009b\u009c\u009d\u00A0\u00AD\t\tcd[2J\u2003\u2028\u2029"),
	"combi":  []rune("ae\u0301\u0308\u200B\u200C\u2060\uFEFF\u20DD\u20E3\uD55C\u1100\u1161\u11A8 x"),
	"emoji":  []rune("a\U0001F468\U0001F33E\U0001F3FB\U0001F3FF\u200D\uFE0F\uFE0E\U000E0104\u20E3#1\U0001F3F3\U0001F308\U0001F1EF\U0001F1F5\U0001D400\U0001F600 \u2640\u2764\u200D"),
	"tabs":   []rune("ab \t\tc\t漢x"),
	"astral": []rune("a\U00020BB7\U0001F600\U0001D7FF\U0010FFFD\U000E0061\uFFFD\uFFFE "),
}

var alphaNames = []string{"ascii", "words", "wide", "ctrl", "combi", "emoji", "astral", "tabs"}

// profile is the mixture of alphabets used by a case.
type profile struct{ sets [][]rune }

func (c *Ctx) profile(level int) *profile {
	// level 0: ascii only, 1: printable, 2: everything
	p := &profile{}
	add := func(n string) { p.sets = append(p.sets, alphabets[n]) }
	switch level {
	case 0:
		add("ascii")
		add("words")
	case 1:
		add("ascii")
		add("wide")
		if c.P(1, 2) {
			add("words")
		}
	default:
		for i := 0; i < 3; i++ {
			add(pick(c.RNG, alphaNames))
		}
		if c.P(1, 2) {
			add("ascii")
		}
	}
	return p
}

func (p *profile) rune(c *Ctx) rune {
	if c.P(1, 200) && len(p.sets) > 2 {
		// any valid code point
		for {
			r := rune(c.N(0x110000))
			if r < 0xD800 || r > 0xDFFF {
				return r
			}
		}
	}
	return pick(c.RNG, pick(c.RNG, p.sets))
}

func (p *profile) text(c *Ctx, max int) string {
	n := c.N(max + 1)
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = p.rune(c)
	}
	return string(rs)
}

// size is the usual limit of a length; a small part of the cases goes far beyond it.
func (c *Ctx) size(usual int) int {
	switch c.N(100) {
	case 0:
		c.stat("very_long", 1)
		return usual*10 + 400
	case 1, 2, 3:
		c.stat("long", 1)
		return usual*8 + 40
	}
	return usual
}

// long is a text for the line or the history, in a few cases a really long one.
func (p *profile) long(c *Ctx, usual int) string {
	if c.P(1, 3000) {
		c.stat("huge", 1)
		rs := make([]rune, c.Range(4000, 9000))
		for i := range rs {
			rs[i] = p.rune(c)
		}
		return string(rs)
	}
	return p.text(c, c.size(usual))
}

// entries is the number of history entries, in a few cases more than any sensible limit.
func (c *Ctx) entries(usual int) int {
	if c.P(1, 1000) {
		c.stat("huge_history", 1)
		return c.Range(1100, 3000)
	}
	return c.N(c.size(usual))
}

// widths from comfortable to hopeless
func (c *Ctx) termWidth() int {
	switch c.N(6) {
	case 0:
		if c.P(1, 10) {
			return c.Range(132, 600)
		}
		return 80
	case 1:
		return 40
	case 2:
		return c.Range(20, 30)
	case 3:
		return c.Range(14, 20)
	case 4:
		return c.Range(20, 132)
	}
	return 24
}

var prompts = []string{"> ", "$ ", "", "12345> ", "\x1B[0;32mok\x1B[0m> ", "\u6F22\u5B57> ", "a\nb> "}

// keysOf maps operations to the keys bound to them by default.
var keysOf = map[string][]string{
	"bol":         {"\x01", "\x1B[H"},
	"eol":         {"\x05", "\x1B[F"},
	"bchar":       {"\x02", "\x1B[D"},
	"fchar":       {"\x06", "\x1B[C"},
	"bdel":        {"\x08", "\x7F"},
	"del":         {"\x1B[3~"},
	"delabort":    {"\x04"},
	"killline":    {"\x0B"},
	"killwhole":   {"\x1B"},
	"wordrubout":  {"\x17"},
	"linediscard": {"\x15"},
	"clear":       {"\x0C"},
	"swap":        {"\x14"},
	"bword":       {"\x1Bb", "\x1B[1;5D"},
	"fword":       {"\x1Bf", "\x1B[1;5C"},
	"undo":        {"\x1A", "\x1F"},
	"yank":        {"\x19", "\x1Bv"},
	"yankq":       {"\x1By"},
	"prev":        {"\x10", "\x1B[A"},
	"next":        {"\x0E", "\x1B[B"},
	"accept":      {"\r"},
	"intr":        {"\x03"},
}

var quoteKeys = []string{"\x16", "\x11"}

// unbound control keys insert themselves
var unboundCtrl = []string{"\t", "\n", "\x07", "\x0f", "\x13", "\x18", "\x1c", "\x1d", "\x1e"}

func (s *Sess) opStep(op string) kstep {
	return kstep{key: pick(s.c.RNG, keysOf[op]), op: op, apply: func() int {
		if s.m == nil {
			return oContinue
		}
		return s.m.op(op)
	}}
}

func isBoundKey(k string) bool {
	for _, ks := range keysOf {
		for _, x := range ks {
			if x == k {
				return true
			}
		}
	}
	return k == "\x16" || k == "\x11" || k == "\x12" || k == probeKey
}

// typeSteps types r directly, or through quoted insert if its key is bound.
func (s *Sess) typeSteps(r rune) []kstep {
	k := string(r)
	if isBoundKey(k) || k == "\x00" || s.c.P(1, 20) {
		return s.quoted(k)
	}
	return []kstep{{key: k, op: "self", apply: func() int {
		if s.m != nil {
			s.m.self(k)
		}
		return oContinue
	}}}
}

func (s *Sess) quoted(k string) []kstep {
	return []kstep{
		{key: pick(s.c.RNG, quoteKeys), op: "quote", apply: func() int {
			if s.m != nil {
				s.m.flush()
			}
			return oContinue
		}},
		{key: k, op: "quoted", apply: func() int {
			if s.m != nil {
				s.m.self(k)
			}
			return oContinue
		}},
	}
}

type weighted struct {
	op string
	w  int
}

func pickOp(r *RNG, ws []weighted) string {
	t := 0
	for _, w := range ws {
		t += w.w
	}
	n := r.N(t)
	for _, w := range ws {
		if n < w.w {
			return w.op
		}
		n -= w.w
	}
	return ws[0].op
}
