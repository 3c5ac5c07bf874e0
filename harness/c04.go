package main

import (
	"strings"
	"unicode"

	readline "github.com/nyaosorg/go-readline-ny"
)

func init() {
	reg("C04", func(c *Ctx) {
		caps := c.Caps
		readline.ResetCharWidth()
		defer readline.ResetCharWidth()
		surr := readline.IsSurrogatePairEnabled()
		defer readline.EnableSurrogatePair(surr)
		if surr != caps.Surr {
			c.failf("IsSurrogatePairEnabled is %v, the terminal setting says %v", surr, caps.Surr)
		}
		if c.P(1, 4) {
			v := c.P(1, 2)
			readline.EnableSurrogatePair(v)
			caps.Surr = v
		}
		if c.P(1, 8) {
			readline.SetZWJSWidthGetter(func(a, b int) int { return 2 })
			caps.zwjWidth = func(a, b int) int { return 2 }
			defer readline.SetZWJSWidthGetter(func(a, b int) int { return a + 1 + b })
		}
		p := c.profile(2)
		check := func(str string) bool {
			us := readline.StringToMoji(str)
			ref := caps.Segment(str)
			c.eval("w|" + str)
			if len(us) != len(ref) {
				c.failf("StringToMoji(%+q) has %d units, want %d (caps %s)", str, len(us), len(ref), caps.Name)
				return false
			}
			pos := 0
			vt := NewVT(400+8*len(str), 2, caps)
			for i, u := range us {
				w := int(u.Width())
				if want := ref[i].width(pos); w != want {
					c.failf("width of unit %d (%+q) of %+q is %d, want %d (column %d, caps %s)", i, ref[i].S, str, w, want, pos, caps.Name)
					return false
				}
				if !ref[i].loose {
					x := vt.cx
					u.PrintTo(vt)
					if vt.cx-x != w {
						c.failf("unit %d (%+q) of %+q reports width %d but printing it moves the cursor by %d (caps %s)", i, ref[i].S, str, w, vt.cx-x, caps.Name)
						return false
					}
					if got := vt.Span(0, x, x+w); got != ref[i].visible() {
						c.failf("unit %d (%+q) of %+q is printed as %q, want %q", i, ref[i].S, str, got, ref[i].visible())
						return false
					}
					c.stat("printed", 1)
				} else {
					vt.cx += w
				}
				if ref[i].kind == kTab && (pos+w)%4 != 0 {
					c.failf("tab at column %d has width %d", pos, w)
					return false
				}
				pos += w
			}
			if w := int(readline.GetStringWidth(str)); w != pos {
				c.failf("GetStringWidth(%+q) = %d, its units have %d (caps %s)", str, w, pos, caps.Name)
				return false
			}
			if n := readline.MojiCountInString(str); n != len(us) {
				c.failf("MojiCountInString(%+q) = %d, it has %d units", str, n, len(us))
				return false
			}
			return true
		}
		block := func(n int) bool {
			for i := 0; i < n; i++ {
				if !check(p.text(c, c.size(14))) {
					return false
				}
			}
			// a slice of all code points, alone and behind a letter
			for k := 0; k < 40; k++ {
				r := rune((c.Idx*40 + k*2713) % 0x110000)
				if r >= 0xD800 && r <= 0xDFFF {
					continue
				}
				if !check(string(r)) || !check("x"+string(r)+"y") {
					return false
				}
			}
			return true
		}
		if !block(15) {
			return
		}
		// overrides
		caps.over = map[rune]int{}
		var touched []rune
		for i := 0; i < 4; i++ {
			r := p.rune(c)
			if c.P(1, 4) {
				r = pick(c.RNG, []rune("abcghixyz.,;:!?-+*/(){}#$%&'\"=~`|"))
			}
			if r <= ' ' || r >= '0' && r <= '9' || r >= '@' && r <= '_' || r == '<' || r == '>' {
				continue // the emulator needs them to show ^X and <XX>
			}
			if r >= 0x7F && r < 0xA1 || isRegional(r) || caps.isVS(r) || r == 0x200D || r >= 0x2500 && r <= 0x257F || caps.single(r).kind == kFix {
				continue
			}
			w := c.Range(0, 2)
			readline.SetCharWidth(r, w)
			caps.over[r] = w
			touched = append(touched, r)
			c.stat("overrides", 1)
			if !check(string(r)) {
				return
			}
		}
		if !block(8) {
			return
		}
		related := func() bool {
			for _, r := range touched {
				for _, q := range []rune{r - 1, r + 1, r ^ 0x20, r ^ 0x80, r & 0xFF, r & 0x7F, r & 0xFFFF, r | 0x10000, unicode.ToUpper(r), unicode.ToLower(r), unicode.ToTitle(r), unicode.SimpleFold(r)} {
					if q > ' ' && q < 0xD800 || q > 0xDFFF && q <= unicode.MaxRune {
						c.stat("related", 1)
						if !check(string(q)) {
							return false
						}
					}
				}
			}
			for q := rune(0x21); q < 0x7F; q++ {
				if !check(string(q)) {
					return false
				}
			}
			return true
		}
		if !related() {
			return
		}
		for _, r := range touched {
			if !check("a" + string(r) + "\t" + string(r)) {
				return
			}
		}
		if c.P(1, 60) {
			// looking at many other characters keeps the overrides
			for r := rune(0x21); r < 0x12000; r++ {
				if r < 0xD800 || r > 0xDFFF {
					readline.GetStringWidth(string(r))
				}
			}
			c.stat("swept", 1)
			if !related() {
				return
			}
			for _, r := range touched {
				if !check(string(r)) {
					return
				}
			}
		}
		if c.P(1, 300) {
			// tabs far to the right
			if !check(strings.Repeat("x", c.Range(32000, 34000)) + "\t" + p.text(c, 4) + "\t") {
				return
			}
			c.stat("far_right", 1)
		}
		readline.ResetCharWidth()
		caps.over = nil
		for _, r := range touched {
			if !check(string(r)) {
				return
			}
		}
		if !related() {
			return
		}
		block(8)
		c.sample("overrides for %+q set and forgotten", string(touched))
	})
}
