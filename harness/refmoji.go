package main

import (
	"fmt"
	"os"
	"strings"
	"unicode"
)

// Caps is the terminal-capability setting, derived here independently from the
// environment variables the library documents.
type Caps struct {
	Name                        string
	Surr, ZWJ, VS, Mod, AmbWide bool
	zwjWidth                    func(a, b int) int
	over                        map[rune]int
}

func capsFromEnv() Caps {
	vscode := os.Getenv("VSCODE_PID") != ""
	wt := os.Getenv("WT_SESSION") != "" && os.Getenv("WT_PROFILE_ID") != "" && !vscode
	wez := os.Getenv("TERM_PROGRAM") == "WezTerm"
	contour := os.Getenv("TERMINAL_NAME") == "contour"
	c := Caps{
		Surr: wt || wez || contour, ZWJ: wt || wez || contour, VS: wt || wez || contour,
		Mod: wt || wez, AmbWide: !wt,
	}
	c.Name = fmt.Sprintf("surr=%v zwj=%v vs=%v mod=%v amb=%v", c.Surr, c.ZWJ, c.VS, c.Mod, c.AmbWide)
	return c
}

const (
	kRaw = iota
	kTab
	kCtrl
	kEsc
	kReg
	kFix // printed inside a reserved two-column box
	kZWJ
	kVS
	kMod
)

// Unit is one editing unit of the reference segmentation.
type Unit struct {
	S     string // code points
	kind  int
	w     int  // width; tabs: 0 (depends on position)
	fix   bool // leftmost base is a kFix character
	vs    bool // contains a variation selector
	loose bool // columns of the raw print are not defined by the library's rules
}

func (c Caps) rw(r rune) int {
	if w, ok := c.over[r]; ok {
		return w
	}
	if c.AmbWide {
		return baseWidthAmb(r)
	}
	return baseWidthNar(r)
}

func (c Caps) isVS(r rune) bool {
	return c.VS && (unicode.Is(unicode.Variation_Selector, r) || unicode.Is(unicode.Me, r))
}
func (c Caps) isMod(r rune) bool { return c.Mod && r >= 0x1F3FB && r <= 0x1F3FF }
func (c Caps) isZWJ(r rune) bool { return c.ZWJ && r == 0x200D }

func isRegional(r rune) bool { return r >= 0x1F1E6 && r <= 0x1F1FF }

func (c Caps) single(r rune) Unit {
	u := Unit{S: string(r)}
	switch {
	case r == '\t':
		u.kind = kTab
	case r < ' ':
		u.kind, u.w = kCtrl, 2
	case r >= 0x2500 && r <= 0x257F && c.AmbWide:
		u.kind, u.w, u.fix = kFix, 2, true
	case c.isVS(r) || (r >= 0x10000 && !c.Surr) || c.rw(r) == 0:
		u.kind, u.w = kEsc, len(fmt.Sprintf("<%X>", r))
	case isRegional(r):
		u.kind, u.w = kReg, 2
	case (r >= 0x1D400 && r <= 0x1D7FF) || r == 0x1F3F3:
		u.kind, u.w, u.fix = kFix, 2, true
	default:
		u.kind, u.w = kRaw, c.rw(r)
	}
	return u
}

func asIs(u Unit) bool { return u.kind != kTab && u.kind != kCtrl && u.kind != kEsc }

// Segment splits s into editing units.
func (c Caps) Segment(s string) []Unit {
	var out []Unit
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		if n := len(out); n > 0 && asIs(out[n-1]) {
			last := out[n-1]
			if c.isZWJ(r) && i+1 < len(rs) && asIs(c.single(rs[i+1])) {
				nx := rs[i+1]
				i++
				f := c.zwjWidth
				if f == nil {
					f = func(a, b int) int { return a + 1 + b }
				}
				out[n-1] = Unit{S: last.S + string(r) + string(nx), kind: kZWJ, w: f(last.w, c.rw(nx)), fix: last.fix, vs: last.vs,
					loose: last.loose || c.single(nx).kind != kRaw || c.zwjWidth != nil}
				continue
			}
			if c.isVS(r) {
				w := last.w + 1
				if last.kind == kFix {
					w = last.w
				}
				out[n-1] = Unit{S: last.S + string(r), kind: kVS, w: w, fix: last.fix, vs: true, loose: last.loose}
				continue
			}
			if c.isMod(r) {
				out[n-1] = Unit{S: last.S + string(r), kind: kMod, w: last.w + c.rw(r), fix: last.fix, vs: last.vs,
					loose: last.loose || last.fix || last.vs}
				continue
			}
		}
		out = append(out, c.single(r))
	}
	return out
}

// width of unit u when it starts at column pos of the line.
func (u Unit) width(pos int) int {
	if u.kind == kTab {
		return 4 - pos%4
	}
	return u.w
}

// visible is what the screen must show for the unit (blanks removed).
func (u Unit) visible() string {
	switch u.kind {
	case kTab:
		return ""
	case kCtrl:
		return "^" + string(rune('@'+[]rune(u.S)[0]))
	case kEsc:
		return fmt.Sprintf("<%X>", []rune(u.S)[0])
	}
	return strings.ReplaceAll(u.S, " ", "")
}

// termWidth is the column advance of one printed code point on the emulated terminal.
func (c Caps) termWidth(r rune) int {
	if r == 0x200D {
		return 1
	}
	if isRegional(r) {
		return 2
	}
	if c.isVS(r) {
		return 0
	}
	return c.rw(r)
}

func unitsText(us []Unit) string {
	var sb strings.Builder
	for _, u := range us {
		sb.WriteString(u.S)
	}
	return sb.String()
}

func unitsWidth(us []Unit, a, b int) int {
	pos, w := 0, 0
	for i := 0; i < b; i++ {
		x := us[i].width(pos)
		if i >= a {
			w += x
		}
		pos += x
	}
	return w
}

func unitsEqual(a, b []Unit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].S != b[i].S {
			return false
		}
	}
	return true
}

func isSpaceUnit(u Unit) bool {
	switch u.kind {
	case kZWJ, kVS, kMod:
		return false
	}
	return unicode.IsSpace([]rune(u.S)[0])
}
