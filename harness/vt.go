package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// VT is a small terminal emulator: the oracle for everything the editor paints.
// It understands exactly the sequences the editor may send; anything else is
// recorded in Bad.
type VTCell struct {
	s    string // "" = blank or continuation of a wide character
	cont bool
	sgr  string
	ital bool
}

type VT struct {
	W, H       int
	rows       [][]VTCell
	cx, cy     int
	pendWrap   bool
	sx, sy     int
	CursorOn   bool
	SGR        string // parameters of the last SGR sequence
	italic     bool
	Bells      int
	Bad        []string
	scrolled   int
	wrapped    int // number of automatic wraps
	maxCol     int
	pend       []byte
	caps       Caps
	curToggles []bool // history of cursor visibility switches
	CSIs       map[string]int
	visPaint   int // characters painted while the cursor was visible
}

func NewVT(w, h int, caps Caps) *VT {
	v := &VT{W: w, H: h, CursorOn: true, caps: caps, CSIs: map[string]int{}}
	v.rows = make([][]VTCell, h)
	for i := range v.rows {
		v.rows[i] = make([]VTCell, w)
	}
	return v
}

func (v *VT) Resize(w int) {
	if w == v.W {
		return
	}
	for i := range v.rows {
		n := make([]VTCell, w)
		copy(n, v.rows[i])
		v.rows[i] = n
	}
	v.W = w
	if v.cx >= w {
		v.cx = w - 1
	}
	v.pendWrap = false
}

func (v *VT) bad(format string, a ...any) {
	if len(v.Bad) < 20 {
		v.Bad = append(v.Bad, fmt.Sprintf(format, a...))
	}
}

func (v *VT) lf() {
	v.pendWrap = false
	if v.cy == v.H-1 {
		copy(v.rows, v.rows[1:])
		v.rows[v.H-1] = make([]VTCell, v.W)
		v.scrolled++
		v.sy--
	} else {
		v.cy++
	}
}

func (v *VT) clearCell(y, x int) {
	if x < 0 || x >= v.W {
		return
	}
	c := v.rows[y][x]
	if c.cont { // right half: blank the left half too
		if x > 0 {
			v.rows[y][x-1] = VTCell{}
		}
	} else if x+1 < v.W && v.rows[y][x+1].cont {
		v.rows[y][x+1] = VTCell{}
	}
	v.rows[y][x] = VTCell{}
}

func (v *VT) put(r rune, w int) {
	if w == 0 { // combining: attach to the character left of the cursor
		x := v.cx - 1
		if v.pendWrap {
			x = v.cx
		}
		for x > 0 && v.rows[v.cy][x].cont {
			x--
		}
		if x < 0 {
			v.bad("combining %U at column 0", r)
			return
		}
		v.rows[v.cy][x].s += string(r)
		return
	}
	if v.CursorOn {
		v.visPaint++
	}
	if v.pendWrap || v.cx+w > v.W {
		v.wrapped++
		v.cx = 0
		v.lf()
	}
	for i := 0; i < w && v.cx+i < v.W; i++ {
		v.clearCell(v.cy, v.cx+i)
	}
	v.rows[v.cy][v.cx] = VTCell{s: string(r), sgr: v.SGR, ital: v.italic}
	for i := 1; i < w && v.cx+i < v.W; i++ {
		v.rows[v.cy][v.cx+i] = VTCell{cont: true, sgr: v.SGR}
	}
	v.cx += w
	if v.cx-1 > v.maxCol {
		v.maxCol = v.cx - 1
	}
	if v.cx >= v.W {
		v.cx = v.W - 1
		v.pendWrap = true
	}
}

// Write interprets terminal output. Incomplete sequences are kept for the next call.
func (v *VT) Write(p []byte) (int, error) {
	v.pend = append(v.pend, p...)
	for len(v.pend) > 0 {
		n := v.step(v.pend)
		if n == 0 {
			break
		}
		v.pend = v.pend[n:]
	}
	return len(p), nil
}

func (v *VT) step(b []byte) int {
	c := b[0]
	switch {
	case c == 0x1B:
		return v.escape(b)
	case c == '\r':
		v.cx = 0
		v.pendWrap = false
		return 1
	case c == '\n':
		v.cx = 0
		v.lf()
		return 1
	case c == '\b':
		v.pendWrap = false
		if v.cx > 0 {
			v.cx--
		}
		return 1
	case c == 7:
		v.Bells++
		return 1
	case c < 0x20 || c == 0x7F:
		v.bad("raw control %#02x", c)
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if r == utf8.RuneError && n == 1 {
		v.bad("invalid utf8 byte %#02x", c)
		return 1
	}
	if r >= 0x80 && r < 0xA0 {
		v.bad("raw control %U", r)
		return n
	}
	v.put(r, v.caps.termWidth(r))
	return n
}

func (v *VT) escape(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '7':
		v.sx, v.sy = v.cx, v.cy
		return 2
	case '8':
		v.cx, v.cy = min(v.sx, v.W-1), max(v.sy, 0)
		v.pendWrap = false
		return 2
	case ']':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 {
				return i + 1
			}
		}
		return 0
	case '[':
		for i := 2; i < len(b); i++ {
			if b[i] >= 0x40 && b[i] <= 0x7E {
				v.csi(string(b[2:i]), b[i])
				return i + 1
			}
			if b[i] < 0x20 || b[i] > 0x3F {
				v.bad("malformed CSI %q", b[:i+1])
				return i
			}
		}
		return 0
	}
	v.bad("unknown escape ESC %#02x", b[1])
	return 2
}

func (v *VT) csi(par string, fin byte) {
	var ps []int
	if par != "" && par[0] != '?' {
		for _, f := range strings.Split(par, ";") {
			n := 0
			if f != "" {
				var err error
				if n, err = strconv.Atoi(f); err != nil {
					v.bad("bad CSI parameter %q%c", par, fin)
					return
				}
			}
			ps = append(ps, n)
		}
	}
	arg := func(i, def int) int {
		if i < len(ps) && ps[i] > 0 {
			return ps[i]
		}
		return def
	}
	clampX := func(x int) int { return max(0, min(x, v.W-1)) }
	clampY := func(y int) int { return max(0, min(y, v.H-1)) }
	v.CSIs[string(fin)]++
	switch fin {
	case 'A':
		v.cy, v.pendWrap = clampY(v.cy-arg(0, 1)), false
	case 'B':
		v.cy, v.pendWrap = clampY(v.cy+arg(0, 1)), false
	case 'C':
		v.cx, v.pendWrap = clampX(v.cx+arg(0, 1)), false
	case 'D':
		v.cx, v.pendWrap = clampX(v.cx-arg(0, 1)), false
	case 'G', '`':
		v.cx, v.pendWrap = clampX(arg(0, 1)-1), false
	case 'd':
		v.cy, v.pendWrap = clampY(arg(0, 1)-1), false
	case 'H', 'f':
		v.cy, v.cx, v.pendWrap = clampY(arg(0, 1)-1), clampX(arg(1, 1)-1), false
	case 'K':
		a, b := v.cx, v.W
		switch arg(0, 0) {
		case 1:
			a, b = 0, v.cx+1
		case 2:
			a = 0
		}
		for x := a; x < b; x++ {
			v.clearCell(v.cy, x)
		}
	case 'X':
		for x := v.cx; x < v.W && x < v.cx+arg(0, 1); x++ {
			v.clearCell(v.cy, x)
		}
	case 'P':
		n := min(arg(0, 1), v.W-v.cx)
		row := v.rows[v.cy]
		copy(row[v.cx:], row[v.cx+n:])
		for x := v.W - n; x < v.W; x++ {
			row[x] = VTCell{}
		}
	case '@':
		n := min(arg(0, 1), v.W-v.cx)
		row := v.rows[v.cy]
		copy(row[v.cx+n:], row[v.cx:])
		for x := v.cx; x < v.cx+n; x++ {
			row[x] = VTCell{}
		}
	case 'm':
		v.SGR = par
		for ps := strings.Split(par, ";"); len(ps) > 0; ps = ps[1:] {
			switch ps[0] {
			case "", "0", "23":
				v.italic = false
			case "3":
				v.italic = true
			case "38", "48": // colours of a table or in red, green and blue
				if len(ps) > 1 && ps[1] == "5" {
					ps = ps[min(2, len(ps)-1):]
				} else {
					ps = ps[min(4, len(ps)-1):]
				}
			}
		}
	case 'h', 'l':
		if par != "?25" {
			v.bad("unexpected mode %q%c", par, fin)
			return
		}
		v.CursorOn = fin == 'h'
		v.curToggles = append(v.curToggles, v.CursorOn)
	case 's':
		v.sx, v.sy = v.cx, v.cy
	case 'u':
		v.cx, v.cy = clampX(v.sx), clampY(v.sy)
		v.pendWrap = false
	case 'J':
		a, b := v.cy+1, v.H
		switch arg(0, 0) {
		case 0:
			for x := v.cx; x < v.W; x++ {
				v.clearCell(v.cy, x)
			}
		case 1:
			a, b = 0, v.cy
			for x := 0; x <= v.cx && x < v.W; x++ {
				v.clearCell(v.cy, x)
			}
		default:
			a = 0
		}
		for y := a; y < b; y++ {
			v.rows[y] = make([]VTCell, v.W)
		}
	default:
		v.bad("unexpected CSI %q%c", par, fin)
	}
}

// RowText renders row y with trailing blanks removed.
func (v *VT) RowText(y int) string {
	var sb strings.Builder
	for _, c := range v.rows[y] {
		if c.cont {
			continue
		}
		if c.s == "" {
			sb.WriteByte(' ')
		} else {
			sb.WriteString(c.s)
		}
	}
	return strings.TrimRight(sb.String(), " ")
}

// Span concatenates the characters painted in columns [a,b) of row y, without blanks.
func (v *VT) Span(y, a, b int) string {
	var sb strings.Builder
	for x := a; x < b && x < v.W; x++ {
		sb.WriteString(v.rows[y][x].s)
	}
	return strings.ReplaceAll(sb.String(), " ", "")
}

// EmptyFrom reports whether row y is blank from column a on.
func (v *VT) EmptyFrom(y, a int) bool {
	for x := a; x < v.W; x++ {
		if c := v.rows[y][x]; c.cont || (c.s != "" && c.s != " ") {
			return false
		}
	}
	return true
}
