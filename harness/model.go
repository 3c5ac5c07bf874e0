package main

import (
	"strings"
	"unicode"
	"unicode/utf8"

	readline "github.com/nyaosorg/go-readline-ny"
)

type snap struct {
	cells []Unit
	cur   int // cursor after this undo
}

// Model is the reference line editor: a plain list of characters with a cursor,
// a stack of earlier contents, a clipboard, and a history pointer.
type Model struct {
	caps    Caps
	cells   []Unit
	cur     int
	undo    []snap
	pending string
	clip    string
	clipOK  bool
	hist    []string
	hp      int
	mod     map[int]string
	cycling bool
	predict func(string) string // nil: prediction disabled

	rec func(kind int, pos int, del, ins []Unit) // optional edit observer
}

func NewModel(caps Caps, def string, cursor int, hist []string) *Model {
	m := &Model{caps: caps, hist: hist, hp: len(hist), mod: map[int]string{}}
	m.insertAt(0, caps.Segment(def))
	m.cur = cursor
	if m.cur > len(m.cells) {
		m.cur = len(m.cells)
	}
	return m
}

func (m *Model) text() string { return unitsText(m.cells) }

func (m *Model) push(cur int) {
	m.undo = append(m.undo, snap{append([]Unit(nil), m.cells...), cur})
}

func spliced(cells []Unit, pos, del int, ins []Unit) []Unit {
	out := make([]Unit, 0, len(cells)+len(ins)-del)
	out = append(out, cells[:pos]...)
	out = append(out, ins...)
	return append(out, cells[pos+del:]...)
}

func (m *Model) insertAt(pos int, us []Unit) {
	m.push(pos)
	m.cells = spliced(m.cells, pos, 0, us)
}

// deleteAt is one edit; deleting nothing is not.
func (m *Model) deleteAt(pos, n int) {
	if n <= 0 || pos+n > len(m.cells) {
		return
	}
	m.push(pos + n)
	m.cells = spliced(m.cells, pos, n, nil)
}

// replaceAt replaces [pos,cursor) by s as one edit.
func (m *Model) replaceAt(pos int, s string) {
	us := m.caps.Segment(s)
	m.push(m.cur)
	m.cells = spliced(m.cells, pos, m.cur-pos, us)
	m.cur = pos + len(us)
}

func (m *Model) paste(s string) { m.replaceAt(m.cur, s) }

func (m *Model) flush() {
	if m.pending != "" {
		s := m.pending
		m.pending = ""
		us := m.caps.Segment(s)
		m.insertAt(m.cur, us)
		m.cur += len(us)
	}
}

func firstRune(s string) rune {
	r, _ := utf8.DecodeRuneInString(s)
	return r
}

func (m *Model) self(s string) {
	if len(s) == 2 && s[0] == 0x1B {
		s = s[1:]
	}
	r := firstRune(s)
	switch {
	case m.pending != "":
		s = m.pending + s
		m.pending = ""
	case s != "" && m.caps.isZWJ(r) && m.cur > 0:
		m.pending = m.cells[m.cur-1].S + s
		m.bdel()
		return
	case s != "" && (m.caps.isVS(r) || m.caps.isMod(r)) && m.cur > 0:
		base := m.cells[m.cur-1].S
		m.bdel()
		s = base + s
	}
	us := m.caps.Segment(s)
	m.insertAt(m.cur, us)
	m.cur += len(us)
}

func (m *Model) bdel() {
	if m.cur > 0 {
		m.cur--
		m.deleteAt(m.cur, 1)
	}
}

// quoteChars are the quotes of words, set by setQuotes.
var quoteChars = "\"'"

// setQuotes changes the quotes of words in some of the cases.
func (c *Ctx) setQuotes() (restore func()) {
	if c.P(1, 6) {
		quoteChars = pick(c.RNG, []string{"", "\"", "'", "`", "\"'`", "'\u6F22", "x"})
		c.logf("quotes %q", quoteChars)
		c.stat("other_quotes", 1)
	}
	readline.Delimiters = quoteChars
	return func() {
		quoteChars = "\"'"
		readline.Delimiters = quoteChars
	}
}

func wordTop(cells []Unit, cur int) int {
	top := -1
	var quote rune
	for i := 0; i < cur; i++ {
		u := cells[i]
		if u.kind == kZWJ || u.kind == kVS || u.kind == kMod {
			if top < 0 {
				top = i
			}
			continue
		}
		ch := []rune(u.S)[0]
		if quote == 0 {
			if strings.ContainsRune(quoteChars, ch) {
				quote = ch
			}
		} else if ch == quote {
			quote = 0
		}
		if unicode.IsSpace(ch) && quote == 0 {
			top = -1
		} else if top < 0 {
			top = i
		}
	}
	if top < 0 {
		return cur
	}
	return top
}

func (m *Model) killText(a, b int) string { return unitsText(m.cells[a:b]) }

func (m *Model) setClip(s string) {
	if m.clipOK {
		m.clip = s
	}
}

// outcome of a key
const (
	oContinue = iota
	oEnter
	oIntr
	oEOF
)

func (m *Model) op(name string) int {
	m.flush()
	switch name {
	case "bol":
		m.cur = 0
	case "eol":
		m.cur = len(m.cells)
	case "bchar":
		if m.cur > 0 {
			m.cur--
		}
	case "fchar":
		if m.cur < len(m.cells) {
			m.cur++
		} else if m.predict != nil && len(m.cells) > 0 {
			if s := m.predict(m.text()); s != "" {
				m.paste(s)
			}
		}
	case "bdel":
		m.bdel()
	case "del":
		m.deleteAt(m.cur, 1)
	case "delabort":
		if len(m.cells) == 0 {
			return oEOF
		}
		m.deleteAt(m.cur, 1)
	case "killline":
		m.setClip(m.killText(m.cur, len(m.cells)))
		m.push(len(m.cells))
		m.cells = append([]Unit(nil), m.cells[:m.cur]...)
	case "killwhole":
		m.killWhole()
	case "wordrubout":
		p := m.cur
		for p > 0 && isSpaceUnit(m.cells[p-1]) {
			p--
		}
		top := wordTop(m.cells, p)
		m.setClip(m.killText(top, m.cur))
		m.deleteAt(top, m.cur-top)
		m.cur = top
	case "linediscard":
		m.setClip(m.killText(0, m.cur))
		m.deleteAt(0, m.cur)
		m.cur = 0
	case "yank":
		if m.clipOK {
			m.paste(strings.TrimRight(m.clip, "\r\n\000"))
		}
	case "yankq":
		if m.clipOK {
			t := m.clip
			if strings.ContainsRune(t, ' ') && !strings.HasPrefix(t, `"`) {
				t = `"` + strings.ReplaceAll(t, `"`, `""`) + `"`
				t = strings.ReplaceAll(t, "\r\n", "\"\r\n\"")
			}
			m.paste(t)
		}
	case "swap":
		switch {
		case m.cur == len(m.cells) && m.cur >= 2:
			m.push(m.cur)
			m.cells = append([]Unit(nil), m.cells...)
			c := m.cells
			c[m.cur-2], c[m.cur-1] = c[m.cur-1], c[m.cur-2]
		case m.cur < len(m.cells) && m.cur >= 1:
			m.push(m.cur + 1)
			m.cells = append([]Unit(nil), m.cells...)
			c := m.cells
			c[m.cur-1], c[m.cur] = c[m.cur], c[m.cur-1]
			m.cur++
		}
	case "bword":
		for m.cur > 0 && isSpaceUnit(m.cells[m.cur-1]) {
			m.cur--
		}
		for m.cur > 0 && !isSpaceUnit(m.cells[m.cur-1]) {
			m.cur--
		}
	case "fword":
		for m.cur < len(m.cells) && !isSpaceUnit(m.cells[m.cur]) {
			m.cur++
		}
		for m.cur < len(m.cells) && isSpaceUnit(m.cells[m.cur]) {
			m.cur++
		}
	case "undo":
		if n := len(m.undo); n > 0 {
			s := m.undo[n-1]
			m.undo = m.undo[:n-1]
			m.cells, m.cur = s.cells, s.cur
		}
	case "clear", "repaintnl", "noop":
	case "prev":
		if len(m.hist) == 0 || (m.hp <= 0 && !m.cycling) {
			break
		}
		m.saveHist()
		if m.hp <= 0 {
			m.hp = len(m.hist)
		} else {
			m.hp--
		}
		m.loadHist()
	case "next":
		if len(m.hist) == 0 || m.hp+1 > len(m.hist) {
			break
		}
		m.saveHist()
		m.hp++
		m.loadHist()
	case "accept":
		return oEnter
	case "intr":
		m.cells, m.cur, m.undo = nil, 0, nil
		return oIntr
	default:
		panic("unknown op " + name)
	}
	return oContinue
}

func (m *Model) killWhole() {
	m.push(len(m.cells))
	m.cells = nil
	m.cur = 0
}

func (m *Model) saveHist() {
	s := m.text()
	if m.hp < len(m.hist) && m.hist[m.hp] == s {
		delete(m.mod, m.hp)
		return
	}
	m.mod[m.hp] = s
}

func (m *Model) loadHist() {
	m.killWhole()
	s, ok := m.mod[m.hp]
	if !ok && m.hp < len(m.hist) {
		s = m.hist[m.hp]
	}
	if s != "" {
		us := m.caps.Segment(s)
		m.insertAt(0, us)
		m.cur = len(us)
	}
}

// ISearch is the reference incremental search.
type ISearch struct {
	m      *Model
	search []rune
	found  string
	last   int
	Done   bool
}

func (m *Model) startISearch() *ISearch {
	m.flush()
	return &ISearch{m: m, last: len(m.hist) - 1}
}

func foldContains(s, t string) bool {
	return strings.Contains(strings.ToUpper(s), strings.ToUpper(t))
}

func (s *ISearch) update() {
	s.found = ""
	for i := len(s.m.hist) - 1; i >= 0; i-- {
		if foldContains(s.m.hist[i], string(s.search)) {
			s.found, s.last = s.m.hist[i], i
			return
		}
	}
}

func (s *ISearch) key(k string) {
	h := s.m.hist
	match := func(i int) bool {
		if foldContains(h[i], string(s.search)) && h[i] != s.found {
			s.found, s.last = h[i], i
			return true
		}
		return false
	}
	switch k {
	case "\b", "\x7F":
		if n := len(s.search); n > 0 {
			s.search = s.search[:n-1]
		}
		s.update()
	case "\r":
		m := s.m
		m.push(len(m.cells))
		m.cells = m.caps.Segment(s.found)
		m.cur = len(m.cells)
		s.Done = true
	case "\x03", "\x07", "\x1B":
		s.Done = true
	case "\x12":
		n := len(h)
		start := s.last
		for k := 1; k < n; k++ {
			i := ((start-k)%n + n) % n
			if match(i) {
				break
			}
		}
	case "\x13":
		for i := s.last + 1; i < len(h); i++ {
			if match(i) {
				break
			}
		}
	default:
		r := firstRune(k)
		if unicode.IsControl(r) {
			return
		}
		s.search = append(s.search, r)
		s.update()
	}
}

func (s *ISearch) drawn() string { return "(i-search)[" + string(s.search) + "]:" + s.found }
