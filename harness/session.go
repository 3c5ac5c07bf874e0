package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

var errStop = errors.New("harness: stop")

const probeKey = "\x1B[probe~"

// FakeTty is the scripted terminal: it hands out keys and logs the calls.
type FakeTty struct {
	W, H   int
	onSize func(int)
	next   func() (string, error)
	calls  []string
	opens  int
	closes int

	openErr, sizeErr, closeErr error
	isOpen                     bool
	onClose                    func()
	onOpen                     func(func(int))
	onGetSize                  func()
}

func (t *FakeTty) Open(onSize func(int)) error {
	t.calls = append(t.calls, "Open")
	if t.openErr != nil {
		return t.openErr
	}
	t.opens++
	t.isOpen = true
	t.onSize = onSize
	if t.onOpen != nil {
		t.onOpen(onSize)
	}
	return nil
}

func (t *FakeTty) GetKey() (string, error) {
	t.calls = append(t.calls, "GetKey")
	return t.next()
}

func (t *FakeTty) Size() (int, int, error) {
	t.calls = append(t.calls, "Size")
	if t.onGetSize != nil {
		t.onGetSize()
	}
	if t.sizeErr != nil {
		return 0, 0, t.sizeErr
	}
	return t.W, t.H, nil
}

func (t *FakeTty) Close() error {
	t.calls = append(t.calls, "Close")
	t.closes++
	t.isOpen = false
	if t.onClose != nil {
		t.onClose()
	}
	return t.closeErr
}

type hist []string

func (h hist) Len() int        { return len(h) }
func (h hist) At(i int) string { return h[i] }

// recWriter records what reached the terminal since the last key wait.
type recWriter struct {
	vt   *VT
	last []byte
	n    int64
	all  []byte
	keep bool
}

func (w *recWriter) Write(p []byte) (int, error) {
	w.n += int64(len(p))
	w.last = append(w.last, p...)
	if w.keep {
		w.all = append(w.all, p...)
	}
	if w.vt != nil {
		w.vt.Write(p)
	}
	return len(p), nil
}

// kstep is one key handed to the editor. apply advances the reference; check is
// called at the following key wait.
type kstep struct {
	key   string
	op    string
	apply func() int
	check func()
}

// Sess drives one ReadLine call.
type Sess struct {
	c       *Ctx
	caps    Caps
	vt      *VT
	out     *recWriter
	ed      *readline.Editor
	tty     *FakeTty
	B       *readline.Buffer
	m       *Model
	prompt  string
	queue   []kstep
	gen     func() []kstep // more steps; nil result = press Enter
	atWait  func(last *kstep, outcome int)
	last    *kstep
	waits   int
	want    int // outcome expected by the reference
	stopped bool
	is      *ISearch
	top     int
	row0    int
	ended   bool
	maxKeys int
	endKey  string // ends the line instead of Enter
	tail    string
	tailOf  string
	ctx     context.Context
}

func newSess(c *Ctx, w int, prompt string) *Sess {
	s := &Sess{c: c, caps: c.Caps, prompt: prompt}
	s.vt = NewVT(max(w, 2), 8, c.Caps)
	s.out = &recWriter{vt: s.vt}
	s.tty = &FakeTty{W: w, H: 8}
	s.ed = &readline.Editor{
		Writer:       s.out,
		Tty:          s.tty,
		PromptWriter: func(w io.Writer) (int, error) { return io.WriteString(w, prompt) },
	}
	s.ed.BindKey(keys.Code(probeKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		s.B = b
		return readline.CONTINUE
	}))
	s.maxKeys = 1 << 30
	s.tty.next = s.nextKey
	return s
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// bindPaste binds key to a command inserting text at the cursor.
func (s *Sess) bindPaste(key string, text *string) {
	s.ed.BindKey(keys.Code(key), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		b.InsertAndRepaint(*text)
		return readline.CONTINUE
	}))
}

func (s *Sess) nextKey() (string, error) {
	s.waits++
	if s.last != nil {
		oc := oContinue
		if s.last.apply != nil {
			oc = s.last.apply()
		}
		if oc != oContinue && s.atWait != nil {
			s.c.failf("the editor waits for another key after %q which ends the line", s.last.key)
		}
		if s.last.check != nil {
			s.last.check()
		}
		if s.atWait != nil && s.last.op != "probe0" {
			s.atWait(s.last, oc)
		}
	} else {
		// first key: the probe
		s.last = &kstep{key: probeKey, op: "probe0"}
		return probeKey, nil
	}
	if s.last.op == "probe0" && s.atWait != nil {
		s.atWait(s.last, oContinue)
	}
	s.out.last = s.out.last[:0]
	if s.c.failed() || s.stopped || s.waits > s.maxKeys {
		s.stopped = true
		return "", errStop
	}
	if len(s.queue) == 0 && s.gen != nil {
		s.queue = s.gen()
	}
	var k kstep
	if len(s.queue) == 0 {
		if s.ended {
			s.c.failf("the editor did not return on Enter")
			return "", errStop
		}
		s.ended = true
		k = kstep{key: "\r", op: "accept", apply: func() int { return oEnter }}
		if s.endKey != "" {
			k.key, k.op = s.endKey, "end"
		}
	} else {
		k = s.queue[0]
		s.queue = s.queue[1:]
	}
	s.last = &k
	s.c.logf("key %q (%s)", k.key, k.op)
	return k.key, nil
}

type result struct {
	text  string
	err   error
	panic any
	stack string
}

func (s *Sess) run() (r result) {
	defer func() {
		if p := recover(); p != nil {
			r.panic = p
			r.stack = trimStack(debug.Stack())
		}
	}()
	ctx := s.ctx
	if ctx == nil {
		ctx = context.Background()
	}
	r.text, r.err = s.ed.ReadLine(ctx)
	return
}

// runChecked runs and turns a panic into a violation.
func (s *Sess) runChecked() result {
	r := s.run()
	if r.panic != nil {
		op := ""
		if s.last != nil {
			op = s.last.op
		}
		s.c.failf("panic while processing key (%s): %v\n%s", op, r.panic, r.stack)
	}
	return r
}

// cells returns the line of the real editor as reference units.
func (s *Sess) cells() []Unit {
	out := make([]Unit, 0, len(s.B.Buffer))
	for _, cell := range s.B.Buffer {
		us := s.caps.Segment(cell.String())
		if len(us) == 1 {
			out = append(out, us[0])
		} else {
			out = append(out, Unit{S: cell.String(), kind: kRaw, loose: true})
		}
	}
	return out
}

func anyLoose(us []Unit) bool {
	for _, u := range us {
		if u.loose {
			return true
		}
	}
	return false
}

// ---- screen oracle ----

// promptTail is the part of a plain prompt that stays on the cursor row.
func (s *Sess) promptTail() string {
	if s.tailOf != s.prompt {
		vt := NewVT(900, 3, s.caps)
		vt.Write([]byte(s.prompt))
		s.tail, s.tailOf = vt.Span(vt.cy, 0, vt.cx), s.prompt
	}
	return s.tail
}

func (s *Sess) viewWidth() int { return s.vt.W - s.top - 3 }

// screenMatches compares the cursor row with line us and cursor cur; suffix is the
// prediction that may follow (nil none). It returns "" or a description.
func (s *Sess) screenMatches(us []Unit, cur int, suffix []Unit) string {
	vt := s.vt
	y := vt.cy
	if vt.pendWrap {
		return fmt.Sprintf("the cursor hangs at the right edge (row %q)", vt.RowText(y))
	}
	pos := make([]int, len(us)+1)
	for i, u := range us {
		pos[i+1] = pos[i] + u.width(pos[i])
	}
	if got, want := vt.Span(y, 0, s.top), strings.ReplaceAll(s.promptShown(), " ", ""); got != want {
		return fmt.Sprintf("prompt shown as %q, want %q (row %q)", got, want, vt.RowText(y))
	}
	off := vt.cx - s.top
	// first visible unit: the one that puts the cursor at this column
	starts := []int{}
	for vs := 0; vs <= cur; vs++ {
		if pos[cur]-pos[vs] == off {
			starts = append(starts, vs)
		}
	}
	if len(starts) == 0 {
		return fmt.Sprintf("cursor at column %d, no part of the line ends there (cursor index %d, row %q)", vt.cx, cur, vt.RowText(y))
	}
	why := ""
	for _, vs := range starts {
		why = s.viewMatches(us, pos, vs, cur, suffix)
		if why == "" {
			return ""
		}
	}
	return why
}

func (s *Sess) promptShown() string {
	if s.top == 0 {
		return ""
	}
	return s.promptTail()
}

func (s *Sess) viewMatches(us []Unit, pos []int, vs, cur int, suffix []Unit) string {
	vt, y := s.vt, s.vt.cy
	m := vs
	for m < len(us) {
		a := s.top + pos[m] - pos[vs]
		b := s.top + pos[m+1] - pos[vs]
		if b > vt.W || vt.Span(y, a, b) != us[m].visible() {
			break
		}
		m++
	}
	if m < cur {
		return fmt.Sprintf("row %q: from unit %d, unit %d (%q) before the cursor (%d) is not shown at column %d",
			vt.RowText(y), vs, m, us[m].S, cur, s.top+pos[m]-pos[vs])
	}
	for ve := m; ve >= cur; ve-- {
		col := s.top + pos[ve] - pos[vs]
		if vt.EmptyFrom(y, col) {
			if ve < len(us) && s.viewWidth() >= 40 && pos[ve]-pos[vs] < s.viewWidth()-26 {
				return fmt.Sprintf("row %q: text right of unit %d is not shown although there is room", vt.RowText(y), ve)
			}
			return ""
		}
		if ve == len(us) && len(suffix) > 0 && cur == len(us) {
			// prediction, cut at the right edge
			x, p := col, 0
			ends, endsAt := -1, 0
			for k := 0; k < len(suffix); k++ {
				w := suffix[k].width(p)
				if x+w > vt.W || vt.Span(y, x, x+w) != suffix[k].visible() {
					break
				}
				x += w
				p += w
				if vt.EmptyFrom(y, x) {
					ends, endsAt = k+1, x
				}
			}
			if ends >= 0 {
				// what is missing must not have found room
				if rest := unitsText(suffix[ends:]); strings.TrimSpace(rest) != "" && vt.W-endsAt > 3+2+maxUnit(suffix) {
					return fmt.Sprintf("row %q: the rest %q of the prediction is not shown although there are %d columns left", vt.RowText(y), rest, vt.W-endsAt)
				}
				return ""
			}
		}
	}
	return fmt.Sprintf("row %q: stale characters behind the line (units %d..%d shown, line %q)", vt.RowText(y), vs, m, unitsText(us))
}

func (s *Sess) otherRows() string {
	var sb strings.Builder
	for y := range s.vt.rows {
		if y != s.vt.cy {
			sb.WriteString(s.vt.RowText(y))
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

var _ = bufio.NewWriter
