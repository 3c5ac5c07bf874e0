package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"syscall"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

// ---- C13: every way a session can end, with a fault at every call ----

// errTty is the failure of the terminal in this case.
var errTty = errOther

var errOther = errors.New("harness: terminal failure")

// pickErr is an error of the harness or one the code might have its own ideas about.
func (c *Ctx) pickErr(own error) error {
	if c.P(1, 2) {
		return own
	}
	c.stat("other_errors", 1)
	return pick(c.RNG, []error{io.EOF, io.ErrUnexpectedEOF, readline.CtrlC, os.ErrClosed, os.ErrDeadlineExceeded, syscall.EINTR,
		syscall.EAGAIN, syscall.EIO, context.Canceled, &os.PathError{Op: "read", Path: "/dev/tty", Err: syscall.ENXIO}, fmt.Errorf("read: %w", io.EOF)})
}

var errOut = errors.New("harness: output failure")

type limitWriter struct {
	w    io.Writer
	left int // bytes accepted before failing; <0 = never fails
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.left < 0 {
		return l.w.Write(p)
	}
	if len(p) <= l.left {
		l.left -= len(p)
		return l.w.Write(p)
	}
	n := l.left
	l.left = 0
	l.w.Write(p[:n])
	return n, errOut
}

// onceWriter fails at one call only.
type onceWriter struct {
	sb        strings.Builder
	calls, at int
}

func (o *onceWriter) Write(p []byte) (int, error) {
	o.calls++
	if o.calls == o.at+1 {
		return 0, errOut
	}
	return o.sb.Write(p)
}

type ending struct {
	text    string
	err     error
	panic   any
	stack   string
	hooks   []readline.Result
	opens   int
	closes  int
	gets    int
	left    int
	on      bool
	lastOut string
}

type c13case struct {
	c      *Ctx
	keys   []string
	hook   bool
	width  int
	def    string
	hist   hist
	predic bool
	hidden bool // the cursor is invisible when the session starts
}

type c13ed struct {
	ed    *readline.Editor
	tty   *FakeTty
	vt    *VT
	lw    *limitWriter
	hooks []readline.Result
	rec   *recWriter
	B     *readline.Buffer
	seen  string // the line at the last key wait

	calls   map[string]int // calls of the functions the application supplied
	panicIn string         // the one that panics
	panicAt int
}

// called is the first thing every function of the application does.
func (e *c13ed) called(what string) {
	e.calls[what]++
	if what == e.panicIn && e.calls[what] == e.panicAt {
		panic(panicToken{43})
	}
}

type c13hist struct {
	hist
	e *c13ed
}

func (h c13hist) At(i int) string {
	h.e.called("history")
	return h.hist.At(i)
}

type c13color struct{ e *c13ed }

func (x c13color) Init() readline.ColorSequence {
	x.e.called("colouring start")
	return readline.ColorReset
}

func (x c13color) Next(rune) readline.ColorSequence {
	x.e.called("colouring")
	return readline.ColorReset
}

const panicKey = "\x1B[panic~"

type panicToken struct{ n int }

func (k *c13case) newEd() *c13ed {
	e := &c13ed{vt: NewVT(k.width, 8, k.c.Caps), calls: map[string]int{}}
	e.vt.CursorOn = !k.hidden
	e.rec = &recWriter{vt: e.vt, keep: true}
	e.lw = &limitWriter{w: e.rec, left: -1}
	e.tty = &FakeTty{W: k.width, H: 8}
	e.ed = &readline.Editor{
		Writer:       e.lw,
		Tty:          e.tty,
		PromptWriter: func(w io.Writer) (int, error) { e.called("prompt"); return io.WriteString(w, "> ") },
		History:      c13hist{k.hist, e},
		Coloring:     c13color{e},
	}
	if k.predic {
		e.ed.PredictColor = readline.PredictColorBlueItalic
		e.ed.Predictor = func(*readline.Buffer) string { e.called("predictor"); return "xyz" }
	}
	e.ed.BindKey(keys.Code(panicKey), readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
		panic(panicToken{42})
	}))
	e.ed.BindKey(keys.Code(probeKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		e.B = b
		return readline.CONTINUE
	}))
	if k.hook {
		e.ed.LineFeedWriter = func(rc readline.Result, w io.Writer) (int, error) {
			e.called("line feed")
			e.hooks = append(e.hooks, rc)
			return io.WriteString(w, "<"+fmt.Sprint(int(rc))+">\n")
		}
	}
	return e
}

// play runs one ReadLine with the given keys; failAt>0 makes the failAt-th and
// every later GetKey fail.
func (e *c13ed) play(ks []string, failAt int) (r ending) {
	e.hooks = nil
	e.B, e.seen = nil, ""
	o, cl := e.tty.opens, e.tty.closes
	n := 0
	e.tty.next = func() (string, error) {
		n++
		if e.B != nil {
			e.seen = e.B.String()
		}
		if failAt > 0 && n >= failAt {
			return "", errTty
		}
		if n > len(ks) {
			if n > len(ks)+50 {
				panic("harness: the editor does not stop reading keys")
			}
			return "\r", nil
		}
		return ks[n-1], nil
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.panic, r.stack = p, trimStack(debug.Stack())
			}
		}()
		r.text, r.err = e.ed.ReadLine(context.Background())
	}()
	r.gets = n
	r.hooks = e.hooks
	r.opens, r.closes = e.tty.opens-o, e.tty.closes-cl
	r.left = e.ed.Out.Buffered()
	r.on = e.vt.CursorOn
	return
}

func (k *c13case) clean(what string, r ending, wantErr error, wantText *string, wantHook int) bool {
	c := k.c
	c.eval(fmt.Sprint(what, "|", k.keys, "|", r.err, "|", r.text))
	switch {
	case r.panic != nil:
		c.failf("%s: panic %v\n%s", what, r.panic, r.stack)
	case r.opens != r.closes:
		c.failf("%s: the terminal was opened %d times and closed %d times", what, r.opens, r.closes)
	case wantErr == nil && r.err != nil, wantErr != nil && !errors.Is(r.err, wantErr):
		c.failf("%s: ReadLine returned error %v, want %v", what, r.err, wantErr)
	case wantText != nil && r.text != *wantText:
		c.failf("%s: ReadLine returned %q, want %q", what, r.text, *wantText)
	case r.left != 0:
		c.failf("%s: %d bytes of output are not flushed", what, r.left)
	case !r.on:
		c.failf("%s: the cursor is left invisible", what)
	case k.hook && wantHook < 0 && len(r.hooks) != 0:
		c.failf("%s: the line-feed hook was called with %v although the line was not finished", what, r.hooks)
	case k.hook && wantHook >= 0 && (len(r.hooks) != 1 || int(r.hooks[0]) != wantHook):
		c.failf("%s: the line-feed hook was called with %v, want once with %v", what, r.hooks, wantHook)
	default:
		return true
	}
	return false
}

var empty = ""

// again uses the same editor once more.
func (k *c13case) again(what string, e *c13ed) bool {
	e.tty.openErr, e.tty.sizeErr, e.tty.closeErr = nil, nil, nil
	e.lw.left = -1
	e.ed.Default, e.ed.Cursor = "", 0
	ok := "ok"
	r := e.play([]string{"o", "k", "\r"}, 0)
	k.c.stat("reused", 1)
	return k.clean(what+", then the next ReadLine", r, nil, &ok, int(readline.ENTER))
}

func c13(c *Ctx) {
	errTty = c.pickErr(errOther)
	p := c.profile(c.N(3))
	k := &c13case{c: c, hook: c.P(2, 3), width: pick(c.RNG, []int{80, 40, 20}), predic: c.P(1, 3), hidden: c.P(1, 2)}
	k.def = p.text(c, c.size(10))
	k.keys = []string{probeKey}
	for i := c.N(3); i > 0; i-- {
		k.hist = append(k.hist, p.text(c, 10))
	}
	for i := c.Range(1, pick(c.RNG, []int{6, 14, 14, 14, 60})); i > 0; i-- {
		switch x := c.N(12); {
		case x < 6:
			k.keys = append(k.keys, string(pick(c.RNG, asciiLetters)))
		case x < 7:
			k.keys = append(k.keys, pick(c.RNG, quoteKeys), string(pick(c.RNG, []rune("a\x03\r\x04\t\x1b"))))
		case x < 8:
			k.keys = append(k.keys, "\x12", "a", pick(c.RNG, []string{"\r", "\x07", "\x03"}))
		default:
			op := pick(c.RNG, []string{"bol", "eol", "bchar", "fchar", "bdel", "del", "swap", "bword", "prev", "next", "undo", "clear", "killline", "killwhole"})
			k.keys = append(k.keys, pick(c.RNG, keysOf[op]))
		}
	}
	end := c.N(3)
	rc := readline.ENTER
	var wantErr error
	switch end {
	case 0:
		k.keys = append(k.keys, "\r")
	case 1:
		k.keys = append(k.keys, "\x03")
		rc, wantErr = readline.INTR, readline.CtrlC
	case 2:
		k.keys = append(k.keys, "\x1B", "\x04")
		rc, wantErr = readline.ABORT, io.EOF
	}
	c.logf("keys %q default %q history %q width %d hook %v", k.keys, k.def, []string(k.hist), k.width, k.hook)
	start := func() *c13ed {
		e := k.newEd()
		e.ed.Default, e.ed.Cursor = k.def, 3
		return e
	}
	// 1. no fault
	e := start()
	base := e.play(k.keys, 0)
	want := &empty
	if end == 0 {
		want = &e.seen
	}
	if !k.clean("no fault", base, wantErr, want, int(rc)) || !k.again("no fault", e) {
		return
	}
	if base.gets != len(k.keys) {
		c.failf("the session ended after %d keys, the script has %d", base.gets, len(k.keys))
		return
	}
	c.stat(fmt.Sprintf("ending_%d", end), 1)
	// 2. the terminal fails at the n-th key
	for n := 1; n <= base.gets && !c.failed(); n++ {
		e := start()
		what := fmt.Sprintf("GetKey fails from call %d on", n)
		if !k.clean(what, e.play(k.keys, n), errTty, &empty, -1) || !k.again(what, e) {
			return
		}
		c.stat("fault_getkey", 1)
	}
	// 3. open, size, close
	e = start()
	e.tty.openErr = errTty
	if !k.clean("Open fails", e.play(k.keys, 0), errTty, &empty, -1) || !k.again("Open fails", e) {
		return
	}
	e = start()
	e.tty.sizeErr = errTty
	if !k.clean("Size fails", e.play(k.keys, 0), errTty, &empty, -1) || !k.again("Size fails", e) {
		return
	}
	e = start()
	e.tty.closeErr = errTty
	if !k.clean("Close fails", e.play(k.keys, 0), wantErr, &base.text, int(rc)) || !k.again("Close fails", e) {
		return
	}
	c.stat("fault_open_size_close", 3)
	// 4. the output fails from some byte on
	total := len(e.rec.all)
	for i := 0; i < 8; i++ {
		e := start()
		e.lw.left = 0
		if i > 0 {
			e.lw.left = c.N(total + 1)
		}
		what := fmt.Sprintf("the output fails after %d bytes", e.lw.left)
		r := e.play(k.keys, 0)
		// what could not be written cannot be demanded
		r.left, r.on = 0, true
		if !k.clean(what, r, wantErr, &base.text, int(rc)) {
			return
		}
		c.stat("fault_output", 1)
	}
	// 5. a command panics at the n-th top-level key
	for n := 0; n < len(k.keys); n++ {
		e := start()
		ks := append(append([]string{}, k.keys[:n]...), panicKey)
		r := e.play(ks, 0)
		if r.panic == nil {
			// consumed by a nested wait (quoted insert, search)
			c.stat("panic_key_consumed", 1)
			continue
		}
		c.eval(fmt.Sprint("panic|", ks))
		if r.panic != (panicToken{42}) {
			c.failf("a command panicked, the caller got the panic %v\n%s", r.panic, r.stack)
			return
		}
		if r.opens != r.closes {
			c.failf("after a panicking command the terminal was opened %d times and closed %d times", r.opens, r.closes)
			return
		}
		if r.hooks != nil {
			c.failf("after a panicking command the line-feed hook was called")
			return
		}
		if r.left != 0 || !r.on {
			c.failf("after a panicking command %d bytes of output are not flushed, cursor visible: %v", r.left, r.on)
			return
		}
		c.stat("fault_panic", 1)
		if !k.again("a command panicked", e) {
			return
		}
	}
	// 6. a function the application supplied panics at its n-th call
	counts := map[string]int{}
	{
		e := start()
		e.play(k.keys, 0)
		for w, n := range e.calls {
			counts[w] = n
		}
	}
	for _, what := range []string{"prompt", "history", "colouring start", "colouring", "predictor", "line feed"} {
		if counts[what] == 0 {
			continue
		}
		e := start()
		e.panicIn, e.panicAt = what, c.Range(1, counts[what])
		if what != "colouring" && c.P(1, 2) {
			e.panicAt = counts[what]
		}
		r := e.play(k.keys, 0)
		c.eval(fmt.Sprint("panic|", what, "|", e.panicAt, "|", k.keys))
		c.logf("call %d of the %s function panics", e.panicAt, what)
		if r.panic != (panicToken{43}) {
			c.failf("the %s function panicked, the caller got the panic %v\n%s", what, r.panic, r.stack)
			return
		}
		if r.opens != r.closes || r.left != 0 || !r.on {
			c.failf("after a panic of the %s function the terminal was opened %d times and closed %d times, %d bytes are not flushed, cursor visible: %v", what, r.opens, r.closes, r.left, r.on)
			return
		}
		c.stat("fault_callback", 1)
		e.panicIn = ""
		if !k.again("the "+what+" function panicked", e) {
			return
		}
	}
	c.sample("keys %q: %d GetKey faults, ending %d", strings.Join(k.keys, ""), base.gets, end)
}

func init() { reg("C13", c13) }

// ---- C23: colour sequences ----

func init() {
	reg("C23", func(c *Ctx) {
		n := c.N(7)
		codes := make([]int, n)
		for i := range codes {
			switch c.N(4) {
			case 0:
				codes[i] = pick(c.RNG, []int{0, 1, 255, 127, 128, 38, 48, 5})
			default:
				codes[i] = c.N(256)
			}
		}
		how := ""
		var compose func(cs []int, depth int) readline.ColorSequence
		compose = func(cs []int, depth int) readline.ColorSequence {
			if len(cs) == 0 {
				how += "0"
				return 0
			}
			k := c.N(3)
			switch {
			case k == 0 && len(cs) <= 4:
				how += fmt.Sprint("SGR", len(cs), cs)
				switch len(cs) {
				case 1:
					return readline.SGR1(cs[0])
				case 2:
					return readline.SGR2(cs[0], cs[1])
				case 3:
					return readline.SGR3(cs[0], cs[1], cs[2])
				default:
					return readline.SGR4(cs[0], cs[1], cs[2], cs[3])
				}
			case k == 1 && depth < 6:
				i := c.N(len(cs) + 1)
				how += "("
				a := compose(cs[:i], depth+1)
				how += ").Chain("
				b := compose(cs[i:], depth+1)
				how += ")"
				return a.Chain(b)
			default:
				a := compose(cs[:len(cs)-1], depth+1)
				how += fmt.Sprintf(".Add(%d)", cs[len(cs)-1])
				return a.Add(cs[len(cs)-1])
			}
		}
		seq := compose(codes, 0)
		want := ""
		if n > 0 {
			want = "\x1B[" + strings.Trim(strings.ReplaceAll(fmt.Sprint(codes), " ", ";"), "[]") + "m"
		}
		var sb strings.Builder
		got, err := seq.WriteTo(&sb)
		c.logf("codes %v composed as %s", codes, how)
		c.eval(fmt.Sprint(how))
		if sb.String() != want {
			c.failf("codes %v composed as %s are written as %q, want %q", codes, how, sb.String(), want)
			return
		}
		if err != nil || got != int64(len(want)) {
			c.failf("codes %v: WriteTo reports %d bytes and %v, written were %d", codes, got, err, len(want))
			return
		}
		// a failing writer: the count is that of the bytes which were accepted
		if n > 0 {
			var sink strings.Builder
			lw := &limitWriter{w: &sink, left: c.N(len(want))}
			got, err := seq.WriteTo(lw)
			c.eval(fmt.Sprint("fail|", how, lw.left))
			c.stat("failing_writer", 1)
			if err == nil {
				c.failf("codes %v: the writer failed but WriteTo reports no error", codes)
			} else if got != int64(sink.Len()) || !strings.HasPrefix(want, sink.String()) {
				c.failf("codes %v: WriteTo reports %d bytes to a failing writer which got %q", codes, got, sink.String())
			}
			// a writer that fails once
			once := &onceWriter{at: c.N(2*n + 1)}
			got, err = seq.WriteTo(once)
			c.eval(fmt.Sprint("once|", how, once.at))
			if once.calls > once.at && err == nil {
				c.failf("codes %v: call %d of the writer failed but WriteTo reports no error (written %q)", codes, once.at, once.sb.String())
			} else if err != nil && got != int64(once.sb.Len()) {
				c.failf("codes %v: WriteTo reports %d bytes to a writer failing once which got %q", codes, got, once.sb.String())
			}
		}
		// the named colours
		if c.Idx == 0 {
			named := map[string]readline.ColorSequence{
				"0": readline.ColorReset, "30;49;1": readline.Black, "31;49;1": readline.Red, "32;49;1": readline.Green,
				"33;49;1": readline.Yellow, "34;49;1": readline.Blue, "35;49;1": readline.Magenta, "36;49;1": readline.Cyan,
				"37;49;1": readline.White, "39;49;1": readline.DefaultForeGroundColor,
				"30;22;49": readline.DarkGray, "31;22;49": readline.DarkRed, "32;22;49": readline.DarkGree, "33;22;49": readline.DarkYellow,
				"34;22;49": readline.DarkBlue, "35;22;49": readline.DarkMagenta, "36;22;49": readline.DarkCyan, "37;22;49": readline.DarkWhite,
				"39;22;49": readline.DarkDefaultForeGroundColor,
			}
			for want, cs := range named {
				var sb strings.Builder
				cs.WriteTo(&sb)
				c.eval("named|" + want)
				if sb.String() != "\x1B["+want+"m" {
					c.failf("the named colour %s is written as %q", want, sb.String())
				}
			}
		}
		c.sample("%s -> %q", how, want)
	})
}
