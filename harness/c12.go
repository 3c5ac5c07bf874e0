package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/keys"
)

// ---- C12: resizing at any moment (run under the race detector) ----

// c12sync delivers notifications from another goroutine at key waits and waits for
// the delivery, so that the screen can be judged before the next key.
func c12sync(c *Ctx) {
	level := c.N(3)
	p := c.profile(level)
	prompt := pick(c.RNG, prompts)
	if c.P(1, 4) {
		prompt = pick(c.RNG, []string{"dir\n$ ", "\na\nbcd> ", "\x1B[1mlonger/dir\x1B[0m\n> ", "漢字\r\n% "})
	}
	if strings.Contains(prompt, "\n") {
		c.stat("multi_line_prompts", 1)
	}
	top := promptColumn(c.Caps, prompt)
	widths := []int{}
	for i := 0; i < 6; i++ {
		least := 14
		if level == 0 {
			least = 5 // no character is wider
		}
		widths = append(widths, top+3+c.Range(least, pick(c.RNG, []int{70, 70, 70, 300})))
	}
	s := newSess(c, widths[0], prompt)
	s.top = top
	s.sentinel()
	s.ed.Default = p.text(c, pick(c.RNG, []int{5, 40, 80, 400}))
	s.ed.Cursor = c.N(c.size(60))
	h := hist{p.text(c, 30), p.text(c, 60)}
	s.ed.History = h
	if c.P(1, 4) {
		s.ed.Coloring = &coloring.VimBatch{}
	}
	s.m = NewModel(c.Caps, s.ed.Default, s.ed.Cursor, h)
	predict := func(string) string { return "" }
	if c.P(1, 3) {
		pool := []string{p.text(c, 30), p.text(c, 8), ""}
		predict = func(t string) string { return pool[hashStr(t)%uint64(len(pool))] }
		s.ed.PredictColor = readline.PredictColorBlueItalic
		s.ed.Predictor = func(b *readline.Buffer) string { return predict(b.String()) }
		c.stat("with_prediction", 1)
	}
	var text string
	s.bindCommon(&text)
	c.logf("width %d prompt %q default %q cursor %d history %q", widths[0], prompt, s.ed.Default, s.ed.Cursor, []string(h))
	var wg sync.WaitGroup
	inFlight := 0
	judge := func(when string) {
		us := s.cells()
		var suf []Unit
		if len(us) > 0 && s.B.Cursor == len(us) {
			suf = c.Caps.Segment(predict(s.B.String()))
		}
		if anyLoose(us) || maxUnit(us) > s.viewWidth()-2 || anyLoose(suf) || maxUnit(suf) > s.viewWidth()-2 {
			s.stopped = true
			return
		}
		c.eval(fmt.Sprint(when, "|", s.vt.W, "|", s.vt.RowText(s.vt.cy)))
		if why := s.screenMatches(us, s.B.Cursor, suf); why != "" {
			c.failf("%s: at width %d: %s; line %q cursor %d", when, s.vt.W, why, s.B.String(), s.B.Cursor)
		}
	}
	nested := false
	finalW := widths[0]
	if c.P(1, 3) {
		// the width changes just after the editor asked for it
		finalW = widths[1]
		c.logf("resize to %d while the session is set up", finalW)
		c.stat("notified_at_setup", 1)
		s.tty.onGetSize = func() {
			s.tty.onGetSize = nil
			s.vt.Resize(finalW)
			told := make(chan struct{})
			wg.Add(1)
			go func() { defer wg.Done(); s.tty.onSize(finalW); close(told) }()
			select {
			case <-told:
			case <-time.After(50 * time.Millisecond): // or it is told later
			}
		}
	}
	s.atWait = func(k *kstep, oc int) {
		nested = s.is != nil || k.op == "quote"
		if !nested {
			wg.Wait() // from here on nobody else touches the line
		}
		if s.m.pending == "" && s.is == nil && s.B.String() != s.m.text() {
			s.m.cells, s.m.undo = s.cells(), nil
		}
		s.m.cur = min(s.B.Cursor, len(s.m.cells))
		if nested {
			// a notification that arrives inside a nested wait is not waited for
			if c.P(1, 2) {
				w := pick(c.RNG, widths)
				c.logf("resize to %d inside a nested wait", w)
				finalW = w
				wg.Add(1)
				inFlight++
				c.stat("nested_notifications", 1)
				go func() { defer wg.Done(); s.tty.onSize(w) }()
			}
			return
		}
		if inFlight > 0 {
			// after what arrived in nested waits tell the final width
			inFlight = 0
			s.vt.Resize(finalW)
			s.tty.W = finalW
			wg.Add(1)
			go func() { defer wg.Done(); s.tty.onSize(finalW) }()
			wg.Wait()
			judge("after a notification inside a nested wait")
			return
		}
		judge(fmt.Sprintf("after %s (%q)", k.op, k.key))
		if c.failed() || s.stopped {
			return
		}
		if c.P(1, 3) {
			w := pick(c.RNG, widths)
			if c.P(1, 6) {
				w = s.vt.W // the same width again
			}
			before, cur := s.B.String(), s.B.Cursor
			if c.P(1, 10) {
				// for a moment far too narrow; the painting of that moment is not judged
				small := c.N(top + 6)
				c.logf("resize to %d", small)
				wg.Add(1)
				go func() { defer wg.Done(); s.tty.onSize(small) }()
				wg.Wait()
				c.stat("too_narrow", 1)
				if s.B.String() != before || s.B.Cursor != cur {
					c.failf("resizing to %d changed the line from %q (cursor %d) to %q (%d)", small, before, cur, s.B.String(), s.B.Cursor)
					return
				}
			}
			c.logf("resize to %d", w)
			s.vt.Resize(w)
			s.tty.W = w
			finalW = w
			rows := s.otherRows()
			wg.Add(1)
			go func() { defer wg.Done(); s.tty.onSize(w) }()
			wg.Wait()
			c.stat("sync_notifications", 1)
			if s.B.String() != before || s.B.Cursor != cur {
				c.failf("resizing to %d changed the line from %q (cursor %d) to %q (%d)", w, before, cur, s.B.String(), s.B.Cursor)
				return
			}
			judge(fmt.Sprintf("after resizing to %d", w))
			if o := s.otherRows(); o != rows && !c.failed() && !s.stopped {
				c.failf("resizing to %d changed other rows: %q -> %q", w, rows, o)
			}
		}
	}
	n := c.Range(5, 40)
	s.gen = func() []kstep {
		if n--; n <= 0 {
			return nil
		}
		op := pickOp(c.RNG, screenOps)
		switch op {
		case "paste":
			return []kstep{s.pasteStep(&text, p.text(c, 30))}
		case "replace":
			return []kstep{s.replaceStep(&text, p.text(c, 10))}
		case "repaintnl", "noop", "delabort":
			op = "bchar"
		case "isearch":
			return s.isearchSteps([]rune("ab"), pick(c.RNG, []string{"\r", "\x07"}))
		}
		return s.steps(op, p)
	}
	s.runChecked()
	wg.Wait()
	c.after(s)
}

// after checks that nothing is painted once ReadLine has returned.
func (c *Ctx) after(s *Sess) {
	if c.failed() {
		return
	}
	before := s.out.n
	s.tty.onSize(33)
	s.tty.onSize(44)
	c.eval("after-return")
	if s.out.n != before || s.ed.Out.Buffered() > 3 {
		// ReadLine itself may leave nothing behind; the notifications must not add anything
		c.failf("a notification after ReadLine had returned painted %d bytes", s.out.n-before)
	}
}

// c12storm fires notifications from several goroutines all the time.
func c12storm(c *Ctx) {
	p := c.profile(c.N(3))
	var ks []string
	for i := c.Range(10, 60); i > 0; i-- {
		switch x := c.N(12); {
		case x < 7:
			if r := p.rune(c); r >= ' ' && r != 0x7F {
				ks = append(ks, string(r))
			}
		case x < 8:
			ks = append(ks, pick(c.RNG, quoteKeys), string(pick(c.RNG, []rune("a\x03\r\t"))))
		case x < 9:
			ks = append(ks, "\x12", "a", pick(c.RNG, []string{"\r", "\x07"}))
		default:
			op := pick(c.RNG, []string{"bol", "eol", "bchar", "fchar", "bdel", "del", "swap", "bword", "fword", "prev", "next", "undo", "clear", "killline", "wordrubout"})
			ks = append(ks, pick(c.RNG, keysOf[op]))
		}
	}
	end := pick(c.RNG, []string{"\r", "\r", "\x03"})
	ks = append(ks, end)
	def := p.text(c, 50)
	h := hist{p.text(c, 30), p.text(c, 60)}
	prompt := pick(c.RNG, prompts)
	predict := c.P(1, 2)
	seeds := []uint64{c.next(), c.next(), c.next()}
	where := c.N(64) // which of the special moments also get a notification
	c.logf("keys %q default %q history %q prompt %q moments %b", ks, def, []string(h), prompt, where)
	play := func(storm bool) (text string, err error, pnc any, stack string, out int64, notes int64) {
		rec := &recWriter{}
		tty := &FakeTty{W: 60, H: 24}
		ed := &readline.Editor{Writer: rec, Tty: tty, Default: def, History: h, Cursor: 7}
		if predict {
			ed.PredictColor = readline.PredictColorBlueItalic
			ed.Coloring = &coloring.VimBatch{}
		}
		var wg sync.WaitGroup
		var stop atomic.Bool
		var count atomic.Int64
		fire := func(w int) {
			if tty.onSize != nil {
				tty.onSize(w)
				count.Add(1)
			}
		}
		async := func(w int) {
			f := tty.onSize
			if f == nil || !storm {
				return
			}
			wg.Add(1)
			go func() { defer wg.Done(); f(w); count.Add(1) }()
		}
		ed.PromptWriter = func(w io.Writer) (int, error) {
			// called with a repaint in progress: the notification comes from elsewhere
			if where&1 != 0 && storm && count.Load() < 300 {
				async(41)
			}
			return io.WriteString(w, prompt)
		}
		tty.onOpen = func(f func(int)) {
			if !storm {
				return
			}
			if where&2 != 0 {
				fire(52)
			}
			for g := 0; g < 3; g++ {
				r := NewRNG(seeds[g], 1, 2)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 4000 && !stop.Load(); i++ {
						f(r.Range(8, 120))
						count.Add(1)
						if r.P(1, 3) {
							runtime.Gosched()
						}
					}
				}()
			}
		}
		tty.onGetSize = func() {
			if storm && where&4 != 0 {
				fire(47)
			}
		}
		if where&8 != 0 {
			ed.LineFeedWriter = func(rc readline.Result, w io.Writer) (int, error) {
				async(39)
				return io.WriteString(w, "\n")
			}
		}
		tty.onClose = func() {
			if storm && where&16 != 0 {
				fire(38)
			}
		}
		n := 0
		tty.next = func() (string, error) {
			if storm {
				for i := 0; i < 3; i++ {
					runtime.Gosched()
				}
			}
			n++
			if n > len(ks) {
				return "", errStop
			}
			return ks[n-1], nil
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					pnc, stack = p, trimStack(debug.Stack())
				}
			}()
			text, err = ed.ReadLine(context.Background())
		}()
		before := rec.n
		if storm && pnc == nil {
			fire(37)
		}
		stop.Store(true)
		wg.Wait()
		if rec.n != before {
			c.failf("%d bytes were painted after ReadLine had returned", rec.n-before)
		}
		return text, err, pnc, stack, rec.n, count.Load()
	}
	t0, e0, p0, st0, _, _ := play(false)
	if p0 != nil {
		c.failf("panic: %v\n%s", p0, st0)
		return
	}
	t1, e1, p1, st1, _, notes := play(true)
	c.stat("notifications", int(notes))
	c.eval(fmt.Sprint("storm|", ks, "|", t1))
	switch {
	case p1 != nil:
		c.failf("panic under notifications: %v\n%s", p1, st1)
	case t0 != t1 || e0 != e1:
		c.failf("under notifications ReadLine returned %q, %v; without %q, %v", t1, e1, t0, e0)
	}
	c.sample("%d keys with %d notifications", len(ks), notes)
}

func init() {
	reg("C12", func(c *Ctx) {
		if c.Idx%4 != 3 {
			c12sync(c)
		} else {
			c12storm(c)
		}
	})
	reg("C21", c21)
	helpers["c21alone"] = c21alone
}

// ---- C21: independent editors (run under the race detector) ----

type c21job struct {
	Keys  []string
	Def   string
	Hist  hist
	Width int
	Color bool
	Pred  bool
	Inner *c21job // run by a command of this editor
	Cycle bool
}

const innerKey = "\x1B[inner~"

func (j *c21job) run(caps Caps, yield bool) (res []string) {
	rec := &recWriter{keep: true}
	tty := &FakeTty{W: j.Width, H: 10}
	ed := &readline.Editor{
		Writer: rec, Tty: tty, Default: j.Def, History: j.Hist, HistoryCycling: j.Cycle,
		PromptWriter: func(w io.Writer) (int, error) { return io.WriteString(w, "> ") },
	}
	if j.Color {
		ed.Coloring = &coloring.VimBatch{}
	}
	if j.Pred {
		ed.PredictColor = readline.PredictColorBlueItalic
	}
	if j.Inner != nil {
		ed.BindKey(keys.Code(innerKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
			r := j.Inner.run(caps, yield)
			res = append(res, r...)
			b.InsertAndRepaint("!" + r[0])
			return readline.CONTINUE
		}))
	}
	n := 0
	tty.next = func() (string, error) {
		if yield {
			runtime.Gosched()
		}
		n++
		if n > len(j.Keys) {
			return "", errStop
		}
		return j.Keys[n-1], nil
	}
	defer func() {
		if p := recover(); p != nil {
			res = append(res, fmt.Sprintf("panic: %v", p), trimStack(debug.Stack()))
		}
	}()
	text, err := ed.ReadLine(context.Background())
	return append(res, text, fmt.Sprint(err), string(rec.all))
}

// runFresh is run in a process of its own; nil if that could not be done.
func (j *c21job) runFresh() (res []string) {
	exe, err := os.Executable()
	if err != nil {
		return nil
	}
	var in, out bytes.Buffer
	if gob.NewEncoder(&in).Encode(j) != nil {
		return nil
	}
	cmd := exec.Command(exe, "c21alone")
	cmd.Stdin, cmd.Stdout = &in, &out
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
	if cmd.Run() != nil || gob.NewDecoder(&out).Decode(&res) != nil {
		return nil
	}
	return res
}

func c21alone([]string) {
	var j c21job
	if err := gob.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	gob.NewEncoder(os.Stdout).Encode(j.run(capsFromEnv(), false))
}

func (c *Ctx) c21job(p *profile, depth int) *c21job {
	j := &c21job{Def: p.text(c, 20), Width: c.termWidth(), Color: c.P(1, 2), Pred: c.P(1, 2), Cycle: c.P(1, 2)}
	for i := c.N(4); i > 0; i-- {
		j.Hist = append(j.Hist, p.text(c, 15))
	}
	if depth > 0 && c.P(1, 3) {
		j.Inner = c.c21job(p, depth-1)
	}
	for i := c.Range(5, 40); i > 0; i-- {
		switch x := c.N(14); {
		case x < 8:
			if r := p.rune(c); r >= ' ' && r != 0x7F {
				j.Keys = append(j.Keys, string(r))
			}
		case x < 9:
			j.Keys = append(j.Keys, "\x12", "a", pick(c.RNG, []string{"\r", "\x07"}))
		case x < 10 && j.Inner != nil:
			j.Keys = append(j.Keys, innerKey)
		default:
			op := pick(c.RNG, []string{"bol", "eol", "bchar", "fchar", "bdel", "del", "swap", "bword", "fword", "prev", "next", "undo", "clear", "killline", "wordrubout", "yank"})
			j.Keys = append(j.Keys, pick(c.RNG, keysOf[op]))
		}
	}
	j.Keys = append(j.Keys, pick(c.RNG, []string{"\r", "\r", "\r", "\x03"}))
	return j
}

func c21(c *Ctx) {
	p := c.profile(c.N(3))
	n := c.Range(2, 8)
	jobs := make([]*c21job, n)
	solo := make([][]string, n)
	for i := range jobs {
		if i > 0 && c.P(1, 4) {
			jobs[i] = jobs[c.N(i)] // several editors doing the same
		} else if i > 0 && c.P(1, 3) {
			// the same keys with other settings
			t, u := *jobs[c.N(i)], c.c21job(p, 0)
			t.Hist, t.Color, t.Pred, t.Cycle = u.Hist, u.Color, u.Pred, u.Cycle
			for k := range t.Hist {
				if c.P(1, 2) {
					t.Hist[k] = t.Def + t.Hist[k]
				}
			}
			jobs[i] = &t
			c.stat("same_keys", 1)
		} else {
			jobs[i] = c.c21job(p, 2)
		}
		if jobs[i].Inner != nil {
			c.stat("with_nested_editor", 1)
		}
	}
	for i := range jobs {
		c.logf("editor %d: keys %q default %q history %q width %d", i, jobs[i].Keys, jobs[i].Def, []string(jobs[i].Hist), jobs[i].Width)
	}
	// Texts and what the width helpers say about them; the overridden characters are
	// not used by the editors.
	texts := []string{}
	widths := []int{}
	counts := []int{}
	for i := 0; i < 12; i++ {
		t := p.text(c, 20) + string(rune(0x3041+c.N(80))) + string(rune(0x4E00+c.N(20000)))
		texts = append(texts, t)
		widths = append(widths, int(readline.GetStringWidth(t)))
		counts = append(counts, readline.MojiCountInString(t))
	}
	// cold caches make the first concurrent use interesting
	concurrentFirst := c.P(1, 2)
	if !concurrentFirst {
		for i, j := range jobs {
			solo[i] = j.run(c.Caps, false)
		}
	} else {
		readline.ResetCharWidth()
	}
	got := make([][]string, n)
	var wg, helpers sync.WaitGroup
	var stop atomic.Bool
	var calls atomic.Int64
	var bad atomic.Value
	for g := 0; g < 2; g++ {
		helpers.Add(1)
		r := NewRNG(c.Seed, uint64(c.Idx), uint64(g))
		go func() {
			defer helpers.Done()
			for i := 0; i < 3000 && !(stop.Load() && i > 50); i++ {
				k := r.N(len(texts))
				if w := int(readline.GetStringWidth(texts[k])); w != widths[k] {
					bad.Store(fmt.Sprintf("GetStringWidth(%q) = %d, alone it was %d", texts[k], w, widths[k]))
				}
				if w := readline.MojiCountInString(texts[k]); w != counts[k] {
					bad.Store(fmt.Sprintf("MojiCountInString(%q) = %d, alone it was %d", texts[k], w, counts[k]))
				}
				readline.StringToMoji(texts[k])
				if r.P(1, 20) {
					readline.SetCharWidth(rune(0xAC00+r.N(100)), r.Range(1, 2))
				}
				if r.P(1, 50) {
					readline.ResetCharWidth()
				}
				calls.Add(1)
			}
		}()
	}
	for i := range jobs {
		i := i
		wg.Add(1)
		go func() { defer wg.Done(); got[i] = jobs[i].run(c.Caps, true) }()
	}
	wg.Wait()
	stop.Store(true)
	helpers.Wait()
	readline.ResetCharWidth()
	if concurrentFirst {
		for i, j := range jobs {
			solo[i] = j.run(c.Caps, false)
		}
	}
	if c.P(1, 4) {
		// alone also means in a process without any other editor
		for i, j := range jobs {
			if r := j.runFresh(); r != nil {
				solo[i] = r
				c.stat("own_process", 1)
			}
		}
	}
	c.stat("helper_calls", int(calls.Load()))
	c.stat("editors", n)
	if b := bad.Load(); b != nil {
		c.failf("%s", b)
		return
	}
	for i := range jobs {
		c.eval(fmt.Sprint(i, "|", solo[i]))
		if len(solo[i]) != len(got[i]) {
			c.failf("editor %d: together with the others %.300q, alone %.300q", i, got[i], solo[i])
			return
		}
		for k := range solo[i] {
			if solo[i][k] != got[i][k] {
				c.failf("editor %d: together with the others it gave %.300q, alone %.300q", i, got[i][k], solo[i][k])
				return
			}
		}
		if strings.HasPrefix(solo[i][0], "panic: ") {
			c.failf("editor %d: %s", i, solo[i])
			return
		}
	}
	c.sample("%d editors, %d helper calls, results %.100q", n, calls.Load(), got[0])
}
