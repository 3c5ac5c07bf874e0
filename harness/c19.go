package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/tty10"
	"golang.org/x/sys/unix"
)

// ---- C19: real terminals ----

type ptyEvent struct {
	K    string // wait, key, resize, line
	S    string
	N    int
	Err  string
	Diff string
}

var c19hist = hist{"first entry", "2nd 漢字 entry"}

// logTty reports what the back end does.
type logTty struct {
	readline.ITty
	emit func(ptyEvent)
}

func (t *logTty) Open(f func(int)) error {
	return t.ITty.Open(func(w int) { f(w); t.emit(ptyEvent{K: "resize", N: w}) })
}

func (t *logTty) GetKey() (string, error) {
	t.emit(ptyEvent{K: "wait"})
	k, err := t.ITty.GetKey()
	e := ptyEvent{K: "key", S: k}
	if err != nil {
		e.Err = err.Error()
	}
	t.emit(e)
	return k, err
}

func termiosOf(fd int) string {
	t, err := unix.IoctlGetTermios(fd, unix.TCGETS)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("iflag %x oflag %x cflag %x lflag %x line %d cc %v", t.Iflag, t.Oflag, t.Cflag, t.Lflag, t.Line, t.Cc)
}

func ptyChild(args []string) {
	lines, _ := strconv.Atoi(args[1])
	signal.Ignore(syscall.SIGHUP) // sent when the terminal goes away
	parent := os.Getppid()
	go func() { // an orphan must not stay behind, whatever the code does
		for os.Getppid() == parent {
			time.Sleep(time.Second)
		}
		os.Exit(9)
	}()
	ev := os.NewFile(3, "events")
	var mu sync.Mutex
	enc := json.NewEncoder(ev)
	emit := func(e ptyEvent) { mu.Lock(); enc.Encode(e); mu.Unlock() }
	ed := &readline.Editor{
		History:      c19hist,
		PromptWriter: func(w io.Writer) (int, error) { return io.WriteString(w, "> ") },
	}
	if args[0] == "tty10" {
		ed.Tty = &tty10.Tty{}
	}
	ed.Init()
	ed.Tty = &logTty{ed.Tty, emit}
	running := runtime.NumGoroutine()
	for i := 0; i < lines; i++ {
		before := termiosOf(0)
		text, err := ed.ReadLine(context.Background())
		after := termiosOf(0)
		e := ptyEvent{K: "line", N: i, S: text}
		if err != nil {
			e.Err = err.Error()
		}
		if before != after {
			e.Diff = before + " -> " + after
		}
		emit(e)
	}
	// goroutines may need a moment to end
	for i := 0; i < 500 && lines > 3 && runtime.NumGoroutine()-running >= lines; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	emit(ptyEvent{K: "running", N: runtime.NumGoroutine() - running})
	emit(ptyEvent{K: "end"})
}

func init() {
	helpers["ptychild"] = ptyChild
	reg("C19", c19)
}

type ptyAction struct {
	kind string // chunk (written at once when idle), pieces (split anywhere), resize
	keys []string
	w    int
	// resize during a nested key wait
	nested bool
}

var escKeys = []string{"\x1b[D", "\x1b[C", "\x1b[3~", "\x1b[H", "\x1b[F", "\x1bb", "\x1bf", "\x1b[A", "\x1b[B"}
var ctrlKeys = []string{"\x01", "\x05", "\x02", "\x06", "\x08", "\x7f", "\x14", "\x15", "\x0b", "\x17", "\x10", "\x0e", "\x1a", "\x0c", "\t", "\x07"}

func (c *Ctx) ptyText(n int) (out []string) {
	alpha := []rune("abc xyzéß漢字あ😀\U00020BB7Я.-_/")
	for i := 0; i < n; i++ {
		out = append(out, string(pick(c.RNG, alpha)))
	}
	return
}

func (c *Ctx) ptyScript(backend string) (acts []ptyAction, lines int) {
	resized := false
	fresh := true
	end := func(ks []string) []string {
		lines++
		fresh = true
		return append(ks, "\r")
	}
	for i := c.Range(3, 12); i > 0; i-- {
		switch x := c.N(14); {
		case x < 3:
			acts = append(acts, ptyAction{kind: "chunk", keys: c.ptyText(c.Range(1, 20))})
			fresh = false
		case x < 6:
			acts = append(acts, ptyAction{kind: "pieces", keys: c.ptyText(c.Range(1, 12))})
			fresh = false
		case x < 8:
			ks := c.ptyText(c.N(4))
			acts = append(acts, ptyAction{kind: "chunk", keys: append(ks, pick(c.RNG, escKeys))})
			fresh = false
		case x < 9:
			acts = append(acts, ptyAction{kind: "chunk", keys: []string{pick(c.RNG, ctrlKeys)}})
			fresh = false
		case x < 10:
			kind := pick(c.RNG, []string{"chunk", "chunk", "pieces"})
			n := c.Range(200, 1200)
			if backend == "default" && c.P(1, 3) {
				n = c.Range(1500, 4000) // more than the terminal buffers
			}
			acts = append(acts, ptyAction{kind: kind, keys: c.ptyText(n)})
			fresh = false
		case x < 11:
			// several lines typed ahead, in one go
			var ks []string
			for j := c.Range(1, 4); j > 0; j-- {
				ks = end(append(ks, c.ptyText(c.N(12))...))
			}
			rest := c.ptyText(c.N(5))
			fresh = len(rest) == 0
			acts = append(acts, ptyAction{kind: "chunk", keys: append(ks, rest...)})
		case x < 12:
			if (backend == "tty10" && c.P(3, 4)) || resized {
				continue
			}
			resized = backend == "tty10"
			acts = append(acts, ptyAction{kind: "resize", w: c.Range(20, 150), nested: c.P(1, 2)})
		case x < 13:
			acts = append(acts, ptyAction{kind: "chunk", keys: []string{"\x03"}})
			lines++
			fresh = true
		default:
			if fresh {
				acts = append(acts, ptyAction{kind: "chunk", keys: []string{"\x04"}})
				lines++
			} else {
				acts = append(acts, ptyAction{kind: "chunk", keys: end(nil)})
			}
		}
	}
	acts = append(acts, ptyAction{kind: "chunk", keys: end(c.ptyText(c.N(3)))})
	return
}

// c19none reads lines in a process that has no terminal.
func c19none(c *Ctx, backend string) {
	pr, pw, err := os.Pipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer pr.Close()
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(exe, "ptychild", backend, "2")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	pw.Close()
	n := 0
	for sc := bufio.NewScanner(pr); sc.Scan(); {
		var e ptyEvent
		json.Unmarshal(sc.Bytes(), &e)
		if e.K == "line" {
			n++
			c.stat("without_terminal", 1)
			c.eval(fmt.Sprint("none|", backend, e.Err))
			if e.Err == "" || e.S != "" {
				c.failf("%s: without a terminal the line is %q, error %q", backend, e.S, e.Err)
			}
		}
	}
	if err := cmd.Wait(); err != nil || n != 2 {
		c.failf("%s: without a terminal the process ended with %v after %d of 2 lines: %.600q", backend, err, n, out.String())
	}
}

func c19(c *Ctx) {
	backend := []string{"default", "tty10"}[c.Idx%2]
	if c.P(1, 15) {
		c19none(c, backend)
		return
	}
	acts, lines := c.ptyScript(backend)
	c.logf("back end %s", backend)

	// the same keys fed directly
	type outcome struct{ text, err string }
	var want []outcome
	var keys []string
	for _, a := range acts {
		keys = append(keys, a.keys...)
	}
	n := 0
	direct := &readline.Editor{Writer: io.Discard, History: c19hist, Tty: &FakeTty{W: 80, H: 24, next: func() (string, error) {
		if n++; n > len(keys) {
			return "", errStop
		}
		return keys[n-1], nil
	}}, PromptWriter: func(w io.Writer) (int, error) { return io.WriteString(w, "> ") }}
	for i := 0; i < lines; i++ {
		text, err := direct.ReadLine(context.Background())
		o := outcome{text: text}
		if err != nil {
			o.err = err.Error()
		}
		want = append(want, o)
	}
	if n != len(keys) {
		panic(fmt.Sprintf("harness: %d of %d keys used for %d lines", n, len(keys), lines))
	}

	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	// non-blocking, so that closing it ends the reading below
	mfd, err := unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_NOCTTY|unix.O_NONBLOCK|unix.O_CLOEXEC, 0)
	must(err)
	m := os.NewFile(uintptr(mfd), "ptmx")
	defer m.Close()
	must(unix.IoctlSetPointerInt(mfd, unix.TIOCSPTLCK, 0))
	num, err := unix.IoctlGetInt(mfd, unix.TIOCGPTN)
	must(err)
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", num), os.O_RDWR|unix.O_NOCTTY, 0)
	must(err)
	defer s.Close()
	sfd := int(s.Fd())
	width := c.Range(30, 120)
	must(unix.IoctlSetWinsize(mfd, unix.TIOCSWINSZ, &unix.Winsize{Row: 24, Col: uint16(width)}))
	t, err := unix.IoctlGetTermios(sfd, unix.TCGETS)
	must(err)
	t.Iflag &^= unix.ICRNL // what is typed while a line is being finished stays as it is
	for _, f := range []uint32{unix.IXON, unix.IXANY, unix.IUTF8, unix.BRKINT, unix.IXOFF, unix.IGNBRK} {
		if c.P(1, 3) {
			t.Iflag ^= f
		}
	}
	for _, f := range []uint32{unix.ECHO, unix.ECHOCTL, unix.ECHOK, unix.ECHOE, unix.IEXTEN, unix.NOFLSH} {
		if c.P(1, 3) {
			t.Lflag ^= f
		}
	}
	if c.P(1, 3) {
		t.Oflag ^= unix.ONLCR
	}
	t.Cc[unix.VINTR] = pick(c.RNG, []uint8{3, 28, 0})
	t.Cc[unix.VTIME] = uint8(c.N(3))
	t.Cc[unix.VMIN] = uint8(c.N(5))
	must(unix.IoctlSetTermios(sfd, unix.TCSETS, t))
	initial := termiosOf(sfd)

	pr, pw, err := os.Pipe()
	must(err)
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, "ptychild", backend, strconv.Itoa(lines))
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	must(cmd.Start())
	pw.Close()
	defer pr.Close()
	done := make(chan struct{})
	defer func() {
		cmd.Process.Kill()
		cmd.Wait()
	}()
	var mu sync.Mutex
	var evs []ptyEvent
	var tailOut []byte
	go func() {
		defer close(done)
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var e ptyEvent
			if json.Unmarshal(sc.Bytes(), &e) == nil {
				mu.Lock()
				evs = append(evs, e)
				mu.Unlock()
			}
		}
	}()
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := m.Read(buf)
			mu.Lock()
			tailOut = append(tailOut, buf[:n]...)
			if len(tailOut) > 4000 {
				tailOut = tailOut[len(tailOut)-2000:]
			}
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	count := func(kind string) (n int) {
		mu.Lock()
		defer mu.Unlock()
		for i := range evs {
			if evs[i].K == kind {
				n++
			}
		}
		return
	}
	// waitFor polls; the limit only matters when the editor never gets there.
	waitFor := func(f func() bool, seconds int) bool {
		limit := time.Now().Add(time.Duration(seconds) * time.Second)
		for d := 100 * time.Microsecond; ; {
			if f() {
				return true
			}
			if time.Now().After(limit) {
				return false
			}
			time.Sleep(d)
			if d < 5*time.Millisecond {
				d *= 2
			}
		}
	}
	raw := func() bool {
		t, err := unix.IoctlGetTermios(sfd, unix.TCGETS)
		return err == nil && t.Lflag&(unix.ICANON|unix.ISIG) == 0
	}
	hangup := -1 // after this many actions the terminal goes away
	if c.P(1, 8) {
		hangup = c.N(len(acts))
	}
	sent := 0
	var extra []int // keys pressed that are not part of the script
	idle := func() bool {
		mu.Lock()
		w, k := 0, 0
		for i := range evs {
			switch evs[i].K {
			case "wait":
				w++
			case "key":
				k++
			}
		}
		mu.Unlock()
		return k >= sent && w > k && raw()
	}
	tell := func() string {
		mu.Lock()
		defer mu.Unlock()
		return fmt.Sprintf("events %.600q; output ends with %.300q", fmt.Sprint(evs[max(0, len(evs)-12):]), tailOut)
	}
	for i, a := range acts {
		if !waitFor(idle, 20) {
			c.failf("%s: of %d keys sent %d were taken and the editor does not wait for more; %s", backend, sent, count("key"), tell())
			return
		}
		if i == hangup {
			c.logf("hang up")
			c.stat("hangups", 1)
			read := count("line")
			s.Close()
			m.Close()
			if !waitFor(func() bool { return count("end") > 0 }, 20) {
				c.failf("%s: the terminal went away and reading does not end; %s", backend, tell())
				return
			}
			<-done
			if err := cmd.Wait(); err != nil {
				c.failf("%s: the terminal went away and the process ended with %v; %s", backend, err, tell())
				return
			}
			n := 0
			for _, e := range evs {
				if e.K == "line" {
					if n++; n > read && (e.Err == "" || e.S != "") {
						c.failf("%s: the terminal went away and line %d is %q, error %q", backend, n-1, e.S, e.Err)
						return
					}
				}
			}
			c.eval(fmt.Sprint("hangup|", backend, i))
			return
		}
		text := strings.Join(a.keys, "")
		switch a.kind {
		case "chunk":
			c.logf("write %q", text)
			io.WriteString(m, text)
		case "pieces":
			c.stat("pieces", 1)
			for b := []byte(text); len(b) > 0; {
				n := min(len(b), pick(c.RNG, []int{1, 1, 1, 2, 3, 7, 40}))
				c.logf("write %q", b[:n])
				m.Write(b[:n])
				b = b[n:]
				if len(text) < 100 {
					time.Sleep(time.Duration(c.N(2000)) * time.Microsecond)
				}
			}
		case "resize":
			told := func(w, from int) func() bool {
				return func() bool {
					mu.Lock()
					defer mu.Unlock()
					n := 0
					for _, e := range evs {
						if e.K == "resize" {
							if n++; n > from && e.N == w {
								return true
							}
						}
					}
					return false
				}
			}
			set := func(w int) {
				c.logf("resize to %d", w)
				unix.IoctlSetWinsize(mfd, unix.TIOCSWINSZ, &unix.Winsize{Row: 24, Col: uint16(w)})
			}
			c.stat("resizes", 1)
			// The signal can come before anybody listens to it (there is no way to see from
			// outside when that is), so a size that is not picked up is followed by another.
			ok, w := false, width
			for try := 0; try < 5 && !ok; try++ {
				time.Sleep(time.Duration(5+20*try) * time.Millisecond)
				from := count("resize")
				w = a.w + try
				if w == width {
					w += 7
				}
				if a.nested {
					// both arrive while a search is waiting for its next key
					c.stat("nested_resizes", 1)
					io.WriteString(m, "\x12")
					sent++
					extra = append(extra, sent-1)
					if !waitFor(idle, 20) {
						c.failf("%s: the search does not wait for a key; %s", backend, tell())
						return
					}
					set(w + 11)
					time.Sleep(time.Duration(20+20*try) * time.Millisecond)
					set(w)
					time.Sleep(time.Duration(20+20*try) * time.Millisecond)
					io.WriteString(m, "\x07")
					sent++
					extra = append(extra, sent-1)
				} else {
					set(w)
				}
				ok = waitFor(told(w, from), 4)
			}
			width = w
			if !ok {
				c.failf("%s: the window became %d columns wide and the editor was not told; %s", backend, w, tell())
				return
			}
			c.eval(fmt.Sprint("resize|", w, backend))
		}
		sent += len(a.keys)
	}
	if !waitFor(func() bool { return count("end") > 0 }, 20) {
		c.failf("%s: the session does not end after all keys (%d sent, %d taken); %s", backend, sent, count("key"), tell())
		return
	}
	<-done
	err = cmd.Wait()
	if err != nil {
		c.failf("%s: the process ended with %v; %s", backend, err, tell())
		return
	}
	var got []string
	i := 0
	for _, e := range evs {
		switch e.K {
		case "key":
			if e.Err != "" {
				c.failf("%s: reading a key failed: %s", backend, e.Err)
				return
			}
			got = append(got, e.S)
		case "running":
			if lines > 3 { // one or two may be started once and stay
				c.stat("left_running", 1)
				if e.N >= lines {
					c.failf("%s: %d more goroutines are running after %d lines", backend, e.N, lines)
					return
				}
			}
		case "line":
			c.eval(fmt.Sprint("line|", e.S, "|", e.Err))
			c.stat("lines_"+backend, 1)
			if e.S != want[i].text || e.Err != want[i].err {
				c.failf("%s: line %d is %q, error %q; with the keys fed directly %q, %q", backend, i, e.S, e.Err, want[i].text, want[i].err)
				return
			}
			if e.Diff != "" {
				c.failf("%s: line %d left another terminal mode: %s", backend, i, e.Diff)
				return
			}
			i++
		}
	}
	for i := len(extra) - 1; i >= 0; i-- {
		if x := extra[i]; x < len(got) {
			got = append(got[:x], got[x+1:]...)
		}
	}
	if len(got) != len(keys) {
		c.failf("%s: %d keys were typed, %d were delivered", backend, len(keys), len(got))
		return
	}
	for i := range got {
		if got[i] != keys[i] {
			c.failf("%s: key %d typed as %q was delivered as %q", backend, i, keys[i], got[i])
			return
		}
	}
	c.stat("keys_"+backend, len(got))
	c.eval("mode|" + initial)
	if now := termiosOf(sfd); now != initial {
		c.failf("%s: the terminal mode is %s, before the session it was %s", backend, now, initial)
		return
	}
	c.sample("%s: %d keys, %d lines, last %.80q", backend, len(got), lines, want[len(want)-1].text)
}
