package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unicode/utf16"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/auto"
)

// ---- C14: decoding runes into keys ----

var (
	errRawOwn  = errors.New("harness: raw mode failed")
	errReadOwn = errors.New("harness: read failed")

	errRaw, errRead = errRawOwn, errReadOwn // those of this case
)

// runeTty delivers chunks of runes; Buffered is true while the current chunk has more.
type runeTty struct {
	chunks  [][]rune
	ci, ri  int
	reads   int
	failAt  int // the read number that fails, -1 = none
	rawErr  bool
	raw     int // depth
	raws    int
	cleans  int
	trouble string
}

func (t *runeTty) Raw() (func() error, error) {
	t.raws++
	if t.rawErr {
		return nil, errRaw
	}
	t.raw++
	used := false
	return func() error {
		t.cleans++
		if used {
			t.trouble = "raw mode was left twice"
		}
		used = true
		t.raw--
		return nil
	}, nil
}

// ReadRune has the signature readline.XTty asks for.
func (t *runeTty) ReadRune() (rune, error) {
	if t.raw <= 0 {
		t.trouble = "a character was read outside raw mode"
	}
	n := t.reads
	t.reads++
	if n == t.failAt {
		return 0, errRead
	}
	for t.ci < len(t.chunks) && t.ri >= len(t.chunks[t.ci]) {
		t.ci, t.ri = t.ci+1, 0
	}
	if t.ci >= len(t.chunks) {
		return 0, io.EOF
	}
	r := t.chunks[t.ci][t.ri]
	t.ri++
	return r, nil
}

func (t *runeTty) Buffered() bool { return t.ci < len(t.chunks) && t.ri < len(t.chunks[t.ci]) }

func (t *runeTty) left() (out []rune) {
	for i := t.ci; i < len(t.chunks); i++ {
		if i == t.ci {
			out = append(out, t.chunks[i][t.ri:]...)
		} else {
			out = append(out, t.chunks[i]...)
		}
	}
	return
}

// c14input makes chunks and the keys they stand for (per chunk), in terms of what a
// person pressed: the keys are the specification, the chunks their encoding.
func (c *Ctx) c14input() (chunks [][]rune, keysOf [][]string) {
	p := c.profile(2)
	enc := func(dst []rune, s string, nul bool) []rune {
		for _, r := range s {
			if nul && c.P(1, 6) {
				dst = append(dst, 0)
			}
			if r >= 0x10000 && c.P(1, 2) {
				a, b := utf16.EncodeRune(r)
				dst = append(dst, a)
				if nul && c.P(1, 6) {
					dst = append(dst, 0)
				}
				dst = append(dst, b)
			} else {
				dst = append(dst, r)
			}
		}
		return dst
	}
	for n := c.Range(1, 6); n > 0; n-- {
		var ch []rune
		var ks []string
		i := c.N(c.size(pick(c.RNG, []int{1, 2, 2, 2, 4, 11})))
		if c.P(1, 30000) {
			i = c.Range(4000, 20000)
			c.stat("huge", 1)
		}
		for ; i > 0; i-- {
			r := p.rune(c)
			if r == 0 || r == 0x1B || (r >= 0xD800 && r < 0xE000) {
				r = 'x'
			}
			ch = enc(ch, string(r), true)
			ks = append(ks, string(r))
		}
		if c.P(1, 3) || len(ks) == 0 {
			// an escape sequence ends the chunk
			k := pick(c.RNG, []string{"\x1B", "\x1B[A", "\x1B[3~", "\x1BOP", "\x1Bb", "\x1B[1;5C", "\x1B\x1B", "\x1B\x1B[A", "\x1B" + p.text(c, c.size(5)), "\x1B\U0001F600x", "\x1B[200~hello\r"})
			k = strings.Map(func(r rune) rune {
				if r == 0 {
					return -1
				}
				return r
			}, k)
			ch = enc(ch, k, false)
			ks = append(ks, k)
		}
		chunks = append(chunks, ch)
		keysOf = append(keysOf, ks)
	}
	return
}

func c14(c *Ctx) {
	errRaw, errRead = c.pickErr(errRawOwn), c.pickErr(errReadOwn)
	chunks, want := c.c14input()
	c.logf("chunks %q", fmt.Sprint(chunks))
	fresh := func() *runeTty { return &runeTty{chunks: chunks, failAt: -1} }
	flat := []string{}
	for _, w := range want {
		flat = append(flat, w...)
	}
	total := 0
	for _, ch := range chunks {
		total += len(ch)
	}
	state := func(t *runeTty, what string, raws int) bool {
		switch {
		case t.trouble != "":
			c.failf("%s: %s", what, t.trouble)
		case t.raws != raws || t.cleans != raws || t.raw != 0:
			c.failf("%s: raw mode entered %d times and left %d times", what, t.raws, t.cleans)
		default:
			return true
		}
		return false
	}
	// a split surrogate pair may also lie in two chunks
	split := append([][]rune(nil), chunks...)
	for i, ch := range split {
		for j := 1; j < len(ch); j++ {
			if utf16.IsSurrogate(ch[j]) && utf16.IsSurrogate(ch[j-1]) && ch[0] != 0x1B && !strings.ContainsRune(string(ch[:j]), 0x1B) && c.P(1, 4) {
				split = append(split[:i], append([][]rune{ch[:j], ch[j:]}, split[i+1:]...)...)
				break
			}
		}
		if len(split) != len(chunks) {
			c.stat("pair_in_two_chunks", 1)
			break
		}
	}

	// one key at a time
	for round, input := range [][][]rune{chunks, split} {
		t := fresh()
		t.chunks = input
		for i, w := range flat {
			k, err := readline.GetKey(t)
			c.eval(fmt.Sprint("key|", w))
			if err != nil || k != w {
				c.failf("GetKey number %d (input %d) gave %q, %v; pressed were %q", i, round, k, err, flat)
				return
			}
			c.stat("keys", 1)
			if !state(t, "GetKey", i+1) {
				return
			}
		}
		if l := t.left(); len(l) > 0 {
			c.failf("after all keys %q is left", l)
			return
		}
		if k, err := readline.GetKey(t); err != io.EOF || k != "" {
			c.failf("GetKey at the end gave %q, %v", k, err)
			return
		}
	}
	// the same without raw mode handling
	t := fresh()
	t.raw = 1
	for i, w := range flat {
		if k, err := readline.GetRawKey(t); err != nil || k != w {
			c.failf("GetRawKey number %d gave %q, %v; pressed were %q", i, k, err, flat)
			return
		}
	}
	if t.raws != 0 || t.cleans != 0 || t.raw != 1 {
		c.failf("GetRawKey touched raw mode")
		return
	}
	// everything available at once
	t = fresh()
	for i, w := range want {
		ks, err := readline.GetKeys(t)
		c.eval(fmt.Sprint("keys|", w))
		c.stat("key_batches", 1)
		if err != nil || !reflect.DeepEqual(ks, w) {
			c.failf("GetKeys number %d gave %q, %v; pressed were %q", i, ks, err, w)
			return
		}
		if !state(t, "GetKeys", i+1) {
			return
		}
	}
	// raw mode refused: nothing is read
	for i := 0; i < 2; i++ {
		t = fresh()
		t.rawErr = true
		var err error
		if i == 0 {
			_, err = readline.GetKey(t)
		} else {
			_, err = readline.GetKeys(t)
		}
		c.eval("raw-error")
		if !errors.Is(err, errRaw) || t.reads != 0 || t.cleans != 0 {
			c.failf("with raw mode refused: error %v, %d reads, raw mode left %d times", err, t.reads, t.cleans)
			return
		}
	}
	// every read failing in turn
	step := 1
	if total > 2000 {
		step = total / 50
	}
	for at := c.N(step); at < total; at += step {
		for i := 0; i < 2; i++ {
			t = fresh()
			t.failAt = at
			calls := 0
			var err error
			var got []string
			for err == nil && calls <= total {
				calls++
				if i == 0 {
					var k string
					if k, err = readline.GetKey(t); err == nil {
						got = append(got, k)
					}
				} else {
					var ks []string
					if ks, err = readline.GetKeys(t); err == nil {
						got = append(got, ks...)
					}
				}
			}
			c.eval(fmt.Sprint("fault|", at, "|", len(got), "|", i))
			c.stat("read_faults", 1)
			if !errors.Is(err, errRead) {
				c.failf("read number %d failed; the caller got %v", at, err)
				return
			}
			if !state(t, fmt.Sprintf("after read number %d failed", at), calls) {
				return
			}
			for j, k := range got {
				if k != flat[j] {
					c.failf("before the failing read number %d the keys were %q; pressed were %q", at, got, flat)
					return
				}
			}
			// and the terminal can be read on
			if i == 0 && t.reads > 0 {
				t.failAt = -1
				l := strings.TrimLeft(string(t.left()), "\x00")
				// half a pair and NULs are no keys
				if len(l) > 0 && !strings.ContainsRune(l, 0xFFFD) {
					if _, err := readline.GetKey(t); err != nil {
						c.failf("reading on after a failure gave %v", err)
						return
					}
				}
			}
		}
	}
	c14pilot(c, flat)
	c.sample("chunks %q -> keys %q", fmt.Sprint(chunks), want)
}

func c14pilot(c *Ctx, flat []string) {
	p := &auto.Pilot{Text: append([]string(nil), flat...)}
	if err := p.Open(func(int) {}); err != nil {
		c.failf("Pilot.Open: %v", err)
		return
	}
	for i, w := range append(append([]string(nil), flat...), "\r", "\r", "\r") {
		k, err := p.GetKey()
		c.eval("pilot|" + w)
		if k != w || err != nil {
			c.failf("scripted key %d is delivered as %q, %v; script %q", i, k, err, flat)
			return
		}
	}
	if w, h, err := p.Size(); w <= 0 || h <= 0 || err != nil {
		c.failf("Pilot.Size: %d, %d, %v", w, h, err)
		return
	}
	if err := p.Close(); err != nil {
		c.failf("Pilot.Close: %v", err)
		return
	}
	// two lines out of one script, the second ended by the script's end
	var a, b []string
	for i := c.N(10); i > 0; i-- {
		a = append(a, string(pick(c.RNG, []rune("abc漢é ,"))))
	}
	for i := c.N(10); i > 0; i-- {
		b = append(b, string(pick(c.RNG, []rune("abc漢é ,"))))
	}
	script := append(append(append([]string(nil), a...), "\r"), b...)
	ed := &readline.Editor{Writer: io.Discard, Tty: &auto.Pilot{Text: script}, PromptWriter: func(w io.Writer) (int, error) { return 0, nil }}
	for i, w := range [][]string{a, b, nil} {
		text, err := ed.ReadLine(context.Background())
		c.eval("pilot-line|" + text)
		c.stat("scripted_lines", 1)
		if err != nil || text != strings.Join(w, "") {
			c.failf("line %d of the script %q is %q, %v", i, script, text, err)
			return
		}
	}
}

func init() { reg("C14", c14) }
