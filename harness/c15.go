package main

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/nameutils"
)

// ---- C15: key bindings ----

// documented default bindings
var defaultBindings = map[string]string{
	"\x1Bb": "BACKWARD_WORD", "\x1Bf": "FORWARD_WORD", "\x1Bv": "YANK", "\x1By": "YANK_WITH_QUOTE",
	"\x7F": "BACKWARD_DELETE_CHAR", "\x01": "BEGINNING_OF_LINE", "\x02": "BACKWARD_CHAR", "\x03": "INTR",
	"\x04": "DELETE_OR_ABORT", "\x05": "END_OF_LINE", "\x06": "FORWARD_CHAR", "\x08": "BACKWARD_DELETE_CHAR",
	"\x0B": "KILL_LINE", "\x0C": "CLEAR_SCREEN", "\x1B[1;5D": "BACKWARD_WORD", "\r": "ACCEPT_LINE",
	"\x0E": "NEXT_HISTORY", "\x10": "PREVIOUS_HISTORY", "\x11": "QUOTED_INSERT", "\x12": "ISEARCH_BACKWARD",
	"\x1B[1;5C": "FORWARD_WORD", "\x14": "SWAPCHAR", "\x15": "UNIX_LINE_DISCARD", "\x1F": "UNDO",
	"\x16": "QUOTED_INSERT", "\x17": "UNIX_WORD_RUBOUT", "\x19": "YANK", "\x1A": "UNDO", "\x1B[3~": "DELETE_CHAR",
	"\x1B[B": "NEXT_HISTORY", "\x1B[F": "END_OF_LINE", "\x1B": "KILL_WHOLE_LINE", "\x1B[H": "BEGINNING_OF_LINE",
	"\x1B[D": "BACKWARD_CHAR", "\x1B[C": "FORWARD_CHAR", "\x1B[A": "PREVIOUS_HISTORY",
}

var functionNames = []string{
	"ACCEPT_LINE", "BACKWARD_CHAR", "BACKWARD_DELETE_CHAR", "BACKWARD_WORD", "BEGINNING_OF_LINE", "CLEAR_SCREEN",
	"DELETE_CHAR", "DELETE_OR_ABORT", "END_OF_LINE", "FORWARD_CHAR", "FORWARD_WORD", "INTR", "ISEARCH_BACKWARD",
	"KILL_LINE", "KILL_WHOLE_LINE", "NEXT_HISTORY", "PREVIOUS_HISTORY", "QUOTED_INSERT", "REPAINT_ON_NEWLINE",
	"SWAPCHAR", "UNDO", "UNIX_LINE_DISCARD", "UNIX_WORD_RUBOUT", "YANK", "YANK_WITH_QUOTE",
}

// key names and the codes terminals send for them
var keyNames = func() map[string]string {
	m := map[string]string{
		"BACKSPACE": "\x7F", "DELETE": "\x1B[3~", "UP": "\x1B[A", "DOWN": "\x1B[B", "RIGHT": "\x1B[C", "LEFT": "\x1B[D",
		"HOME": "\x1B[H", "END": "\x1B[F", "C_LEFT": "\x1B[1;5D", "C_RIGHT": "\x1B[1;5C", "C_UP": "\x1B[1;5A", "CTRL_DOWN": "\x1B[1;5B",
		"ENTER": "\r", "ESCAPE": "\x1B", "PAGEUP": "\x1B[5~", "PAGEDOWN": "\x1B[6~", "M_BACKSPACE": "\x1B\b",
		"C_UNDERBAR": "\x1F", "C_[": "\x1B", "C_\\": "\x1C", "C_]": "\x1D", "C_^": "\x1E", "F5": "\x1B[15~", "F9": "\x1B[20~",
		"F10": "\x1B[21~", "F11": "\x1B[23~", "F12": "\x1B[24~", "M_OEM_2": "\x1B/",
	}
	for r := rune('A'); r <= 'Z'; r++ {
		m["C_"+string(r)] = string(r - 'A' + 1)
		m["M_"+string(r)] = "\x1B" + string(r+'a'-'A')
	}
	return m
}()

var keyNameList = func() (l []string) {
	for k := range keyNames {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}()

func (c *Ctx) spell(name string) string {
	rs := []rune(name)
	for i, r := range rs {
		switch {
		case r == '_' && c.P(1, 2):
			rs[i] = '-'
		case c.P(1, 2):
			rs[i] = []rune(strings.ToLower(string(r)))[0]
		}
	}
	return string(rs)
}

type binding struct {
	id   int    // own command
	name string // bundled function
}

func c15(c *Ctx) {
	pool := []string{}
	seen := map[string]bool{}
	addKey := func(k string) {
		if !seen[k] && k != probeKey {
			seen[k] = true
			pool = append(pool, k)
		}
	}
	for i := c.Range(6, 14); i > 0; i-- {
		switch c.N(4) {
		case 0:
			addKey(keyNames[pick(c.RNG, keyNameList)])
		case 1:
			addKey(string(pick(c.RNG, []rune("aAbB01 ~漢é\U0001F600"))))
		case 2:
			addKey(pick(c.RNG, []string{"\x1B[99~", "\x1BOP", "\x1B[Z", "\x1Ba", "\x1B[1;2A", "\t", "\x1Bx"}))
		case 3:
			ks := []string{}
			for k := range defaultBindings {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			addKey(pick(c.RNG, ks))
		}
	}
	// keys that differ from these in a letter's case, a character more or less
	for _, k := range append([]string{}, pool...) {
		rs := []rune(k)
		switch c.N(16) {
		case 0:
			addKey(strings.ToUpper(k))
		case 1:
			addKey(strings.ToLower(k))
		case 2:
			if len(rs) > 1 {
				addKey(string(rs[:len(rs)-1]))
			}
		case 3:
			if len(rs) > 1 {
				addKey(string(rs[1:]))
			}
		case 4:
			addKey("\x1B" + k)
		case 5:
			addKey(k + string(rs[len(rs)-1]))
		}
	}
	// reference: 0, 1 = editors, 2 = global map
	var ref [3]map[string]binding
	for i := range ref {
		ref[i] = map[string]binding{}
	}
	for k, n := range defaultBindings {
		ref[2][k] = binding{name: n}
	}
	ran := []int{}
	mkCmd := func(id int) readline.Command {
		return readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
			ran = append(ran, id)
			return readline.CONTINUE
		})
	}
	var eds [2]*readline.Editor
	var ttys [2]*FakeTty
	for i := range eds {
		ttys[i] = &FakeTty{W: 80, H: 8}
		eds[i] = &readline.Editor{Writer: io.Discard, Tty: ttys[i]}
	}
	maps := [3]*readline.KeyMap{&eds[0].KeyMap, &eds[1].KeyMap, readline.GlobalKeyMap}
	// put the global map back as it was
	type saved struct {
		cmd readline.Command
		ok  bool
	}
	orig := map[string]saved{}
	for _, k := range pool {
		f, ok := readline.GlobalKeyMap.Lookup(keys.Code(k))
		orig[k] = saved{f, ok}
	}
	defer func() {
		for k, s := range orig {
			if s.ok {
				readline.GlobalKeyMap.BindKey(keys.Code(k), s.cmd)
			} else {
				readline.GlobalKeyMap.BindKey(keys.Code(k), nil)
			}
		}
	}()
	resolve := func(e int, k string) (binding, bool) {
		if b, ok := ref[e][k]; ok {
			return b, true
		}
		b, ok := ref[2][k]
		return b, ok
	}
	// check one key of one editor by looking it up and by pressing it
	probe := 0
	check := func(e int, k string) {
		if c.failed() {
			return
		}
		b, bound := resolve(e, k)
		cmd := eds[e].LookupCommand(k)
		c.eval(fmt.Sprint(e, "|", k, "|", b, "|", bound))
		what := fmt.Sprintf("key %q of editor %d", k, e)
		switch {
		case !bound:
			if si, ok := cmd.(readline.SelfInserter); !ok || string(si) != k {
				c.failf("%s is bound to nothing, but runs %q", what, cmd.String())
			}
		case b.name != "":
			if cmd.String() != b.name {
				c.failf("%s should run %s, but runs %q", what, b.name, cmd.String())
			}
		default:
			if cmd.String() != "anonymous" {
				c.failf("%s should run the bound command %d, but runs %q", what, b.id, cmd.String())
			}
		}
		if c.failed() || (bound && b.name != "") {
			return
		}
		// press it
		ran = ran[:0]
		// Enter and the probe of this editor may be rebound: finish by error
		step := 0
		ttys[e].next = func() (string, error) {
			step++
			if step == 1 {
				return k, nil
			}
			return "", errStop
		}
		var line string
		eds[e].LineFeedWriter = nil
		eds[e].Default = ""
		eds[e].Cursor = 0
		var got *readline.Buffer
		eds[e].Predictor = func(*readline.Buffer) string { return "" }
		eds[e].Coloring = colorSpy{func() {}, &line}
		line = ""
		_, err := eds[e].ReadLine(context.Background())
		_ = got
		probe++
		c.stat("pressed", 1)
		if bound {
			if len(ran) != 1 || ran[0] != b.id {
				c.failf("%s: pressed once, the commands run were %v, want [%d] (%v)", what, ran, b.id, err)
			}
			return
		}
		if len(ran) != 0 {
			c.failf("%s is bound to nothing, pressing it ran %v", what, ran)
			return
		}
		want := k
		if len(k) == 2 && k[0] == 0x1B {
			want = k[1:]
		}
		if line != want {
			c.failf("%s is bound to nothing, pressing it gave the line %q", what, line)
		}
	}
	checkAll := func() {
		for e := range eds {
			for _, k := range pool {
				check(e, k)
			}
		}
	}
	c.logf("keys %q", pool)
	for _, k := range pool {
		for e := range eds {
			check(e, k)
		}
	}
	if c.Idx%50 == 0 {
		// the complete default table
		for k, n := range defaultBindings {
			c.eval("default|" + k)
			if f, ok := readline.GlobalKeyMap.Lookup(keys.Code(k)); !ok || f.String() != n {
				c.failf("by default %q runs %v, want %s", k, f, n)
			}
			delete(seen, k)
		}
		for i := 0; i < 256; i++ {
			k := string(rune(i))
			if _, ok := defaultBindings[k]; !ok {
				if f, ok := readline.GlobalKeyMap.Lookup(keys.Code(k)); ok {
					c.failf("by default %q is bound to %v", k, f)
				}
				c.eval("default|" + k)
			}
		}
		for _, n := range functionNames {
			f, err := nameutils.GetFunc(c.spell(n))
			c.eval("func|" + n)
			if err != nil || f.String() != n {
				c.failf("GetFunc(%s) = %v, %v", n, f, err)
			}
		}
		for n, code := range keyNames {
			km := &readline.KeyMap{}
			cmd := mkCmd(7)
			sp := c.spell(n)
			c.eval("name|" + n)
			if err := nameutils.BindKeyFunc(km, sp, cmd); err != nil {
				c.failf("BindKeyFunc(%q): %v", sp, err)
			} else if _, ok := km.Lookup(keys.Code(code)); !ok {
				c.failf("the name %q does not bind the key %q", sp, code)
			}
		}
	}
	id := 0
	for i := c.Range(3, c.size(20)); i > 0 && !c.failed(); i-- {
		m := c.N(3)
		k := pick(c.RNG, pool)
		switch x := c.N(12); {
		case x < 4:
			id++
			c.logf("bind map %d key %q to own command %d", m, k, id)
			maps[m].BindKey(keys.Code(k), mkCmd(id))
			ref[m][k] = binding{id: id}
		case x < 7:
			c.logf("unbind map %d key %q", m, k)
			maps[m].BindKey(keys.Code(k), nil)
			delete(ref[m], k)
		case x < 10:
			// by names
			names := []string{}
			for _, n := range keyNameList {
				if keyNames[n] == k {
					names = append(names, n)
				}
			}
			if len(names) == 0 {
				continue
			}
			kn, fn := pick(c.RNG, names), pick(c.RNG, functionNames)
			skn, sfn := c.spell(kn), c.spell(fn)
			var err error
			if c.P(1, 3) {
				id++
				c.logf("BindKeyFunc map %d %q own command %d", m, skn, id)
				err = nameutils.BindKeyFunc(maps[m], skn, mkCmd(id))
				ref[m][k] = binding{id: id}
			} else {
				c.logf("BindKeySymbol map %d %q %q", m, skn, sfn)
				err = nameutils.BindKeySymbol(maps[m], skn, sfn)
				ref[m][k] = binding{name: fn}
			}
			c.stat("bound_by_name", 1)
			if err != nil {
				c.failf("binding %q to %q: %v", skn, sfn, err)
			}
		default:
			// unknown names
			bad := pick(c.RNG, []string{"", "NO_SUCH", "C_", "C_AA", "CTRL_", "X_Y", "F99", "KILL", "C A", "BACKWARDCHAR"})
			var err error
			switch c.N(3) {
			case 0:
				c.logf("BindKeySymbol map %d %q UNDO", m, bad)
				err = nameutils.BindKeySymbol(maps[m], bad, "undo")
			case 1:
				n := pick(c.RNG, keyNameList)
				c.logf("BindKeySymbol map %d %q %q", m, n, bad)
				err = nameutils.BindKeySymbol(maps[m], n, bad)
			case 2:
				c.logf("BindKeyFunc map %d %q", m, bad)
				err = nameutils.BindKeyFunc(maps[m], bad, mkCmd(999))
			}
			c.eval("unknown|" + bad)
			c.stat("unknown_names", 1)
			if err == nil {
				c.failf("the unknown name %q was accepted", bad)
			}
			if f, e := nameutils.GetFunc(bad); e == nil {
				c.failf("GetFunc(%q) = %v without error", bad, f)
			}
		}
		checkAll()
	}
	c.sample("%d keys, %d presses", len(pool), probe)
}

// colorSpy sees the line as it is painted.
type colorSpy struct {
	init func()
	line *string
}

func (s colorSpy) Init() readline.ColorSequence {
	*s.line = ""
	return readline.ColorReset
}

func (s colorSpy) Next(r rune) readline.ColorSequence {
	if r != readline.CursorPositionDummyRune {
		*s.line += string(r)
	}
	return readline.ColorReset
}

func init() { reg("C15", c15) }
