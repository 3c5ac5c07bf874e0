package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is the context of one case: its random choices, what was observed, what failed.
type Ctx struct {
	*RNG
	Prop string
	Seed uint64
	Idx  int
	Tier string
	Caps Caps
	w    *worker
	Log  []string // human-readable trace, part of the witness
	bad  bool
	mu   sync.Mutex
}

type failure struct {
	Case int      `json:"case"`
	Msg  string   `json:"msg"`
	Log  []string `json:"log"`
}

type worker struct {
	Evals    int64            `json:"evaluations"`
	Cases    int64            `json:"cases"`
	Stats    map[string]int64 `json:"stats"`
	Fails    []failure        `json:"failures"`
	Samples  []string         `json:"samples"`
	Hang     int              `json:"hang"` // case number, -1 if none
	HangWhy  string           `json:"hang_why,omitempty"`
	Caps     string           `json:"caps"`
	distinct map[uint64]struct{}
	mu       sync.Mutex
}

func (c *Ctx) logf(f string, a ...any) {
	c.mu.Lock()
	if len(c.Log) < 2000 {
		c.Log = append(c.Log, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// failf records a violation (the first one of a case).
func (c *Ctx) failf(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.bad {
		return
	}
	c.bad = true
	c.w.mu.Lock()
	if len(c.w.Fails) < 20 {
		c.w.Fails = append(c.w.Fails, failure{c.Idx, fmt.Sprintf(f, a...), append([]string(nil), c.Log...)})
	}
	c.w.mu.Unlock()
}

func (c *Ctx) failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.bad }

// eval counts one monitored comparison; key identifies the observed situation
// ("" = trivial, not counted as distinct).
func (c *Ctx) eval(key string) {
	c.w.mu.Lock()
	c.w.Evals++
	if key != "" && len(c.w.distinct) < 400000 {
		c.w.distinct[hashStr(key)] = struct{}{}
	}
	c.w.mu.Unlock()
}

func (c *Ctx) stat(name string, n int) {
	c.w.mu.Lock()
	c.w.Stats[name] += int64(n)
	c.w.mu.Unlock()
}

func (c *Ctx) max(name string, n int) {
	c.w.mu.Lock()
	if c.w.Stats["max_"+name] < int64(n) {
		c.w.Stats["max_"+name] = int64(n)
	}
	c.w.mu.Unlock()
}

func (c *Ctx) sample(f string, a ...any) {
	c.w.mu.Lock()
	if len(c.w.Samples) < 4 {
		c.w.Samples = append(c.w.Samples, fmt.Sprintf(f, a...))
	}
	c.w.mu.Unlock()
}

type propDef struct {
	run func(*Ctx)
}

var props = map[string]propDef{}

func reg(id string, f func(*Ctx)) { props[id] = propDef{f} }

func main() {
	if len(os.Args) > 1 && helpers[os.Args[1]] != nil {
		helpers[os.Args[1]](os.Args[2:])
		return
	}
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 0, "")
	list := flag.String("cases", "", "comma separated case numbers instead of from/to")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	journal := flag.String("journal", "", "")
	limit := flag.Int("watchdog", 60, "seconds per case")
	verbose := flag.Bool("v", false, "")
	flag.Parse()

	def, ok := props[*prop]
	if !ok {
		names := []string{}
		for k := range props {
			names = append(names, k)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "unknown property; known:", names)
		os.Exit(2)
	}
	w := &worker{Stats: map[string]int64{}, Hang: -1, distinct: map[uint64]struct{}{}, Caps: capsFromEnv().Name}
	var jf *os.File
	if *journal != "" {
		jf, _ = os.Create(*journal)
	}
	var cur, started atomic.Int64
	cur.Store(-1)
	finish := func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		if *out == "" {
			b, _ := json.MarshalIndent(w, "", " ")
			fmt.Println(string(b))
			return
		}
		b, _ := json.Marshal(w)
		os.WriteFile(*out, b, 0o644)
		hs := make([]byte, 0, 8*len(w.distinct))
		for h := range w.distinct {
			hs = binary.LittleEndian.AppendUint64(hs, h)
		}
		os.WriteFile(*out+".h", hs, 0o644)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			c := cur.Load()
			why := ""
			if c >= 0 && time.Now().UnixNano()-started.Load() > int64(*limit)*1e9 {
				why = fmt.Sprintf("no progress for %d s", *limit)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2<<30 {
				why = "runaway memory use"
			}
			if why != "" {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "WATCHDOG case %d: %s\n%s\n", c, why, buf[:n])
				w.Hang, w.HangWhy = int(c), why
				finish()
				os.Exit(3)
			}
		}
	}()
	debug.SetGCPercent(400)
	var cases []int
	if *list != "" {
		for _, s := range strings.Split(*list, ",") {
			n, _ := strconv.Atoi(s)
			cases = append(cases, n)
		}
	} else {
		for i := *from; i < *to; i++ {
			cases = append(cases, i)
		}
	}
	for _, i := range cases {
		if jf != nil {
			jf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		started.Store(time.Now().UnixNano())
		cur.Store(int64(i))
		c := &Ctx{RNG: NewRNG(*seed, hashStr(*prop), uint64(i)), Prop: *prop, Seed: *seed, Idx: i, Tier: *tier, Caps: capsFromEnv(), w: w}
		runCase(c, def.run)
		w.Cases++
		cur.Store(-1)
		if *verbose {
			for _, l := range c.Log {
				fmt.Println(l)
			}
		}
		w.mu.Lock()
		n := len(w.Fails)
		w.mu.Unlock()
		if n >= 5 {
			break
		}
	}
	finish()
}

func runCase(c *Ctx, f func(*Ctx)) {
	defer func() {
		if p := recover(); p != nil {
			c.failf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	f(c)
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

// helpers are the other roles of this binary (children run on a pty, ...).
var helpers = map[string]func([]string){}
