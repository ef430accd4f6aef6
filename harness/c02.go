package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/vearutop/flatjsonl/flatjsonl"
	"pgregory.net/rapid"
)

// C02Case is an input whose lines have very different processing costs. Lines
// that are reported as erroneous are held back inside their worker for the
// drawn delay, so that the harness decides about much of the completion order.
type C02Case struct {
	Base  []B   `json:"base"` // distinct lines
	Pick  []int `json:"pick"` // the input: indexes into Base, repeated for N lines, each line gets its own number
	N     int   `json:"n"`
	Hold  []int `json:"hold"` // delays of error reports in 100 microseconds, cyclic
	Conc  int   `json:"concurrency"`
	Procs int   `json:"procs"`
	Mem   bool  `json:"memLimit"` // run the command with a memory limit below its footprint
	// Room of the reading buffer besides the longest line, 0: a buffer for the whole input.
	Room  int  `json:"room,omitempty"`
	Quiet bool `json:"quiet,omitempty"` // no messages about errors, workers are not held back
}

func (c *C02Case) lines() []B {
	var ls []B
	for i := 0; i < c.N; i++ {
		b := string(c.Base[c.Pick[i%len(c.Pick)]%len(c.Base)])
		n := strconv.Itoa(i)
		if strings.HasPrefix(b, "!") {
			ls = append(ls, B("n"+n+" "+b[1:])) // bad line, number in its prefix
			continue
		}
		b = strings.ReplaceAll(b, "@N@", n)
		if b == "{}" {
			ls = append(ls, B("n"+n+" {}"))
			continue
		}
		ls = append(ls, B("n"+n+" {\"n\":"+n+","+b[1:]))
	}
	return ls
}

func (c *C02Case) asCase() *Case {
	r := &Case{Lines: c.lines(), F: F{CSV: "o.csv", Concurrency: c.Conc, AddSequence: true, Verbosity: 2, MatchLinePrefix: `^n(\d+) `, BufSize: 4 << 20}}
	if c.Quiet {
		r.F.Verbosity = 0
	}
	if c.Room > 0 {
		n := 0
		for _, l := range r.Lines {
			n = max(n, len(l))
		}
		r.F.BufSize = n + 1 + c.Room
	}
	return r
}

func init() {
	register(&Prop{
		ID:  "C02",
		New: func() any { return &C02Case{} },
		Draw: func(t *rapid.T) any {
			c := &C02Case{}
			o := &GenOpt{MaxLines: 5, MinLines: 2}
			c.Base = o.Lines(t)
			if rapid.Bool().Draw(t, "heavy") {
				n := rapid.IntRange(50, 3000).Draw(t, "width")
				c.Base = append(c.Base, B(`{"h":{"x":"`+strings.Repeat("y", n)+`"},"s":"`+strings.Repeat("z", n*3)+`"}`))
			}
			if rapid.Bool().Draw(t, "wide") {
				n := rapid.IntRange(10, 300).Draw(t, "elems")
				c.Base = append(c.Base, B(`{"w":[`+strings.Repeat("1,", n)+`2]}`))
			}
			if rapid.IntRange(0, 4).Draw(t, "columns?") == 0 {
				c.Base = append(c.Base, B(manyColumns(rapid.IntRange(2, 150).Draw(t, "columns"))))
			}
			if rapid.IntRange(0, 4).Draw(t, "long?") == 0 {
				n := rapid.SampledFrom([]int{500, 3000, 9000, 33000, 70000}).Draw(t, "long")
				c.Base = append(c.Base, B(`{"l":"@N@`+strings.Repeat("l", n)+`","m":@N@}`))
			}
			for i := rapid.IntRange(0, 3).Draw(t, "bad"); i > 0; i-- {
				c.Base = append(c.Base, rapid.SampledFrom([]B{`!{"a":1`, `!{"a"`, `!{]`, `!text`, `!{"a":{"b":[1,2`}).Draw(t, "badline"))
			}
			c.N = rapid.IntRange(1, rapid.SampledFrom([]int{10, 60, 300, 1500}).Draw(t, "maxN")).Draw(t, "n")
			c.Pick = rapid.SliceOfN(rapid.IntRange(0, len(c.Base)-1), 1, 12).Draw(t, "pick")
			c.Hold = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 20}), 1, 6).Draw(t, "hold")
			c.Conc = rapid.SampledFrom([]int{1, 2, 3, 4, 8, 16, 40}).Draw(t, "conc")
			c.Procs = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")
			c.Room = rapid.SampledFrom([]int{0, 0, 1, 100, 5000, 100000}).Draw(t, "room")
			c.Quiet = rapid.IntRange(0, 3).Draw(t, "quiet") == 0
			if long := 0; true {
				for _, b := range c.Base {
					long = max(long, len(b))
				}
				if long > 2000 {
					c.N = min(c.N, 3000000/long)
				}
			}
			return c
		},
		Enum: func(e *Env, yield func(any) bool) {
			n := 8
			if e.Tier == "thorough" {
				n = 32
			}
			// Many lines at full speed.
			for i := 0; i < n; i++ {
				for _, x := range []C02Case{
					{Base: []B{B(manyColumns(120))}, N: 2500, Conc: 32},
					{Base: []B{B(manyColumns(60)), `{"b":@N@}`, `{"k7":"@N@"}`}, N: 3000, Conc: 16},
					{Base: []B{`{"a":@N@}`}, N: 12000, Conc: 32},
					{Base: []B{`{"a":@N@}`, `!text`, `{}`}, N: 12000, Conc: 8},
					{Base: []B{B(`{"a":"@N@` + strings.Repeat("x", 34000) + `","z":@N@}`), `{"a":"@N@"}`}, N: 300, Conc: 16},
					{Base: []B{`{"a":@N@}`, B(`{"a":"@N@` + strings.Repeat("x", 900) + `","z":[@N@,"@N@",{"y":"@N@"}]}`)}, N: 6000, Conc: 16, Room: 4000},
				} {
					x.Pick, x.Quiet, x.Procs = make([]int, len(x.Base)), true, 8
					for j := range x.Pick {
						x.Pick[j] = j
					}
					if x.Room == 0 {
						x.Room = 1 + i*700
					}
					if !yield(&x) {
						return
					}
				}
			}
			// Few very long lines, then many short ones.
			for i := 0; i < n/4; i++ {
				c := &C02Case{Base: []B{B(`{"a":"@N@` + strings.Repeat("x", 1200000+i*70000) + `"}`), `{"a":"@N@"}`, `{"b":@N@}`}, Pick: make([]int, 3000), N: 6000, Conc: 2 + 2*i, Quiet: true, Procs: 8, Room: 200000}
				for j := c.Conc; j < len(c.Pick); j++ {
					c.Pick[j] = 1 + j%2
				}
				if !yield(c) {
					return
				}
			}
			for i := 0; i < n; i++ {
				yield(&C02Case{Base: []B{`{"a":1}`, `!{"a"`, `{"b":{"c":"x"}}`}, Pick: []int{0, 1, 2, 2, 0, 1 + i%2, i % 3}, N: 7, Conc: 1 + i%5, Mem: true})
			}
		},
		Check: checkC02,
		Classify: func(x any) ([]string, bool) {
			c := x.(*C02Case)
			l := []string{"workers-" + strconv.Itoa(c.Conc)}
			bad := false
			for _, p := range c.Pick {
				bad = bad || strings.HasPrefix(string(c.Base[p]), "!")
			}
			if bad {
				l = append(l, "held-error-lines")
			}
			if c.Mem {
				l = append(l, "memory-limited")
			}
			if c.Room > 0 {
				l = append(l, "small-buffer")
			}
			if c.N > 100 {
				l = append(l, "over-100-lines")
			}
			return l, c.Conc > 1 && c.N > c.Conc
		},
	})
}

// manyColumns is a line whose columns all have the number of the line.
func manyColumns(n int) string {
	p := make([]string, n)
	for i := range p {
		p[i] = `"k` + strconv.Itoa(i) + `":` + []string{`@N@`, `"@N@"`}[i%2]
	}
	return "{" + strings.Join(p, ",") + "}"
}

func checkC02(e *Env, x any) error {
	c := x.(*C02Case)
	cs := c.asCase()
	if c.Mem {
		return memLimited(e, cs)
	}
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)

	var mu sync.Mutex
	n := 0
	o := e.runWith(cs, func(msg string) {
		if !strings.HasPrefix(msg, "error:") || len(c.Hold) == 0 {
			return
		}
		mu.Lock()
		d := c.Hold[n%len(c.Hold)]
		n++
		mu.Unlock()
		if d > 0 {
			time.Sleep(time.Duration(d) * 100 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}, In{Name: "in.jsonl", Data: joinLines(cs.Lines)})
	return checkCSV(cs, o)
}

// memLimited runs the command with a memory limit its own footprint exceeds.
func memLimited(e *Env, cs *Case) error {
	dir := e.Dir()
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in.jsonl"), filepath.Join(dir, "o.csv")
	if err := os.WriteFile(in, joinLines(cs.Lines), 0o644); err != nil {
		die("%v", err)
	}
	dog(true)
	defer dog(false)
	cmd := exec.Command(e.CLI, "-input", in, "-csv", out, "-mem-limit", "1", "-buf-size", "4000000", "-verbosity", "0", "-add-sequence",
		"-match-line-prefix", cs.F.MatchLinePrefix, "-concurrency", strconv.Itoa(cs.F.Concurrency))
	setKill(cmd)
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("command failed: %v: %s", err, b)
	}
	d, err := os.ReadFile(out)
	if err != nil {
		return err
	}
	return checkCSV(cs, &Out{Files: map[string]string{"o.csv": string(d)}})
}

var _ = flatjsonl.NopFile
