package props

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type stats struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Skipped     int            `json:"skipped_by_budget"`
	Pinned      int            `json:"pinned"`
	Failed      string         `json:"failed,omitempty"`
	Hashes      []uint64       `json:"hashes"`
}

func clone(p *Prop, c any) any {
	b, err := json.Marshal(c)
	if err != nil {
		die("case not serialisable: %v", err)
	}
	n := reflect.New(reflect.TypeOf(c).Elem()).Interface()
	if err := json.Unmarshal(b, n); err != nil {
		die("case not deserialisable: %v", err)
	}
	return n
}

func TestProp(t *testing.T) {
	if s := os.Getenv("VERIF_HELPER"); s != "" {
		busyHelper(s)
	}
	id := os.Getenv("VERIF_PROP")
	p := registry[id]
	if p == nil {
		die("no such property %q", id)
	}
	out := os.Getenv("VERIF_OUT")
	env := &Env{
		Scratch: filepath.Join(out, "scratch"), Repo: os.Getenv("VERIF_REPO"),
		CLI: os.Getenv("VERIF_CLI"), CSVEq: os.Getenv("VERIF_CSVEQ"), Tier: os.Getenv("VERIF_TIER"),
	}
	if err := os.MkdirAll(env.Scratch, 0o755); err != nil {
		die("%v", err)
	}
	if s := os.Getenv("VERIF_HANG"); s != "" {
		d, err := time.ParseDuration(s)
		if err != nil {
			die("%v", err)
		}
		hangLimit = d
	}
	go watchdog()

	write := func(name string, v any) {
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(filepath.Join(out, name), b, 0o644); err != nil {
			die("%v", err)
		}
	}

	type replay struct {
		Property string          `json:"property"`
		Message  string          `json:"message,omitempty"`
		Case     json.RawMessage `json:"case"`
	}

	load := func(fn string) any {
		b, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		var r replay
		if err := json.Unmarshal(b, &r); err != nil {
			die("%s: %v", fn, err)
		}
		c := p.New()
		if err := json.Unmarshal(r.Case, c); err != nil {
			die("%s: %v", fn, err)
		}
		return c
	}
	raw := func(c any) json.RawMessage { b, _ := json.Marshal(c); return b }

	// Replay of a single stored case, bypassing the generator.
	if fn := os.Getenv("VERIF_REPLAY"); fn != "" {
		c := load(fn)
		if err := p.Check(env, c); err != nil {
			fmt.Printf("REPLAY-FAILS %v\n", err)
			os.Exit(1)
		}
		fmt.Println("REPLAY-PASSES")
		return
	}

	st := &stats{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	defer func() {
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		write("stats.json", st)
	}()

	budget := 300 * time.Second
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		d, err := time.ParseDuration(s)
		if err != nil {
			die("%v", err)
		}
		budget = d
	}
	start := time.Now()
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if shards == 0 {
		shards = 1
	}

	one := func(c any) error {
		// The case is stored first: a crash or hang of the code under test
		// leaves it behind for the driver to confirm.
		write("cur.json", replay{Property: id, Case: raw(c)})
		err := p.Check(env, clone(p, c))
		if err != nil {
			write("fail.json", replay{Property: id, Message: err.Error(), Case: raw(c)})
			st.Failed = err.Error()
		}
		return err
	}

	// Regression tier: stored minimal cases of repaired defects.
	if dir := os.Getenv("VERIF_REGRESS"); dir != "" {
		fns, _ := filepath.Glob(filepath.Join(dir, id, "*.json"))
		sort.Strings(fns)
		for i, fn := range fns {
			if i%shards != shard {
				continue
			}
			st.Pinned++
			if err := one(load(fn)); err != nil {
				t.Fatalf("pinned %s: %v", filepath.Base(fn), err)
			}
		}
	}
	// Exhaustively enumerated part, if the property has one.
	if p.Enum != nil {
		i := 0
		p.Enum(env, func(c any) bool {
			i++
			if i%shards != shard {
				return true
			}
			st.Evaluations++
			st.Labels["enumerated"]++
			h := fnv.New64a()
			h.Write(raw(c))
			seen[h.Sum64()] = true
			if err := one(c); err != nil {
				t.Errorf("enumerated: %v", err)
				return false
			}
			return true
		})
		if t.Failed() {
			return
		}
	}

	failedOnce := false
	rapid.Check(t, func(rt *rapid.T) {
		if !failedOnce && time.Since(start) > budget {
			st.Skipped++
			return
		}
		c := p.Draw(rt)
		if !failedOnce {
			st.Evaluations++
			labels, nontrivial := p.Classify(c)
			for _, l := range labels {
				st.Labels[l]++
			}
			if nontrivial {
				b := raw(c)
				h := fnv.New64a()
				h.Write(b)
				if !seen[h.Sum64()] {
					seen[h.Sum64()] = true
					st.Distinct++
					if len(st.Samples) < 3 && len(b) < 1500 {
						st.Samples = append(st.Samples, string(b))
					}
				}
			}
		}
		if err := one(c); err != nil {
			failedOnce = true
			rt.Fatalf("%v", err)
		}
	})
}
