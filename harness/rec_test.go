package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case collects what one generated case exercised.
type Case struct {
	nt     bool
	h      uint64
	hset   bool
	labels []string
	sample string
}

// NonTrivial marks the case as non-trivial; key identifies it for counting
// distinct cases.
func (c *Case) NonTrivial(key string) {
	c.nt = true
	f := fnv.New64a()
	f.Write([]byte(key))
	c.h = c.h*1099511628211 ^ f.Sum64()
	c.hset = true
}
func (c *Case) Label(format string, a ...any) { c.labels = append(c.labels, fmt.Sprintf(format, a...)) }
func (c *Case) Sample(format string, a ...any) {
	if c.sample == "" {
		c.sample = fmt.Sprintf(format, a...)
		if len(c.sample) > 700 {
			c.sample = c.sample[:700] + "..."
		}
	}
}

type recorder struct {
	mu         sync.Mutex
	id         string
	start      time.Time
	evals      int
	distinct   map[uint64]struct{}
	labels     map[string]int
	parts      map[string]int
	samples    []string
	rules      []string
	assume     []string
	violations []string
	exhaustive []string
}

var rec = &recorder{distinct: map[uint64]struct{}{}, labels: map[string]int{}, parts: map[string]int{}, start: time.Now()}

func (r *recorder) add(part string, c *Case) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.parts[part]++
	if c.nt {
		r.distinct[c.h^uint64(len(part))*0x9e3779b97f4a7c15] = struct{}{}
	}
	for _, l := range c.labels {
		r.labels[part+": "+l]++
	}
	if c.sample != "" {
		n := r.parts[part]
		if n == 20 || n == 150 || (n == 1 && len(r.samples) == 0) {
			if len(r.samples) < 24 {
				r.samples = append(r.samples, part+": "+c.sample)
			}
		}
	}
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		s = 1
	}
	return s
}

// subSeed derives a nonzero rapid seed for a named part.
func subSeed(part string) uint64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s", seed(), part)
	if shardIndex() > 0 {
		fmt.Fprintf(f, "/%d", shardIndex())
	}
	v := f.Sum64() >> 1
	if v == 0 {
		v = 1
	}
	return v
}

// rule documents how cases are made and when one is non-trivial.
func rule(s string)      { rec.rules = append(rec.rules, s) }
func assuming(s string)  { rec.assume = append(rec.assume, s) }
func violated(s string)  { rec.mu.Lock(); rec.violations = append(rec.violations, s); rec.mu.Unlock() }
func exhausted(s string) { rec.exhaustive = append(rec.exhaustive, s) }

// quickFactor multiplies the cases of the quick checks which take a few
// seconds only.
var quickFactor = map[string]int{
	"C04": 3, "C07": 3, "C08": 3, "C12": 3, "C13": 3, "C14": 3, "C15": 3, "C16": 3, "C17": 3, "C19": 3, "C20": 3, "C21": 3,
	"C03": 2, "C05": 2, "C09": 2, "C11": 2, "C18": 2, "C22": 2, "C24": 2, "C26": 2, "C27": 2, "C28": 2, "C29": 2, "C30": 2, "C31": 2, "C32": 2, "C33": 2, "C34": 2,
}

// prop runs one generated property: quick/thorough are the case counts.
func prop(t *testing.T, part string, quick, thorough int, f func(t *rapid.T, c *Case)) {
	t.Helper()
	n := quick
	if f := quickFactor[os.Getenv("VERIF_ID")]; f > 0 {
		n *= f
	}
	if tier() == "thorough" {
		n = max(n, thorough)
	}
	n = (n + shardCount() - 1) / shardCount()
	if s := os.Getenv("VERIF_CASES"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	ff := os.Getenv("VERIF_FAILFILE")
	if ff != "" && os.Getenv("VERIF_PART") != part {
		return
	}
	ok := t.Run(part, func(t *testing.T) {
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(subSeed(part), 10))
		flag.Set("rapid.shrinktime", "20s")
		if ff != "" {
			flag.Set("rapid.failfile", ff)
		}
		stop := watch(part)
		defer stop()
		rapid.Check(t, func(rt *rapid.T) {
			running.Add(1)
			c := &Case{}
			f(rt, c)
			rec.add(part, c)
		})
	})
	if !ok {
		violated(part)
	}
}

// stallLimit bounds one case, in seconds during which this process runs; the
// slowest cases take a few.
const stallLimit = 150

var running atomic.Int64

// watch reports a violation when a case does not end: an operation of the
// code under test never returned.
func watch(part string) (stop func()) {
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		last, ticks := running.Load(), 0
		for {
			select {
			case <-done:
				return
			case <-tick.C:
			}
			if n := running.Load(); n != last {
				last, ticks = n, 0
				continue
			}
			if ticks++; ticks >= stallLimit {
				b := make([]byte, 1<<20)
				b = b[:runtime.Stack(b, true)]
				abort(part, fmt.Sprintf("a case did not end within %d s", stallLimit), string(b))
			}
		}
	}()
	return func() { close(done) }
}

// once runs a deterministic (enumerated) part.
func once(t *testing.T, part string, f func(t *testing.T, ev func(key, sample string))) {
	t.Helper()
	if os.Getenv("VERIF_FAILFILE") != "" || shardIndex() > 0 {
		return
	}
	ok := t.Run(part, func(t *testing.T) {
		f(t, func(key, sample string) {
			c := &Case{}
			c.NonTrivial(key)
			c.Sample("%s", sample)
			rec.add(part, c)
		})
	})
	if !ok {
		violated(part)
	}
}

// each runs the enumerated items 0..n-1 of a part, dealt out over the shards.
func each(t *testing.T, part string, n int, f func(t *testing.T, i int, c *Case)) {
	t.Helper()
	ff := os.Getenv("VERIF_FAILFILE")
	if ff != "" && os.Getenv("VERIF_PART") != part {
		return
	}
	ok := t.Run(part, func(t *testing.T) {
		stop := watch(part)
		defer stop()
		for i := 0; i < n; i++ {
			if ff == "" && i%shardCount() != shardIndex() {
				continue
			}
			running.Add(1)
			c := &Case{}
			f(t, i, c)
			rec.add(part, c)
		}
	})
	if !ok {
		violated(part)
	}
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

// Checks are split over several processes ("shards"), each with its own seed
// derived from VERIF_SEED; enumerated parts run on shard 0 only.
func shardCount() int { return envInt("VERIF_SHARDS", 1) }
func shardIndex() int { return envInt("VERIF_SHARD", 0) }

type partial struct {
	Evals                                          int
	Distinct                                       []uint64
	Labels, Parts                                  map[string]int
	Samples, Rules, Assume, Violations, Exhaustive []string
}

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_FIRSTUSE") != "" {
		firstUse()
	}
	flag.Parse()
	rec.id = os.Getenv("VERIF_ID")
	if shardCount() > 1 && os.Getenv("VERIF_FAILFILE") == "" && os.Getenv("VERIF_PARTIAL") == "" {
		finish(runShards(shardCount()))
	}
	finish(m.Run())
}

// finish writes what this process has to report and ends it.
func finish(code int) {
	if p := os.Getenv("VERIF_PARTIAL"); p != "" {
		rec.mu.Lock()
		part := partial{Evals: rec.evals, Labels: rec.labels, Parts: rec.parts, Samples: rec.samples,
			Rules: rec.rules, Assume: rec.assume, Violations: rec.violations, Exhaustive: rec.exhaustive}
		for h := range rec.distinct {
			part.Distinct = append(part.Distinct, h)
		}
		b, _ := json.Marshal(part)
		os.WriteFile(p, b, 0o644)
		os.Exit(code)
	}
	if out := os.Getenv("VERIF_EVIDENCE"); out != "" && rec.id != "" {
		writeEvidence(out)
	}
	if st := os.Getenv("VERIF_STATUS"); st != "" && code != 70 {
		s := "ok"
		if len(rec.violations) > 0 {
			s = "violation " + strings.Join(rec.violations, ",")
		} else if code != 0 {
			s = "violation (unattributed)"
		}
		os.WriteFile(st, []byte(s+"\n"), 0o644)
	}
	os.Exit(code)
}

// broken ends the process without an answer: the check itself failed.
func broken(format string, a ...any) {
	fmt.Printf("check failure: "+format+"\n", a...)
	os.Exit(71)
}

// runShards runs this test binary n times in parallel and merges the results.
// It returns 70 when a shard died without reporting.
func runShards(n int) int {
	type result struct {
		out  []byte
		err  error
		part *partial
	}
	res := make([]result, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := fmt.Sprintf("shard%d", i)
			os.MkdirAll(dir, 0o755)
			cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
			pf, _ := filepath.Abs(filepath.Join(dir, "partial.json"))
			os.Remove(pf)
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "VERIF_SHARD="+strconv.Itoa(i), "VERIF_PARTIAL="+pf)
			res[i].out, res[i].err = cmd.CombinedOutput()
			if b, err := os.ReadFile(pf); err == nil {
				p := &partial{}
				if json.Unmarshal(b, p) == nil {
					res[i].part = p
				}
			}
		}(i)
	}
	wg.Wait()
	code := 0
	for i, r := range res {
		if r.err != nil {
			fmt.Printf("==== shard %d: %v\n%s\n", i, r.err, r.out)
			if code == 0 {
				code = 1
			}
		}
		if r.part == nil {
			if len(rec.violations) == 0 {
				code = 70
			}
			continue
		}
		p := r.part
		rec.evals += p.Evals
		for _, h := range p.Distinct {
			rec.distinct[h] = struct{}{}
		}
		for k, v := range p.Labels {
			rec.labels[k] += v
		}
		for k, v := range p.Parts {
			rec.parts[k] += v
		}
		if len(rec.samples) < 16 {
			rec.samples = append(rec.samples, p.Samples...)
		}
		if i == 0 {
			rec.rules, rec.assume = p.Rules, p.Assume
		}
		rec.exhaustive = append(rec.exhaustive, p.Exhaustive...)
		rec.violations = append(rec.violations, p.Violations...)
	}
	if len(rec.violations) > 0 {
		code = 1
	}
	return code
}

func writeEvidence(out string) {
	type kv struct {
		k string
		v int
	}
	var ls []kv
	for k, v := range rec.labels {
		ls = append(ls, kv{k, v})
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].k < ls[j].k })
	labels := map[string]int{}
	for _, l := range ls {
		labels[l.k] = l.v
	}
	if rec.samples == nil {
		rec.samples = []string{}
	}
	cov := map[string]any{
		"evaluations":          rec.evals,
		"distinct_nontrivial":  len(rec.distinct),
		"rule":                 strings.Join(rec.rules, " | "),
		"samples":              rec.samples,
		"cases_by_part":        rec.parts,
		"label_counts":         labels,
		"exhausted_subdomains": append([]string{}, rec.exhaustive...),
	}
	ev := map[string]any{
		"property":    rec.id,
		"tier":        tier(),
		"seed":        seed(),
		"level":       "exploration",
		"coverage":    cov,
		"wall_s":      time.Since(rec.start).Seconds(),
		"violations":  len(rec.violations),
		"assumptions": append([]string{}, rec.assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Dir(out), 0o755)
		err = os.WriteFile(out, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "writing evidence:", err)
	}
}
