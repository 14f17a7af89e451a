package h

import (
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func stack() string { return string(debug.Stack()) }

func newC(ck *Check, tier string, shard, n int) *C {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	b := ck.Budget[0]
	if tier == "thorough" {
		b = ck.Budget[1]
	}
	if b == 0 {
		b = 120
		if tier == "thorough" {
			b = 780
		}
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && v > 0 {
		b = v
	}
	mk := func() map[uint64]struct{} { return map[uint64]struct{}{} }
	return &C{Check: ck, Tier: tier, Thorough: tier == "thorough", Seed: seed, shard: shard, n: n,
		deadline: time.Now().Add(time.Duration(b) * time.Second), seen: map[string]int{},
		states: mk(), trans: mk(), distinct: mk(), outcomes: mk(), cstates: mk(), ctrans: mk()}
}

func (c *C) loadKnown(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	for _, k := range f.Findings {
		if k.Property != c.Check.ID {
			continue
		}
		k.re, err = regexp.Compile("^(?s:" + k.Match + ")$")
		if err != nil {
			return err
		}
		c.known = append(c.known, k)
	}
	return nil
}

func muteOutput() {
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

// Worker runs one shard and writes its statistics to out.
func Worker(id, tier string, shard, n int, known, out, trace string) int {
	muteOutput()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	ck := Checks[id]
	if ck == nil {
		return 3
	}
	c := newC(ck, tier, shard, n)
	if err := c.loadKnown(known); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 3
	}
	if trace != "" {
		c.trace, _ = os.Create(trace)
	}
	ck.Run(c)
	c.S.States, c.S.Trans = sorted(c.states), sorted(c.trans)
	c.S.Distinct, c.S.Outcomes = sorted(c.distinct), sorted(c.outcomes)
	c.S.CtlStates, c.S.CtlTrans = sorted(c.cstates), sorted(c.ctrans)
	f, err := os.Create(out)
	if err != nil {
		return 3
	}
	if err := gob.NewEncoder(f).Encode(&c.S); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	f.Close()
	return 0
}

// Main runs a check: workers, merge, evidence, verdict.
func Main(id, tier, dir string) int {
	ck := Checks[id]
	if ck == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	start := time.Now()
	n := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		n = v
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	exe, _ := os.Executable()
	known := filepath.Join(dir, "known_findings.json")
	probe := newC(ck, tier, 0, 1)
	limit := 2*time.Until(probe.deadline) + 120*time.Second
	stats := make([]Stats, n)
	var crashed []Violation
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad := ""
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("out%d", i))
			run := func(trace string) (string, bool) {
				cmd := exec.Command(exe, "worker", id, tier, strconv.Itoa(i), strconv.Itoa(n), known, out, trace)
				cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=200")
				var eb strings.Builder
				cmd.Stderr = &limitedWriter{b: &eb, max: 200000}
				if err := cmd.Start(); err != nil {
					return err.Error(), false
				}
				t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
				err := cmd.Wait()
				killed := !t.Stop()
				if err != nil {
					return fmt.Sprintf("%v %s", err, trunc(eb.String(), 4000)), killed
				}
				return "", false
			}
			msg, killed := run("")
			if msg != "" {
				if strings.Contains(msg, "signal: killed") && !killed {
					mu.Lock()
					bad = "worker ended by the system: " + msg
					mu.Unlock()
					return
				}
				// a fatal error or hang of the process: find the case
				tr := filepath.Join(tmp, fmt.Sprintf("trace%d", i))
				msg2, _ := run(tr)
				if msg2 != "" {
					name, _ := os.ReadFile(tr)
					mu.Lock()
					if strings.Contains(msg2, "fatal error") || strings.Contains(msg2, "goroutine stack exceeds") || killed {
						kind := "crash"
						if killed {
							kind = "hang"
						}
						crashed = append(crashed, Violation{Property: id, Case: string(name), Key: kind, Kind: kind, Msg: trunc(msg2, 2000), Tier: tier})
					} else {
						bad = msg2
					}
					mu.Unlock()
					return
				}
			}
			f, err := os.Open(out)
			if err == nil {
				err = gob.NewDecoder(f).Decode(&stats[i])
				f.Close()
			}
			if err != nil {
				mu.Lock()
				bad = err.Error()
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	m := merge(stats)
	m.Violations = append(m.Violations, crashed...)
	sort.SliceStable(m.Violations, func(i, j int) bool {
		a, b := m.Violations[i], m.Violations[j]
		if a.Cost != b.Cost {
			return a.Cost < b.Cost
		}
		return len(a.Case) < len(b.Case)
	})
	writeEvidence(ck, tier, dir, m, time.Since(start))
	fmt.Printf("%s %s: cases=%d executions=%d evaluations=%d states=%d transitions=%d steps=%d byDev=%v exhaustive=%v unstable=%d %.1fs\n",
		id, tier, m.Cases, m.Execs, m.Evals, m.nstates(), m.ntrans(), m.Steps, m.ByDev, m.exhaustive(), m.Unstable, time.Since(start).Seconds())
	for _, s := range m.DoneNotes {
		fmt.Println("  note:", s)
	}
	for _, k := range sortedKeys(m.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", id, m.KnownWhat[k], m.Known[k])
	}
	if len(m.Violations) > 0 {
		os.MkdirAll(filepath.Join(dir, "replays"), 0o755)
		shown := map[string]bool{}
		k := 0
		for _, v := range m.Violations {
			if shown[v.Key+v.Kind] && k >= 3 {
				continue
			}
			shown[v.Key+v.Kind] = true
			k++
			if k > 8 {
				break
			}
			p := filepath.Join(dir, "replays", fmt.Sprintf("%s-%d.json", id, k))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
			fmt.Printf("  case: %s\n  key: %s (%s, %d deviations)\n  %s\n", trunc(v.Case, 600), v.Key, v.Kind, v.Cost, trunc(strings.ReplaceAll(v.Msg, "\n", "\n  "), 1200))
		}
		return 1
	}
	if bad != "" {
		fmt.Println("ERROR:", bad)
		return 2
	}
	return 0
}

type limitedWriter struct {
	b   *strings.Builder
	max int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func sortedKeys(m map[string]int64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type merged struct {
	Stats
	st, tr, di, ou, cs, ct int
}

func (m *merged) nstates() int     { return m.st + m.cs }
func (m *merged) ntrans() int      { return m.tr + m.ct }
func (m *merged) exhaustive() bool { return !m.Truncated && m.Capped == 0 && m.Unstable == 0 }

func merge(ss []Stats) *merged {
	m := &merged{}
	m.Known, m.KnownWhat, m.Counters = map[string]int64{}, map[string]string{}, map[string]int64{}
	sets := [6]map[uint64]struct{}{}
	for i := range sets {
		sets[i] = map[uint64]struct{}{}
	}
	for i := range ss {
		s := &ss[i]
		m.Cases += s.Cases
		m.Execs += s.Execs
		m.Evals += s.Evals
		m.Steps += s.Steps
		m.Decisions += s.Decisions
		m.Unstable += s.Unstable
		m.Capped += s.Capped
		m.Truncated = m.Truncated || s.Truncated
		if s.MaxThreads > m.MaxThreads {
			m.MaxThreads = s.MaxThreads
		}
		for j := range s.ByDev {
			m.ByDev[j] += s.ByDev[j]
		}
		for j, l := range [][]uint64{s.States, s.Trans, s.Distinct, s.Outcomes, s.CtlStates, s.CtlTrans} {
			for _, v := range l {
				sets[j][v] = struct{}{}
			}
		}
		m.Violations = append(m.Violations, s.Violations...)
		if len(m.Samples) < 8 {
			m.Samples = append(m.Samples, s.Samples...)
		}
		for k, v := range s.Known {
			m.Known[k] += v
			m.KnownWhat[k] = s.KnownWhat[k]
		}
		for k, v := range s.Counters {
			m.Counters[k] += v
		}
		if len(m.DoneNotes) < 8 {
			m.DoneNotes = append(m.DoneNotes, s.DoneNotes...)
		}
	}
	m.st, m.tr, m.di, m.ou, m.cs, m.ct = len(sets[0]), len(sets[1]), len(sets[2]), len(sets[3]), len(sets[4]), len(sets[5])
	if len(m.Samples) > 8 {
		m.Samples = m.Samples[:8]
	}
	return m
}

func writeEvidence(ck *Check, tier, dir string, m *merged, wall time.Duration) {
	cov := map[string]interface{}{"samples": m.Samples, "exhaustive": m.exhaustive(), "cases": m.Cases}
	if m.Samples == nil {
		cov["samples"] = []string{}
	}
	cov["rule"] = ck.Rule
	if ck.Level == "model_checking" {
		cov["states"] = m.nstates()
		cov["transitions"] = m.ntrans()
		cov["traces_validated_against_impl"] = m.Execs
		if m.st > 0 && m.cs > 0 {
			cov["reference_states"] = m.st
			cov["control_states"] = m.cs
		}
		cov["schedule_decisions"] = m.Decisions
		cov["executions_by_deviations"] = m.ByDev
		cov["distinct_outcomes"] = m.ou
		cov["scheduling_points_executed"] = m.Steps
		cov["max_threads"] = m.MaxThreads
		if m.Evals > 0 {
			cov["evaluations"] = m.Evals
			cov["distinct_nontrivial"] = m.di
		}
	} else {
		cov["evaluations"] = m.Evals
		cov["distinct_nontrivial"] = m.di
		cov["executions"] = m.Execs
	}
	for k, v := range m.Counters {
		cov[k] = v
	}
	if m.Truncated {
		cov["note"] = "stopped at the internal deadline; enumeration order is by increasing bound"
	}
	if m.Capped > 0 {
		cov["capped_cases"] = m.Capped
	}
	if m.Unstable > 0 {
		cov["unstable"] = m.Unstable
	}
	if len(m.Known) > 0 {
		cov["known_findings"] = m.Known
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": append([]string{"the instrumented copy behaves like the source; atomicity between scheduling points (channel, lock, atomic, time, network operations) except in fine-grained explorations, where every statement is a point", "deviation bound as reported"}, ck.Assume...),
		"wall_s":      wall.Seconds(), "violations": len(m.Violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(dir, "evidence", ck.ID+".json"), b, 0o644)
}

// Replay re-executes a recorded violation.
func Replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	ck := Checks[v.Property]
	if ck == nil {
		return 2
	}
	out := os.Stdout
	muteOutput()
	c := newC(ck, v.Tier, 0, 1)
	c.deadline = time.Now().Add(time.Hour)
	c.only = v.Case
	if i := strings.Index(v.Case, " :: "); i >= 0 {
		c.only = v.Case[:i]
	}
	c.onlyPfx = v.Prefix
	c.replayOut = func(s string) { fmt.Fprintln(out, s) }
	ck.Run(c)
	for _, w := range c.S.Violations {
		fmt.Fprintf(out, "VIOLATION %s: %s %s\n", w.Key, w.Case, w.Msg)
	}
	if c.Replayed == nil {
		fmt.Fprintln(out, "case not found")
		return 2
	}
	if c.Replayed.Fail != nil || len(c.S.Violations) > 0 {
		return 1
	}
	return 0
}

// List prints the registered checks.
func List() []string {
	var out []string
	for k := range Checks {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
