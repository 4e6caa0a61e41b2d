package main

// The parent process: hands seeds to worker processes, collects what they
// covered, confirms and minimises violations, and writes the evidence.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type job struct {
	Kind    string `json:"kind"` // seed | trace
	Profile string `json:"profile,omitempty"`
	Seed    uint64 `json:"seed,omitempty"`
	File    string `json:"file"`
}

// ---- worker side

func worker() {
	out := os.NewFile(3, "results")
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var j job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		var r *result
		if j.Kind == "seed" {
			r = runSeed(j.Profile, j.Seed, j.File, false)
		} else {
			t, err := readTrace(j.File)
			if err != nil {
				panic(err)
			}
			r = runTrace(t, false)
		}
		must(out.Write(append(must(json.Marshal(r)), '\n')))
	}
}

// ---- parent side

type workerProc struct {
	exe, dir string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inClose  func() error
	res      *bufio.Reader
	resFile  *os.File
	errBuf   *tailBuf
	jobs     int
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16384 { // the beginning of a fatal error says what it is
		t.b = append(t.b[:8192:8192], t.b[len(t.b)-8192:]...)
	}
	return len(p), nil
}

func (w *workerProc) start() error {
	_ = os.RemoveAll(w.dir)
	if err := os.MkdirAll(w.dir, 0o755); err != nil {
		return err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return err
	}
	w.cmd = exec.Command(w.exe, "worker", w.dir)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400", "GOMEMLIMIT=1500MiB", "GOTRACEBACK=single", "TMPDIR="+w.dir)
	w.cmd.ExtraFiles = []*os.File{pw}
	w.errBuf = &tailBuf{}
	w.cmd.Stderr = w.errBuf
	stdin, err := w.cmd.StdinPipe()
	if err != nil {
		return err
	}
	if err := w.cmd.Start(); err != nil {
		return err
	}
	pw.Close()
	w.in, w.inClose = bufio.NewWriter(stdin), stdin.Close
	w.res, w.resFile = bufio.NewReaderSize(pr, 1<<20), pr
	w.jobs = 0
	return nil
}

func (w *workerProc) stop() {
	if w.cmd == nil {
		return
	}
	_ = w.inClose()
	_ = w.cmd.Process.Kill()
	_ = w.cmd.Wait()
	w.resFile.Close()
	w.cmd = nil
	_ = os.RemoveAll(w.dir)
}

const maxJobs = 12 // runs of one process

// do performs a job, in a fresh process from time to time. A run that makes the
// process end or hang gives a result with Died set.
func (w *workerProc) do(j job, limit time.Duration) *result {
	if w.cmd == nil || w.jobs >= maxJobs {
		w.stop()
		if err := w.start(); err != nil {
			return &result{Internal: "cannot start a worker: " + err.Error()}
		}
	}
	w.jobs++
	_, _ = w.in.Write(append(must(json.Marshal(j)), '\n'))
	_ = w.in.Flush()
	type reply struct {
		r   *result
		err error
	}
	ch := make(chan reply, 1)
	go func() {
		line, err := w.res.ReadBytes('\n')
		if err != nil {
			ch <- reply{nil, err}
			return
		}
		r := &result{}
		err = json.Unmarshal(line, r)
		ch <- reply{r, err}
	}()
	died := func(why string) *result {
		_ = w.cmd.Process.Kill()
		_ = w.cmd.Wait()
		msg := why + ": " + clip(string(w.errBuf.b), 1500)
		w.resFile.Close()
		w.cmd = nil
		return &result{Died: msg}
	}
	select {
	case x := <-ch:
		if x.err != nil {
			return died("the process ended")
		}
		return x.r
	case <-time.After(limit):
		return died("no progress")
	}
}

type finding struct {
	prop, sig, text string
}

// loadFindings reads the known findings: lines
//
//	finding: property=<id> sig=<signature in quotes> <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadFindings(path string) (out []finding) {
	bz, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(bz), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "finding: property=")
		if !ok {
			continue
		}
		id, rest, ok := strings.Cut(rest, " sig=")
		if !ok {
			continue
		}
		sig, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		out = append(out, finding{id, must(strconv.Unquote(sig)), strings.TrimSpace(rest[len(sig):])})
	}
	return
}

func (f finding) matches(v *violation) bool { return strings.Contains(v.Msg, f.sig) }

type pool struct {
	exe, dir string
	ws       []*workerProc
}

func newPool(dir string, n int) *pool {
	exe := must(os.Executable())
	p := &pool{exe: exe, dir: dir}
	for i := 0; i < n; i++ {
		p.ws = append(p.ws, &workerProc{exe: exe, dir: filepath.Join(dir, fmt.Sprintf("w%d", i))})
	}
	return p
}

func (p *pool) stop() {
	for _, w := range p.ws {
		w.stop()
	}
}

const runLimit = 240 * time.Second

// judge turns the death of a worker process into a violation when it repeats.
func (p *pool) judge(w *workerProc, r *result, file string) *result {
	if r.Died == "" {
		return r
	}
	r2 := w.do(job{Kind: "trace", File: file}, runLimit)
	if r2.Died == "" {
		if r2.Violation == nil {
			r2.Internal += "a worker died once: " + r.Died
		}
		return r2
	}
	what := "process dies"
	if strings.HasPrefix(r2.Died, "no progress") {
		what = "process hangs"
	}
	n := 0
	if t, err := readTrace(file); err == nil {
		n = len(t.steps)
	}
	r2.Violation = &violation{Props: []string{"C03"}, Sig: what, Msg: what + ": " + r2.Died, Step: n - 1}
	r2.Died, r2.Steps = "", n
	return r2
}

// same tells whether a run shows the violation looked for.
func same(r *result, prop, sig string) bool {
	return r.Violation != nil && r.Violation.has(prop) && r.Violation.Sig == sig
}

func check(id, tier, verif string) int {
	t0 := realNow() // time.Now is simulated
	initWorld()
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	budget := 50 * time.Second
	if tier == "thorough" {
		budget = 760 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(v) * time.Second
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	dir := must(os.MkdirTemp("", "vsim-"))
	defer os.RemoveAll(dir)
	p := newPool(dir, n)
	defer p.stop()

	c := &campaign{id: id, tier: tier, seed: seed, pool: p, dir: dir, verif: verif, known: loadFindings(filepath.Join(verif, "known_findings.txt")),
		faults: map[string]int{}, counts: map[string]int{}, states: map[uint64]bool{}, hashes: map[uint64]bool{}, foreign: map[string]int{}, knownHit: map[int]int{}}
	c.search(t0 + budget)
	for i, f := range c.known {
		if f.prop == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d of %d runs)\n", id, f.text, c.knownHit[i], c.runs)
		}
	}
	code, violations := 0, 0
	if c.found != nil {
		limit := 75 * time.Second
		if tier == "thorough" {
			limit = 120 * time.Second
		}
		path := c.report(realNow() + limit)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code, violations = 1, 1
	}
	c.evidence((realNow() - t0).Seconds(), violations)
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %d steps, %.1f h of simulated time, %d states, %.0f s\n", id, tier, c.runs, len(c.hashes), c.steps, float64(c.simMs)/3.6e6, len(c.states), (realNow() - t0).Seconds())
	for k, v := range c.foreign {
		fmt.Printf("note: %d run(s) ended by a violation of other properties: %s\n", v, k)
	}
	for _, k := range c.internal {
		fmt.Println("note: a run ended for an internal reason:", k)
	}
	if code == 0 && c.good == 0 {
		fmt.Println("no run came to an end")
		return 2
	}
	return code
}

type campaign struct {
	id, tier, verif, dir string
	seed                 int64
	pool                 *pool
	known                []finding

	mu       sync.Mutex
	next     int
	runs     int
	good     int
	steps    int
	simMs    int64
	wallMs   int64
	faults   map[string]int
	counts   map[string]int
	states   map[uint64]bool
	hashes   map[uint64]bool // of the non-trivial runs
	foreign  map[string]int
	internal []string
	knownHit map[int]int
	samples  []any
	checked  int // runs performed twice
	differed int
	found    *trace
	sigSeen  string
}

func (c *campaign) runSeedOf(i int) uint64 {
	return mix64(uint64(c.seed)*0x9e3779b97f4a7c15^strHash(c.id)+uint64(i)*0xbf58476d1ce4e5b9) >> 1
}

func (c *campaign) search(deadline time.Duration) {
	var wg sync.WaitGroup
	for wi, w := range c.pool.ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			file := filepath.Join(c.dir, fmt.Sprintf("t%d", wi))
			for {
				c.mu.Lock()
				stop := c.found != nil || realNow() > deadline
				i := c.next
				c.next++
				c.mu.Unlock()
				if stop {
					return
				}
				sd := c.runSeedOf(i)
				r := c.pool.judge(w, w.do(job{Kind: "seed", Profile: c.id, Seed: sd, File: file}, runLimit), file)
				if r.Violation != nil && r.Epoch > 0 && !r.Violation.has("X01") && c.id == "X01" {
					c.blameExport(w, r, file)
				}
				twice := ""
				if i%25 == 3 && r.Internal == "" { // the recorded trace repeats the run exactly
					r2 := w.do(job{Kind: "trace", File: file}, runLimit)
					twice = "same"
					if r2.Hash != r.Hash || r2.Steps != r.Steps {
						twice = fmt.Sprintf("seed %d: %x/%d, repeated %x/%d", sd, r.Hash, r.Steps, r2.Hash, r2.Steps)
					}
				}
				c.take(i, sd, r, file, twice)
			}
		}()
	}
	wg.Wait()
}

// blameExport decides whether a failure after a restart from an export is due
// to the export: it is when the same history without exports does not fail.
func (c *campaign) blameExport(w *workerProc, r *result, file string) {
	t, err := readTrace(file)
	if err != nil {
		return
	}
	var st []*Step
	for _, s := range t.steps {
		if s.Kind != "export" {
			st = append(st, s)
		}
	}
	t.steps = st
	f := file + ".noexport"
	if t.write(f) != nil {
		return
	}
	r2 := w.do(job{Kind: "trace", File: f}, runLimit)
	if r2.Violation == nil && r2.Internal == "" && r2.Died == "" {
		r.Violation.Props = append(r.Violation.Props, "X01")
		r.Violation.Sig = "after export: " + r.Violation.Sig
	}
}

func (c *campaign) take(i int, sd uint64, r *result, file, twice string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.runs++
	c.steps += r.Steps
	c.simMs += r.SimMs
	c.wallMs += r.WallMs
	for k, v := range r.Faults {
		c.faults[k] += v
	}
	for k, v := range r.Counts {
		c.counts[k] += v
	}
	for _, k := range r.States {
		c.states[k] = true
	}
	if twice != "" {
		c.checked++
		if twice != "same" {
			c.differed++
			c.internal = append(c.internal, "not deterministic: "+twice)
		}
	}
	switch {
	case r.Internal != "":
		c.internal = append(c.internal, fmt.Sprintf("seed %d: %s", sd, clip(r.Internal, 700)))
		return
	case r.Violation != nil:
		v := r.Violation
		if !v.has(c.id) {
			c.foreign[clip(named(v.Error()), 300)]++
			c.good++
			return
		}
		for k, f := range c.known {
			if f.prop == c.id && f.matches(v) {
				c.knownHit[k]++
				c.good++
				return
			}
		}
		if c.found == nil {
			t, err := readTrace(file)
			if err == nil {
				if len(t.steps) > v.Step+1 {
					t.steps = t.steps[:v.Step+1]
				}
				t.Property, t.Violation = c.id, v
				c.found = t
			}
		}
	}
	c.good++
	if sum, what := relevance(c.id, r); sum > 0 {
		if !c.hashes[r.Hash] && len(c.samples) < 4 {
			c.samples = append(c.samples, map[string]any{"seed": sd, "run": i, "steps": r.Steps, "nodes": r.Nodes, "simulated_hours": float64(r.SimMs) / 3.6e6,
				"digest": fmt.Sprintf("%016x", r.Hash), "faults": r.Faults, "relevant_events": what})
		}
		c.hashes[r.Hash] = true
	}
}

// report confirms and minimises the violation found and stores its replay file.
func (c *campaign) report(deadline time.Duration) string {
	t := c.found
	v := t.Violation
	_ = os.MkdirAll(filepath.Join(c.verif, "replays"), 0o755)
	path := filepath.Join(c.verif, "replays", fmt.Sprintf("%s-%d.trace", c.id, t.Config.Seed))
	must0(t.write(path))
	fmt.Printf("violation in the run of seed %d, step %d: %s\n", t.Config.Seed, v.Step, clip(named(v.Error()), 1500))
	m := &minimiser{c: c, best: t, deadline: deadline}
	if !m.confirm() {
		fmt.Println("warning: the recorded run did not show the violation again")
		return path
	}
	m.run()
	m.best.Property = c.id
	must0(m.best.write(path))
	tx := 0
	for _, s := range m.best.steps {
		tx += len(s.Txs)
	}
	fmt.Printf("minimised to %d steps with %d transactions (%d replays): %s\n", len(m.best.steps), tx, m.tried, clip(named(m.best.Violation.Error()), 1500))
	for i, s := range m.best.steps {
		if len(m.best.steps)-i > 25 {
			continue
		}
		fmt.Printf("  %d: %s +%dms faults %s\n", i, s.Kind, s.DT, must(json.Marshal(s.Faults)))
		for k := range s.Txs {
			fmt.Println("      ", clip(s.Txs[k].brief(), 400))
		}
	}
	return path
}

func replay(file string, verb bool) int {
	t, err := readTrace(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	dir := must(os.MkdirTemp("", "vsim-"))
	defer os.RemoveAll(dir)
	var r *result
	if verb {
		scratchRoot = dir
		initWorld()
		r = runTrace(t, true)
	} else {
		p := newPool(dir, 1)
		defer p.stop()
		w := p.ws[0]
		r = p.judge(w, w.do(job{Kind: "trace", File: file}, runLimit), file)
	}
	fmt.Printf("%d steps, digest %016x\n", r.Steps, r.Hash)
	if r.Internal != "" {
		fmt.Println("internal:", r.Internal)
		return 2
	}
	if r.Violation == nil {
		fmt.Println("no violation")
		return 0
	}
	id := t.Property
	if id == "" {
		id = r.Violation.Props[0]
	}
	fmt.Println(named(r.Violation.Error()))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
	return 1
}

// ---- minimisation

type minimiser struct {
	c        *campaign
	best     *trace
	deadline time.Duration
	tried    int
}

func (m *minimiser) out() bool { return realNow() > m.deadline }

// try runs candidates in parallel; it adopts the first (in order) that still
// shows the violation.
func (m *minimiser) try(cands []*trace) bool {
	ws := m.c.pool.ws
	for len(cands) > 0 && !m.out() {
		k := min(len(ws), len(cands))
		oks := make([]*violation, k)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := filepath.Join(m.c.dir, fmt.Sprintf("m%d", i))
				if cands[i].write(f) != nil {
					return
				}
				lim := (m.deadline - realNow()) + 5*time.Second
				r := ws[i].do(job{Kind: "trace", File: f}, lim)
				if r.Died != "" && strings.HasPrefix(m.c.found.Violation.Sig, "process") && (m.deadline-realNow()) > 0 {
					r.Violation = &violation{Props: []string{"C03"}, Sig: m.c.found.Violation.Sig, Msg: r.Died, Step: len(cands[i].steps) - 1}
				}
				if r.Violation != nil && m.match(r.Violation) {
					oks[i] = r.Violation
				}
			}()
		}
		wg.Wait()
		m.tried += k
		for i := 0; i < k; i++ {
			if v := oks[i]; v != nil {
				t := cands[i]
				v.Props, v.Sig = m.c.found.Violation.Props, m.c.found.Violation.Sig
				t.Violation = v
				if len(t.steps) > v.Step+1 {
					t.steps = t.steps[:v.Step+1]
				}
				m.best = t
				return true
			}
		}
		cands = cands[k:]
	}
	return false
}

func (m *minimiser) match(v *violation) bool {
	want := m.c.found.Violation
	sig := strings.TrimPrefix(want.Sig, "after export: ")
	return v.Sig == sig && (v.has(m.c.id) || sig != want.Sig)
}

func (m *minimiser) confirm() bool {
	save := m.deadline
	m.deadline = realNow() + 120*time.Second
	defer func() { m.deadline = save }()
	return m.try([]*trace{m.clone()})
}

func (m *minimiser) clone() *trace {
	t := &trace{header: m.best.header}
	for _, s := range m.best.steps {
		c := *s
		c.Txs = append([]TxSpec{}, s.Txs...)
		c.Faults = append([]Fault{}, s.Faults...)
		c.Feeds = append([]Feed{}, s.Feeds...)
		c.Absent = append([]int{}, s.Absent...)
		t.steps = append(t.steps, &c)
	}
	return t
}

// chunks reduces n items by removing ranges of them, halving the size.
func (m *minimiser) chunks(count func() int, remove func(t *trace, from, to int)) {
	for size := (count() + 1) / 2; size >= 1 && !m.out(); {
		n := count()
		var cands []*trace
		for from := 0; from < n; from += size {
			t := m.clone()
			remove(t, from, min(from+size, n))
			cands = append(cands, t)
		}
		if !m.try(cands) {
			if size == 1 {
				return
			}
			size = (size + 1) / 2
		} else if size > count() {
			size = max(1, count()/2)
		}
		if count() == 0 {
			return
		}
	}
}

func (m *minimiser) run() {
	// everything of one kind at once
	for _, f := range []func(s *Step){
		func(s *Step) { s.Faults = nil },
		func(s *Step) { s.Load = 0 },
		func(s *Step) { s.Absent = nil },
		func(s *Step) { s.Prop = 0 },
	} {
		t := m.clone()
		for _, s := range t.steps {
			f(s)
		}
		m.try([]*trace{t})
	}
	txs := func() (n int) {
		for _, s := range m.best.steps {
			n += len(s.Txs)
		}
		return
	}
	m.chunks(txs, func(t *trace, from, to int) {
		i := 0
		for _, s := range t.steps {
			var keep []TxSpec
			for _, x := range s.Txs {
				if i < from || i >= to {
					keep = append(keep, x)
				}
				i++
			}
			s.Txs = keep
		}
	})
	m.chunks(func() int { return len(m.best.steps) - 1 }, func(t *trace, from, to int) { // not the last one
		var dt int64
		for _, s := range t.steps[from:to] {
			dt += s.DT
		}
		t.steps[to].DT += dt
		t.steps = append(t.steps[:from:from], t.steps[to:]...)
	})
	m.chunks(func() (n int) {
		for _, s := range m.best.steps {
			n += len(s.Faults)
		}
		return
	}, func(t *trace, from, to int) {
		i := 0
		for _, s := range t.steps {
			var keep []Fault
			for _, x := range s.Faults {
				if i < from || i >= to {
					keep = append(keep, x)
				}
				i++
			}
			s.Faults = keep
		}
	})
	m.chunks(txs, func(t *trace, from, to int) { // what only mattered together with removed steps
		i := 0
		for _, s := range t.steps {
			var keep []TxSpec
			for _, x := range s.Txs {
				if i < from || i >= to {
					keep = append(keep, x)
				}
				i++
			}
			s.Txs = keep
		}
	})
	if len(m.best.Config.Nodes) > 1 {
		t := m.clone()
		cfg := *t.Config
		cfg.Nodes = cfg.Nodes[:1]
		t.Config = &cfg
		m.try([]*trace{t})
	}
}

// ---- evidence

func (c *campaign) evidence(wall float64, violations int) {
	rel := map[string]int{}
	_, rule := relevant(c.id)
	for k, v := range c.counts {
		if isRelevant(c.id, k) {
			rel[k] = v
		}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(c.runs) / wall * 3600
	}
	samples := c.samples
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"evaluations": c.runs, "distinct_nontrivial": len(c.hashes),
			"rule":    "One case is one simulated run: the configuration, every transaction, block time, price report and fault drawn from the run's seed; the seeds derive from VERIF_SEED. Two runs are the same if the digests of all their decided blocks and results agree. A run is non-trivial if it " + rule + ".",
			"samples": samples, "seeds_per_hour": perHour, "steps": c.steps, "simulated_hours": float64(c.simMs) / 3.6e6,
			"faults_injected": c.faults, "relevant_events": rel, "all_events": c.counts,
			"distinct_states": len(c.states), "states_measure": "digests of the reference model's state after each block that was compared in full with the application",
			"repeated_runs": c.checked, "repeated_runs_that_differed": c.differed,
			"runs_ended_by_other_properties": c.foreign, "runs_ended_internally": c.internal,
			"real_components": "the whole milkyway application as the daemon builds it (app.NewMilkyWayApp: all modules, ante and post handlers, vote extension and proposal handlers, oracle aggregation, IBC middleware stack, wasm VM, iavl stores) on every node",
			"stubs":           "CometBFT (the simulator plays consensus, the mempool and block replay), the disk below the database interface (journal with lost unsynced writes, errors, crashes), the price sidecar (connect's oracle client), the IBC relayer (real proofs over the localhost connection), wall clock, Go runtime randomness",
		},
		"assumptions": []string{
			"consensus itself is correct: all honest nodes receive the same decided blocks in order and at most one third of the voting power is byzantine",
			"the reference model in /verif/sim (mstate, mexec, mrewards, mblock) states the intended behaviour; rounding of rewards is compared within the interval that the fixed-point arithmetic allows",
			"dependencies (cosmos-sdk, iavl, ibc-go, connect, feemarket, wasmvm) run as they are and are not the object of the check",
		},
	}
	_ = os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	bz := must(json.MarshalIndent(ev, "", " "))
	_ = os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(bytes.TrimSpace(bz), '\n'), 0o644)
}
