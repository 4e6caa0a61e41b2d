package main

// Running one simulation, and the trace files that repeat it.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
)

// header is the first line of a trace file; every other line is a Step.
type header struct {
	Format    int        `json:"format"`
	Property  string     `json:"property,omitempty"`
	Violation *violation `json:"violation,omitempty"`
	Config    *Config    `json:"config"`
}

type trace struct {
	header
	steps []*Step
}

func (t *trace) write(path string) error {
	var b bytes.Buffer
	b.Write(must(json.Marshal(t.header)))
	b.WriteByte('\n')
	for _, s := range t.steps {
		b.Write(must(json.Marshal(s)))
		b.WriteByte('\n')
	}
	return os.WriteFile(path, b.Bytes(), 0o644)
}

func readTrace(path string) (*trace, error) {
	bz, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	t := &trace{}
	sc := bufio.NewScanner(bytes.NewReader(bz))
	sc.Buffer(nil, 64<<20)
	for first := true; sc.Scan(); first = false {
		if len(sc.Bytes()) == 0 {
			continue
		}
		if first {
			if err := json.Unmarshal(sc.Bytes(), &t.header); err != nil {
				return nil, err
			}
			continue
		}
		st := &Step{}
		if err := json.Unmarshal(sc.Bytes(), st); err != nil {
			break // a worker died while writing the line
		}
		t.steps = append(t.steps, st)
	}
	if t.Config == nil {
		return nil, fmt.Errorf("no config in %s", path)
	}
	return t, nil
}

// result of one run.
type result struct {
	Violation *violation     `json:"violation,omitempty"`
	Internal  string         `json:"internal,omitempty"`
	Died      string         `json:"died,omitempty"`
	Hash      uint64         `json:"hash"`
	Steps     int            `json:"steps"`
	Nodes     int            `json:"nodes"`
	SimMs     int64          `json:"sim_ms"`
	WallMs    int64          `json:"wall_ms"`
	Epoch     int            `json:"epoch"`
	Faults    map[string]int `json:"faults"`
	Counts    map[string]int `json:"counts"`
	States    []uint64       `json:"states"`
}

func (s *Sim) result(v *violation, in string) *result {
	r := &result{Violation: v, Internal: in, Hash: s.hash, Steps: s.step, SimMs: s.simMs, Epoch: s.epoch, Faults: s.stats.faults, Counts: s.stats.counts, Nodes: len(s.nw.nodes)}
	for k := range s.states {
		r.States = append(r.States, k)
	}
	return r
}

func (s *Sim) close() {
	for _, n := range s.nw.nodes {
		n.stop()
	}
}

// runSeed generates and performs the run of a seed; the steps are written to
// out as they are decided, so that they survive the death of the process.
func runSeed(profile string, seed uint64, out string, verb bool) *result {
	prof := profileFor(profile, seed)
	cfg := genConfig(seed, profile, prof)
	s := newSim(cfg, "")
	s.verb = verb
	var f *os.File
	if out != "" {
		f = must(os.Create(out))
		defer f.Close()
		must(f.Write(append(must(json.Marshal(header{Format: 1, Config: cfg})), '\n')))
	}
	t0 := realNow()
	v, in := runGuarded(func() {
		s.start()
		s.g = newGenerator(s, prof)
		for i := 0; i < cfg.Steps; i++ {
			st := s.g.next()
			if f != nil {
				must(f.Write(append(must(json.Marshal(st)), '\n')))
			}
			if verb {
				fmt.Printf("step %d %s dt %d faults %s\n", i, st.Kind, st.DT, must(json.Marshal(st.Faults)))
			}
			s.apply(st)
		}
	})
	s.close()
	r := s.result(v, in)
	r.WallMs = int64(realNow()-t0) / 1e6
	return r
}

// runTrace performs recorded steps.
func runTrace(t *trace, verb bool) *result {
	s := newSim(t.Config, "")
	s.verb = verb
	t0 := realNow()
	v, in := runGuarded(func() {
		s.start()
		for i, st := range t.steps {
			if verb {
				fmt.Printf("step %d %s dt %d faults %s\n", i, st.Kind, st.DT, must(json.Marshal(st.Faults)))
			}
			s.apply(st)
		}
	})
	s.close()
	r := s.result(v, in)
	r.WallMs = int64(realNow()-t0) / 1e6
	return r
}
