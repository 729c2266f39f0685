package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// Stats is what was covered.
type Stats struct {
	Runs       int
	Ops        [32]int
	OpSteps    uint64
	Steps      uint64
	MaxOpSteps uint64
	MaxDepth   int
	Rehash     int
	Switches   int
	MidOp      int
	LockWaits  int
	KeyCalls   int
	Compared   int
	Probes     int
	Faults     map[string]int
	Sit        map[uint64]int // distinct situations
	Inter      map[uint64]int // distinct interleavings
	Plans      map[uint64]int // distinct non-trivial plans
	Kinds      map[string]int
	Unattrib   int
	Trivial    int
	Races      int
}

func (s *Stats) init() {
	s.Faults, s.Sit = map[string]int{}, map[uint64]int{}
	s.Inter, s.Plans, s.Kinds = map[uint64]int{}, map[uint64]int{}, map[string]int{}
}

func addMap[K comparable](a, b map[K]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	for i := range o.Ops {
		s.Ops[i] += o.Ops[i]
	}
	s.OpSteps += o.OpSteps
	s.Steps += o.Steps
	s.MaxOpSteps = max(s.MaxOpSteps, o.MaxOpSteps)
	s.MaxDepth = max(s.MaxDepth, o.MaxDepth)
	s.Rehash += o.Rehash
	s.Switches += o.Switches
	s.MidOp += o.MidOp
	s.LockWaits += o.LockWaits
	s.KeyCalls += o.KeyCalls
	s.Compared += o.Compared
	s.Probes += o.Probes
	s.Unattrib += o.Unattrib
	s.Trivial += o.Trivial
	s.Races += o.Races
	addMap(s.Faults, o.Faults)
	addMap(s.Sit, o.Sit)
	addMap(s.Inter, o.Inter)
	addMap(s.Plans, o.Plans)
	addMap(s.Kinds, o.Kinds)
}

type siteT struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var sites []siteT

func loadSites() {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.json"))
	if err == nil {
		json.Unmarshal(b, &sites)
	}
}

func siteName(i int) string {
	if i >= 0 && i < len(sites) {
		s := sites[i]
		return fmt.Sprintf("%s:%d (%s)", s.File, s.Line, s.Func)
	}
	return fmt.Sprint("statement ", i)
}
