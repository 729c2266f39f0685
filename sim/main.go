package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/wdamron/amt/zzamtsim"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: amtsim check|worker|exec|replay|gen|selftest ...")
		os.Exit(2)
	}
	loadSites()
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "worker":
		cmdWorker(args)
	case "exec":
		cmdExec(args)
	case "check":
		cmdCheck(args)
	case "replay":
		cmdReplay(args)
	case "gen":
		cmdGen(args)
	case "selftest":
		cmdSelftest(args)
	default:
		fmt.Fprintln(os.Stderr, "amtsim: unknown command", cmd)
		os.Exit(2)
	}
}

func prepare() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	probeFormats()
}

// execute runs one plan in this process. It returns only if nothing is wrong.
func execute(p *Plan, st *Stats, verbose bool) (*Outcome, error) {
	w, err := setup(p, st, verbose)
	if err != nil {
		return nil, err
	}
	n0 := zzamtsim.Steps()
	r0 := raceErrors()
	w.run()
	if p.Prop == "C27" {
		w.dropped()
	}
	if p.Prop == "C29" && formatKnown(w.conts[0].kind) {
		if err := overheads(p, st, w); err != nil {
			return nil, err
		}
	}
	if p.Prop == "C22" {
		if err := footprints(p, st, w); err != nil {
			return nil, err
		}
	}
	if raceErrors() != r0 {
		st.Races++
		onViolation(w, "data-race", "the race detector reported a data race between simulated callers", -1)
	}
	st.Runs++
	st.Steps += zzamtsim.Steps() - n0
	if w.nswitch > 0 || len(p.Phases) > 0 && len(p.Phases[0].Sched) > 0 {
		st.Inter[w.ilog]++
	}
	for _, c := range p.Conts {
		st.Kinds[c.Kind]++
	}
	return &Outcome{OK: true, Log: w.logHash(), Trace: trace}, nil
}

// footprints judges the memory a container keeps after its history.
func footprints(p *Plan, st *Stats, w *World) error {
	c := w.conts[0]
	used, fresh := w.footprint(c)
	st.Compared++
	for try := 0; used > fresh; try++ { // measure again: the whole history, in a new world
		if try == 3 {
			w.violate(c, "footprint", "keeps %d bytes alive; a new container with the same keys and values keeps %d", used, fresh)
		}
		w2, err := setup(p, st, false)
		if err != nil {
			return err
		}
		w2.run()
		used, fresh = w2.footprint(w2.conts[0])
		w = w2
		c = w.conts[0]
	}
	return nil
}

// overheads judges the memory a container needs besides its keys and values.
func overheads(p *Plan, st *Stats, w *World) error {
	used, plain, extra := w.overhead(w.conts[0])
	st.Compared++
	for try := 0; used > plain+extra; try++ { // measure again: the whole history, in a new world
		c := w.conts[0]
		if try == 3 {
			w.violate(c, "overhead", "keeps %d bytes alive for %d entries whose keys and values take %d bytes; the documented layout needs at most %d bytes more", used, c.n, plain, extra)
		}
		w2, err := setup(p, st, false)
		if err != nil {
			return err
		}
		w2.run()
		used, plain, extra = w2.overhead(w2.conts[0])
		w = w2
	}
	return nil
}

func (w *World) logHash() uint64 {
	l := hash2(w.elog, w.ilog)
	for _, t := range w.thrs {
		l = hash2(l, t.elog)
	}
	return l
}

// fingerprint of the shape of a plan: what makes two runs different cases.
func fingerprint(p *Plan) uint64 {
	h := uint64(1)
	for i := range p.Keys {
		h = hash2(h, uint64(p.Keys[i].Cut)<<16|uint64(p.Keys[i].Base+1))
	}
	for _, c := range p.Conts {
		h = hash2(h, hashStr(c.Kind))
	}
	var f func(ops []Op)
	f = func(ops []Op) {
		for i := range ops {
			h = hash2(h, uint64(ops[i].K)<<32|uint64(ops[i].C)<<16|uint64(ops[i].I))
			f(ops[i].Sub)
		}
	}
	for _, ph := range p.Phases {
		for _, t := range ph.Threads {
			f(t)
			h = hash2(h, 3)
		}
		for _, s := range ph.Sched {
			h = hash2(h, uint64(s.S)<<16|uint64(s.A)<<8|uint64(s.P))
		}
	}
	return h
}

// nontrivial: at least three operations that change a container, on at least two keys.
func nontrivial(p *Plan) bool {
	n := 0
	for _, ph := range p.Phases {
		for _, t := range ph.Threads {
			for i := range t {
				if writes(&t[i]) {
					n++
				}
			}
		}
	}
	return n >= 3 && len(p.Keys) >= 2
}

// ---- worker ----------------------------------------------------------------------

type workerResult struct {
	Stats   *Stats
	Hit     []byte
	Next    int // first index not executed
	Outcome *Outcome
	Logs    map[int]uint64
	Formats map[string]bool
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	count := fs.Int("count", 1, "")
	status := fs.String("status", "", "")
	out := fs.String("out", "", "")
	deadline := fs.Float64("deadline", 1e9, "")
	logs := fs.Bool("logs", false, "")
	race := fs.Bool("race", false, "")
	fs.Parse(args)
	start := time.Now()
	prepare()
	res := &workerResult{Stats: &Stats{}, Logs: map[int]uint64{}, Formats: formatOK}
	res.Stats.init()
	write := func() {
		for _, h := range zzamtsim.Hit {
			res.Hit = append(res.Hit, h)
		}
		b, _ := json.Marshal(res)
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			harnessError("%v", err)
		}
	}
	var sf *os.File
	if *status != "" {
		var err error
		if sf, err = os.Create(*status); err != nil {
			harnessError("%v", err)
		}
	}
	idx := *from
	var plan *Plan
	onViolation = func(w *World, class, msg string, cont int) {
		res.Outcome = &Outcome{Class: class, Msg: msg, Cont: cont, Log: w.logHash(), Index: idx, Plan: plan}
		res.Next = idx
		write()
		os.Exit(10)
	}
	var sb [8]byte
	for ; idx < *count; idx += *stride {
		if idx/(*stride)%16 == 0 {
			if time.Since(start).Seconds() > *deadline {
				break
			}
			if idx/(*stride)%128 == 0 {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 150<<20 || ms.HeapSys > 1<<30 {
					runtime.GC()
				}
			}
		}
		binary.LittleEndian.PutUint64(sb[:], uint64(idx)+1)
		if sf != nil {
			sf.WriteAt(sb[:], 0)
		}
		plan = gen(*prop, *seed, idx, *race)
		o, err := execute(plan, res.Stats, false)
		if err != nil {
			res.Stats.Trivial++
			continue
		}
		if nontrivial(plan) {
			res.Stats.Plans[fingerprint(plan)]++
		}
		if *logs {
			res.Logs[idx] = o.Log
		}
	}
	res.Next = idx
	write()
}

// ---- exec -------------------------------------------------------------------------

func readPlan(f string) (*Plan, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, err
	}
	return &p, nil
}

// cmdExec executes one plan and prints its outcome; exit 0 clean, 10 violation, 11 not a valid plan.
func cmdExec(args []string) {
	fs := flag.NewFlagSet("exec", flag.ExitOnError)
	file := fs.String("plan", "", "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	p, err := readPlan(*file)
	if err != nil {
		harnessError("%v", err)
	}
	prepare()
	st := &Stats{}
	st.init()
	emit := func(o *Outcome) {
		b, _ := json.Marshal(o)
		bw := bufio.NewWriter(os.Stdout)
		bw.WriteString("OUTCOME ")
		bw.Write(b)
		bw.WriteString("\n")
		bw.Flush()
	}
	onViolation = func(w *World, class, msg string, cont int) {
		emit(&Outcome{Class: class, Msg: msg, Cont: cont, Log: w.logHash(), Trace: trace})
		os.Exit(10)
	}
	o, err := execute(p, st, *verbose)
	if err != nil {
		fmt.Fprintln(os.Stderr, "amtsim: invalid plan:", err)
		os.Exit(11)
	}
	emit(o)
}

func cmdGen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "C01", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("i", 0, "")
	race := fs.Bool("race", false, "")
	fs.Parse(args)
	b, _ := json.MarshalIndent(gen(*prop, *seed, *idx, *race), "", " ")
	fmt.Println(string(b))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mustMkdir(d string) {
	if err := os.MkdirAll(d, 0o755); err != nil {
		harnessError("%v", err)
	}
}

func tmpDir() string {
	d, err := os.MkdirTemp("", "amtsim-")
	if err != nil {
		harnessError("%v", err)
	}
	return d
}

var _ = strings.TrimSpace
var _ = filepath.Join
