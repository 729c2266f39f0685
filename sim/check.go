package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// runs per property: quick, thorough (a multiple of quick); race batch.
type batchCfg struct{ quick, race int }

var batches = map[string]batchCfg{
	"C01": {500000, 0}, "C02": {500000, 0}, "C03": {400000, 0}, "C04": {500000, 0}, "C05": {500000, 0},
	"C06": {350000, 0}, "C07": {600000, 0}, "C08": {250000, 0}, "C09": {450000, 0}, "C10": {400000, 0},
	"C11": {250000, 0}, "C12": {400000, 0}, "C13": {120000, 8000}, "C14": {240000, 8000}, "C15": {120000, 8000},
	"C16": {220000, 0}, "C17": {200000, 0}, "C18": {12000, 0}, "C19": {32000, 0},
	"C20": {300000, 0}, "C21": {140000, 0},
	"C22": {20000, 0}, "C23": {300000, 0}, "C24": {250000, 0}, "C25": {60000, 0},
	"C26": {150000, 0}, "C27": {40000, 0}, "C28": {300000, 0}, "C29": {12000, 0},
}

// ownClasses are the kinds of violation that break these properties.
var ownClasses = map[string][]string{
	"C20": {"zero-", "new-"}, "C21": {"helper-"}, "C22": {"footprint"}, "C23": {"seed-"}, "C25": {"key-replaced", "passed-"},
	"C26": {"async-"}, "C27": {"dropped-"}, "C28": {"key-call-"}, "C29": {"overhead"},
}

const thoroughFactor = 50

type checker struct {
	prop, tier    string
	seed          uint64
	bin, raceBin  string
	ev32          string
	tmp           string
	replays       string
	deadline      time.Time
	minimiseUntil time.Time
	workers       int
	stats         *Stats
	raceStats     *Stats
	hit           []byte
	formats       map[string]bool
	unattributed  int
	skipped       int
	recheck       int
	minExecs      int
}

func (k *checker) binFor(race bool) string {
	if race {
		return k.raceBin
	}
	return k.bin
}

func childEnv(tmp string, race bool) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOGC=") || strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GOMEMLIMIT=") || strings.HasPrefix(e, "GOTRACEBACK=") {
			continue
		}
		env = append(env, e)
	}
	gd := "GODEBUG=asyncpreemptoff=1,clobberfree=1"
	env = append(env, gd, "GOTRACEBACK=single")
	if race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, "race"))
	}
	return env
}

type finding struct {
	outcome *Outcome
	plan    *Plan
	race    bool
	crash   bool
}

// batch runs plans [0,count) on worker processes; it returns a violation, if any.
func (k *checker) batch(race bool, count int) (*finding, error) {
	type job struct {
		w    int
		from int
	}
	var mu sync.Mutex
	var found *finding
	var ferr error
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	st := k.stats
	if race {
		st = k.raceStats
	}
	var wg sync.WaitGroup
	for w := 0; w < k.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := w
			crashes := 0
			for from < count {
				mu.Lock()
				stop := found != nil || ferr != nil || time.Now().After(k.deadline)
				mu.Unlock()
				if stop {
					return
				}
				id := fmt.Sprintf("%d-%v", w, race)
				status, out := filepath.Join(k.tmp, "status-"+id), filepath.Join(k.tmp, "out-"+id)
				os.Remove(status)
				os.Remove(out)
				args := []string{"worker", "-prop", k.prop, "-seed", fmt.Sprint(k.seed), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(k.workers),
					"-count", fmt.Sprint(count), "-status", status, "-out", out, "-deadline", fmt.Sprintf("%.1f", time.Until(k.deadline).Seconds())}
				if race {
					args = append(args, "-race")
				}
				code, stderr := k.child(ctx, k.binFor(race), race, args, status, nil)
				if ctx.Err() != nil {
					return
				}
				var res workerResult
				if b, err := os.ReadFile(out); err == nil {
					json.Unmarshal(b, &res)
				}
				mu.Lock()
				if res.Stats != nil {
					st.merge(res.Stats)
					for i, h := range res.Hit {
						if i < len(k.hit) && h != 0 {
							k.hit[i] = 1
						}
					}
					for f, ok := range res.Formats {
						k.formats[f] = ok
					}
				}
				mu.Unlock()
				switch {
				case code == 0:
					return
				case code == 10 && res.Outcome != nil:
					from = res.Outcome.Index + k.workers
					if !k.attributed(res.Outcome.Plan, res.Outcome.Cont, res.Outcome.Class) {
						mu.Lock()
						k.unattributed++
						if k.unattributed > 400 {
							ferr = errUnattributed
							cancel()
						}
						mu.Unlock()
						continue
					}
					mu.Lock()
					if found == nil || res.Outcome.Index < found.outcome.Index {
						found = &finding{res.Outcome, res.Outcome.Plan, race, false}
					}
					mu.Unlock()
					cancel()
					return
				case code == 3:
					mu.Lock()
					ferr = fmt.Errorf("worker: %s", tail(stderr, 20))
					mu.Unlock()
					cancel()
					return
				default: // the process died
					b, err := os.ReadFile(status)
					if err != nil || len(b) != 8 {
						mu.Lock()
						ferr = fmt.Errorf("worker died (exit %d) before its first run: %s", code, tail(stderr, 20))
						mu.Unlock()
						cancel()
						return
					}
					idx := int(binary.LittleEndian.Uint64(b)) - 1
					p := gen(k.prop, k.seed, idx, race)
					o, c2, se := k.exec(p, false)
					if c2 == 0 || c2 == 3 || c2 == 11 {
						crashes++
						if crashes > 2 {
							mu.Lock()
							ferr = fmt.Errorf("worker died (exit %d) in run %d, which executes cleanly alone: %s", code, idx, tail(stderr, 30))
							mu.Unlock()
							cancel()
							return
						}
						from = idx
						continue
					}
					if o == nil {
						o = &Outcome{Class: "crash", Msg: crashMsg(se), Cont: -1}
					}
					o.Index = idx
					from = idx + k.workers
					if !k.attributed(p, o.Cont, o.Class) {
						mu.Lock()
						k.unattributed++
						mu.Unlock()
						continue
					}
					mu.Lock()
					if found == nil || idx < found.outcome.Index {
						found = &finding{o, p, race, true}
					}
					mu.Unlock()
					cancel()
					return
				}
			}
		}(w)
	}
	wg.Wait()
	return found, ferr
}

var errUnattributed = fmt.Errorf("too many runs fail even without the faults, schedules or sharing of this property")

func tail(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// crashMsg keeps the reproducible part of a fatal error.
func crashMsg(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "unexpected fault") {
			return l
		}
	}
	return tail(stderr, 1)
}

// child runs a worker or exec process under a watchdog.
func (k *checker) child(ctx context.Context, bin string, race bool, args []string, status string, stdout *bytes.Buffer) (int, string) {
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = childEnv(k.tmp, race)
	var se limited
	cmd.Stderr = &se
	if stdout != nil {
		cmd.Stdout = stdout
	}
	if err := cmd.Start(); err != nil {
		return 3, err.Error()
	}
	done := make(chan struct{})
	stuck := false
	go func() {
		last, since := "", time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			if status == "" {
				if time.Since(since) > 60*time.Second {
					stuck = true
					cmd.Process.Kill()
					return
				}
				continue
			}
			b, _ := os.ReadFile(status)
			if string(b) != last {
				last, since = string(b), time.Now()
			} else if time.Since(since) > 240*time.Second {
				stuck = true
				cmd.Process.Kill()
				return
			}
		}
	}()
	err := cmd.Wait()
	close(done)
	if stuck {
		return 3, "watchdog: the process made no progress\n" + se.String()
	}
	if err == nil {
		return 0, se.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		c := ee.ExitCode()
		if c < 0 {
			c = 99
		}
		return c, se.String()
	}
	return 3, err.Error()
}

type limited struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 64<<10 {
		l.b.Write(p[:min(len(p), 64<<10-l.b.Len())])
	}
	return len(p), nil
}
func (l *limited) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

var execSeq int
var execMu sync.Mutex

// exec runs one plan in a process of its own.
func (k *checker) exec(p *Plan, verbose bool) (*Outcome, int, string) {
	execMu.Lock()
	execSeq++
	f := filepath.Join(k.tmp, fmt.Sprintf("plan-%d.json", execSeq))
	execMu.Unlock()
	b, _ := json.Marshal(p)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, 3, err.Error()
	}
	defer os.Remove(f)
	args := []string{"exec", "-plan", f}
	if verbose {
		args = append(args, "-v")
	}
	var so bytes.Buffer
	code, se := k.child(context.Background(), k.binFor(p.Race), p.Race, args, "", &so)
	var o *Outcome
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "OUTCOME ") {
			o = &Outcome{}
			if json.Unmarshal([]byte(l[8:]), o) != nil {
				o = nil
			}
		}
	}
	if o == nil && code != 3 && code != 11 {
		o = &Outcome{Class: "crash", Msg: crashMsg(se), Cont: -1}
	}
	return o, code, se
}

// attributed: the plan without the fault, schedule or sharing of the property runs clean.
func (k *checker) attributed(p *Plan, cont int, class string) bool {
	switch class {
	case "keymem-written", "kept-key-changed", "reader-changed", "lookup-key-retained": // break the property in any case
		return true
	}
	if own := ownClasses[p.Prop]; own != nil { // what else goes wrong breaks other properties
		for _, c := range own {
			if strings.HasPrefix(class, c) {
				return true
			}
		}
		return false
	}
	conts := []int{cont}
	if p.Prop == "C15" && cont < 0 {
		conts = conts[:0]
		for c := range p.Conts {
			conts = append(conts, c)
		}
	}
	for _, c := range conts {
		t := twin(p, c)
		if t == nil {
			return true
		}
		_, code, _ := k.exec(t, false)
		if code != 0 {
			return false
		}
	}
	return true
}

// ---- minimisation ------------------------------------------------------------------

type clsT struct{ class string }

// fails: the plan still shows a violation of the same class.
func (k *checker) fails(p *Plan, class string) bool {
	o, code, _ := k.exec(p, false)
	k.countExec()
	if code == 0 || code == 3 || code == 11 || o == nil || o.Class != class {
		return false
	}
	return k.attributed(p, o.Cont, o.Class)
}

func (k *checker) countExec() { execMu.Lock(); k.minExecs++; execMu.Unlock() }

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// firstFailing evaluates candidates in parallel and returns the first that fails.
func (k *checker) firstFailing(cands []*Plan, class string) int {
	n := k.workers
	for base := 0; base < len(cands); base += n {
		if time.Now().After(k.minimiseUntil) {
			return -1
		}
		hi := min(base+n, len(cands))
		res := make([]bool, hi-base)
		var wg sync.WaitGroup
		for i := base; i < hi; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); res[i-base] = k.fails(cands[i], class) }()
		}
		wg.Wait()
		for i, r := range res {
			if r {
				return base + i
			}
		}
	}
	return -1
}

// reduceList shrinks a list held by the plan.
func (k *checker) reduceList(p *Plan, class string, length func(*Plan) int, remove func(q *Plan, lo, hi int)) *Plan {
	for chunk := max(length(p)/2, 1); ; {
		n := length(p)
		if n == 0 || time.Now().After(k.minimiseUntil) {
			return p
		}
		if chunk > n {
			chunk = n
		}
		var cands []*Plan
		for lo := n - chunk; ; lo -= chunk { // from the end: later steps matter less
			if lo < 0 {
				lo = 0
			}
			q := clonePlan(p)
			remove(q, lo, min(lo+chunk, n))
			cands = append(cands, q)
			if lo == 0 {
				break
			}
		}
		if i := k.firstFailing(cands, class); i >= 0 {
			p = cands[i]
			continue
		}
		if chunk == 1 {
			return p
		}
		chunk /= 2
	}
}

func (k *checker) minimise(p *Plan, class string) *Plan {
	p = clonePlan(p)
	// make generated keys explicit
	if p.AutoKeys > 0 && p.AutoKeys < 400 {
		p.expand()
		p.AutoKeys = 0
	}
	size := func(p *Plan) int { b, _ := json.Marshal(p); return len(b) }
	for round := 0; round < 4; round++ {
		before := size(p)
		for ph := 0; ph < len(p.Phases); ph++ {
			for t := 0; t < len(p.Phases[ph].Threads); t++ {
				p = k.reduceList(p, class, func(q *Plan) int { return len(q.Phases[ph].Threads[t]) }, func(q *Plan, lo, hi int) {
					l := &q.Phases[ph].Threads[t]
					*l = append((*l)[:lo:lo], (*l)[hi:]...)
				})
			}
			p = k.reduceList(p, class, func(q *Plan) int { return len(q.Phases[ph].Sched) }, func(q *Plan, lo, hi int) {
				l := &q.Phases[ph].Sched
				*l = append((*l)[:lo:lo], (*l)[hi:]...)
			})
		}
		if q := compactKeys(p); q != nil && k.fails(q, class) {
			p = q
		}
		// empty threads, phases
		var cands []*Plan
		for ph := range p.Phases {
			q := clonePlan(p)
			q.Phases = append(q.Phases[:ph:ph], q.Phases[ph+1:]...)
			cands = append(cands, q)
			for t := range p.Phases[ph].Threads {
				q := clonePlan(p)
				l := &q.Phases[ph].Threads
				*l = append((*l)[:t:t], (*l)[t+1:]...)
				cands = append(cands, q)
			}
		}
		if i := k.firstFailing(cands, class); i >= 0 {
			p = cands[i]
		}
		// per operation: drop nested operations, faults, modes; simplify arguments
		for ph := 0; ph < len(p.Phases); ph++ {
			for t := 0; t < len(p.Phases[ph].Threads); t++ {
				for o := 0; o < len(p.Phases[ph].Threads[t]); o++ {
					p = k.simplifyOp(p, class, func(q *Plan) *Op { return &q.Phases[ph].Threads[t][o] })
				}
			}
		}
		// keys: drop designed collisions, shorten
		for i := range p.Keys {
			var cands []*Plan
			add := func(f func(d *KeyDef)) {
				q := clonePlan(p)
				f(&q.Keys[i])
				if jsonStr(q.Keys[i]) != jsonStr(p.Keys[i]) {
					cands = append(cands, q)
				}
			}
			add(func(d *KeyDef) { d.Base, d.Cut = -1, 0 })
			add(func(d *KeyDef) { d.Cut /= 2 })
			add(func(d *KeyDef) { d.Cut = max(0, d.Cut-1) })
			add(func(d *KeyDef) {
				d.Str = []byte{byte('a' + i%26)}
				if i >= 26 {
					d.Str = append(d.Str, byte('a'+i/26))
				}
			})
			add(func(d *KeyDef) { d.Int = int64(i) })
			if j := k.firstFailing(cands, class); j >= 0 {
				p = cands[j]
			}
		}
		if time.Now().After(k.minimiseUntil) || size(p) >= before {
			break
		}
	}
	return p
}

// compactKeys drops the keys no operation names and renumbers the others (nil: nothing to drop).
func compactKeys(p *Plan) *Plan {
	n := len(p.Keys)
	if n == 0 || p.AutoKeys > n {
		return nil
	}
	used := make([]bool, n)
	each := func(p *Plan, f func(o *Op)) {
		var walk func(l []Op)
		walk = func(l []Op) {
			for i := range l {
				f(&l[i])
				walk(l[i].Sub)
			}
		}
		for _, ph := range p.Phases {
			for _, t := range ph.Threads {
				walk(t)
			}
		}
	}
	each(p, func(o *Op) {
		used[o.I%n] = true
		if o.K == opCorrupt && o.N > 0 {
			used[(o.N-1)%n] = true
		}
	})
	for i := n - 1; i >= 0; i-- {
		if b := p.Keys[i].Base; used[i] && b >= 0 {
			used[b] = true
		}
	}
	q := clonePlan(p)
	q.Keys, q.AutoKeys = nil, 0
	to := make([]int, n)
	for i := range used {
		if used[i] {
			to[i] = len(q.Keys)
			d := p.Keys[i]
			if d.Base >= 0 {
				d.Base = to[d.Base]
			}
			q.Keys = append(q.Keys, d)
		}
	}
	if len(q.Keys) == n {
		return nil
	}
	each(q, func(o *Op) {
		o.I = to[o.I%n]
		if o.K == opCorrupt && o.N > 0 {
			o.N = to[(o.N-1)%n] + 1
		}
	})
	return q
}

func (k *checker) simplifyOp(p *Plan, class string, at func(q *Plan) *Op) *Plan {
	var cands []*Plan
	add := func(f func(o *Op)) {
		q := clonePlan(p)
		f(at(q))
		if jsonStr(at(q)) != jsonStr(at(p)) {
			cands = append(cands, q)
		}
	}
	o := at(p)
	if o.F != nil {
		add(func(o *Op) { o.F = nil })
		add(func(o *Op) { o.F.Exit = false })
		add(func(o *Op) { o.F.N = 1 })
	}
	if len(o.Sub) > 0 {
		add(func(o *Op) { o.Sub = nil })
		for i := range o.Sub {
			add(func(o *Op) { o.Sub = append(o.Sub[:i:i], o.Sub[i+1:]...) })
			add(func(o *Op) { o.Sub = o.Sub[i : i+1] })
			add(func(o *Op) { o.Sub[i].Sub = nil })
		}
	}
	if o.M != 0 {
		add(func(o *Op) { o.M = 0 })
	}
	if o.H != 0 {
		add(func(o *Op) { o.H = 0 })
	}
	if o.V > 9 {
		add(func(o *Op) { o.V = 1 })
		add(func(o *Op) { o.V = 2 })
	}
	if o.K == opAll && o.N != 0 {
		add(func(o *Op) { o.N = 0 })
	}
	for len(cands) > 0 {
		i := k.firstFailing(cands, class)
		if i < 0 {
			return p
		}
		p = cands[i]
		cands = nil
		o := at(p)
		if len(o.Sub) > 1 {
			for i := range o.Sub {
				add(func(o *Op) { o.Sub = append(o.Sub[:i:i], o.Sub[i+1:]...) })
			}
		}
	}
	return p
}

// ---- check -------------------------------------------------------------------------

// Replay is the content of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Log      uint64   `json:"log"`
	Seed     uint64   `json:"verif_seed"`
	Index    int      `json:"run"`
	Original int      `json:"operations_before_minimisation"`
	Ops      int      `json:"operations"`
	Execs    int      `json:"minimisation_executions"`
	RaceLog  string   `json:"race_report,omitempty"`
	Trace    []string `json:"trace"`
	Plan     *Plan    `json:"plan"`
}

func countOps(p *Plan) (n int) {
	var f func(o []Op)
	f = func(o []Op) {
		for i := range o {
			n++
			f(o[i].Sub)
		}
	}
	for _, ph := range p.Phases {
		for _, t := range ph.Threads {
			f(t)
		}
	}
	return
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	raceBin := fs.String("racebin", "", "")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "replays", "")
	buildS := fs.Float64("build-s", 0, "")
	limit := fs.Float64("limit", 0, "seconds of exploration")
	scale := fs.Float64("scale", 1, "")
	ev32 := fs.String("evidence32", "", "evidence of the runs of the 32-bit build")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	fs.Parse(args)
	cfg, ok := batches[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "amtsim: unknown property", *prop)
		os.Exit(2)
	}
	bin, err := os.Executable()
	if err != nil {
		harnessError("%v", err)
	}
	start := time.Now()
	k := &checker{prop: *prop, tier: *tier, seed: *seed, bin: bin, raceBin: *raceBin, replays: *replays, tmp: tmpDir(), workers: *workers,
		ev32: *ev32, stats: &Stats{}, raceStats: &Stats{}, hit: make([]byte, len(sites)), formats: map[string]bool{}}
	defer os.RemoveAll(k.tmp)
	k.stats.init()
	k.raceStats.init()
	q, rq := int(float64(cfg.quick)**scale), int(float64(cfg.race)**scale)
	lim := 150.0
	if *tier == "thorough" {
		q, rq, lim = q*thoroughFactor, rq*thoroughFactor/2, 660
	}
	if *raceBin == "" {
		rq = 0
	}
	if *limit > 0 {
		lim = *limit
	}
	fmt.Printf("amtsim: property %s, tier %s, VERIF_SEED=%d, %d runs", *prop, *tier, *seed, q)
	if rq > 0 {
		fmt.Printf(" + %d under the race detector", rq)
	}
	fmt.Println()
	k.deadline = start.Add(time.Duration(lim * 0.65 * float64(time.Second)))
	if rq == 0 {
		k.deadline = start.Add(time.Duration(lim * float64(time.Second)))
	}
	f, err := k.batch(false, q)
	exploreS := time.Since(start).Seconds()
	raceS := 0.0
	if f == nil && err == nil && rq > 0 {
		k.deadline = start.Add(time.Duration(lim * float64(time.Second)))
		rs := time.Now()
		f, err = k.batch(true, rq)
		raceS = time.Since(rs).Seconds()
	}
	if err == nil && f == nil {
		err = k.determinism()
	}
	if err != nil && err != errUnattributed {
		os.RemoveAll(k.tmp)
		fmt.Fprintln(os.Stderr, "amtsim: error:", err)
		os.Exit(2)
	}
	if err == errUnattributed && k.stats.Runs+k.raceStats.Runs < 20*k.unattributed {
		os.RemoveAll(k.tmp)
		fmt.Fprintf(os.Stderr, "amtsim: error: %v: %d of %d runs cannot be judged\n", err, k.unattributed, k.stats.Runs+k.unattributed)
		os.Exit(2)
	}
	k.report(*evidence, start, exploreS, raceS, *buildS, f)
	if f == nil {
		fmt.Printf("amtsim: property %s held in %d runs (%.0f seeds/hour)\n", *prop, k.stats.Runs+k.raceStats.Runs, float64(k.stats.Runs)/exploreS*3600)
		os.RemoveAll(k.tmp)
		os.Exit(0)
	}
	fmt.Printf("amtsim: run %d violates %s: %s\n", f.outcome.Index, *prop, f.outcome.Msg)
	k.minimiseUntil = time.Now().Add(40 * time.Second)
	mp := f.plan
	if k.fails(f.plan, f.outcome.Class) {
		mp = k.minimise(f.plan, f.outcome.Class)
	} else {
		fmt.Println("amtsim: note: the run alone did not show the same class of violation again; not minimised")
	}
	o, _, _ := k.exec(mp, true)
	if o == nil || o.OK {
		o = f.outcome
	}
	r := &Replay{Property: *prop, Class: o.Class, Message: o.Msg, Log: o.Log, Seed: *seed, Index: f.outcome.Index,
		Original: countOps(f.plan), Ops: countOps(mp), Execs: k.minExecs, Trace: o.Trace, Plan: mp}
	if o.Class == "data-race" {
		r.RaceLog = k.raceLog()
	}
	mustMkdir(*replays)
	path := filepath.Join(*replays, fmt.Sprintf("%s-s%d-r%d%s.json", *prop, *seed, f.outcome.Index, map[bool]string{true: "-race", false: ""}[f.race]))
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		harnessError("%v", err)
	}
	fmt.Printf("amtsim: minimised from %d to %d operations (%d executions)\n", r.Original, r.Ops, r.Execs)
	for _, l := range o.Trace {
		fmt.Println("   ", l)
	}
	fmt.Println("   ", o.Class+":", o.Msg)
	if r.RaceLog != "" {
		fmt.Println(r.RaceLog)
	}
	os.RemoveAll(k.tmp)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	os.Exit(1)
}

func (k *checker) raceLog() string {
	ms, _ := filepath.Glob(filepath.Join(k.tmp, "race.*"))
	sort.Slice(ms, func(i, j int) bool {
		a, _ := os.Stat(ms[i])
		b, _ := os.Stat(ms[j])
		return a.ModTime().After(b.ModTime())
	})
	for _, m := range ms {
		if b, err := os.ReadFile(m); err == nil && len(b) > 0 {
			return tail(string(b), 30)
		}
	}
	return ""
}

// determinism re-executes some runs in one other process and compares their event logs.
func (k *checker) determinism() error {
	n := 96
	logs := func(stride int) (map[int]uint64, error) {
		all := map[int]uint64{}
		for from := 0; from < stride; from++ {
			out := filepath.Join(k.tmp, "det")
			code, se := k.child(context.Background(), k.bin, false, []string{"worker", "-prop", k.prop, "-seed", fmt.Sprint(k.seed), "-from", fmt.Sprint(from),
				"-stride", fmt.Sprint(stride), "-count", fmt.Sprint(n), "-out", out, "-logs"}, "", nil)
			if code == 10 {
				return nil, nil // unattributed failures among them
			}
			if code != 0 {
				return nil, fmt.Errorf("determinism check: exit %d: %s", code, tail(se, 10))
			}
			var res workerResult
			b, err := os.ReadFile(out)
			if err != nil {
				return nil, err
			}
			if err := json.Unmarshal(b, &res); err != nil {
				return nil, err
			}
			for i, l := range res.Logs {
				all[i] = l
			}
		}
		return all, nil
	}
	a, err := logs(1)
	if err != nil {
		return err
	}
	b, err := logs(3)
	if err != nil {
		return err
	}
	if a == nil || b == nil {
		return nil
	}
	for i, l := range a {
		if b[i] != l {
			return fmt.Errorf("determinism check: run %d gave two different event logs", i)
		}
	}
	k.recheck = len(a)
	return nil
}

var realParts = []string{"all non-test code of the package under test, compiled from /repo's working tree (statement-level yield calls inserted in a copy)", "Go runtime, garbage collector and compiler"}
var stubParts = []string{"hash/maphash (seeds and hash values decided by the simulator)", "the callers: threads, callbacks, key types, key memory, readers-writer lock"}

func (k *checker) report(file string, start time.Time, exploreS, raceS, buildS float64, f *finding) {
	if file == "" {
		return
	}
	hit, tot := 0, 0
	for i := range sites {
		tot++
		if k.hit[i] != 0 {
			hit++
		}
	}
	var samples []any
	for i := 0; len(samples) < 3 && i < 50; i++ {
		p := gen(k.prop, k.seed, i, false)
		if b, _ := json.Marshal(p); len(b) < 30000 {
			samples = append(samples, p)
		}
	}
	s := k.stats
	ops := map[string]int{}
	for i, n := range s.Ops {
		if n > 0 && i < len(opNames) {
			ops[opNames[i]] = n + k.raceStats.Ops[i]
		}
	}
	faults := map[string]int{}
	addMap(faults, s.Faults)
	addMap(faults, k.raceStats.Faults)
	faults["designed-hash-collision-operations (key shares >=16 bit groups with a stored key)"] = s.Rehash
	if s.Switches+k.raceStats.Switches > 0 {
		faults["thread-preempted"] = s.Switches + k.raceStats.Switches
		faults["thread-preempted-inside-operation"] = s.MidOp + k.raceStats.MidOp
		faults["lock-contention"] = s.LockWaits + k.raceStats.LockWaits
	}
	inter := map[uint64]int{}
	addMap(inter, s.Inter)
	addMap(inter, k.raceStats.Inter)
	var bad []string
	for _, kk := range sortedKeys(k.formats) {
		if !k.formats[kk] {
			bad = append(bad, kk)
		}
	}
	cov := map[string]any{
		"evaluations":                       s.Runs + k.raceStats.Runs,
		"distinct_nontrivial":               len(s.Plans) + len(k.raceStats.Plans),
		"rule":                              "a case is one simulated run: a generated key universe with designed hash collisions, container types and seeds, per-caller operation lists, schedule and faults, all drawn from VERIF_SEED; distinct by a fingerprint of key collision structure, kinds, operations and schedule; non-trivial: at least 3 operations that change a container on at least 2 keys",
		"samples":                           samples,
		"runs_per_hour":                     int(float64(s.Runs) / exploreS * 3600),
		"seeds_per_hour":                    int(float64(s.Runs) / exploreS * 3600),
		"simulated_statements":              s.Steps + k.raceStats.Steps,
		"simulated_time":                    "amt has no clock; simulated time is counted in executed statements of the package",
		"runs_under_race_detector":          k.raceStats.Runs,
		"operations":                        ops,
		"faults_injected":                   faults,
		"distinct_interleavings":            len(inter),
		"interleaving_measure":              "hash of the sequence of (statement, from-thread, to-thread or memory action) at every scheduling decision",
		"distinct_situations":               len(s.Sit),
		"situation_measure":                 "(container kind, operation, key present, shared depth with nearest stored key, number of keys, fault, nesting) seen at operation start",
		"max_shared_hash_groups":            s.MaxDepth,
		"max_statements_per_operation":      s.MaxOpSteps,
		"kinds_exercised":                   s.Kinds,
		"statements_hit":                    hit,
		"statements_total":                  tot,
		"structures_compared":               s.Compared,
		"reclaimed_objects_probed":          s.Probes,
		"lock_waits":                        s.LockWaits,
		"key_method_calls_judged":           s.KeyCalls,
		"invalid_plans_skipped":             s.Trivial + k.raceStats.Trivial,
		"runs_not_attributed":               k.unattributed,
		"determinism_runs_compared":         k.recheck,
		"hash_formats_unknown_to_the_model": bad,
		"components_real":                   realParts,
		"components_stubbed":                stubParts,
		"build_s":                           buildS,
		"explore_s":                         exploreS,
		"race_s":                            raceS,
	}
	if b, err := os.ReadFile(k.ev32); k.ev32 != "" && err == nil {
		var e struct {
			Coverage map[string]any `json:"coverage"`
		}
		if json.Unmarshal(b, &e) == nil {
			cov["runs_of_32_bit_build"] = e.Coverage["evaluations"]
			cov["statements_of_32_bit_build"] = e.Coverage["simulated_statements"]
			cov["operations_of_32_bit_build"] = e.Coverage["operations"]
			cov["faults_of_32_bit_build"] = e.Coverage["faults_injected"]
		}
	}
	ev := map[string]any{
		"property": k.prop, "tier": k.tier, "seed": k.seed, "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"sampling: a clean batch is evidence, not proof",
			"the hash function is a pure function of seed and message (as hash/maphash documents)",
			"distinct keys differ in one of their first 4130 4-bit hash groups (most runs: 360)",
		},
		"wall_s": time.Since(start).Seconds() + buildS, "violations": map[bool]int{true: 1, false: 0}[f != nil],
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		harnessError("%v", err)
	}
	mustMkdir(filepath.Dir(file))
	if err := os.WriteFile(file, b, 0o644); err != nil {
		harnessError("%v", err)
	}
}

// ---- replay ------------------------------------------------------------------------

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	raceBin := fs.String("racebin", "", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: amtsim replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		harnessError("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil || r.Plan == nil {
		harnessError("not a replay file: %v", err)
	}
	bin, _ := os.Executable()
	k := &checker{prop: r.Property, bin: bin, raceBin: *raceBin, tmp: tmpDir()}
	o, code, se := k.exec(r.Plan, true)
	os.RemoveAll(k.tmp)
	if code == 3 || code == 11 || o == nil {
		fmt.Fprintln(os.Stderr, "amtsim: error:", tail(se, 10))
		os.Exit(2)
	}
	for _, l := range o.Trace {
		fmt.Println("   ", l)
	}
	if o.OK {
		fmt.Println("amtsim: the run is clean")
		os.Exit(0)
	}
	fmt.Println("   ", o.Class+":", o.Msg)
	if o.Class == r.Class && o.Msg == r.Message && o.Log == r.Log {
		fmt.Println("amtsim: reproduced exactly")
	} else {
		fmt.Printf("amtsim: differs from the recorded outcome (%s: %s, log %d)\n", r.Class, r.Message, r.Log)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
	os.Exit(1)
}

// ---- selftest ----------------------------------------------------------------------

// cmdSelftest compares the event logs of many runs across processes and worker counts.
func cmdSelftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Int("n", 400, "runs per property")
	seeds := fs.Int("seeds", 3, "")
	raceBin := fs.String("racebin", "", "")
	fs.Parse(args)
	bin, _ := os.Executable()
	k := &checker{bin: bin, raceBin: *raceBin, tmp: tmpDir()}
	defer os.RemoveAll(k.tmp)
	bad, total, procs := 0, 0, 0
	for _, prop := range sortedKeys(batches) {
		modes := []bool{false}
		if *raceBin != "" && batches[prop].race > 0 {
			modes = append(modes, true)
		}
		for _, race := range modes {
			for s := 1; s <= *seeds; s++ {
				var ref map[int]uint64
				for _, stride := range []int{1, 4, 7} {
					logs := map[int]uint64{}
					var mu sync.Mutex
					var wg sync.WaitGroup
					for from := 0; from < stride; from++ {
						wg.Add(1)
						procs++
						go func() {
							defer wg.Done()
							out := filepath.Join(k.tmp, fmt.Sprintf("o%d", from))
							a := []string{"worker", "-prop", prop, "-seed", fmt.Sprint(s), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(stride), "-count", fmt.Sprint(*n), "-out", out, "-logs"}
							if race {
								a = append(a, "-race")
							}
							code, se := k.child(context.Background(), k.binFor(race), race, a, "", nil)
							if code != 0 {
								fmt.Println("selftest:", prop, "exit", code, tail(se, 5))
								mu.Lock()
								bad++
								mu.Unlock()
							}
							var res workerResult
							b, _ := os.ReadFile(out)
							json.Unmarshal(b, &res)
							mu.Lock()
							for i, l := range res.Logs {
								logs[i] = l
							}
							mu.Unlock()
						}()
					}
					wg.Wait()
					if ref == nil {
						ref = logs
						continue
					}
					for i, l := range ref {
						total++
						if logs[i] != l {
							bad++
							if bad < 10 {
								fmt.Println("selftest: log of", prop, "seed", s, "run", i, "differs")
							}
						}
					}
				}
			}
		}
	}
	fmt.Printf("selftest: %d comparisons of event logs across %d processes, %d differences\n", total, procs, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
