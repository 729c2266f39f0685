package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/wdamron/amt/zzamtsim"
)

// World is the state of one simulated execution.
type World struct {
	plan  *Plan
	conts []*Cont
	thrs  []*Thr
	cur   *Thr // the thread that runs

	sched    []Slice
	si       int
	sliceEnd uint64
	multi    bool
	wg       sync.WaitGroup

	nibs   [][]uint8
	strIdx map[string]int
	intIdx map[int64]int
	reg    map[string]regVal
	effs   map[effKey]*effSeq

	verbose bool
	stats   *Stats
	maxStr  int      // length of the longest key
	arena   [][]byte // key memory shared by keys that are prefixes of each other

	news      []*newCont // C20: containers made by the new operation
	visited   *Cont      // C25: the container that is iterated over
	watchKeys bool       // C16: keep the keys handed to All's callback
	kept      []keptKey
	seeds     map[uint64]int // C23: seeds drawn, and which container hashes with them (-1: none yet)
	ndrawn    int
	curSeed   uint64 // seed of the container being made outside of an operation
	ilog      uint64 // hash of the interleaving
	elog      uint64 // hash of the event log
	nswitch   int
	seqno     int
}

type regVal struct {
	v     uint64
	block int
}

type effKey struct {
	cls  int
	seed uint64
}

// effSeq is what the hash function says about the keys of a run for one seed:
// their order by hash bits and the number of 4-bit groups neighbours share.
type effSeq struct {
	order []int // keys sorted by hash bits
	pos   []int // inverse
	lcp   []int // groups shared by order[j] and order[j+1]
	max   int
}

// buf is key memory owned by the caller.
type buf struct {
	full []byte // canary, key, canary
	want []byte // expected contents of full
	n    int    // length of the key
	str  string // for string keys
	wstr []byte
}

// keptKey is a key that All handed to its callback and the callback kept.
type keptKey struct {
	k    []byte
	want string
}

func (w *World) keepKey(k []byte) { w.kept = append(w.kept, keptKey{k, string(k)}) }

type liveProbe struct {
	gen   uint32
	live  func() bool
	val   uint64
	vgen  uint32
	isKey bool
}

// Cont is one container together with its model.
type Cont struct {
	id   int
	kind *Kind
	seed uint64
	root Box

	has  []bool
	val  []uint64
	gen  []uint32 // incremented when the key is deleted
	vgen []uint32 // incremented when the value is replaced
	n    int
	ver  uint32 // incremented when the key set changes
	eff  *effSeq

	lockW bool
	lockR int
	lockA [2]uint64 // addresses for the race detector

	hashSeed uint64 // C23: the seed it hashes with
	track    bool
	probes   [][]liveProbe

	bufs      [][]buf // inserted key memory per key, since the key was last absent
	taint     []bool  // C17: retained bytes were modified
	murky     []bool  // C17: lookups of this key are not specified any more
	corrTo    []int   // C17: for tainted keys, the key whose bytes were written (-1: none)
	tainted   int
	owner     int
	maxStr    uint64
	isDropped bool             // C27
	ident     []unsafe.Pointer // C25: the key memory each entry was inserted with
}

func (c *Cont) strict(i int) bool { return c.murky == nil || !c.murky[i] }

// Frame is an operation in progress.
type Frame struct {
	op        *Op
	c         *Cont
	start     uint64
	budgetEnd uint64
	calls     [nAt]int
	fault     *Fault
	faultAt   int
	fired     bool
	callbacks int
	dep0      float64
	len0      uint64
	gid       uintptr // C26: the goroutine of the caller
	extended  int     // budgets spent waiting for other callers
	arg       keyArg  // C28: the key passed to the package
}

// keyArg is a key passed to an operation, and what was done with its methods since (C28).
type keyArg struct {
	on, any bool
	id      int
	where   unsafe.Pointer
	calls   [nAt]int
}

const (
	atMod = iota
	atAll
	atHash
	atEqual
	atBytes
	nAt
)

var atNames = [nAt]string{"mod", "all", "hash", "equal", "bytes"}

func atIndex(s string) int {
	for i, n := range atNames {
		if n == s {
			return i
		}
	}
	return -1
}

type slot struct {
	c   *Cont
	key int
	gen uint32
	p   VP
}

type orderCache struct {
	ok    bool
	ver   uint32
	order []int
}
type depCache struct {
	ok  bool
	ver uint32
	dep float64
}

// Thr is a simulated caller.
type Thr struct {
	w       *World
	tok     [6]uint64 // see token
	id      int
	ops     []Op
	frames  []*Frame
	wake    chan struct{}
	done    bool
	blocked *Cont
	stuck   bool    // waits for a lock of the package under test
	gid     uintptr // its goroutine
	parkedN uint64
	h       [][]Box
	slots   [8]slot
	orders  []orderCache
	deps    []depCache
	lbufs   []buf
	scratch [][]byte // one buffer for many lookups
	busy    bool     // scratch belongs to one of lbufs
	lweak   []lookupKey
	opn     int
	st      Stats
	log     []string
	elog    uint64
}

// lookupKey watches the memory of a key passed to a lookup or a delete (C16).
type lookupKey struct {
	i, opn int
	live   func() bool
}

type simFault struct{ at string }

// ---- outcome -------------------------------------------------------------------

// Outcome is what an execution reports when it ends.
type Outcome struct {
	OK    bool     `json:"ok"`
	Class string   `json:"class,omitempty"`
	Msg   string   `json:"msg,omitempty"`
	Cont  int      `json:"cont,omitempty"`
	Log   uint64   `json:"log"`
	Index int      `json:"index"`
	Plan  *Plan    `json:"plan,omitempty"`
	Trace []string `json:"trace,omitempty"`
}

// onViolation ends the process; it is set by the runner.
var onViolation func(w *World, class, msg string, cont int)

func (w *World) violate(c *Cont, class, format string, args ...any) {
	zzamtsim.SetLimit(^uint64(0))
	id := -1
	if c != nil {
		id = c.id
		format = fmt.Sprintf("container %d (%s): ", c.id, c.kind.Name) + format
	}
	onViolation(w, class, fmt.Sprintf(format, args...), id)
	panic("unreachable")
}

func harnessError(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "amtsim: harness error: "+format+"\n", args...)
	os.Exit(3)
}

func (t *Thr) logf(format string, args ...any) {
	if !t.w.verbose {
		return
	}
	s := fmt.Sprintf("T%d: ", t.id) + strings.Repeat("  ", len(t.frames)) + fmt.Sprintf(format, args...)
	t.w.addTrace(s)
}

var trace []string

//go:norace
func (w *World) addTrace(s string) { trace = append(trace, s) }

func (t *Thr) ev(x uint64) { t.elog = hash2(t.elog, x) }

// ---- set-up --------------------------------------------------------------------

// Expand adds the generated keys of a plan with AutoKeys.
func (p *Plan) expand() {
	if p.AutoKeys > 0 && len(p.Keys) < p.AutoKeys {
		for i := len(p.Keys); i < p.AutoKeys; i++ {
			s := hash2(p.Seed, uint64(i)+1000)
			p.Keys = append(p.Keys, KeyDef{Base: -1, Salt: s, Str: []byte(fmt.Sprintf("key-%d", i)), Int: int64(i)})
		}
	}
}

// setup builds a world; an error means the plan is not a valid execution.
func setup(p *Plan, st *Stats, verbose bool) (*World, error) {
	p.expand()
	w := &World{plan: p, stats: st, verbose: verbose}
	trace = nil
	w.nibs = genNibs(p.Keys)
	w.strIdx = make(map[string]int, len(p.Keys))
	w.intIdx = make(map[int64]int, len(p.Keys))
	for i := range p.Keys {
		k := &p.Keys[i]
		if _, dup := w.strIdx[string(k.Str)]; dup {
			return nil, fmt.Errorf("duplicate key bytes")
		}
		if _, dup := w.intIdx[k.Int]; dup {
			return nil, fmt.Errorf("duplicate integer key")
		}
		if len(k.Str) > 400 && (len(k.Str) > 70000 || len(p.Keys) > 8 || maxCutOf(p) > 100) {
			return nil, fmt.Errorf("key too long")
		}
		w.maxStr = max(w.maxStr, len(k.Str))
		w.strIdx[string(k.Str)] = i
		w.intIdx[k.Int] = i
	}
	for _, d := range p.Conts {
		k := kindByName[d.Kind]
		if k == nil {
			return nil, fmt.Errorf("unknown kind %q", d.Kind)
		}
	}
	// how many hash values are designed
	maxCut := min(maxCutOf(p), maxCut)
	blocks := maxCut/16 + 3
	if p.AutoKeys > 0 {
		blocks = 0
	}
	w.reg = make(map[string]regVal, len(p.Keys)*blocks*2)
	var clss [nCls]bool
	for _, d := range p.Conts {
		clss[kindByName[d.Kind].Cls] = true
	}
	for cls := 0; cls < nCls; cls++ {
		if !clss[cls] || cls == clsDirect {
			continue
		}
		for i := range p.Keys {
			m := keyMsg(cls, &p.Keys[i])
			var msg []byte
			for b := 0; b < blocks; b++ {
				msg = append(msg, m...)
				if _, dup := w.reg[string(msg)]; !dup {
					w.reg[string(msg)] = regVal{packNibs(w.nibs[i], b), b}
				}
				if len(m) == 0 {
					break
				}
			}
		}
	}
	if p.Prop != "C16" && p.Prop != "C17" && !p.ownKeys() {
		w.mkArena()
	}
	if p.Prop == "C26" && runtime.GOMAXPROCS(0) != 1 {
		runtime.GOMAXPROCS(1) // new goroutines run when the caller waits, not before
	}
	w.install()
	w.effs = map[effKey]*effSeq{}
	for ci, d := range p.Conts {
		k := kindByName[d.Kind]
		seed := d.Seed&(1<<seedBits-1) | 1
		ek := effKey{k.Cls, seed}
		if w.effs[ek] == nil {
			e, err := w.mkEff(k.Cls, seed)
			if err != nil {
				return nil, err
			}
			w.effs[ek] = e
		}
		c := &Cont{id: ci, kind: k, seed: seed, eff: w.effs[ek], maxStr: uint64(w.maxStr)}
		n := len(p.Keys)
		c.has, c.val, c.gen, c.vgen = make([]bool, n), make([]uint64, n), make([]uint32, n), make([]uint32, n)
		c.bufs = make([][]buf, n)
		if p.Prop == "C23" {
			if w.seeds == nil {
				w.seeds = map[uint64]int{}
			}
		}
		if p.Prop == "C19" || p.Prop == "C27" {
			c.track = true
			c.probes = make([][]liveProbe, n)
		}
		if p.ident() {
			c.ident = make([]unsafe.Pointer, n)
		}
		if p.Prop == "C17" {
			c.taint, c.murky, c.corrTo = make([]bool, n), make([]bool, n), make([]int, n)
		}
		w.curSeed = seed
		var err error
		if c.root, err = w.construct(k); err != nil {
			return nil, err
		}
		w.conts = append(w.conts, c)
	}
	return w, nil
}

// construct calls the constructor of a container type.
func (w *World) construct(k *Kind) (b Box, err error) {
	bad := func(class, msg string) {
		if w.plan.Prop == "probe" {
			err = fmt.Errorf("%s", msg)
			return
		}
		w.violate(nil, class, "%s", msg)
	}
	zzamtsim.SetTrap(func(int) { zzamtsim.SetLimit(^uint64(0)); panic(simAbort{}) })
	zzamtsim.SetLimit(zzamtsim.Steps() + hangBudget)
	defer func() {
		zzamtsim.SetLimit(^uint64(0))
		switch r := recover().(type) {
		case nil:
		case simAbort:
			bad("new-hang", "the constructor of "+k.Name+" does not return")
		default:
			bad("new-panic", fmt.Sprintf("the constructor of %s panicked: %v", k.Name, r))
		}
	}()
	return k.New(), nil
}

//go:norace
func (w *World) sum(seed uint64, msg []byte) uint64 {
	if lastMsgOn {
		lastMsgLen, sumCalls = len(msg), sumCalls+1
	}
	if w.seeds != nil {
		w.sawSeed(seed)
	}
	seed = w.hashesAs(seed)
	if r, ok := w.reg[string(msg)]; ok {
		return r.v ^ maphash.SimPRF(seed, blockTag[r.block][:])
	}
	return maphash.SimPRF(seed, msg)
}

var (
	lastMsgOn  bool
	lastMsgLen int
	sumCalls   int
)

var blockTag [maxNibs / 16][4]byte

func init() {
	for i := range blockTag {
		blockTag[i] = [4]byte{0xB1, 0x0C, byte(i), byte(i >> 8)}
	}
}

func (w *World) direct(seed uint64, id int, iter uint) uint64 {
	if w.seeds != nil {
		w.sawSeed(seed)
	}
	seed = w.hashesAs(seed)
	if id >= 0 && id < len(w.nibs) && iter < uint(len(w.nibs[id])/16) {
		return packNibs(w.nibs[id], int(iter)) ^ maphash.SimPRF(seed, blockTag[iter][:])
	}
	var b [12]byte
	for i := 0; i < 4; i++ {
		b[i] = byte(id >> (8 * i))
	}
	for i := 0; i < 8; i++ {
		b[4+i] = byte(iter >> (8 * i))
	}
	return maphash.SimPRF(seed, b[:])
}

func (w *World) rand() uint64 {
	if w.seeds != nil {
		s := w.curSeed
		if _, again := w.seeds[s]; again || s == 0 {
			for {
				w.ndrawn++
				if s = hash2(w.plan.Seed, 0x5eed+uint64(w.ndrawn)) | 1; w.seeds[s] == 0 {
					if _, dup := w.seeds[s]; !dup {
						break
					}
				}
			}
		}
		w.seeds[s] = -1
		return s
	}
	s := w.curSeed
	if t := w.current(); t != nil && len(t.frames) > 0 {
		if c := t.frames[len(t.frames)-1].c; c != nil {
			s = c.seed
		}
	}
	return w.drawn(s)
}

// MakeSeed never returns a seed twice, and code may draw until it gets a new one: the
// draws of a run differ in the bits that hashesAs ignores.
const seedBits = 48

//go:norace
func (w *World) drawn(s uint64) uint64 {
	s |= uint64(w.ndrawn) << seedBits
	w.ndrawn++
	return s
}

func (w *World) hashesAs(seed uint64) uint64 {
	if w.seeds != nil {
		return seed // every draw hashes differently (C23)
	}
	return seed & (1<<seedBits - 1)
}

//go:norace
func (w *World) current() *Thr { return w.cur }

// sawSeed is called for every hash that is computed (C23).
func (w *World) sawSeed(seed uint64) {
	t := w.current()
	if t == nil || len(t.frames) == 0 {
		return
	}
	c := t.frames[len(t.frames)-1].c
	if c == nil {
		return
	}
	if c.hashSeed == seed {
		return
	}
	if c.hashSeed != 0 {
		w.violate(c, "seed-changed", "hashes with seed %x, but hashed with seed %x before", seed, c.hashSeed)
	}
	o, drawn := w.seeds[seed]
	if !drawn {
		w.violate(c, "seed-not-drawn", "hashes with seed %x, which MakeSeed never returned", seed)
	}
	if o >= 0 {
		w.violate(c, "seed-shared", "hashes with seed %x, which container %d hashes with as well", seed, o)
	}
	w.seeds[seed], c.hashSeed = c.id, seed
}

// blockHash is the n-th hash of key i.
func (w *World) blockHash(cls int, seed uint64, i, n int) uint64 {
	if cls == clsDirect {
		return w.direct(seed, i, uint(n))
	}
	return w.sum(seed, bytes.Repeat(keyMsg(cls, &w.plan.Keys[i]), n+1))
}

func (w *World) mkEff(cls int, seed uint64) (*effSeq, error) {
	n := len(w.plan.Keys)
	maxNibs := min(maxCutOf(w.plan), maxCut)/16*16 + 80
	maxBlocks := maxNibs / 16
	h := make([][]uint64, n)
	get := func(i, b int) uint64 {
		for len(h[i]) <= b {
			h[i] = append(h[i], w.blockHash(cls, seed, i, len(h[i])))
		}
		return h[i][b]
	}
	lcp := func(i, j int) int {
		for b := 0; b < maxBlocks; b++ {
			x := get(i, b) ^ get(j, b)
			if x != 0 {
				q := 0
				for x&15 == 0 {
					x >>= 4
					q++
				}
				return b*16 + q
			}
		}
		return maxNibs
	}
	nib := func(i, d int) int { return int(get(i, d/16)>>(4*(d%16))) & 15 }
	e := &effSeq{order: make([]int, n), pos: make([]int, n)}
	for i := range e.order {
		e.order[i] = i
	}
	sort.SliceStable(e.order, func(a, b int) bool {
		i, j := e.order[a], e.order[b]
		l := lcp(i, j)
		if l >= maxNibs {
			return i < j
		}
		return nib(i, l) < nib(j, l)
	})
	for p, i := range e.order {
		e.pos[i] = p
		if p > 0 {
			l := lcp(e.order[p-1], i)
			if l >= maxNibs-8 {
				return nil, fmt.Errorf("keys %d and %d are not separated", e.order[p-1], i)
			}
			e.max = max(e.max, l)
			e.lcp = append(e.lcp, l)
		}
	}
	return e, nil
}

// sumDepth is the sum of the depths at which the stored keys must be.
func (c *Cont) sumDepth() (sum uint64) {
	prev, run := -1, 0
	best := 0
	for p, i := range c.eff.order {
		if p > 0 {
			run = min(run, c.eff.lcp[p-1])
		}
		if !c.has[i] {
			continue
		}
		if prev >= 0 {
			best = max(best, run)
			sum += uint64(best)
			best = run
		}
		prev, run = i, 1<<30
	}
	if prev >= 0 {
		sum += uint64(best)
	}
	return
}

// depthOf is the number of groups key i shares with the closest other stored key.
func (c *Cont) depthOf(i int) int {
	d, run := 0, 1<<30
	for p := c.eff.pos[i] - 1; p >= 0; p-- {
		run = min(run, c.eff.lcp[p])
		if c.has[c.eff.order[p]] {
			d = run
			break
		}
	}
	run = 1 << 30
	for p := c.eff.pos[i] + 1; p < len(c.eff.order); p++ {
		run = min(run, c.eff.lcp[p-1])
		if c.has[c.eff.order[p]] {
			d = max(d, run)
			break
		}
	}
	return d
}

func (w *World) idInt(k int64) int {
	if i, ok := w.intIdx[k]; ok {
		return i
	}
	return -1
}

func (w *World) idStr(k string) int {
	if i, ok := w.strIdx[k]; ok {
		return i
	}
	return -1
}

// ---- caller memory -------------------------------------------------------------

const canary = 8

func canaryByte(i, j int) byte { return byte(0xA0 + (i*7+j*3)%64) }

// mkBytes makes the memory of a byte-slice key.
func (w *World) mkBytes(c *Cont, i int, u use) []byte {
	k := w.plan.Keys[i].Str
	t := w.current()
	if c == nil {
		return bytes.Clone(k)
	}
	how := uint64(0)
	if t != nil {
		how = hash2(uint64(t.opn)<<8|uint64(u), uint64(i)^w.plan.Seed)
	}
	switch w.plan.Prop {
	case "C16", "C17":
		n := canary + len(k) + [4]int{0, 1, canary, 3 * canary}[how&3]
		var full []byte
		shared := u == useLookup && !t.busy && how>>8&1 == 0
		if shared {
			full = t.buffer()[:n:n]
			t.busy = true
		} else {
			full = make([]byte, n)
		}
		for j := range full {
			full[j] = canaryByte(i, j)
		}
		copy(full[canary:], k)
		b := buf{full: full, want: bytes.Clone(full), n: len(k)}
		if u == useLookup {
			t.lbufs = append(t.lbufs, b)
			if !shared && n >= 16 { // smaller ones share memory with others
				t.lweak = append(t.lweak, lookupKey{i, t.opn, weakBytes(&full[0])})
			}
		} else {
			c.bufs[i] = append(c.bufs[i], b)
		}
		return full[canary : canary+len(k) : len(full)]
	case "C19", "C22", "C27", "C29":
		b := make([]byte, len(k), max(len(k), 24))
		copy(b, k)
		return b
	case "C25", "C28":
		at := int(how>>8&3) * 5
		b := make([]byte, at+len(k), max(at+len(k), 24)+int(how>>4&3)*13)
		return b[at:][:copy(b[at:], k)]
	}
	if len(k) == 0 && t != nil && t.opn&1 == 1 {
		return nil
	}
	switch {
	case u == useLookup && t != nil && how&3 == 0: // the caller has one buffer for all lookups
		return t.buffer()[:copy(t.buffer(), k)]
	case w.arena != nil && how&4 == 0:
		return w.arena[i]
	}
	b := make([]byte, len(k))
	copy(b, k)
	return b
}

// buffer is the one buffer the caller has for many lookups.
func (t *Thr) buffer() []byte { // one for each depth of operations that run inside others
	for len(t.scratch) <= len(t.frames) {
		t.scratch = append(t.scratch, make([]byte, t.w.maxStr+5*canary))
	}
	return t.scratch[len(t.frames)]
}

// mkArena lays out the keys so that keys which are prefixes of others share their memory.
func (w *World) mkArena() {
	if hash2(w.plan.Seed, 0xa7e)%3 != 0 || len(w.plan.Keys) > 200 {
		return
	}
	w.arena = make([][]byte, len(w.plan.Keys))
	for i := range w.plan.Keys {
		k := w.plan.Keys[i].Str
		best := i
		for j := range w.plan.Keys {
			if o := w.plan.Keys[j].Str; len(o) > len(w.plan.Keys[best].Str) && bytes.HasPrefix(o, k) {
				best = j
			}
		}
		if w.arena[best] == nil {
			w.arena[best] = bytes.Clone(w.plan.Keys[best].Str)
			if w.arena[best] == nil {
				w.arena[best] = []byte{}
			}
		}
		if best != i {
			w.arena[i] = w.arena[best][:len(k)]
		}
	}
}

// mkString makes the memory of a string key.
func (w *World) mkString(c *Cont, i int, u use) string {
	k := w.plan.Keys[i].Str
	if len(k) == 0 {
		return ""
	}
	if c != nil && w.plan.ownKeys() {
		b := make([]byte, len(k), max(len(k), 24))
		copy(b, k)
		return unsafe.String(&b[0], len(b))
	}
	if t := w.current(); c != nil && t != nil && w.arena != nil && hash2(uint64(t.opn)<<8|uint64(u), uint64(i)^w.plan.Seed)&4 == 0 {
		return unsafe.String(unsafe.SliceData(w.arena[i]), len(k))
	}
	s := cloneString(k)
	if c != nil && w.plan.Prop == "C16" {
		b := buf{str: s, wstr: k, n: len(k)}
		if u == useLookup {
			t := w.current()
			t.lbufs = append(t.lbufs, b)
			if len(s) >= 16 { // smaller ones may share memory
				t.lweak = append(t.lweak, lookupKey{i, t.opn, weakBytes(unsafe.StringData(s))})
			}
		} else {
			c.bufs[i] = append(c.bufs[i], b)
		}
	}
	return s
}

func (b *buf) intact() bool {
	return bytes.Equal(b.full, b.want) && b.str == string(b.wstr)
}

// checkMem verifies that no operation has written to key memory.
func (w *World) checkMem(t *Thr, when string) {
	for i := range w.kept {
		if b := &w.kept[i]; string(b.k) != b.want {
			w.violate(nil, "kept-key-changed", "a key that All handed to its callback, and which the callback kept, has changed (%s): %x, was %x", when, b.k, b.want)
		}
	}
	for i := range t.lbufs {
		if b := &t.lbufs[i]; !b.intact() {
			w.violate(nil, "keymem-written", "key memory passed to a lookup or delete was written (%s): got %x want %x", when, append([]byte(b.str), b.full...), append(bytes.Clone(b.wstr), b.want...))
		}
	}
	for _, c := range w.conts {
		for i := range c.bufs {
			for j := range c.bufs[i] {
				if b := &c.bufs[i][j]; !b.intact() {
					w.violate(c, "keymem-written", "key memory passed to an insertion of key %d was written (%s): got %x want %x", i, when, append([]byte(b.str), b.full...), append(bytes.Clone(b.wstr), b.want...))
				}
			}
		}
	}
}

// scribble overwrites the key memory of finished lookups: the caller reuses its buffers.
func (w *World) scribble(t *Thr) {
	for i := range t.lbufs {
		b := &t.lbufs[i]
		if len(b.full) == 0 {
			continue
		}
		mid := b.full[canary : canary+b.n]
		h := hash2(w.plan.Seed, uint64(t.opn)*31+uint64(i))
		other := w.plan.Keys[int(h%uint64(len(w.plan.Keys)))].Str
		switch {
		case len(other) == len(mid) && h>>32&1 == 0:
			copy(mid, other)
		default:
			for j := range mid {
				mid[j] ^= byte(h>>8) | 1
			}
		}
		t.st.Faults["caller-buffer-reused"]++
	}
	t.lbufs, t.busy = t.lbufs[:0], false
}

func (c *Cont) trackKey(i int, live func() bool) {
	c.probes[i] = append(c.probes[i], liveProbe{gen: c.gen[i], live: live, isKey: true})
}

// trackVal watches the memory behind the value of key i once its value has been written
// next more times.
func (c *Cont) trackVal(i int, next uint32, live func() bool) {
	if live != nil {
		c.probes[i] = append(c.probes[i], liveProbe{gen: c.gen[i], vgen: c.vgen[i] + next, live: live})
	}
}

// ---- user code -----------------------------------------------------------------

func (w *World) user(at string) {
	t := w.current()
	if t == nil || len(t.frames) == 0 {
		return
	}
	t.frames[len(t.frames)-1].userCall(t, atIndex(at))
}

// keyUsed judges the call of a key method (C28).
func (w *World) keyUsed(at int, ident func(w *World) int, where unsafe.Pointer, iter uint) {
	t := w.current()
	if t == nil {
		w.violate(nil, "key-call-new", "a constructor calls the method %s of a key", methodNames[at])
	}
	var f *Frame
	for j := len(t.frames) - 1; j >= 0 && f == nil; j-- {
		if t.frames[j].c != nil {
			f = t.frames[j]
		}
	}
	if f == nil || f.arg.any {
		return
	}
	c := f.c
	t.st.KeyCalls++
	if !f.arg.on && f.op != nil && (f.op.K == opAll || f.op.K == opLen || f.op.K == opDep) {
		w.violate(c, "key-call-needless", "%s calls the method %s of a key", f.op, methodNames[at])
	}
	id := ident(w)
	ok := id >= 0 && c.has[id] && c.ident[id] == where
	for _, g := range t.frames {
		ok = ok || g.c == c && g.arg.on && g.arg.id == id && g.arg.where == where
	}
	if !ok {
		what := "a key that nobody passed to the container"
		switch {
		case id >= 0 && c.has[id]:
			what = fmt.Sprintf("a key equal to key %d, but neither the stored nor the passed one", id)
		case id >= 0:
			what = fmt.Sprintf("a key equal to key %d, which is not stored", id)
		}
		w.violate(c, "key-call-stranger", "%s (key %d) calls the method %s of %s", f.op, f.arg.id, methodNames[at], what)
	}
	if most := 1 + uint(c.eff.max)/16; at == atHash && iter > most {
		w.violate(c, "key-call-count", "%s hashes key %d with rehash count %d, but the keys share at most %d bits, so %d is the last one that may be needed", f.op, id, iter, 4*c.eff.max, most)
	}
	f.arg.calls[at]++
	if n := 24 + 4*c.eff.max; f.arg.on && f.arg.calls[at] > n {
		w.violate(c, "key-call-many", "%s has called the method %s of keys %d times, although the keys share at most %d bits", f.op, methodNames[at], f.arg.calls[at], 4*c.eff.max)
	}
}

var methodNames = [nAt]string{atHash: "Hash", atEqual: "Equal", atBytes: "KeyBytes"}

func (f *Frame) userCall(t *Thr, at int) {
	f.calls[at]++
	if f.gid != 0 && getg() != f.gid {
		t.w.violate(f.c, "async-callback", "%s called user code (%s) in another goroutine", f.op, atNames[at])
	}
	if f.op != nil && f.op.W == atNames[at] && f.calls[at] == f.op.At+1 {
		t.subs(f.op, f.c)
	}
	if f.fault == nil || f.fired || f.faultAt != at || f.calls[at] != f.fault.N {
		return
	}
	f.fired = true
	how := "panic"
	if f.fault.Exit {
		how = "goexit"
	}
	t.st.Faults[how+"-in-"+atNames[at]]++
	t.logf("fault: %s in %s (call %d)", how, atNames[at], f.fault.N)
	if f.fault.Exit {
		runtime.Goexit()
	}
	panic(simFault{atNames[at]})
}

// getg identifies the current goroutine (it is the address of the runtime's descriptor).
func getg() uintptr

// settled: nothing of an operation that has returned is left running (C26).
func (w *World) settled(c *Cont, op *Op, before int) {
	if runtime.NumGoroutine() <= before {
		return
	}
	s := zzamtsim.Steps()
	for i := 0; i < 300 && runtime.NumGoroutine() > before; i++ {
		runtime.Gosched()
		if i > 280 {
			time.Sleep(time.Millisecond)
		}
	}
	if zzamtsim.Steps() != s {
		w.violate(c, "async-work", "%s went on in another goroutine after it had returned", op)
	}
	if runtime.NumGoroutine() > before {
		w.violate(c, "async-goroutine", "%s left a goroutine behind", op)
	}
}

// finalised: garbage collections run none of the package's code (C26).
func (t *Thr) finalised(c *Cont) {
	w := t.w
	func() {
		b := c.kind.New()
		for i := range c.has {
			b.Put(w, nil, i, uint64(i))
		}
		b.Del(w, nil, 0)
	}()
	clearStack(0)
	s := zzamtsim.Steps()
	for range 2 {
		gc()
		time.Sleep(200 * time.Microsecond)
	}
	t.st.Faults["gc-between-operations"]++
	if zzamtsim.Steps() != s {
		w.violate(c, "async-finalizer", "code of the package runs after a garbage collection")
	}
}

// dropped: containers that the program has let go of are reclaimed, with all that is in them (C27).
func (w *World) dropped() {
	r := newRNG(hash2(w.plan.Seed, 0xd309))
	var rest []Box
	any := false
	for i, c := range w.conts {
		if i > 0 && r.p(40) {
			rest = append(rest, c.root)
		} else {
			any = true
			c.isDropped = true
		}
		c.root = nil
	}
	if !any {
		return
	}
	for _, t := range w.thrs {
		t.h, t.slots, t.lweak, t.lbufs = nil, [8]slot{}, nil, nil
	}
	w.thrs, w.cur = nil, nil
	clearStack(0)
	w.stats.Faults["container-dropped"]++
	for try := 1; ; try++ {
		gc()
		c, key, isKey := w.stillLive()
		if c == nil {
			break
		}
		if try == 3 { // pools need more than one
			what := "value"
			if isKey {
				what = "key"
			}
			w.violate(c, "dropped-"+what, "a %s that was given to it (key %d) is still reachable after the container has been dropped and %d garbage collections", what, key, try)
		}
	}
	runtime.KeepAlive(rest)
}

func (w *World) stillLive() (*Cont, int, bool) {
	for _, c := range w.conts {
		if !c.isDropped {
			continue
		}
		for i := range c.probes {
			for _, p := range c.probes[i] {
				w.stats.Probes++
				if p.live() {
					return c, i, p.isKey
				}
			}
		}
	}
	return nil, 0, false
}

// ---- scheduler -----------------------------------------------------------------

//go:norace
func (w *World) arm() {
	l := w.sliceEnd
	if t := w.cur; t != nil && len(t.frames) > 0 {
		if b := t.frames[len(t.frames)-1].budgetEnd; b < l {
			l = b
		}
	}
	zzamtsim.SetLimit(l)
}

//go:norace
func (w *World) nextSlice() {
	if w.si < len(w.sched) {
		w.sliceEnd = zzamtsim.Steps() + uint64(w.sched[w.si].S) + 1
	} else {
		w.sliceEnd = ^uint64(0)
	}
}

// trap is called before a statement of the package under test, at the end of a
// slice or of the step budget of an operation.
//
//go:norace
func (w *World) trap(site int) {
	zzamtsim.SetLimit(^uint64(0))
	t := w.cur
	n := zzamtsim.Steps()
	if t != nil && len(t.frames) > 0 {
		f := t.frames[len(t.frames)-1]
		if n >= f.budgetEnd {
			if u := w.pick(t, f.extended); u != nil && w.multi && f.extended < 8 { // it may wait for another caller
				f.extended++
				for _, g := range t.frames {
					g.budgetEnd += hangBudget
				}
				w.switchTo(t, u)
				w.arm()
				return
			}
			w.hang(t, f, site)
		}
	}
	for n >= w.sliceEnd {
		s := w.sched[w.si]
		w.si++
		w.nextSlice()
		w.act(t, s, site)
		n = zzamtsim.Steps()
	}
	w.arm()
}

func (w *World) hang(t *Thr, f *Frame, site int) {
	w.violate(f.c, "no-progress", "%s did not return within %d statements (at %s)", f.op.String(), f.budgetEnd-f.start, siteName(site))
}

//go:norace
func (w *World) act(t *Thr, s Slice, site int) {
	switch s.A {
	case 0:
		u := w.pick(t, int(s.P))
		if u == nil {
			return
		}
		w.nswitch++
		w.ilog = hash2(w.ilog, uint64(site)<<16|uint64(t.id)<<8|uint64(u.id))
		t.st.Switches++
		if len(t.frames) > 0 {
			t.st.MidOp++
		}
		w.switchTo(t, u)
	default:
		w.ilog = hash2(w.ilog, uint64(site)<<16|uint64(t.id)<<8|0x80|uint64(s.A))
		w.memAct(t, s.A, site)
	}
}

func (w *World) memAct(t *Thr, a uint8, site int) {
	t.logf("at %s: %s", siteName(site), []string{"", "garbage collection", "stack moved", "garbage collection and stack move", "caller checks key memory"}[a])
	if a&1 != 0 {
		gc()
		t.st.Faults["gc-inside-operation"]++
	}
	if a&2 != 0 {
		growStack(40 + int(site)%200)
		t.st.Faults["stack-move-inside-operation"]++
	}
	if a&4 != 0 {
		w.checkMem(t, "during the operation, before "+siteName(site))
		t.st.Faults["keymem-inspected-inside-operation"]++
	}
}

//go:noinline
func growStack(n int) byte {
	var a [512]byte
	a[n&511] = byte(n)
	if n == 0 {
		return a[0]
	}
	return growStack(n-1) + a[n&255]
}

//go:norace
func (w *World) pick(t *Thr, p int) *Thr {
	n := 0
	for _, u := range w.thrs {
		if u != t && !u.done && !u.stuck && u.blocked == nil {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	p %= n
	for _, u := range w.thrs {
		if u != t && !u.done && !u.stuck && u.blocked == nil {
			if p == 0 {
				return u
			}
			p--
		}
	}
	return nil
}

//go:norace
func (w *World) switchTo(t, u *Thr) {
	t.parkedN = zzamtsim.Steps()
	w.cur = u
	zzamtsim.SetLimit(w.sliceEnd) // u sets the limit again when it resumes an operation
	raceDisable()
	u.wake <- struct{}{}
	<-t.wake
	raceEnable()
	zzamtsim.SetLimit(^uint64(0))
	t.resumed()
}

// resumed accounts for the statements other threads have executed.
//
//go:norace
func (t *Thr) resumed() {
	d := zzamtsim.Steps() - t.parkedN
	for _, f := range t.frames {
		f.start += d
		f.budgetEnd += d
	}
}

// gc runs the garbage collector, which empties the pools of the package under test.
func gc() {
	zzamtsim.DropPools()
	runtime.GC()
}

// blockedInside is called when a caller has to wait for a lock of the package under test.
//
//go:norace
func (w *World) blockedInside() bool {
	t := w.cur
	if t == nil || t.gid == 0 || t.gid != getg() {
		return false
	}
	p := 0
	if w.si < len(w.sched) {
		p = int(w.sched[w.si].P)
	}
	u := w.pick(t, p)
	if u == nil {
		return false // the Go runtime reports the deadlock
	}
	t.stuck = true
	t.st.LockWaits++
	zzamtsim.SetLimit(^uint64(0))
	w.switchTo(t, u)
	w.arm()
	return true
}

//go:norace
func (w *World) releasedInside() {
	for _, t := range w.thrs {
		t.stuck = false
	}
}

// deadlock: thread t waits for a lock inside the package that nobody will release.
func (w *World) deadlock() {
	for _, t := range w.thrs {
		if t.stuck {
			f := t.frames[len(t.frames)-1]
			w.violate(f.c, "no-progress", "%s waits for a lock that is never released", f.op)
		}
	}
	harnessError("deadlock in the simulated callers")
}

// block parks the thread until the lock of c may be free.
//
//go:norace
func (w *World) block(t *Thr, c *Cont) {
	t.blocked = c
	p := 0
	if w.si < len(w.sched) {
		p = int(w.sched[w.si].P)
	}
	u := w.pick(t, p)
	if u == nil {
		w.deadlock()
	}
	t.st.LockWaits++
	zzamtsim.SetLimit(^uint64(0))
	w.switchTo(t, u)
	w.arm()
}

//go:norace
func (w *World) lock(t *Thr, c *Cont, write bool) {
	for c.lockW || write && c.lockR > 0 {
		w.block(t, c)
	}
	if write {
		c.lockW = true
		raceAcquire(unsafe.Pointer(&c.lockA[0]))
		raceAcquire(unsafe.Pointer(&c.lockA[1]))
	} else {
		c.lockR++
		raceAcquire(unsafe.Pointer(&c.lockA[0]))
	}
}

//go:norace
func (w *World) unlock(t *Thr, c *Cont, write bool) {
	if write {
		raceReleaseMerge(unsafe.Pointer(&c.lockA[0]))
		c.lockW = false
	} else {
		raceReleaseMerge(unsafe.Pointer(&c.lockA[1]))
		c.lockR--
	}
	for _, u := range w.thrs {
		if u.blocked == c {
			u.blocked = nil
		}
	}
}

// finish ends thread t and hands over to another one.
//
//go:norace
func (w *World) finish(t *Thr) {
	zzamtsim.SetLimit(^uint64(0))
	t.done = true
	p := 0
	if w.si < len(w.sched) {
		p = int(w.sched[w.si].P)
	}
	u := w.pick(t, p)
	if u == nil {
		for _, x := range w.thrs {
			if !x.done {
				w.deadlock()
			}
		}
		return
	}
	w.ilog = hash2(w.ilog, uint64(t.id)<<8|uint64(u.id)|1<<60)
	w.cur = u
	zzamtsim.SetLimit(w.sliceEnd)
	raceDisable()
	u.wake <- struct{}{}
	raceEnable()
}

// install puts the simulated hash function and user code in place.
func (w *World) install() {
	maphash.SimSum, maphash.SimRand, directHash, userHook = w.sum, w.rand, w.direct, w.user
	keyHook = nil
	if w.plan.Prop == "C28" {
		keyHook = w.keyUsed
	}
}

func (w *World) uninstall() {
	maphash.SimSum, maphash.SimRand, userHook, directHash, keyHook = nil, nil, nil, nil, nil
}

// run executes the plan.
func (w *World) run() {
	defer func() {
		zzamtsim.SetLimit(^uint64(0))
		w.uninstall()
	}()
	zzamtsim.SetTrap(w.trap)
	zzamtsim.SetBlock(w.blockedInside, w.releasedInside)
	zzamtsim.DropPools()
	defer zzamtsim.SetBlock(nil, nil)
	var persist [][]Box
	for pi := range w.plan.Phases {
		ph := &w.plan.Phases[pi]
		if len(ph.Threads) == 0 {
			continue
		}
		w.thrs = nil
		for i := range ph.Threads {
			t := &Thr{w: w, id: i, ops: ph.Threads[i], wake: make(chan struct{})}
			t.st.init()
			t.h = make([][]Box, len(w.conts))
			for ci, c := range w.conts {
				t.h[ci] = []Box{c.root.Copy()}
				if persist != nil {
					for _, b := range persist[ci] {
						t.h[ci] = append(t.h[ci], b.Copy())
					}
				}
			}
			t.orders = make([]orderCache, len(w.conts))
			t.deps = make([]depCache, len(w.conts))
			w.thrs = append(w.thrs, t)
		}
		w.multi = len(ph.Threads) > 1
		var before []snapT
		if w.multi && !w.plan.Cold {
			for ci, c := range w.conts { // what a reader alone would see
				s := w.look(c)
				before = append(before, s)
				for _, t := range w.thrs {
					t.deps[ci] = depCache{true, c.ver, s.dep}
					t.orders[ci] = orderCache{true, c.ver, s.order}
				}
			}
		}
		w.sched, w.si = ph.Sched, 0
		w.cur = w.thrs[0]
		w.nextSlice()
		if !w.multi {
			w.arm()
			w.thrs[0].main()
			zzamtsim.SetLimit(^uint64(0))
		} else {
			w.wg.Add(len(w.thrs))
			for _, t := range w.thrs {
				go func() {
					raceDisable()
					<-t.wake
					raceEnable()
					t.main()
					w.finish(t)
					w.wg.Done()
				}()
			}
			w.arm()
			raceDisable()
			w.thrs[0].wake <- struct{}{}
			raceEnable()
			w.wg.Wait()
			if w.plan.Prop == "C13" {
				for ci, c := range w.conts {
					after := w.look(c)
					if before != nil {
						w.unchanged(c, before[ci], after)
					}
					for _, t := range w.thrs {
						w.sameAsAlone(t, c, after)
					}
				}
			}
		}
		for _, t := range w.thrs {
			w.stats.merge(&t.st)
			w.elog = hash2(w.elog, t.elog)
		}
		persist = make([][]Box, len(w.conts))
		for ci := range w.conts {
			for _, t := range w.thrs {
				if len(t.h[ci]) > 1 && len(persist[ci]) < 3 {
					persist[ci] = append(persist[ci], t.h[ci][len(t.h[ci])-1])
				}
			}
		}
		w.cur = nil
	}
}

// look takes a snapshot of c while no simulated caller runs.
func (w *World) look(c *Cont) snapT {
	t := &Thr{w: w, id: 99}
	t.st.init()
	old, end := w.cur, w.sliceEnd
	w.cur, w.sliceEnd = t, ^uint64(0)
	s := t.take(c, c.root)
	w.cur, w.sliceEnd = old, end
	zzamtsim.SetLimit(^uint64(0))
	return s
}

// sameAsAlone: reader t has seen what a reader that runs alone sees.
func (w *World) sameAsAlone(t *Thr, c *Cont, s snapT) {
	if d := &t.deps[c.id]; d.ok && d.ver == c.ver && d.dep != s.dep {
		w.violate(c, "reader-dep", "Dep returned %v to reader T%d; without concurrent readers it is %v", d.dep, t.id, s.dep)
	}
	if o := &t.orders[c.id]; o.ok && o.ver == c.ver && !slices.Equal(o.order, s.order[:min(len(o.order), len(s.order))]) {
		w.violate(c, "reader-order", "All visited %v for reader T%d; without concurrent readers it visits %v", o.order, t.id, s.order)
	}
}

// unchanged: readers have left the container as it was.
func (w *World) unchanged(c *Cont, a, b snapT) {
	if a.len != b.len || a.dep != b.dep || len(a.order) != len(b.order) {
		w.violate(c, "reader-changed", "readers changed Len from %d to %d, Dep from %v to %v, or the number of visits of All from %d to %d", a.len, b.len, a.dep, b.dep, len(a.order), len(b.order))
	}
	for j := range a.order {
		if a.order[j] != b.order[j] || a.vals[j] != b.vals[j] {
			w.violate(c, "reader-changed", "after readers only, All visits key %d with value %d at position %d; before, key %d with value %d", b.order[j], b.vals[j], j, a.order[j], a.vals[j])
		}
	}
}

// orderOf lists the keys in iteration order.
func (w *World) orderOf(c *Cont, b Box) (o []int) {
	b.All(w, func(id int, p VP) bool {
		o = append(o, id)
		return len(o) <= len(c.has)+4
	})
	return
}

func jsonStr(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
