package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"math"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"unsafe"
	"weak"

	"github.com/wdamron/amt"
	"github.com/wdamron/amt/zzamtsim"
)

// What the oracle of a property judges.
const (
	kLookup   = 1 << iota // lookups against the model
	kLen                  // Len after every operation
	kIter                 // All: exactly once, live values, stops, stable order
	kMod                  // Mod: one call, right argument
	kPtr                  // held value pointers
	kDep                  // Dep is the exact mean depth
	kDepRel               // Dep does not change while the key set does not
	kSteps                // step bounds
	kStruct               // equal structure
	kAfterDel             // verify all keys after each Del
	kAfterMod             // verify all keys after each Mod
	kAfterAny             // verify all keys after each operation
	kSnap                 // snapshots around interrupted operations
	kMem                  // key memory
	kRelease              // released memory
	kCount                // Len equals the number of entries All visits
	kHelper               // values of the hash helpers
)

var propChecks = map[string]int{
	"C01": kLookup,
	"C02": kLookup,
	"C03": kLookup | kMod | kAfterDel,
	"C04": kLen,
	"C05": kIter,
	"C06": kMod | kLookup | kAfterMod,
	"C07": kPtr,
	"C08": kStruct,
	"C09": kDep,
	"C10": kSteps,
	"C11": kLookup | kLen | kIter | kMod | kDepRel | kSnap | kPtr,
	"C12": kLookup | kLen | kIter | kMod | kDepRel | kPtr,
	"C13": kLookup | kLen | kIter | kDepRel,
	"C14": kLookup | kLen | kIter | kMod | kDepRel | kPtr,
	"C15": kLookup | kLen | kIter | kMod | kDepRel | kPtr,
	"C16": kLookup | kIter | kLen | kMem,
	"C17": kLookup | kIter | kCount | kMod,
	"C18": kLookup | kLen | kIter | kMod | kPtr,
	"C19": kRelease,
	"C20": 0,
	"C21": kHelper,
	"C22": 0,
	"C23": 0,
	"C24": kLookup | kLen | kIter | kMod | kDepRel | kPtr,
	"C25": kIter,
	"C26": 0,
	"C27": 0,
	"C28": 0,
	"C29": 0,
}

func (o *Op) String() string {
	if o == nil {
		return "verification"
	}
	s := opNames[o.K]
	switch o.K {
	case opPut:
		s = fmt.Sprintf("put(c%d, key %d, %d)", o.C, o.I, o.V)
	case opMod:
		s = fmt.Sprintf("mod(c%d, key %d, mode %d, %d)", o.C, o.I, o.M, o.V)
	case opDel, opGet:
		s = fmt.Sprintf("%s(c%d, key %d)", s, o.C, o.I)
	case opAll:
		s = fmt.Sprintf("all(c%d, stop %d, mode %d)", o.C, o.N, o.M)
	default:
		s = fmt.Sprintf("%s(c%d, %d, %d)", s, o.C, o.I, o.N)
	}
	if o.H > 0 {
		s += fmt.Sprintf(" via copy %d", o.H)
	}
	return s
}

type simAbort struct{}

const hangBudget = 300_000

// hang is a number of statements far beyond what any one operation on c needs.
func (c *Cont) hang() uint64 {
	d := uint64(c.eff.max)
	return hangBudget + 400*uint64(c.n) + 200*d + (40+4*c.maxStr)*(d/16+1)*(d/16+1)
}

// hangAll is the same for looking up every key, and iterating.
func (c *Cont) hangAll() uint64 {
	d := uint64(c.eff.max)
	return 4*hangBudget + uint64(len(c.has))*(2000+60*d+(10+c.maxStr)*(d/16+1)*(d/16+1)) + 1000*(c.sumDepth()+uint64(c.n))
}

// guarded runs fn, which calls the package under test, as one operation.
// It reports whether user code called by it was made to panic or exit.
func (t *Thr) guarded(op *Op, c *Cont, budget uint64, fn func(f *Frame)) (f *Frame, interrupted bool) {
	w := t.w
	f = &Frame{op: op, c: c}
	if op != nil && op.F != nil {
		f.fault, f.faultAt = op.F, atIndex(op.F.At)
	}
	f.start = zzamtsim.Steps()
	f.budgetEnd = f.start + budget
	async := w.plan.Prop == "C26"
	n0 := 0
	if async {
		n0 = runtime.NumGoroutine()
	}
	t.push(f)
	completed := false
	body := func() {
		if async {
			f.gid = getg()
		}
		defer func() {
			if completed {
				return
			}
			r := recover()
			switch r := r.(type) {
			case nil: // Goexit
				if f.fired {
					interrupted = true
					return
				}
				w.violate(c, "goexit", "%s ended the goroutine", op)
			case simFault:
				if f.fired {
					interrupted = true
					return
				}
				panic(r)
			case simAbort:
				panic(r)
			default:
				if async && f.fired {
					w.violate(c, "async-fault", "%s panicked with %v after user code it called had panicked with another value", op, r)
				}
				w.violate(c, "panic", "%s panicked: %v\n%s", op, r, shortStack())
			}
		}()
		fn(f)
		completed = true
	}
	if f.fault != nil && f.fault.Exit {
		done := make(chan struct{})
		gid := t.gid
		go func() {
			defer close(done)
			t.gid = getg()
			body()
		}()
		<-done
		t.gid = gid
	} else {
		body()
	}
	t.pop(f)
	if async && f.fired && !interrupted {
		w.violate(c, "async-fault", "%s returned although user code it called had panicked or ended its goroutine", op)
	}
	if async && len(t.frames) == 0 {
		w.settled(c, op, n0)
	}
	return
}

//go:norace
func (t *Thr) push(f *Frame) {
	t.frames = append(t.frames, f)
	t.w.arm()
}

//go:norace
func (t *Thr) pop(f *Frame) {
	n := len(t.frames) - 1
	t.frames = t.frames[:n]
	if n > 0 {
		d := zzamtsim.Steps() - f.start
		p := t.frames[n-1]
		p.start += d
		p.budgetEnd += d
	}
	t.w.arm()
}

func shortStack() string {
	var out []string
	ls := strings.Split(string(debug.Stack()), "\n")
	seen := false
	for i := 1; i+1 < len(ls); i += 2 {
		if strings.HasPrefix(ls[i], "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(ls[i], "runtime.") {
			continue
		}
		loc := strings.TrimSpace(ls[i+1])
		if k := strings.LastIndex(loc, " +0x"); k > 0 {
			loc = loc[:k]
		}
		fn := ls[i]
		if k := strings.LastIndex(fn, "("); k > 0 {
			fn = fn[:k]
		}
		out = append(out, "    "+fn+" "+loc)
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (t *Thr) main() {
	t.gid = getg()
	for i := range t.ops {
		t.do(&t.ops[i])
	}
}

func (t *Thr) inFrame(c *Cont) *Frame {
	for i := len(t.frames) - 1; i >= 0; i-- {
		if t.frames[i].c == c {
			return t.frames[i]
		}
	}
	return nil
}

func writes(op *Op) bool {
	switch op.K {
	case opPut, opMod, opDel, opPStore, opCorrupt:
		return true
	case opAll:
		return op.M&1 != 0
	}
	return false
}

func (t *Thr) handle(c *Cont, h int) Box {
	hs := t.h[c.id]
	return hs[h%len(hs)]
}

// do executes one operation of a simulated caller and judges it.
func (t *Thr) do(op *Op) {
	w := t.w
	if len(w.conts) == 0 {
		return
	}
	c := w.conts[op.C%len(w.conts)]
	i := 0
	if len(c.has) > 0 {
		i = op.I % len(c.has)
	}
	outer := t.inFrame(c)
	wr := writes(op)
	if wr && outer != nil { // writes from inside a callback of the same container are not specified
		if w.plan.Prop != "C24" || op.K == opDel || (op.K == opPut || op.K == opMod) && !c.has[i] {
			return // except for updates of present entries
		}
		t.st.Faults["update-from-callback"]++
	}
	if c.kind.Set {
		switch op.K {
		case opMod, opHold, opPStore, opPLoad:
			return
		}
	}
	if op.K == opPStore || op.K == opPLoad {
		s := &t.slots[op.N&7]
		if s.p == nil {
			return
		}
		c = s.c
		if o := t.inFrame(c); o != nil && wr && w.plan.Prop != "C24" {
			return
		}
		outer = t.inFrame(c)
	}
	locked := false
	if w.plan.Locks && w.multi && outer == nil {
		if len(t.frames) > 0 {
			return // no lock nesting
		}
		w.lock(t, c, wr)
		locked = true
	}
	t.opn++
	t.st.Ops[op.K]++
	b := t.handle(c, op.H)
	chk := propChecks[w.plan.Prop]
	t.situation(op, c, i)
	switch op.K {
	case opPut:
		t.put(op, c, b, i, chk)
	case opMod:
		t.mod(op, c, b, i, chk)
	case opDel:
		t.del(op, c, b, i, chk)
	case opGet:
		t.logf("%s", op)
		f, _ := t.guarded(op, c, w.budget(c, i, op, chk), func(f *Frame) { t.lookup(c, b, i, op.M, chk) })
		t.steps(f, op, c, chk)
	case opAll:
		t.all(op, c, b, chk)
	case opLen:
		t.guarded(op, c, c.hang(), func(f *Frame) { t.checkLen(c, b) })
	case opDep:
		f, _ := t.guarded(op, c, w.budget(c, -1, op, chk), func(f *Frame) { t.checkDep(c, b, chk) })
		t.steps(f, op, c, chk)
	case opHold:
		t.logf("hold(c%d, key %d, slot %d)", op.C, i, op.N&7)
		if c.has[i] && c.strict(i) {
			t.guarded(op, c, c.hang(), func(f *Frame) {
				if p := b.Ptr(w, c, i); p != nil {
					t.slots[op.N&7] = slot{c, i, c.gen[i], p}
				}
			})
		}
	case opPStore:
		s := &t.slots[op.N&7]
		if c.has[s.key] && c.gen[s.key] == s.gen && s.p != nil {
			t.logf("store %d through the pointer to key %d of c%d", op.V, s.key, c.id)
			s.p.Store(w, c.kind.Norm(op.V))
			c.val[s.key] = c.kind.Norm(op.V)
			c.vgen[s.key]++
			if chk&kPtr != 0 {
				t.guarded(op, c, c.hang(), func(f *Frame) { t.lookup(c, b, s.key, op.V2mode(), kLookup|kPtr) })
			}
		}
	case opPLoad:
		s := &t.slots[op.N&7]
		t.checkSlot(s, chk)
	case opCopy:
		if len(t.h[c.id]) < 6 {
			t.logf("copy c%d copy %d", c.id, op.H%len(t.h[c.id]))
			t.h[c.id] = append(t.h[c.id], b.Copy())
		}
	case opVerify:
		t.verify(c, b, chk, "")
	case opCompare:
		t.compare(op, c, b)
	case opFresh:
		t.fresh(op, c, b)
	case opCorrupt:
		t.corrupt(op, c, i)
	case opGC:
		t.logf("garbage collection")
		t.collect(c, b, op)
	case opHelper:
		if chk&kHelper != 0 {
			t.helperValue(op, i)
		} else {
			t.helper(op, i)
		}
	case opZero:
		t.zero(op, i)
	case opNew:
		t.fresher(op, i)
	}
	if outer == nil {
		t.auto(op, c, b, chk)
	}
	if chk&kMem != 0 && len(t.frames) == 0 {
		w.checkMem(t, "after "+op.String())
		if !w.plan.Tame {
			w.scribble(t)
		} else {
			t.lbufs, t.busy = t.lbufs[:0], false
		}
	}
	if w.plan.Prop == "C17" && len(t.frames) == 0 {
		t.lbufs, t.busy = t.lbufs[:0], false
	}
	if locked {
		w.unlock(t, c, wr)
	}
}

// V2mode derives a lookup mode.
func (o *Op) V2mode() int { return int(o.V % 4) }

// auto makes the checks that follow every operation.
func (t *Thr) auto(op *Op, c *Cont, b Box, chk int) {
	w := t.w
	if w.plan.Cold {
		return
	}
	switch {
	case chk&kAfterDel != 0 && op.K == opDel,
		chk&kAfterMod != 0 && op.K == opMod,
		chk&kAfterAny != 0,
		w.plan.Prop == "C12" && len(op.Sub) > 0:
		t.verify(c, b, chk, " after "+op.String())
	}
	if op.K == opPut || op.K == opMod || op.K == opDel || op.K == opAll {
		if chk&kLen != 0 && !(w.plan.Prop == "C13" && w.multi) {
			t.guarded(nil, c, c.hang(), func(*Frame) { t.checkLen(c, b) })
		}
		if chk&kDep != 0 {
			t.guarded(nil, c, c.hang(), func(*Frame) { t.checkDep(c, b, chk) })
		}
		if w.plan.Prop == "C07" {
			for s := range t.slots {
				t.checkSlot(&t.slots[s], chk)
			}
		}
		if chk&kCount != 0 && c.tainted > 0 {
			t.checkCount(c, b, op)
		}
	}
}

// budget is the number of statements an operation may take.
func (w *World) budget(c *Cont, i int, op *Op, chk int) uint64 {
	if chk&kSteps == 0 {
		if op.K == opAll {
			return c.hangAll()
		}
		return c.hang()
	}
	return w.bound(c, i, op)
}

// bound is the step bound of C10: linear in the depth of the trie.
func (w *World) bound(c *Cont, i int, op *Op) uint64 {
	if op.K == opAll {
		return 2000 + 200*(c.sumDepth()+uint64(c.n))
	}
	if i < 0 {
		return 2000 + 2*c.maxStr
	}
	d := uint64(c.depthOf(i)) + 2
	return 2000 + 200*d + (20+2*c.maxStr)*(d/16+1)*(d/16+1)
}

// steps records the step count of a finished operation.
func (t *Thr) steps(f *Frame, op *Op, c *Cont, chk int) {
	n := t.since(f)
	t.st.OpSteps += n
	if n > t.st.MaxOpSteps {
		t.st.MaxOpSteps = n
	}
}

//go:norace
func (t *Thr) since(f *Frame) uint64 { return zzamtsim.Steps() - f.start }

func (t *Thr) situation(op *Op, c *Cont, i int) {
	if t.w.multi && !t.w.plan.Locks && t.w.plan.Prop != "C15" && t.w.plan.Prop != "C13" {
		return
	}
	d := 0
	if op.K == opPut || op.K == opMod || op.K == opDel || op.K == opGet {
		d = c.depthOf(i)
	}
	if d > t.st.MaxDepth {
		t.st.MaxDepth = d
	}
	if d >= 16 {
		t.st.Rehash++
	}
	present := uint64(0)
	if len(c.has) > 0 && c.has[i] {
		present = 1
	}
	f := uint64(0)
	if op.F != nil {
		f = uint64(atIndex(op.F.At)) + 1
	}
	nest := uint64(len(t.frames))
	if nest > 3 {
		nest = 3
	}
	t.st.Sit[hash2(hashStr(c.kind.Name), uint64(op.K)|present<<8|uint64(min(d, 64))<<9|uint64(min(c.n, 40))<<17|f<<25|nest<<30)]++
	t.ev(uint64(op.K)<<32 | uint64(i)<<8 | present)
}

func (t *Thr) put(op *Op, c *Cont, b Box, i, chk int) {
	w := t.w
	v := c.kind.Norm(op.V)
	t.logf("%s", op)
	snap := t.snapshot(op, c, b, chk)
	f, intr := t.guarded(op, c, w.budget(c, i, op, chk), func(*Frame) { b.Put(w, c, i, v) })
	t.steps(f, op, c, chk)
	if intr {
		t.interrupted(op, c, b, snap)
		return
	}
	c.insert(i)
	c.val[i] = v
	c.vgen[i]++
}

func (c *Cont) insert(i int) {
	if !c.has[i] {
		c.has[i] = true
		c.n++
		c.ver++
	}
}

func (t *Thr) del(op *Op, c *Cont, b Box, i, chk int) {
	w := t.w
	t.logf("%s", op)
	snap := t.snapshot(op, c, b, chk)
	f, intr := t.guarded(op, c, w.budget(c, i, op, chk), func(*Frame) { b.Del(w, c, i) })
	t.steps(f, op, c, chk)
	if intr {
		t.interrupted(op, c, b, snap)
		return
	}
	if c.has[i] {
		c.has[i] = false
		c.n--
		c.ver++
		c.gen[i]++
		if c.ident != nil {
			c.ident[i] = nil
		}
		if w.plan.Prop != "C17" {
			c.bufs[i] = nil
		}
		c.val[i] = 0
		c.vgen[i]++
	}
	if c.murky != nil { // a corrupted entry with these bytes may now be found under this key
		if c.posed(i) {
			c.murky[i] = true
		}
	}
}

func (t *Thr) mod(op *Op, c *Cont, b Box, i, chk int) {
	w := t.w
	t.logf("%s", op)
	snap := t.snapshot(op, c, b, chk)
	had := c.has[i]
	strict := c.strict(i)
	calls := 0
	tok := t.token(c)
	var pending uint64
	f, intr := t.guarded(op, c, w.budget(c, i, op, chk), func(f *Frame) {
		f.enter(w, b, op)
		b.Mod(w, c, i, func(p VP, ok bool) {
			calls++
			if strict && chk&kMod != 0 {
				if calls > 1 {
					w.violate(c, "mod-calls", "Mod of key %d called its callback %d times", i, calls)
				}
				if p == nil {
					w.violate(c, "mod-nil", "Mod of key %d passed a nil pointer", i)
				}
				if ok != had {
					w.violate(c, "mod-exists", "Mod of key %d: callback received exists=%v, but the key is %s", i, ok, presence(had))
				}
				cur, good := p.Load(w)
				want := uint64(0)
				if had {
					want = c.val[i]
				}
				if !good || cur != want {
					w.violate(c, "mod-value", "Mod of key %d (%s): callback received value %s, want %d", i, presence(had), vstr(cur, good), want)
				}
			}
			if p == nil {
				return
			}
			write := func(v uint64) {
				v = c.kind.Norm(v)
				p.Store(w, v)
				if had {
					c.val[i] = v
					c.vgen[i]++
				} else {
					pending = v
				}
				t.logf("callback writes %d", v)
			}
			if op.M&1 != 0 {
				write(op.V)
			}
			if op.W == "" {
				t.subs(op, c)
			}
			if w.plan.Prop == "C24" && had && len(op.Sub) > 0 {
				if v, good := p.Load(w); !good || v != c.val[i] {
					w.violate(c, "nested-update", "the pointer passed to the callback of Mod of key %d holds %s after updates from inside the callback, want %d", i, vstr(v, good), c.val[i])
				}
			}
			tok[0]++
			f.userCall(t, atMod)
			if op.M&2 != 0 {
				write(op.V + 1)
			}
			if op.M&4 != 0 && strict {
				t.slots[op.N&7] = slot{c, i, c.gen[i], p}
			}
		})
	})
	t.steps(f, op, c, chk)
	if intr {
		if op.M&4 != 0 && !had {
			t.slots[op.N&7] = slot{}
		}
		t.interrupted(op, c, b, snap)
		return
	}
	if calls == 0 && chk&kMod != 0 && strict {
		w.violate(c, "mod-calls", "Mod of key %d (%s) did not call its callback", i, presence(had))
	}
	if !had {
		c.insert(i)
		c.val[i] = pending
		c.vgen[i]++
	}
}

func presence(b bool) string {
	if b {
		return "present"
	}
	return "absent"
}

func vstr(v uint64, good bool) string {
	if !good {
		return fmt.Sprintf("%d (damaged)", v)
	}
	return fmt.Sprint(v)
}

// enter records what readers inside the callback must see.
func (f *Frame) enter(w *World, b Box, op *Op) {
	if len(op.Sub) > 0 {
		f.dep0, f.len0 = b.Dep(), b.Len()
	}
}

// subs runs the nested operations of a callback.
func (t *Thr) subs(op *Op, c *Cont) {
	if len(op.Sub) == 0 || len(t.frames) > 6 {
		return
	}
	t.st.Faults["reentrant-call"]++
	for i := range op.Sub {
		t.do(&op.Sub[i])
	}
}

func (t *Thr) lookup(c *Cont, b Box, i, mode, chk int) {
	w := t.w
	if !c.strict(i) {
		// unspecified, but it must return
		b.Has(w, c, i)
		return
	}
	want := c.has[i]
	var v uint64
	good, ok := true, false
	name := "Has"
	noval := false
	if c.kind.Set {
		ok = b.Has(w, c, i)
		noval = true
	} else {
		switch mode & 3 {
		case 0:
			name = "Get"
			v, good, ok = b.Get(w, c, i)
			if !ok && (v != 0 || !good) && chk&kLookup != 0 {
				w.violate(c, "get-zero", "Get of absent key %d returned value %s with ok=false", i, vstr(v, good))
			}
		case 1:
			name = "Val"
			v, good = b.Val(w, c, i)
			ok = want
			if !want && (v != 0 || !good) && chk&kLookup != 0 {
				w.violate(c, "lookup", "Val of absent key %d returned %s, want a zero value", i, vstr(v, good))
			}
		default:
			name = "Ptr"
			p := b.Ptr(w, c, i)
			if ok = p != nil; ok {
				v, good = p.Load(w)
			}
		}
	}
	t.ev(v<<1 | b2u(ok))
	if chk&(kLookup|kPtr) == 0 {
		return
	}
	if ok != want {
		w.violate(c, "lookup", "%s of key %d found=%v, but the key is %s (%d keys stored)", name, i, ok, presence(want), c.n)
	}
	if ok && !noval && (!good || v != c.val[i]) {
		w.violate(c, "lookup", "%s of key %d returned %s, want %d", name, i, vstr(v, good), c.val[i])
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *Thr) checkLen(c *Cont, b Box) {
	n := b.Len()
	t.ev(n)
	if propChecks[t.w.plan.Prop]&kLen != 0 && n != uint64(c.n) {
		t.w.violate(c, "len", "Len is %d, but %d keys are stored", n, c.n)
	}
}

func (t *Thr) checkDep(c *Cont, b Box, chk int) {
	w := t.w
	d := b.Dep()
	t.ev(math.Float64bits(d))
	if chk&kDep != 0 {
		if c.n == 0 {
			if d != 0 {
				w.violate(c, "dep", "Dep of an empty container is %v", d)
			}
			return
		}
		if !formatKnown(c.kind) {
			return
		}
		s := c.sumDepth()
		want := float64(s) / float64(c.n)
		if math.Abs(d-want) > 1e-9*(1+want) {
			w.violate(c, "dep", "Dep is %v with %d keys whose depths sum up to %d (mean %v)", d, c.n, s, want)
		}
		if c.n >= 1000 && maxCutOf(w.plan) == 0 {
			if lg := math.Log(float64(c.n)) / math.Log(16); math.Abs(d-lg) > 1 {
				w.violate(c, "dep-log", "Dep is %v with %d well-spread keys (log16 is %v)", d, c.n, lg)
			}
		}
	}
	if chk&kDepRel != 0 {
		if f := t.inFrameBelow(c); f != nil && len(f.op.Sub) > 0 {
			if d != f.dep0 {
				w.violate(c, "dep-nested", "Dep inside the callback of %s is %v, but it was %v before the call", f.op, d, f.dep0)
			}
		}
		dc := &t.deps[c.id]
		if dc.ok && dc.ver == c.ver && dc.dep != d {
			w.violate(c, "dep-changed", "Dep changed from %v to %v although no key was inserted or deleted", dc.dep, d)
		}
		*dc = depCache{true, c.ver, d}
	}
}

// inFrameBelow is the enclosing operation on c that called back.
func (t *Thr) inFrameBelow(c *Cont) *Frame {
	for i := len(t.frames) - 2; i >= 0; i-- {
		if t.frames[i].c == c && t.frames[i].op != nil && (t.frames[i].op.K == opMod || t.frames[i].op.K == opAll) {
			return t.frames[i]
		}
	}
	return nil
}

func maxCutOf(p *Plan) (m int) {
	for i := range p.Keys {
		m = max(m, p.Keys[i].Cut)
	}
	return
}

func (t *Thr) checkSlot(s *slot, chk int) {
	w := t.w
	if s.p == nil || chk&kPtr == 0 {
		return
	}
	c := s.c
	if w.multi && !w.plan.Locks && w.plan.Prop != "C15" {
		return
	}
	if !c.has[s.key] || c.gen[s.key] != s.gen {
		return
	}
	if v, good := s.p.Load(w); !good || v != c.val[s.key] {
		w.violate(c, "pointer", "the pointer to the value of key %d holds %s, but the value is %d", s.key, vstr(v, good), c.val[s.key])
	}
}

// all iterates and judges the visits.
func (t *Thr) all(op *Op, c *Cont, b Box, chk int) {
	w := t.w
	t.logf("%s", op)
	snap := t.snapshot(op, c, b, chk)
	seen := make([]bool, len(c.has))
	var order []int
	stopped := false
	ver := c.ver
	type keptT struct {
		id int
		p  VP
	}
	var kept []keptT
	if chk&kMem != 0 {
		w.watchKeys, w.kept = true, w.kept[:0]
	}
	tok := t.token(c)
	var outer *Cont
	if c.ident != nil {
		outer, w.visited = w.visited, c
	}
	f, intr := t.guarded(op, c, w.budget(c, -1, op, chk), func(f *Frame) {
		f.enter(w, b, op)
		b.All(w, func(id int, p VP) bool {
			order = append(order, id)
			t.ev(uint64(id))
			if chk&kIter != 0 {
				t.visit(c, id, p, seen, order, stopped)
			}
			if op.M&1 != 0 && p != nil && id >= 0 && c.strict(id) && !c.posed(id) && (uint64(id)+op.V)%3 == 0 {
				v := c.kind.Norm(op.V + uint64(id))
				p.Store(w, v)
				c.val[id] = v
				c.vgen[id]++
			}
			if op.M&8 != 0 && p != nil && id >= 0 && c.has[id] && hash2(op.V, uint64(id))&1 == 0 {
				t.probeLive(c, b, id, p, op)
				kept = append(kept, keptT{id, p})
			}
			if op.M&4 != 0 && p != nil && id >= 0 && c.strict(id) && !c.posed(id) && (uint64(id)+op.V)%4 == 0 {
				t.slots[op.N&7] = slot{c, id, c.gen[id], p}
			}
			if len(order)-1 == op.At && op.W == "" {
				t.subs(op, c)
				if w.plan.Prop == "C24" && p != nil && id >= 0 && c.has[id] {
					if v, good := p.Load(w); !good || v != c.val[id] {
						w.violate(c, "nested-update", "the pointer All passed for key %d holds %s after updates from inside the callback, want %d", id, vstr(v, good), c.val[id])
					}
				}
			}
			tok[0]++
			f.userCall(t, atAll)
			if op.N > 0 && len(order) >= op.N {
				stopped = true
				return false
			}
			return true
		})
	})
	if c.ident != nil {
		w.visited = outer
	}
	t.steps(f, op, c, chk)
	if chk&kMem != 0 {
		w.watchKeys = false
	}
	if intr {
		t.interrupted(op, c, b, snap)
		return
	}
	if chk&kIter == 0 {
		return
	}
	for _, k := range kept { // the callback kept the pointers
		v := c.kind.Norm(hash2(op.V, uint64(k.id)+7) >> 8)
		k.p.Store(w, v)
		c.val[k.id] = v
		c.vgen[k.id]++
		t.guarded(verifyOp, c, c.hang(), func(*Frame) { t.lookup(c, b, k.id, t.opn, kLookup) })
	}
	if w.plan.Prop == "C05" && op.M&1 != 0 { // the pointers were live
		t.guarded(verifyOp, c, c.hangAll(), func(*Frame) {
			for _, id := range order {
				if id >= 0 {
					t.lookup(c, b, id, t.opn, kLookup)
				}
			}
		})
	}
	want := c.n
	if op.N > 0 && op.N < want {
		want = op.N
	}
	if c.tainted == 0 && len(order) != want {
		w.violate(c, "iter-count", "All called back %d times, want %d (of %d keys stored)%s", len(order), want, c.n, missing(c, seen))
	}
	if c.tainted > 0 && !stopped {
		for i := range c.has {
			if c.has[i] && c.strict(i) && !seen[i] {
				w.violate(c, "iter-count", "All did not visit key %d", i)
			}
		}
	}
	if c.tainted == 0 {
		t.checkOrder(c, order, ver)
	}
}

// probeLive tests, from inside All's callback, whether p is the live value of key id.
func (t *Thr) probeLive(c *Cont, b Box, id int, p VP, op *Op) {
	w := t.w
	q := b.Ptr(w, c, id)
	if q == nil {
		w.violate(c, "iter-live", "All visits key %d, but Ptr does not find it in the callback", id)
	}
	for n := uint64(0); n < 2; n++ {
		v := c.kind.Norm(hash2(op.V+n, uint64(id)) >> 8)
		x, y, how := p, q, "the pointer passed by All"
		if n == 1 {
			x, y, how = q, p, "the pointer got from Ptr in the callback"
		}
		x.Store(w, v)
		if got, good := y.Load(w); !good || got != v {
			w.violate(c, "iter-live", "a write to the value of key %d through %s does not reach the other pointer (%s, want %d)", id, how, vstr(got, good), v)
		}
		c.val[id] = v
		c.vgen[id]++
	}
}

func missing(c *Cont, seen []bool) string {
	for i := range seen {
		if c.has[i] && !seen[i] {
			return fmt.Sprintf("; key %d was not visited", i)
		}
	}
	return ""
}

func (t *Thr) visit(c *Cont, id int, p VP, seen []bool, order []int, stopped bool) {
	w := t.w
	if stopped {
		w.violate(c, "iter-stop", "All called back after the callback had returned false")
	}
	if id < 0 || c.murky != nil && c.murky[id] {
		if c.tainted == 0 {
			w.violate(c, "iter-key", "All visited a key that was never inserted")
		}
		return
	}
	if c.tainted > 0 && c.posed(id) { // this may be the corrupted entry, which may be visited as well
		if !seen[id] && c.has[id] {
			if c.kind.Set || p == nil {
				seen[id] = true
			} else if v, good := p.Load(w); good && v == c.val[id] {
				seen[id] = true
			}
		}
		return
	}
	if !c.has[id] {
		w.violate(c, "iter-key", "All visited key %d, which is absent", id)
	}
	if seen[id] {
		w.violate(c, "iter-twice", "All visited key %d twice", id)
	}
	seen[id] = true
	if c.kind.Set {
		return
	}
	if p == nil {
		w.violate(c, "iter-nil", "All passed a nil pointer for key %d", id)
	}
	if v, good := p.Load(w); !good || v != c.val[id] {
		w.violate(c, "iter-value", "All passed value %s for key %d, want %d", vstr(v, good), id, c.val[id])
	}
}

// posed tells whether the corrupted bytes of another key are those of key i.
func (c *Cont) posed(i int) bool {
	for j := range c.taint {
		if c.taint[j] && c.corrTo[j] == i {
			return true
		}
	}
	return false
}

func (t *Thr) checkOrder(c *Cont, order []int, ver uint32) {
	oc := &t.orders[c.id]
	if oc.ok && oc.ver == ver {
		n := min(len(order), len(oc.order))
		for j := 0; j < n; j++ {
			if order[j] != oc.order[j] {
				t.w.violate(c, "iter-order", "All visited key %d at position %d, but an earlier call visited key %d there, and no key was inserted or deleted since", order[j], j, oc.order[j])
			}
		}
	}
	if !oc.ok || oc.ver != ver || len(order) > len(oc.order) {
		*oc = orderCache{true, ver, order}
	}
}

var verifyOp = &Op{K: opVerify}

// verify looks at everything.
func (t *Thr) verify(c *Cont, b Box, chk int, when string) {
	t.logf("verify c%d%s", c.id, when)
	op := verifyOp
	if chk&(kLookup|kPtr) != 0 {
		t.guarded(op, c, c.hangAll(), func(*Frame) {
			for i := range c.has {
				t.lookup(c, b, i, i+t.opn, chk)
			}
		})
	}
	if chk&kLen != 0 {
		t.guarded(op, c, c.hang(), func(*Frame) { t.checkLen(c, b) })
	}
	if chk&kIter != 0 {
		t.all(&Op{K: opAll, C: c.id, At: -1}, c, b, chk)
	}
	if chk&(kDep|kDepRel) != 0 {
		t.guarded(op, c, c.hang(), func(*Frame) { t.checkDep(c, b, chk) })
	}
	if chk&kCount != 0 {
		t.checkCount(c, b, op)
	}
	for s := range t.slots {
		t.checkSlot(&t.slots[s], chk)
	}
}

// ---- C11 -----------------------------------------------------------------------

type snapT struct {
	ok    bool
	order []int
	vals  []uint64
	dep   float64
	len   uint64
}

func (t *Thr) take(c *Cont, b Box) (s snapT) {
	w := t.w
	s.ok = true
	t.guarded(verifyOp, c, c.hangAll(), func(*Frame) {
		s.dep, s.len = b.Dep(), b.Len()
		b.All(w, func(id int, p VP) bool {
			s.order = append(s.order, id)
			v := uint64(0)
			if p != nil {
				v, _ = p.Load(w)
			}
			s.vals = append(s.vals, v)
			return len(s.order) < len(c.has)+8
		})
	})
	return
}

func (t *Thr) snapshot(op *Op, c *Cont, b Box, chk int) (s snapT) {
	if chk&kSnap != 0 && op.F != nil {
		return t.take(c, b)
	}
	return
}

// interrupted judges the container after user code panicked inside an operation.
func (t *Thr) interrupted(op *Op, c *Cont, b Box, s snapT) {
	w := t.w
	t.logf("%s was interrupted", op)
	if !s.ok {
		return
	}
	n := t.take(c, b)
	if n.len != s.len {
		w.violate(c, "interrupted", "Len changed from %d to %d although %s was interrupted in %s", s.len, n.len, op, op.F.At)
	}
	if n.dep != s.dep {
		w.violate(c, "interrupted", "Dep changed from %v to %v although %s was interrupted in %s", s.dep, n.dep, op, op.F.At)
	}
	if len(n.order) != len(s.order) {
		w.violate(c, "interrupted", "All visits %d keys (before: %d) although %s was interrupted in %s", len(n.order), len(s.order), op, op.F.At)
	}
	for j := range n.order {
		if n.order[j] != s.order[j] {
			w.violate(c, "interrupted", "All visits key %d at position %d (before: %d) although %s was interrupted in %s", n.order[j], j, s.order[j], op, op.F.At)
		}
		if id := n.order[j]; id >= 0 && !c.kind.Set && n.vals[j] != c.val[id] {
			w.violate(c, "interrupted", "the value of key %d is %d, want %d, after %s was interrupted in %s", id, n.vals[j], c.val[id], op, op.F.At)
		}
	}
	t.verify(c, b, propChecks[w.plan.Prop], " after the interruption")
}

// ---- C08 -----------------------------------------------------------------------

func (t *Thr) sameStruct(c *Cont, a, b Box, what string) {
	w := t.w
	var oa, ob []int
	var da, db float64
	t.guarded(verifyOp, c, 2*c.hangAll(), func(*Frame) {
		oa, ob = w.orderOf(c, a), w.orderOf(c, b)
		da, db = a.Dep(), b.Dep()
	})
	t.st.Compared++
	t.ev(uint64(len(oa)))
	for j := 0; j < len(oa) || j < len(ob); j++ {
		if j >= len(oa) || j >= len(ob) || oa[j] != ob[j] {
			w.violate(c, "structure-order", "same keys and seed, but All visits them in another order than in %s: %v / %v", what, oa, ob)
		}
	}
	if da != db {
		w.violate(c, "structure-dep", "same keys (%d) and seed, but Dep is %v, and %v in %s", c.n, da, db, what)
	}
}

func (t *Thr) compare(op *Op, c *Cont, b Box) {
	w := t.w
	d := w.conts[op.N%len(w.conts)]
	if d == c || d.kind != c.kind || d.seed != c.seed || t.inFrame(d) != nil {
		return
	}
	for i := range c.has {
		if c.has[i] != d.has[i] {
			return
		}
	}
	t.logf("compare c%d with c%d", c.id, d.id)
	t.sameStruct(c, b, t.handle(d, 0), fmt.Sprintf("container %d", d.id))
}

func (t *Thr) fresh(op *Op, c *Cont, b Box) {
	w := t.w
	t.logf("compare c%d with a new container", c.id)
	r := newRNG(op.V)
	var nb Box
	t.guarded(verifyOp, c, 2*c.hangAll(), func(*Frame) {
		nb = c.kind.New()
		for _, i := range r.perm(len(c.has)) {
			if !c.has[i] {
				continue
			}
			if !c.kind.Set && op.M&1 != 0 && r.p(50) {
				nb.Mod(w, nil, i, func(p VP, ok bool) {})
			} else {
				nb.Put(w, nil, i, c.kind.Norm(1))
			}
		}
	})
	t.sameStruct(c, b, nb, "a new container")
}

// ---- C17 -----------------------------------------------------------------------

// corrupt overwrites the key memory the container retains for key i.
func (t *Thr) corrupt(op *Op, c *Cont, i int) {
	w := t.w
	if w.plan.Prop != "C17" || w.plan.Tame || !c.kind.Slices || !c.has[i] || len(c.bufs[i]) == 0 {
		return
	}
	k := w.plan.Keys[i].Str
	if len(k) == 0 {
		return
	}
	to := -1
	nb := append([]byte{}, k...)
	if op.N > 0 { // bytes of another key of the same length
		j := (op.N - 1) % len(w.plan.Keys)
		if j != i && len(w.plan.Keys[j].Str) == len(k) {
			copy(nb, w.plan.Keys[j].Str)
		}
	}
	if string(nb) == string(k) {
		r := newRNG(op.V)
		for q := range nb {
			if q == 0 || r.p(50) {
				nb[q] ^= byte(r.next()) | 1
			}
		}
	}
	if string(nb) == string(k) {
		return
	}
	to = w.idStr(string(nb))
	for q := range c.bufs[i] {
		b := &c.bufs[i][q]
		copy(b.full[canary:], nb)
		copy(b.want[canary:], nb)
	}
	t.logf("the caller overwrites the retained bytes of key %d of c%d with %x (key %d)", i, c.id, nb, to)
	t.st.Faults["retained-key-corrupted"]++
	if !c.taint[i] {
		c.tainted++
	}
	c.taint[i], c.murky[i], c.corrTo[i] = true, true, to
	if to >= 0 && !c.has[to] {
		c.murky[to] = true
	}
}

func (t *Thr) checkCount(c *Cont, b Box, op *Op) {
	w := t.w
	n, cnt := uint64(0), uint64(0)
	t.guarded(verifyOp, c, c.hangAll(), func(*Frame) {
		n = b.Len()
		b.All(w, func(id int, p VP) bool {
			cnt++
			return cnt < uint64(4*len(c.has)+1000)
		})
	})
	t.ev(n)
	if n != cnt {
		w.violate(c, "len-count", "Len is %d, but All visits %d entries (after %s)", n, cnt, op)
	}
}

// token makes an object that the callback of an operation holds on to (C25).
func (t *Thr) token(c *Cont) *[6]uint64 {
	if c.ident == nil || t.w.plan.Prop != "C25" {
		return &t.tok
	}
	k := new([6]uint64)
	p := weak.Make(k)
	t.lweak = append(t.lweak, lookupKey{-1, t.opn, func() bool { return p.Value() != nil }})
	return k
}

// lookupKeys looks whether the memory of keys that were passed to lookups and deletes is free.
func (t *Thr) lookupKeys() {
	w := t.w
	t.lbufs, t.busy = nil, false
	clearStack(0)
	gc()
	t.st.Faults["gc-between-operations"]++
	for _, k := range t.lweak {
		t.st.Probes++
		if k.live() && k.i < 0 {
			w.violate(nil, "passed-callback-retained", "the callback passed to operation %d is still reachable after a garbage collection", k.opn)
		}
		if k.live() && w.plan.Prop == "C25" {
			w.violate(nil, "passed-key-retained", "key %d, passed to an operation that stored nothing (operation %d), is still reachable after a garbage collection", k.i, k.opn)
		}
		if k.live() {
			w.violate(nil, "lookup-key-retained", "the memory of key %d, passed to a lookup or delete (operation %d), is still reachable after a garbage collection", k.i, k.opn)
		}
	}
	t.lweak = nil
}

// ---- C19 -----------------------------------------------------------------------

// collect garbage-collects and looks which tracked keys and values are still alive.
func (t *Thr) collect(c *Cont, b Box, op *Op) {
	w := t.w
	if w.plan.Prop == "C16" || w.plan.Prop == "C25" {
		t.lookupKeys()
		return
	}
	if w.plan.Prop == "C26" {
		t.finalised(c)
		return
	}
	if !c.track {
		gc()
		return
	}
	clearStack(0)
	gc()
	t.st.Faults["gc-between-operations"]++
	for _, c := range w.conts {
		for i := range c.probes {
			keep := c.probes[i][:0]
			for _, p := range c.probes[i] {
				deleted := p.gen != c.gen[i]
				over := !p.isKey && p.vgen != c.vgen[i] && p.gen == c.gen[i]
				if !deleted && !over {
					if !p.isKey && p.vgen == c.vgen[i] && c.has[i] {
						t.st.Probes++
						if !p.live() {
							w.violate(c, "released", "the value of key %d, which is stored, has been reclaimed by the garbage collector (%d keys stored)", i, c.n)
						}
					}
					keep = append(keep, p)
					continue
				}
				t.st.Probes++
				if p.live() {
					what := "value"
					if p.isKey {
						what = "key"
					}
					why := "deleted"
					if over {
						why = "overwritten"
					}
					w.violate(c, "leak-"+what, "the %s of key %d is still reachable after a garbage collection although it was %s (%d keys stored)", what, i, why, c.n)
				}
			}
			c.probes[i] = keep
		}
	}
}

//go:noinline
func clearStack(n int) byte {
	var a [2048]byte
	a[n&2047] = 1
	if n < 3 {
		return clearStack(n+1) + a[n]
	}
	return a[5]
}

// ---- C22 -----------------------------------------------------------------------

var memStats runtime.MemStats

//go:noinline
func heapAlloc() uint64 {
	clearStack(0)
	gc()
	runtime.ReadMemStats(&memStats)
	return memStats.HeapAlloc
}

// footprint compares what container c keeps alive with what a new container with the same
// contents keeps alive. It takes the container away.
func (w *World) footprint(c *Cont) (used, fresh uint64) {
	t := &Thr{w: w, id: 99}
	t.st.init()
	t.h = make([][]Box, len(w.conts))
	w.thrs, w.cur, w.sliceEnd = nil, t, ^uint64(0)
	zzamtsim.SetTrap(w.trap)
	w.install()
	var nb Box
	t.guarded(verifyOp, c, 2*c.hangAll(), func(*Frame) {
		nb = c.kind.New()
		r := newRNG(w.plan.Seed)
		for _, i := range r.perm(len(c.has)) {
			if c.has[i] {
				nb.Put(w, c, i, c.val[i])
			}
		}
	})
	zzamtsim.SetLimit(^uint64(0))
	w.uninstall()
	w.cur = nil
	gc()
	gc()
	a := heapAlloc()
	c.root = nil
	b := heapAlloc()
	drop(&nb)
	d := heapAlloc()
	runtime.KeepAlive(&nb)
	return a - b, b - d
}

//go:noinline
func drop(b *Box) { *b = nil }

// slotBytes is the memory the documented layout needs for the branches below the root: 16 bytes
// for each child of a branch, in blocks of four (C29).
func (c *Cont) slotBytes() uint64 {
	var l []int // groups shared by neighbours
	run, first := 0, true
	for p, i := range c.eff.order {
		if p > 0 {
			run = min(run, c.eff.lcp[p-1])
		}
		if !c.has[i] {
			continue
		}
		if !first {
			l = append(l, run)
		}
		first, run = false, 1<<30
	}
	var node func(l []int, d int) uint64
	node = func(l []int, d int) (sum uint64) { // of len(l)+1 keys that share d groups
		if len(l) == 0 {
			return 0
		}
		least := slices.Min(l)
		sum = 64 * uint64(least-d)
		if d == 0 && least > 0 { // the root has room of its own
			sum -= 64
		}
		n, at := 1, 0
		for j, x := range l {
			if x == least {
				sum += node(l[at:j], least+1)
				n, at = n+1, j+1
			}
		}
		sum += node(l[at:], least+1)
		if least > 0 {
			sum += 16 * uint64((n+3)/4*4)
		}
		return
	}
	return node(l, 0)
}

// overhead compares what container c keeps alive with what its keys and values alone keep
// alive, and says how much more is documented. It takes the container away.
func (w *World) overhead(c *Cont) (used, plain, extra uint64) {
	entries := make([]any, 0, c.n)
	nb := c.kind.Zero()
	t := &Thr{w: w, id: 99}
	t.st.init()
	w.thrs, w.cur = nil, t
	w.install()
	for i := range c.has {
		if c.has[i] {
			entries = append(entries, nb.Plain(w, c, i, c.val[i]))
		}
	}
	w.uninstall()
	w.cur = nil
	clearStack(0)
	gc()
	gc()
	a := heapAlloc()
	c.root = nil
	b := heapAlloc()
	clear(entries)
	d := heapAlloc()
	runtime.KeepAlive(entries)
	slots := c.slotBytes()
	return a - b, b - d, 512 + slots + slots/16
}

// ---- C10: hash helpers ----------------------------------------------------------

func (t *Thr) helper(op *Op, i int) {
	w := t.w
	k := &w.plan.Keys[i]
	iter := uint(op.N)
	seed := maphash.SimMakeSeed(hash2(w.plan.Seed, 7) | 1)
	if len(k.Str) > 400 {
		iter %= 20
	}
	bud := uint64(4000 + (400+4*len(k.Str))*(op.N+1))
	name := [...]string{"HashBytes", "Bytes.Hash", "String.Hash", "Int.Hash"}[op.M&3]
	n := len(k.Str)
	if op.M&3 == 3 {
		n = 8
	}
	t.logf("%s(key %d, %d)", name, i, iter)
	var h uint64
	f, _ := t.guarded(op, nil, bud, func(*Frame) {
		lastMsgOn, lastMsgLen, sumCalls = true, 0, 0
		switch op.M & 3 {
		case 0:
			h = amt.HashBytes(k.Str, seed, iter)
		case 1:
			h = amt.Bytes(k.Str).Hash(seed, iter)
		case 2:
			h = amt.String(k.Str).Hash(seed, iter)
		default:
			h = amt.Int(k.Int).Hash(seed, iter)
		}
		lastMsgOn = false
	})
	t.ev(h)
	t.st.OpSteps += t.since(f)
	if sumCalls == 1 && lastMsgLen != n*int(iter+1) {
		w.violate(nil, "helper-rounds", "%s with rehash count %d hashed %d bytes of a %d-byte key instead of %d", name, iter, lastMsgLen, n, n*int(iter+1))
	}
}

// ---- C21: values of the hash helpers ---------------------------------------------

// helperValue compares the result of a hash helper with the simulated hash of what the
// documentation says is hashed.
func (t *Thr) helperValue(op *Op, i int) {
	w := t.w
	k := &w.plan.Keys[i]
	iter := uint(op.N)
	raw := hash2(w.plan.Seed, 7+op.V%3) | 1
	seed := maphash.SimMakeSeed(raw)
	mem := t.buffer()[:copy(t.buffer(), k.Str)] // the caller's buffer, used again and again
	if op.V>>8&3 == 0 {
		mem = bytes.Clone(k.Str)
	}
	name := [...]string{"HashBytes", "Bytes.Hash", "String.Hash", "Int.Hash", "Equal"}[op.M%5]
	t.logf("%s(key %d, seed %d, %d)", name, i, op.V%3, iter)
	if len(k.Str) > 400 {
		iter %= 20
	}
	bud := uint64(400_000 + (400+4*len(k.Str))*(op.N+1))
	if op.M%5 == 4 {
		t.equals(op, i, mem, bud)
		return
	}
	var h uint64
	t.guarded(op, nil, bud, func(*Frame) {
		switch op.M % 5 {
		case 0:
			h = amt.HashBytes(mem, seed, iter)
		case 1:
			h = amt.Bytes(mem).Hash(seed, iter)
		case 2:
			h = amt.String(unsafe.String(unsafe.SliceData(mem), len(mem))).Hash(seed, iter)
		default:
			h = amt.Int(k.Int).Hash(seed, iter)
		}
	})
	if !bytes.Equal(mem, k.Str) {
		w.violate(nil, "helper-wrote", "%s wrote to the key: %x, was %x", name, mem, k.Str)
	}
	m := k.Str
	if op.M%5 == 3 {
		if m = keyMsg(clsInt, k); !formatOK["Map[Int]"] {
			return
		}
	}
	if want := w.sum(raw, bytes.Repeat(m, int(iter)+1)); h != want {
		w.violate(nil, "helper-value", "%s of key %d (%x) with rehash count %d is %#x, want %#x, the hash of the key written %d times", name, i, m, iter, h, want, iter+1)
	}
	t.ev(h)
}

func (t *Thr) equals(op *Op, i int, mem []byte, bud uint64) {
	w := t.w
	j := int(op.V>>16) % len(w.plan.Keys)
	k, l := &w.plan.Keys[i], &w.plan.Keys[j]
	o := bytes.Clone(l.Str)
	if n := len(o); op.V>>12&1 == 0 && n <= len(mem) && bytes.Equal(o, mem[:n]) {
		o = mem[:n] // the same memory
	}
	var b, s, n bool
	t.guarded(op, nil, bud, func(*Frame) {
		b = amt.Bytes(mem).Equal(amt.Bytes(o))
		s = amt.String(unsafe.String(unsafe.SliceData(mem), len(mem))).Equal(amt.String(unsafe.String(unsafe.SliceData(o), len(o))))
		n = amt.Int(k.Int).Equal(amt.Int(l.Int))
	})
	for q, e := range [...]bool{b, s, n} {
		if e != (i == j || q == 2 && int(k.Int) == int(l.Int)) { // an int may have 32 bits
			w.violate(nil, "helper-equal", "%s.Equal of key %d and key %d is %v", [...]string{"Bytes", "String", "Int"}[q], i, j, e)
		}
	}
}

// ---- C20: uninitialised and new containers ------------------------------------------

// panics tells whether fn panics (other than by the simulator's doing).
func panics(fn func()) (p bool) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case simAbort, simFault:
			panic(r)
		default:
			p = true
		}
	}()
	fn()
	return
}

// zero calls one method of an uninitialised container value.
func (t *Thr) zero(op *Op, i int) {
	w := t.w
	k := kinds[op.N%len(kinds)]
	names := []string{"Nil", "Len", "Dep", "Val", "Get", "Ptr", "Has", "Put", "Mod", "Del", "All"}
	m := op.M % len(names)
	if k.Set && (m >= 3 && m <= 5 || m == 8) {
		m = 6
	}
	b := k.Zero()
	if op.V&1 != 0 {
		b = b.Copy()
	}
	what := names[m] + " of an uninitialised " + k.Name
	t.logf("%s", what)
	ret := ""
	must := m >= 4
	var p bool
	t.guarded(op, nil, hangBudget, func(*Frame) {
		p = panics(func() {
			switch m {
			case 0:
				if !b.Nil() {
					ret = "false"
				}
			case 1:
				if n := b.Len(); n != 0 {
					ret = fmt.Sprint(n)
				}
			case 2:
				if d := b.Dep(); d != 0 {
					ret = fmt.Sprint(d)
				}
			case 3:
				if v, good := b.Val(w, nil, i); v != 0 || !good {
					ret = vstr(v, good)
				}
			case 4:
				b.Get(w, nil, i)
			case 5:
				b.Ptr(w, nil, i)
			case 6:
				b.Has(w, nil, i)
			case 7:
				b.Put(w, nil, i, op.V)
			case 8:
				b.Mod(w, nil, i, func(VP, bool) {})
			case 9:
				b.Del(w, nil, i)
			case 10:
				b.All(w, func(int, VP) bool { return true })
			}
		})
	})
	switch {
	case must && !p:
		w.violate(nil, "zero-no-panic", "%s does not panic", what)
	case !must && p:
		w.violate(nil, "zero-panic", "%s panics", what)
	case ret != "":
		w.violate(nil, "zero-value", "%s returns %s", what, ret)
	}
	if !b.Nil() {
		w.violate(nil, "zero-init", "%s made it initialised", what)
	}
}

// newCont is a container made by fresher, which nothing else refers to.
type newCont struct {
	b   Box
	k   *Kind
	key int // its only key; -1: none
}

// fresher makes a container and judges that it is empty, and stays as it is.
func (t *Thr) fresher(op *Op, i int) {
	w := t.w
	k := kinds[op.N%len(kinds)]
	t.logf("new %s", k.Name)
	nc := &newCont{k: k, key: -1}
	t.guarded(op, nil, hangBudget*4+uint64(len(w.plan.Keys))*4000, func(*Frame) {
		nc.b = k.New()
		t.checkNew(nc, "a new "+k.Name)
		if op.V&1 != 0 {
			nc.b.Put(w, nil, i, k.Norm(op.V))
			nc.key = i
			t.checkNew(nc, fmt.Sprintf("a new %s after insertion of key %d", k.Name, i))
		}
	})
	if w.news = append(w.news, nc); len(w.news) > 8 {
		w.news = w.news[1:]
	}
	t.checkNews()
}

// checkNews judges the containers made so far.
func (t *Thr) checkNews() {
	t.guarded(verifyOp, nil, hangBudget*16, func(*Frame) {
		for _, o := range t.w.news {
			t.checkNew(o, "a "+o.k.Name+" made before, which nobody has used since,")
		}
	})
}

func (t *Thr) checkNew(nc *newCont, what string) {
	w := t.w
	bad := func(format string, args ...any) {
		w.violate(nil, "new-not-empty", what+": "+format, args...)
	}
	if nc.b.Nil() {
		bad("Nil returns true")
	}
	want := 0
	if nc.key >= 0 {
		want = 1
	}
	if l := nc.b.Len(); l != uint64(want) {
		bad("Len returns %d", l)
	}
	if d := nc.b.Dep(); d != 0 {
		bad("Dep returns %v", d)
	}
	n := 0
	nc.b.All(w, func(id int, p VP) bool {
		if n++; id != nc.key {
			bad("All visits key %d", id)
		}
		return true
	})
	if n != want {
		bad("All visits %d keys", n)
	}
	for j := 0; j < min(len(w.plan.Keys), 30); j++ {
		if nc.b.Has(w, nil, j) != (j == nc.key) {
			bad("key %d is present: %v", j, j != nc.key)
		}
	}
}
