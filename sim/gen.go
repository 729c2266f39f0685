package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/bits"
	"slices"
)

// gen makes the plan of run idx of a property from the seed.
func gen(prop string, seed uint64, idx int, race bool) *Plan {
	s := hash2(hash2(seed, hashStr(prop)), uint64(idx))
	if race {
		s = hash2(s, 0xace)
	}
	r := newRNG(s)
	p := &Plan{Prop: prop, Seed: s, Race: race, Bits32: !bits64}
	g := &gctx{r: r, p: p}
	generators[prop](g)
	return p
}

type gctx struct {
	r    *RNG
	p    *Plan
	has  [][]bool // per container
	w    [32]int  // operation weights
	dup  bool     // handles are used
	nh   int
	deep bool // hashes agree for thousands of levels
}

// ---- keys ------------------------------------------------------------------------

type keyOpt struct {
	min     int  // keys needed
	wide    bool // many keys in few branches
	n       int
	sameLen int // percentage of keys of one length
	maxCut  int
}

func (g *gctx) keys(o keyOpt) {
	r := g.r
	strs, ints := map[string]bool{}, map[int64]bool{}
	sstyle, istyle := r.n(10), r.n(9)
	twin := -1 // the key that the last one was made from
	long := make([]byte, 60+r.n(140+200*r.n(2)))
	for i := range long {
		long[i] = byte(r.next())
	}
	prefix := make([]byte, 20+r.n(12))
	for i := range prefix {
		prefix[i] = byte(r.next())
	}
	ibase := int64(r.next())
	giant := hash2(g.p.Seed, 0x61a17)%1200 == 0 && !o.wide && o.min <= 4 // very long keys
	if giant {
		o.n = max(min(o.n, 2+int(g.p.Seed%3)), o.min)
		if o.maxCut == 0 || o.maxCut > 20 {
			o.maxCut = 20
		}
	}
	deep := o.maxCut == 0 && r.n(1500) == 0
	g.deep = g.deep || deep
	mkStr := func(i int) []byte {
		st := sstyle
		twin = -1
		if r.p(15) {
			st = r.n(6)
		}
		if st >= 8 && r.p(40) {
			st = r.n(8)
		}
		if r.p(6) {
			st = 9
		}
		if i == 0 && st == 9 {
			st = 1
		}
		var b []byte
		fill := func(n int, f func() byte) {
			for j := 0; j < n; j++ {
				b = append(b, f())
			}
		}
		switch st {
		case 0:
			fill(r.n(6), func() byte { return 'a' + byte(r.n(2)) })
		case 1:
			fill(r.n(41), func() byte { return byte(r.next()) })
		case 2:
			b = append(b, prefix...)
			fill(1+r.n(4), func() byte { return byte(r.next()) })
		case 3:
			fill(8, func() byte { return byte(r.next()) })
		case 4:
			fill(r.n(30), func() byte { return 0 })
			fill(r.n(2), func() byte { return byte(r.next()) })
		case 5:
			fill(1+r.n(20), func() byte { return byte(r.next()) })
			b = append(b, prefix[:16]...)
		case 6: // a prefix, or an extension, of another key
			if i > 0 {
				b = append(b, g.p.Keys[r.n(i)].Str...)
				if n := r.n(len(b) + 1); r.p(50) {
					b = b[:n]
				}
			}
			if len(b) < 60 {
				fill(r.n(3), func() byte { return byte(r.n(2)) * byte(r.next()) })
			}
		case 9: // much like another key
			twin = r.n(i)
			b = twinStr(r, g.p.Keys[twin].Str)
		case 8: // long, with a difference of one byte somewhere
			b = append(b, long[:len(long)-r.n(2)*r.n(20)]...)
			b[r.pick(0, len(b)-1, r.n(len(b)), len(b)/2, min(63, len(b)-1), min(64, len(b)-1))] = byte(r.next())
		default:
			fill(4, func() byte { return byte(r.next()) & 3 })
			for len(b) < 60 && r.p(50) { // period: the message of a rehash of a shorter key
				b = append(b, b[:min(len(b), 60-len(b))]...)
			}
		}
		if deep && len(b) > 12 {
			b = b[:12]
		}
		if giant && r.p(80) {
			n := r.pick(127, 255, 256, 511, 512, 1023, 1024, 2048, 4095, 4096, 4097, 32768, 65535, 65536, 65537) + r.n(2)
			x := r.next()
			for len(b) < n {
				b = append(b, byte(x>>(len(b)%48)))
			}
			b[r.pick(0, n-1, n/2, r.n(n), min(n-1, 256), min(n-1, 4096))] = byte(r.next())
			return b[:n]
		}
		if r.p(o.sameLen) {
			for len(b) < 12 {
				b = append(b, byte(r.next()))
			}
			b = b[:12]
		}
		return b
	}
	mkInt := func(i int) int64 {
		st := istyle
		if r.p(20) {
			st = r.n(8)
		}
		if i > 0 && r.p(6) || st == 8 && r.p(30) {
			st = 8
		}
		switch st {
		case 0:
			return int64(i)
		case 1:
			return -int64(i) - 1
		case 2:
			return int64(r.next())
		case 3:
			x := r.next() & 0xffffffff
			return int64(x | x<<32)
		case 4:
			return int64(uint64(1) << r.n(64))
		case 5:
			x := uint64(1)<<r.n(16) | uint64(1)<<r.n(16)
			return int64(x | x<<32*uint64(r.n(2)))
		case 6:
			return []int64{math.MinInt64, math.MaxInt64, 0, -1, 1, 1 << 31, 1<<32 - 1, -1 << 32, 0xffff, 0xffff << 32}[r.n(10)]
		case 8:
			if i > 0 {
				j := r.n(i)
				if twin >= 0 {
					j = twin
				}
				return twinInt(r, g.p.Keys[j].Int)
			}
			return int64(r.next() >> r.n(64))
		default:
			return ibase + int64(i)<<r.pick(0, 8, 31, 32, 33, 48)
		}
	}
	cutStyle, topo := r.n(9), r.n(5)
	ncuts := 1 + r.n(3)
	if deep {
		o.n = max(min(o.n, 2+r.n(4)), o.min)
	}
	cut := func() int {
		st := cutStyle
		if st == 7 {
			st = r.n(7)
		}
		c := 0
		switch st {
		case 0:
			c = 0
		case 1:
			c = r.n(4)
		case 2:
			c = 3 + r.n(12)
		case 3:
			c = 14 + r.n(4)
		case 4:
			c = 16 + r.n(16)
		case 5:
			c = 30 + r.n(4)
		case 6:
			if r.p(60) {
				c = 40 + r.n(60)
			} else {
				c = 60 + r.n(300)
			}
		case 8:
			c = r.n(2)
		}
		if deep && r.p(60) {
			c = r.pick(500, 1000, 2000, 4079, 4080, 4090, 4095, 4096, 4100) + r.n(30)
		}
		if o.maxCut > 0 && c > o.maxCut {
			c = r.n(o.maxCut + 1)
		}
		return c
	}
	cuts := make([]int, ncuts)
	for i := range cuts {
		cuts[i] = cut()
	}
	alone := r.pick(0, 0, 10, 30, 60)
	hubs := 1 + r.n(3)
	if o.wide {
		topo, alone, cuts = 0, 0, cuts[:1+r.n(len(cuts))]
		hubs = 1 + r.n(2)
	}
	for i := 0; i < o.n; i++ {
		k := KeyDef{Base: -1, Salt: r.next()}
		for try := 0; ; try++ {
			k.Str = mkStr(i)
			if try > 20 {
				k.Str = binary.LittleEndian.AppendUint64(nil, r.next())
				if r.p(o.sameLen) {
					k.Str = append(k.Str, "xxxx"...)
				}
			}
			if k.Str == nil {
				k.Str = []byte{}
			}
			if !strs[string(k.Str)] {
				break
			}
		}
		strs[string(k.Str)] = true
		for try := 0; ; try++ {
			k.Int = mkInt(i)
			if try > 20 {
				k.Int = int64(r.next())
			}
			if !ints[k.Int] {
				break
			}
		}
		ints[k.Int] = true
		if i > 0 && !r.p(alone) {
			switch topo {
			case 0: // a few hubs, a few cuts: wide fan-out at chosen levels
				k.Base, k.Cut = r.n(min(hubs, i)), cuts[r.n(len(cuts))]
			case 1: // chain
				k.Base, k.Cut = i-1, cut()
			case 2: // tree
				k.Base, k.Cut = r.n(i), cut()
			case 3: // one hub, cuts everywhere
				k.Base, k.Cut = 0, cut()
			default:
				if r.p(50) {
					k.Base, k.Cut = r.n(i), cuts[r.n(len(cuts))]
				} else {
					k.Base, k.Cut = r.n(i), cut()
				}
			}
		}
		if twin >= 0 && r.p(50) { // alike keys meet
			k.Base, k.Cut = twin, cut()
		}
		g.p.Keys = append(g.p.Keys, k)
	}
}

// twinStr returns bytes that a careless comparison takes for b.
func twinStr(r *RNG, b []byte) []byte {
	b = bytes.Clone(b)
	n := len(b)
	if n == 0 {
		return []byte{0}
	}
	i, j := r.n(n), r.n(n)
	switch r.n(12) {
	case 0:
		b[i] ^= 1 << r.n(8)
	case 1:
		b[i] ^= 0x20
	case 2:
		b[i], b[j] = b[j], b[i]
	case 3:
		if n >= 16 { // swap words
			x, y := i%(n/8)*8, j%(n/8)*8
			for k := 0; k < 8; k++ {
				b[x+k], b[y+k] = b[y+k], b[x+k]
			}
		} else {
			slices.Reverse(b)
		}
	case 4:
		b = append(b, 0)
	case 5:
		b = append(b, b[n-1])
	case 6:
		d := byte(1 + r.n(3))
		b[i] += d
		b[j] -= d
	case 7:
		b = append([]byte{byte(r.n(2)) * b[0]}, b...)
	case 8:
		b[i] = 0x80 | byte(r.next())
	case 9:
		b[i] = byte(r.pick(0, 0xff, ' ', '\n', 0x80))
	case 10:
		b = append(b, b[:r.n(n)]...)
	default:
		b = append(b[:i], b[i+1:]...)
	}
	if len(b) > max(n, 60) {
		b = b[:n]
	}
	return b
}

// twinInt returns an integer that a careless comparison takes for x.
func twinInt(r *RNG, x int64) int64 {
	u := uint64(x)
	switch r.n(11) {
	case 0:
		u ^= 1 << r.n(64)
	case 1:
		u = bits.ReverseBytes64(u)
	case 2:
		u = bits.RotateLeft64(u, r.pick(32, 16, 8, 4, 1, 31))
	case 3:
		u = ^u
	case 4:
		u = -u
	case 5:
		u = uint64(uint32(u)) | r.next()<<32
	case 6:
		u = u>>32<<32 | r.next()>>32
	case 7:
		u = u&^(0xffff<<16) | r.next()>>48<<16
	case 8:
		u = uint64(int64(int32(u)))
	case 9:
		u += uint64(r.pick(1, -1, 2, 256, 65536))
	default:
		u &^= u & -u
	}
	return int64(u)
}

func (g *gctx) nkeys() int {
	r := g.r
	switch r.n(10) {
	case 0:
		return 1 + r.n(3)
	case 1, 2, 3:
		return 3 + r.n(5)
	case 4, 5, 6:
		return 6 + r.n(10)
	case 7, 8:
		return 12 + r.n(12)
	}
	return 20 + r.n(25)
}

// ---- containers --------------------------------------------------------------------

func pickKind(r *RNG, ok func(k *Kind) bool) *Kind {
	var c []*Kind
	base := map[string]int{}
	for _, k := range kinds {
		if ok(k) {
			c = append(c, k)
			base[k.Base]++
		}
	}
	// give every container type the same share, whatever its number of value types
	names := []string{}
	seen := map[string]bool{}
	for _, k := range c {
		if !seen[k.Base] {
			seen[k.Base] = true
			names = append(names, k.Base)
		}
	}
	b := names[r.n(len(names))]
	n := r.n(base[b])
	for _, k := range c {
		if k.Base == b {
			if n == 0 {
				return k
			}
			n--
		}
	}
	return c[0]
}

func (g *gctx) cont(k *Kind) int {
	g.p.Conts = append(g.p.Conts, ContDef{k.Name, g.r.next() | 1})
	g.has = append(g.has, make([]bool, len(g.p.Keys)))
	return len(g.p.Conts) - 1
}

func anyKind(k *Kind) bool   { return true }
func mapKind(k *Kind) bool   { return !k.Set }
func setKind(k *Kind) bool   { return k.Set }
func sliceKind(k *Kind) bool { return k.Slices }

func (g *gctx) kind(c int) *Kind { return kindByName[g.p.Conts[c].Kind] }

// ---- operations --------------------------------------------------------------------

func (g *gctx) weights(ops ...int) {
	g.w = [32]int{}
	for i := 0; i+1 < len(ops); i += 2 {
		w := ops[i+1]
		if g.r.p(20) {
			w = w / 4
		} else if g.r.p(20) {
			w *= 3
		}
		g.w[ops[i]] = w
	}
}

// key picks a key that is present (or absent) with some probability.
func (g *gctx) key(c int, present bool, bias int) int {
	r, n := g.r, len(g.p.Keys)
	if r.p(bias) {
		k := r.n(n)
		for j := 0; j < n; j++ {
			q := (k + j) % n
			if g.has[c][q] == present && !g.p.Keys[q].Ghost {
				return q
			}
		}
	}
	for {
		if k := r.n(n); !g.p.Keys[k].Ghost || r.p(5) {
			return k
		}
	}
}

func (g *gctx) op(c int, k int) Op {
	r := g.r
	o := Op{K: uint8(k), C: c}
	if g.nh > 0 {
		o.H = r.n(g.nh)
	}
	isSet := g.kind(c).Set
	switch k {
	case opPut:
		o.I = g.key(c, false, 60)
		if g.p.Keys[o.I].Ghost {
			o.K = opGet
			break
		}
		o.V = r.next()>>8 | 1
		if r.p(5) {
			o.V = 0
		}
		g.has[c][o.I] = true
	case opMod:
		o.I = g.key(c, false, 50)
		if g.p.Keys[o.I].Ghost {
			o.K = opGet
			break
		}
		o.V = r.next()>>8 | 1
		o.M = r.n(4)
		if isSet {
			o.K = opPut
		}
		g.has[c][o.I] = true
	case opDel:
		o.I = g.key(c, true, 75)
		g.has[c][o.I] = false
	case opGet:
		o.I = g.key(c, true, 50)
		o.M = r.n(4)
	case opAll:
		if r.p(40) {
			o.N = 1 + r.n(len(g.p.Keys)+1)
		}
		o.V = r.next() >> 8
		o.At = -1
		if !isSet && r.p(40) {
			o.M = 1
		}
	case opHold:
		o.I = g.key(c, true, 80)
		o.N = r.n(8)
	case opPStore:
		o.N = r.n(8)
		o.V = r.next() >> 8
	case opPLoad:
		o.N = r.n(8)
	case opFresh:
		o.V = r.next()
		o.M = 1
	case opZero, opNew:
		o.I = r.n(len(g.p.Keys))
		o.M = r.n(11)
		o.N = r.n(1000)
		o.V = r.next() >> 8
		if r.p(70) { // the same type as the container
			for j, k := range kinds {
				if k == g.kind(c) {
					o.N = j
				}
			}
		}
	case opHelper:
		o.V = r.next() >> 8
		o.I = r.n(len(g.p.Keys))
		o.M = r.n(4)
		if g.p.Prop == "C21" {
			o.M = r.n(5)
		}
		o.N = r.n(18)
		if r.p(40) && (g.p.Prop != "C21" || r.p(25)) {
			o.N = r.pick(15, 16, 17, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512)
		}
	}
	return o
}

func (g *gctx) some(c int) Op {
	for {
		if k := g.r.weighted(g.w[:]); k != 0 {
			return g.op(c, k)
		}
	}
}

// history makes n operations on c in segments with different mixes.
func (g *gctx) history(c, n int) (ops []Op) {
	r := g.r
	base := g.w
	for len(ops) < n {
		g.w = base
		switch r.n(4) {
		case 0: // grow
			g.w[opPut] = g.w[opPut]*4 + 1
		case 1: // shrink
			g.w[opDel] *= 4
		case 2: // a few keys over and over
		}
		seg := 3 + r.n(20)
		for j := 0; j < seg && len(ops) < n; j++ {
			ops = append(ops, g.some(c))
		}
	}
	g.w = base
	return
}

func (g *gctx) nops() int {
	r := g.r
	if !g.deep && r.n(500) == 0 {
		return 260 + r.n(r.pick(100, 1000, 2500))
	}
	switch r.n(8) {
	case 0:
		return 3 + r.n(8)
	case 7:
		if !g.deep {
			return 80 + r.n(120)
		}
	}
	if g.deep {
		return 5 + r.n(25)
	}
	return 10 + r.n(60)
}

func (g *gctx) phase(ops ...[]Op) *Phase {
	g.p.Phases = append(g.p.Phases, Phase{Threads: ops})
	return &g.p.Phases[len(g.p.Phases)-1]
}

func every(ops []Op, n int, o Op) (out []Op) {
	for i := range ops {
		out = append(out, ops[i])
		if (i+1)%n == 0 {
			out = append(out, o)
		}
	}
	return
}

// sched makes a schedule of n slices.
func (g *gctx) sched(n int, actions []int) (s []Slice) {
	r := g.r
	style := r.n(4)
	for i := 0; i < n; i++ {
		var st uint32
		switch style {
		case 0:
			st = uint32(r.n(8))
		case 1:
			st = uint32(r.n(40))
		case 2:
			st = uint32(r.n(150))
		default:
			st = uint32(r.pick(r.n(4), r.n(30), r.n(300)))
		}
		s = append(s, Slice{st, uint8(actions[r.n(len(actions))]), uint8(r.n(8))})
	}
	return
}

// ---- properties --------------------------------------------------------------------

var generators map[string]func(g *gctx)

func init() {
	generators = map[string]func(g *gctx){
		"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06,
		"C07": genC07, "C08": genC08, "C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12,
		"C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16, "C17": genC17, "C18": genC18, "C19": genC19,
		"C20": genC20, "C21": genC21, "C22": genC22, "C23": genC23, "C24": genC24, "C25": genC25,
		"C26": genC26, "C27": genC27, "C28": genC28, "C29": genC29,
	}
}

// big gives a larger universe of unrelated or lightly related keys now and then.
func (g *gctx) setup(ok func(*Kind) bool) int {
	g.keys(keyOpt{n: g.nkeys(), sameLen: g.r.pick(0, 0, 30, 100)})
	return g.cont(pickKind(g.r, ok))
}

// large makes, now and then, a run with more keys than 16 bits count.
// Slow: all keys are read after many of the operations.
func (g *gctx) large(ok func(*Kind) bool, slow bool) bool {
	r := g.r
	size := r.n(8000)
	if size > 25 || slow && size == 0 {
		return false
	}
	fam := map[string]bool{}
	for _, k := range kinds {
		if ok(k) {
			fam[k.family()] = true
		}
	}
	fams := sortedKeys(fam)
	f, all := fams[r.n(len(fams))], ok
	ok = func(k *Kind) bool { return all(k) && k.family() == f }
	if size == 0 && r.p(40) { // more operations than 16 bits count, on few keys
		g.keys(keyOpt{n: 2 + r.n(6), maxCut: 20})
		c := g.cont(pickKind(r, ok))
		g.weights(opPut, 10, opMod, 3, opDel, 10, opGet, 1, opAll, 1)
		ops := every(g.history(c, 66000+r.n(3000)), 4000, Op{K: opVerify, C: c})
		g.phase(append(ops, Op{K: opVerify, C: c}))
		return true
	}
	dels := 3000
	g.p.Cold = r.p(50)
	g.p.AutoKeys = 65600 + r.n(3000)
	if size > 0 {
		g.p.AutoKeys = 130 + r.n(r.pick(300, 1000, 3000))
		dels = r.n(2 * g.p.AutoKeys)
	}
	if slow {
		g.p.AutoKeys, dels = 130+r.n(400), r.n(150)
	}
	g.p.expand()
	c := g.cont(pickKind(r, ok))
	var ops []Op
	for _, i := range r.perm(g.p.AutoKeys) {
		o := Op{K: opPut, C: c, I: i, V: uint64(i) + 1}
		if r.p(20) && !g.kind(c).Set {
			o.K, o.M = opMod, 1
		}
		ops = append(ops, o)
	}
	ops = append(ops, Op{K: opVerify, C: c})
	for q := 0; q < dels; q++ {
		o := Op{K: opDel, C: c, I: r.n(g.p.AutoKeys)}
		if r.p(40) {
			o.K, o.V = opPut, r.next()>>8
		}
		ops = append(ops, o)
	}
	ops = append(ops, Op{K: opVerify, C: c}, Op{K: opAll, C: c, At: -1, N: 70}, Op{K: opDep, C: c})
	g.p.Keys = nil
	g.phase(ops)
	return true
}

// sparse makes, in some runs, all looks at the container rare, so that what a look
// repairs or remembers does not hide what happens between two operations.
func (g *gctx) sparse(c int, ops []Op) []Op {
	r := g.r
	if !r.p(30) {
		return ops
	}
	g.p.Cold = true
	ops = every(ops, 2+r.n(r.pick(3, 10, 40, 200)), Op{K: opVerify, C: c})
	return append(ops, Op{K: opVerify, C: c})
}

func genC01(g *gctx) {
	if g.large(mapKind, false) {
		return
	}
	c := g.setup(mapKind)
	g.weights(opPut, 10, opMod, 4, opDel, 8, opGet, 8, opAll, 1, opHold, 1, opPStore, 1)
	ops := g.history(c, g.nops())
	ops = every(ops, g.r.pick(4, 4, 4, 40)+g.r.n(12), Op{K: opVerify, C: c})
	g.phase(append(ops, Op{K: opVerify, C: c}))
}

func genC02(g *gctx) {
	if g.large(setKind, false) {
		return
	}
	c := g.setup(setKind)
	g.weights(opPut, 10, opDel, 8, opGet, 6, opAll, 1)
	ops := g.history(c, g.nops())
	ops = every(ops, g.r.pick(4, 4, 4, 40)+g.r.n(12), Op{K: opVerify, C: c})
	g.phase(append(ops, Op{K: opVerify, C: c}))
}

func genC03(g *gctx) {
	if g.large(anyKind, true) {
		return
	}
	c := g.setup(anyKind)
	g.weights(opPut, 10, opMod, 3, opDel, 10, opGet, 1)
	g.phase(g.sparse(c, g.history(c, g.nops())))
}

func genC04(g *gctx) {
	if g.large(anyKind, false) {
		return
	}
	c := g.setup(anyKind)
	g.weights(opPut, 10, opMod, 5, opDel, 9, opGet, 2, opAll, 2)
	g.phase(g.sparse(c, g.history(c, g.nops())))
}

func genC05(g *gctx) {
	if g.large(anyKind, false) {
		return
	}
	c := g.setup(anyKind)
	g.weights(opPut, 8, opMod, 2, opDel, 6, opAll, 8, opHold, 1, opPStore, 1)
	ops := g.history(c, g.nops())
	for i := range ops {
		if ops[i].K == opAll && g.r.p(30) {
			ops[i].M |= 8
		}
	}
	g.p.Cold = g.r.p(20)
	g.phase(append(ops, Op{K: opAll, C: c, At: -1}, Op{K: opAll, C: c, At: -1}))
}

func genC06(g *gctx) {
	if g.large(mapKind, true) {
		return
	}
	c := g.setup(mapKind)
	g.weights(opPut, 3, opMod, 12, opDel, 6, opPStore, 1, opHold, 1)
	g.phase(g.sparse(c, g.history(c, g.nops())))
}

func genC07(g *gctx) {
	c := g.setup(mapKind)
	g.weights(opPut, 8, opMod, 5, opDel, 7, opHold, 8, opPStore, 6, opPLoad, 2, opAll, 2)
	ops := g.history(c, g.nops())
	for i := range ops {
		if o := &ops[i]; (o.K == opMod || o.K == opAll) && g.r.p(50) {
			o.M |= 4
			o.N = 0
			if o.K == opMod {
				o.N = g.r.n(8)
			}
		}
	}
	ops = g.sparse(c, ops)
	g.phase(append(ops, Op{K: opVerify, C: c}))
}

func genC08(g *gctx) {
	r := g.r
	c := g.setup(anyKind)
	nc := 2 + r.n(2)
	for len(g.p.Conts) < nc {
		g.cont(kindByName[g.p.Conts[c].Kind])
		g.p.Conts[len(g.p.Conts)-1].Seed = g.p.Conts[c].Seed
	}
	g.weights(opPut, 10, opMod, 5, opDel, 8, opAll, 1)
	var ops []Op
	rounds := 1 + r.n(4)
	for q := 0; q < rounds; q++ {
		target := make([]bool, len(g.p.Keys))
		pc := r.pick(10, 30, 60, 90)
		for i := range target {
			target[i] = r.p(pc)
		}
		for x := 0; x < nc; x++ {
			ops = append(ops, g.history(x, r.n(25))...)
			for _, i := range r.perm(len(target)) {
				if target[i] != g.has[x][i] {
					o := Op{K: opDel, C: x, I: i}
					if target[i] {
						o.K, o.V = opPut, r.next()>>8
						if !g.kind(x).Set && r.p(40) {
							o.K = opMod
						}
					}
					g.has[x][i] = target[i]
					ops = append(ops, o)
				} else if r.p(10) { // delete of an absent key, update of a present one
					o := Op{K: opDel, C: x, I: i}
					if target[i] {
						o.K = opPut
					}
					ops = append(ops, o)
				}
			}
		}
		for x := 1; x < nc; x++ {
			ops = append(ops, Op{K: opCompare, C: x, N: 0})
		}
		ops = append(ops, Op{K: opFresh, C: r.n(nc), V: r.next(), M: r.n(2)})
	}
	g.phase(ops)
}

func genC09(g *gctx) {
	r := g.r
	if r.n(400) == 0 {
		g.p.AutoKeys = 1200 + r.n(1500)
		g.p.expand()
		c := g.cont(pickKind(r, func(k *Kind) bool { return !k.VZero || k.Set }))
		var ops []Op
		for _, i := range r.perm(g.p.AutoKeys) {
			ops = append(ops, Op{K: opPut, C: c, I: i, V: uint64(i)})
			if r.p(20) {
				ops = append(ops, Op{K: opDel, C: c, I: r.n(g.p.AutoKeys)})
			}
		}
		g.p.Keys = nil
		g.phase(ops)
		return
	}
	c := g.setup(anyKind)
	g.weights(opPut, 10, opMod, 6, opDel, 9, opAll, 1)
	g.phase(g.sparse(c, g.history(c, g.nops())))
}

func genC10(g *gctx) {
	r := g.r
	c := g.setup(anyKind)
	g.weights(opPut, 10, opMod, 5, opDel, 8, opGet, 6, opAll, 2, opDep, 1, opHelper, 2)
	ops := g.history(c, g.nops())
	if r.p(40) {
		g.faults(ops, 15)
	}
	g.phase(ops)
}

// faults gives some operations an interruption of the user code they call.
func (g *gctx) faults(ops []Op, pct int) {
	r := g.r
	for i := range ops {
		o := &ops[i]
		if !r.p(pct) || int(o.C) >= len(g.p.Conts) {
			continue
		}
		k := g.kind(o.C)
		var at []string
		if o.K == opMod {
			at = append(at, "mod", "mod")
		}
		if o.K == opAll {
			o.F = &Fault{At: "all", N: 1 + r.n(len(g.p.Keys)), Exit: r.p(25)}
			continue
		}
		if o.K != opPut && o.K != opMod && o.K != opDel && o.K != opGet {
			continue
		}
		if k.Generic {
			if k.Cls == clsA16 || k.Cls == clsAStr || k.Cls == clsA64 {
				at = append(at, "bytes")
			} else {
				at = append(at, "hash", "hash", "equal")
			}
		}
		if len(at) == 0 {
			continue
		}
		f := &Fault{At: at[r.n(len(at))], N: 1, Exit: r.p(20)}
		switch f.At {
		case "hash":
			f.N = r.pick(1, 1, 2, 2, 3, 4, 5, 6, 8, 12)
		case "bytes":
			f.N = r.pick(1, 2)
		}
		o.F = f
	}
}

func genC11(g *gctx) {
	r := g.r
	c := g.setup(func(k *Kind) bool {
		if k.Generic {
			return true
		}
		if k.Set {
			return r.p(10)
		}
		return r.p(60)
	})
	g.weights(opPut, 8, opMod, 10, opDel, 7, opAll, 3, opGet, 1)
	ops := g.history(c, g.nops())
	g.faults(ops, 30)
	g.p.Cold = r.p(25)
	g.phase(append(ops, Op{K: opVerify, C: c}, g.canonical(c)))
}

// reads makes nested read operations on c.
func (g *gctx) reads(c, depth int, key int) (ops []Op) {
	r := g.r
	n := 1 + r.n(4)
	for j := 0; j < n; j++ {
		k := r.pick(opGet, opGet, opGet, opLen, opDep, opAll, opVerify)
		o := g.op(c, k)
		if k == opGet && r.p(50) {
			o.I = key
		}
		if k == opAll {
			o.M = 0
			if depth < 2 && r.p(30) {
				o.At = r.n(4)
				o.Sub = g.reads(c, depth+1, key)
			}
		}
		ops = append(ops, o)
	}
	return
}

func genC12(g *gctx) {
	r := g.r
	c := g.setup(func(k *Kind) bool { return !k.Set || r.p(20) })
	g.weights(opPut, 6, opMod, 10, opDel, 6, opAll, 4)
	if r.p(40) {
		g.nh = 3
	}
	ops := g.history(c, g.nops()/2+3)
	for i := range ops {
		o := &ops[i]
		if o.K == opMod && r.p(70) || o.K == opAll && r.p(80) {
			if o.K == opAll {
				o.At = r.n(len(g.p.Keys))
				if r.p(60) {
					o.At = 0
				}
			}
			o.Sub = g.reads(c, 0, o.I)
		}
	}
	if hash2(g.p.Seed, 0x3e7)%3 == 0 {
		g.methods(ops, c)
	}
	if g.nh > 0 {
		ops = append([]Op{{K: opCopy, C: c}, {K: opCopy, C: c}}, ops...)
	}
	g.phase(append(ops, Op{K: opVerify, C: c}, g.canonical(c)))
}

// methods has reads run from inside the methods of keys.
func (g *gctx) methods(ops []Op, c int) {
	r := g.r
	k := g.kind(c)
	if !k.Generic {
		return
	}
	for i := range ops {
		o := &ops[i]
		if len(o.Sub) > 0 || o.K != opPut && o.K != opMod && o.K != opDel && o.K != opGet || !r.p(40) {
			continue
		}
		o.W, o.At = r.pickS("hash", "equal"), r.pick(0, 0, 0, 1, 1, 2, 3, 4, 6)
		if k.Cls == clsA16 || k.Cls == clsAStr || k.Cls == clsA64 {
			o.W, o.At = "bytes", r.n(2)
		}
		o.Sub = g.reads(c, 1, o.I)
	}
}

// canonical compares the structure of c with that of a new container.
func (g *gctx) canonical(c int) Op { return Op{K: opFresh, C: c, V: g.r.next(), M: g.r.n(2)} }

func (g *gctx) readers(c int) {
	r := g.r
	nt := 2 + r.n(3)
	var ths [][]Op
	for t := 0; t < nt; t++ {
		var ops []Op
		if r.p(40) {
			ops = append(ops, Op{K: opCopy, C: c})
		}
		n := 2 + r.n(10)
		for j := 0; j < n; j++ {
			k := r.pick(opGet, opGet, opGet, opGet, opAll, opLen, opDep)
			o := g.op(c, k)
			o.H = r.n(3)
			if k == opAll {
				o.M = 0
				if r.p(30) {
					o.At, o.Sub = r.n(4), g.reads(c, 1, r.n(len(g.p.Keys)))
				}
			}
			ops = append(ops, o)
		}
		ths = append(ths, ops)
	}
	ph := g.phase(ths...)
	ph.Sched = g.sched(5+r.n(80), []int{0})
}

func genC13(g *gctx) {
	r := g.r
	c := g.setup(anyKind)
	rounds := 1 + r.n(3)
	g.p.Cold = r.p(50)
	for q := 0; q < rounds; q++ {
		g.weights(opPut, 10, opMod, 4, opDel, 6, opCopy, 1)
		ops := g.history(c, 2+g.nops()/2)
		if !g.p.Cold {
			ops = append(ops, Op{K: opVerify, C: c})
		}
		g.phase(ops)
		g.readers(c)
	}
	g.phase([]Op{{K: opVerify, C: c}, g.canonical(c)})
}

func genC14(g *gctx) {
	r := g.r
	c := g.setup(anyKind)
	g.p.Locks = true
	g.p.Cold = r.p(30)
	g.nh = 4
	nc := 1
	if r.p(20) {
		g.cont(pickKind(r, anyKind))
		nc = 2
	}
	g.phase(append([]Op{}, Op{K: opCopy, C: c}, Op{K: opCopy, C: c, H: 1}))
	phases := 1 + r.n(2)
	for q := 0; q < phases; q++ {
		nt := 1 + r.n(3)
		var ths [][]Op
		g.weights(opPut, 10, opMod, 5, opDel, 8, opGet, 8, opAll, 3, opLen, 3, opDep, 1, opCopy, 3, opHold, 2, opPStore, 2)
		for t := 0; t < nt; t++ {
			x := r.n(nc)
			var ops []Op
			n := 3 + r.n(25)
			for j := 0; j < n; j++ {
				if r.p(20) {
					x = r.n(nc)
				}
				ops = append(ops, g.some(x))
			}
			ths = append(ths, ops)
		}
		ph := g.phase(ths...)
		if nt > 1 {
			ph.Sched = g.sched(5+r.n(100), []int{0})
		}
	}
	var fin []Op
	for x := 0; x < nc; x++ {
		for h := 0; h < 5; h++ {
			fin = append(fin, Op{K: opVerify, C: x, H: h})
		}
		fin = append(fin, g.canonical(x))
	}
	g.phase(fin)
}

func genC15(g *gctx) {
	r := g.r
	g.keys(keyOpt{n: g.nkeys(), maxCut: r.pick(0, 20, 40)})
	g.p.Cold = r.p(30)
	nt := 1 + r.n(4)
	own := make([][]int, nt)
	same := r.p(50)
	var k0 *Kind
	for t := 0; t < nt; t++ {
		for n := 1 + r.n(2) + b2i(nt == 1); n > 0; n-- {
			k := pickKind(r, anyKind)
			if same && k0 != nil && r.p(80) {
				k = k0
			}
			k0 = k
			c := g.cont(k)
			if r.p(50) {
				g.p.Conts[c].Seed = g.p.Conts[0].Seed
			}
			own[t] = append(own[t], c)
		}
	}
	phases := 1 + r.n(2)
	for q := 0; q < phases; q++ {
		var ths [][]Op
		for t := 0; t < nt; t++ {
			var ops []Op
			n := 4 + r.n(25)
			g.weights(opPut, 10, opMod, 6, opDel, 8, opGet, 5, opAll, 3, opLen, 2, opDep, 1)
			for j := 0; j < n; j++ {
				c := own[t][r.n(len(own[t]))]
				o := g.some(c)
				if (o.K == opMod || o.K == opAll) && len(own[t]) > 1 && r.p(60) {
					o.At = r.n(3)
					for x := 1 + r.n(3); x > 0; x-- {
						d := own[t][r.n(len(own[t]))]
						if d != c {
							s := g.some(d)
							if s.K == opMod && r.p(30) {
								s.Sub = append(s.Sub, g.op(c, opGet))
							}
							o.Sub = append(o.Sub, s)
						}
					}
				}
				ops = append(ops, o)
			}
			for _, c := range own[t] {
				ops = append(ops, Op{K: opVerify, C: c})
			}
			ths = append(ths, ops)
		}
		ph := g.phase(ths...)
		if nt > 1 {
			ph.Sched = g.sched(5+r.n(120), []int{0})
		}
	}
	var fin []Op
	for c := range g.p.Conts {
		fin = append(fin, Op{K: opVerify, C: c}, g.canonical(c))
	}
	g.phase(fin)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func genC16(g *gctx) {
	r := g.r
	g.keys(keyOpt{n: g.nkeys(), sameLen: r.pick(0, 50, 100)})
	c := g.cont(pickKind(r, func(k *Kind) bool {
		return k.Slices || (k.Cls == clsStr && r.p(30))
	}))
	g.weights(opPut, 8, opMod, 4, opDel, 8, opGet, 10, opAll, 2, opVerify, 1)
	ops := g.history(c, g.nops())
	if hash2(g.p.Seed, 0x6c)%12 == 0 {
		ops = append(ops, Op{K: opGC, C: c})
	}
	ph := g.phase(append(ops, Op{K: opVerify, C: c}, g.canonical(c)))
	if r.p(60) {
		ph.Sched = g.sched(3+r.n(40), []int{4})
	}
}

func genC17(g *gctx) {
	r := g.r
	n := g.nkeys()
	g.keys(keyOpt{n: n + 3, min: 5, sameLen: r.pick(70, 100)})
	n = len(g.p.Keys) - 3
	for i := n; i < n+3; i++ {
		g.p.Keys[i].Ghost = true
	}
	c := g.cont(pickKind(r, sliceKind))
	g.weights(opPut, 10, opMod, 4, opDel, 3, opGet, 1)
	ops := g.history(c, 3+r.n(25))
	g.weights(opPut, 8, opMod, 4, opDel, 8, opGet, 5, opAll, 2, opLen, 1)
	for q := 1 + r.n(3); q > 0; q-- {
		for x := 1 + r.n(3); x > 0; x-- {
			o := Op{K: opCorrupt, C: c, I: g.key(c, true, 95), V: r.next()}
			if r.p(60) {
				o.N = 1 + r.n(n+3)
			}
			ops = append(ops, o)
		}
		ops = append(ops, g.history(c, 2+r.n(25))...)
		ops = append(ops, Op{K: opVerify, C: c})
	}
	g.phase(ops)
}

func genC18(g *gctx) {
	r := g.r
	c := g.setup(func(k *Kind) bool { return true })
	g.weights(opPut, 10, opMod, 6, opDel, 8, opGet, 4, opAll, 3, opHold, 2, opPStore, 2)
	ops := g.history(c, 5+r.n(60))
	ops = every(ops, 5+r.n(20), Op{K: opVerify, C: c})
	ph := g.phase(append(ops, Op{K: opGC, C: c}, Op{K: opVerify, C: c}))
	ph.Sched = g.sched(2+r.n(14), []int{1, 1, 2, 3})
	for i := range ph.Sched { // spread over the history
		ph.Sched[i].S = ph.Sched[i].S*uint32(r.pick(1, 3, 10)) + uint32(r.n(60))
	}
}

func genC19(g *gctx) {
	r := g.r
	c := g.setup(func(k *Kind) bool { return k.WeakK || k.WeakV })
	g.weights(opPut, 10, opMod, 4, opDel, 10, opGet, 1, opAll, 1)
	var ops []Op
	for q := 1 + r.n(4); q > 0; q-- {
		ops = append(ops, g.history(c, 1+r.n(30))...)
		if r.p(50) {
			for x := r.n(6); x > 0; x-- {
				ops = append(ops, g.op(c, opDel))
			}
		}
		if r.p(40) {
			o := g.op(c, opDel)
			o.I = g.key(c, false, 100)
			ops = append(ops, o)
		}
		ops = append(ops, Op{K: opGC, C: c})
	}
	g.phase(ops)
}

// callers makes threads that each have containers of their own.
func (g *gctx) callers(nt, ops int, sub func(o *Op, c int)) {
	r := g.r
	own := make([][]int, nt)
	for t := 0; t < nt; t++ {
		for n := 1 + r.n(2); n > 0; n-- {
			k := pickKind(r, anyKind)
			if len(g.p.Conts) > 0 && r.p(50) {
				k = g.kind(0)
			}
			own[t] = append(own[t], g.cont(k))
		}
	}
	var ths [][]Op
	for t := 0; t < nt; t++ {
		var l []Op
		for j := 3 + r.n(ops); j > 0; j-- {
			c := own[t][r.n(len(own[t]))]
			o := g.some(c)
			if (o.K == opMod || o.K == opAll) && r.p(50) {
				o.At = r.n(3)
				sub(&o, c)
			}
			l = append(l, o)
		}
		if r.p(25) {
			g.faults(l, 15)
		}
		ths = append(ths, l)
	}
	ph := g.phase(ths...)
	if nt > 1 {
		ph.Sched = g.sched(5+r.n(100), []int{0})
	}
}

func genC20(g *gctx) {
	r := g.r
	g.keys(keyOpt{n: g.nkeys(), maxCut: 40})
	g.weights(opPut, 10, opMod, 5, opDel, r.pick(6, 20), opGet, 2, opAll, 2, opZero, 10, opNew, 10)
	g.callers(1+r.n(3), 30, func(o *Op, c int) {
		o.Sub = append(o.Sub, g.op(c, r.pick(opZero, opNew)))
	})
	g.phase([]Op{{K: opNew, N: r.n(1000)}})
}

func genC21(g *gctx) {
	r := g.r
	g.keys(keyOpt{n: g.nkeys(), maxCut: 40})
	g.weights(opPut, 4, opMod, 2, opDel, 3, opGet, 2, opAll, 1, opHelper, 20)
	g.callers(1+r.n(3), 40, func(o *Op, c int) {
		o.Sub = append(o.Sub, g.op(c, opHelper))
	})
}

func genC22(g *gctx) {
	r := g.r
	o := keyOpt{n: g.nkeys(), sameLen: g.r.pick(0, 0, 30, 100)}
	if r.p(60) {
		o.n, o.wide = max(o.n, 8+r.n(30)), true
	}
	g.keys(o)
	c := g.cont(pickKind(r, func(k *Kind) bool { return exactSize[k.Name] }))
	g.weights(opPut, 10, opMod, 4, opDel, r.pick(5, 10, 15), opGet, 1, opAll, 1)
	ops := g.history(c, g.nops())
	if r.p(20) {
		g.faults(ops, 10)
	}
	g.phase(ops)
}

func genC29(g *gctx) {
	r := g.r
	exact := func(k *Kind) bool { return exactSize[k.Name] }
	o := keyOpt{n: g.nkeys(), sameLen: g.r.pick(0, 0, 30, 100)}
	switch {
	case r.p(15): // many
		g.p.AutoKeys = 200 + r.n(r.pick(300, 1000, 3000))
		g.p.expand()
		c := g.cont(pickKind(r, exact))
		var ops []Op
		for q, i := range r.perm(g.p.AutoKeys) {
			ops = append(ops, Op{K: opPut, C: c, I: i, V: uint64(i)})
			if r.p(20) {
				ops = append(ops, Op{K: opDel, C: c, I: r.n(q + 1)})
			}
		}
		g.p.Keys = nil
		g.phase(ops)
		return
	case r.p(60):
		o.n, o.wide = max(o.n, 8+r.n(30)), true
	}
	comb := r.p(45) // branches of one width at one depth
	width := 1 + r.n(r.pick(8, 16, 16))
	if comb {
		o.n = r.pick(16*width, 16*width, 9+r.n(100), 9+r.n(500))
	}
	g.keys(o)
	c := g.cont(pickKind(r, exact))
	if comb {
		g.comb(width, r.pick(1, 1, 1, 2, 3, 14, 15, 16))
		var ops []Op
		for _, i := range r.perm(o.n) {
			ops = append(ops, Op{K: opPut, C: c, I: i, V: uint64(i)})
		}
		dels := r.perm(o.n)
		if keep := min(width, r.pick(1, 4, 8, 12, 1+r.n(width))); r.p(60) { // every branch shrinks to this width
			dels = slices.DeleteFunc(dels, func(i int) bool { return i%width < keep })
		} else {
			dels = dels[:r.pick(0, 0, 1, 4, o.n/4)]
		}
		for _, i := range dels {
			ops = append(ops, Op{K: opDel, C: c, I: i})
		}
		g.phase(ops)
		return
	}
	g.weights(opPut, 10, opMod, 5, opDel, r.pick(1, 3, 6), opGet, 1, opAll, 1)
	ops := g.history(c, g.nops())
	if r.p(20) {
		g.faults(ops, 10)
	}
	g.phase(ops)
}

// comb makes the keys part in branches of the given width (the last may be narrower), at most
// 16 of them below each other, all at the same depth.
func (g *gctx) comb(width, depth int) {
	r := g.r
	salt := func(delta int) uint64 { // see genNibs
		for {
			if s := r.next(); int(hash2(s, 77)%15)+1 == delta {
				return s
			}
		}
	}
	for i := range g.p.Keys {
		k := &g.p.Keys[i]
		b, x := i/width, i%width
		switch {
		case x > 0: // in the branch of key i-x
			k.Base, k.Cut, k.Salt = i-x, depth, salt(x)
		case b%16 > 0: // the first of another branch, next to it
			k.Base, k.Cut, k.Salt = i-b%16*width, depth-1, salt(b%16)
		default:
			k.Base = -1
		}
	}
}

func genC23(g *gctx) {
	r := g.r
	g.keys(keyOpt{n: g.nkeys()})
	nc := 2 + r.n(3)
	k := pickKind(r, anyKind)
	for x := 0; x < nc; x++ {
		if r.p(30) {
			k = pickKind(r, anyKind)
		}
		g.cont(k)
	}
	g.weights(opPut, 10, opMod, 5, opDel, 8, opGet, 6, opAll, 1)
	var ops []Op
	for q := 2 + r.n(6); q > 0; q-- {
		ops = append(ops, g.history(r.n(nc), 1+r.n(15))...)
	}
	if r.p(30) {
		g.faults(ops, 10)
	}
	g.phase(ops)
}

// updates makes nested operations that update present entries of c (the others are skipped when they run).
func (g *gctx) updates(c, depth, key int) (ops []Op) {
	r := g.r
	for n := 1 + r.n(5); n > 0; n-- {
		k := r.pick(opPut, opPut, opPut, opMod, opMod, opGet, opAll, opPStore, opLen, opDep)
		o := g.op(c, k)
		if o.K == opPut || o.K == opMod {
			o.I = g.key(c, true, 100)
			if r.p(40) {
				o.I = key
			}
		}
		if (o.K == opMod || o.K == opAll) && depth < 2 && r.p(40) {
			o.At = r.n(4)
			o.Sub = g.updates(c, depth+1, o.I)
		}
		ops = append(ops, o)
	}
	return
}

func genC24(g *gctx) {
	r := g.r
	c := g.setup(func(k *Kind) bool { return !k.Set || r.p(15) })
	g.weights(opPut, 6, opMod, 9, opDel, 4, opAll, 5, opHold, 2, opPStore, 1)
	ops := g.history(c, g.nops()/2+3)
	for i := range ops {
		o := &ops[i]
		if (o.K == opMod || o.K == opAll) && r.p(75) {
			if o.K == opAll {
				o.At = r.n(len(g.p.Keys))
				if r.p(50) {
					o.At = r.n(3)
				}
			}
			has := append([]bool{}, g.has[c]...)
			o.Sub = g.updates(c, 0, o.I)
			g.has[c] = has
		}
	}
	g.p.Cold = r.p(25)
	g.phase(append(ops, Op{K: opVerify, C: c}, g.canonical(c)))
}

func genC25(g *gctx) {
	r := g.r
	c := g.setup(func(k *Kind) bool { return k.WeakK || r.p(10) })
	g.weights(opPut, 10, opMod, 6, opDel, 6, opGet, 4, opAll, 2)
	ops := g.history(c, g.nops())
	if r.p(50) {
		for i := range ops { // updates of present entries
			if o := &ops[i]; (o.K == opPut || o.K == opMod) && i > 0 && r.p(30) {
				o.I = ops[r.n(i)].I
			}
		}
	}
	ops = append(ops, Op{K: opAll, C: c, At: -1})
	if r.p(40) {
		ops = append(ops, Op{K: opGC, C: c})
	}
	g.phase(ops)
}

func genC26(g *gctx) {
	if g.large(anyKind, false) {
		return
	}
	r := g.r
	c := g.setup(anyKind)
	g.weights(opPut, 8, opMod, 7, opDel, 7, opAll, 5, opGet, 3, opDep, 1, opHelper, 1, opCopy, 1)
	if r.p(20) {
		g.nh = 3
	}
	ops := g.history(c, g.nops())
	if r.p(40) {
		g.faults(ops, 20)
	}
	for i := range ops {
		if o := &ops[i]; (o.K == opMod || o.K == opAll) && o.F == nil && r.p(20) {
			o.Sub = g.reads(c, 0, o.I)
		}
	}
	if r.n(150) == 0 {
		ops = append(ops, Op{K: opGC, C: c})
	}
	g.phase(ops)
}

func genC27(g *gctx) {
	r := g.r
	g.keys(keyOpt{n: g.nkeys()})
	var ops []Op
	weak := func(k *Kind) bool { return k.WeakK || k.WeakV }
	for n := 1 + r.n(3); n > 0; n-- {
		k := pickKind(r, weak)
		if len(g.p.Conts) > 0 && r.p(60) {
			k = g.kind(0)
		}
		c := g.cont(k)
		g.weights(opPut, 10, opMod, 6, opDel, 6, opGet, 4, opAll, 2, opDep, 1)
		h := g.history(c, 1+r.n(25))
		if r.p(40) {
			g.faults(h, 20)
		}
		for i := range h {
			if o := &h[i]; (o.K == opMod || o.K == opAll) && o.F == nil && r.p(20) {
				o.Sub = g.reads(c, 0, o.I)
			}
		}
		if len(ops) > 0 && r.p(50) {
			ops = g.riffle(ops, h)
		} else {
			ops = append(ops, h...)
		}
	}
	g.phase(ops)
}

func genC28(g *gctx) {
	r := g.r
	methods := func(k *Kind) bool { return k.Generic }
	if g.large(methods, false) {
		return
	}
	c := g.setup(methods)
	k := g.kind(c)
	var ops []Op
	for n := 1 + r.n(4)/3; n > 0; n-- {
		g.weights(opPut, 9, opMod, 6, opDel, 8, opGet, 5, opAll, 2, opLen, 1, opDep, 1, opHold, 1, opPStore, 1)
		h := g.history(c, g.nops())
		if r.p(40) {
			g.faults(h, 20)
		}
		for i := range h {
			if o := &h[i]; (o.K == opMod || o.K == opAll) && o.F == nil && r.p(20) {
				o.Sub = g.reads(c, 0, o.I)
			}
		}
		if r.p(15) {
			g.methods(h, c)
		}
		ops = g.riffle(ops, h)
		if n > 1 {
			c = g.cont(k)
		}
	}
	g.phase(append(ops, Op{K: opVerify, C: c}))
}

// riffle mixes two histories.
func (g *gctx) riffle(a, b []Op) (ops []Op) {
	for len(a)+len(b) > 0 {
		if len(b) == 0 || len(a) > 0 && g.r.p(50) {
			ops, a = append(ops, a[0]), a[1:]
		} else {
			ops, b = append(ops, b[0]), b[1:]
		}
	}
	return
}

// twin is the plan without the fault, schedule or sharing the property is
// about: only if it runs clean is a violation of the plan attributed to the property.
func twin(p *Plan, cont int) *Plan {
	q := *p
	q.Race = false
	strip := func(f func(o *Op)) {
		q.Phases = nil
		for _, ph := range p.Phases {
			nph := Phase{Sched: ph.Sched}
			for _, t := range ph.Threads {
				nt := append([]Op{}, t...)
				for i := range nt {
					f(&nt[i])
				}
				nph.Threads = append(nph.Threads, nt)
			}
			q.Phases = append(q.Phases, nph)
		}
	}
	switch p.Prop {
	case "C11":
		strip(func(o *Op) { o.F = nil })
	case "C12", "C24":
		strip(func(o *Op) { o.Sub = nil })
	case "C13", "C14":
		strip(func(o *Op) { o.H = 0 })
		for i := range q.Phases {
			var all []Op
			for _, t := range q.Phases[i].Threads {
				for _, o := range t {
					if o.K != opCopy {
						all = append(all, o)
					}
				}
			}
			q.Phases[i] = Phase{Threads: [][]Op{all}}
		}
		q.Locks = false
	case "C15": // container cont alone
		var flat func(ops []Op, out []Op) []Op
		flat = func(ops []Op, out []Op) []Op {
			for _, o := range ops {
				sub := o.Sub
				o.Sub = nil
				if o.C%len(p.Conts) == cont {
					o.C = 0
					out = append(out, o)
				}
				out = flat(sub, out)
			}
			return out
		}
		q.Phases = nil
		for _, ph := range p.Phases {
			var all []Op
			for _, t := range ph.Threads {
				all = flat(t, all)
			}
			q.Phases = append(q.Phases, Phase{Threads: [][]Op{all}})
		}
		q.Conts = []ContDef{p.Conts[cont]}
	case "C16", "C17":
		q.Tame = true
	default:
		return nil
	}
	return &q
}
