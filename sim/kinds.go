package main

import (
	"bytes"
	"encoding/binary"
	"hash/maphash"
	"math"
	"strconv"
	"strings"
	"unsafe"
	"weak"

	"github.com/wdamron/amt"
	"github.com/wdamron/amt/zzamtsim"
)

// ---- hooks called by user-supplied key types -------------------------------

// userHook is called on entry of every piece of user code (key methods).
var userHook func(at string)

func user(at string) {
	if userHook != nil {
		userHook(at)
	}
}

// keyHook is called on entry of the key methods, before userHook: which method of which key,
// with which rehash count (see World.keyUsed).
var keyHook func(at int, id func(w *World) int, where unsafe.Pointer, iter uint)

func used(at int, id func(w *World) int, where unsafe.Pointer, iter uint) {
	if keyHook != nil {
		keyHook(at, id, where, iter)
	}
}

func plain(id int) func(w *World) int { return func(*World) int { return id } }

// directHash gives the hash of key id for a user-defined key type.
var directHash func(seed uint64, id int, iter uint) uint64

// ---- user-defined key types -------------------------------------------------

// KObj is a heap object referenced by a key; its release is observable.
type KObj struct {
	id  int
	pad [4]uint64
	p   *int
}

// UKey is a user-defined key with its own hash.
type UKey struct {
	id  int32
	obj *KObj
}

func (k UKey) used(at int, iter uint) { used(at, plain(int(k.id)), unsafe.Pointer(k.obj), iter) }
func (k UKey) Equal(o UKey) bool {
	k.used(atEqual, 0)
	o.used(atEqual, 0)
	user("equal")
	return k.id == o.id
}
func (k UKey) Hash(seed maphash.Seed, iter uint) uint64 {
	k.used(atHash, iter)
	user("hash")
	return directHash(maphash.SimSeed(seed), int(k.id), iter)
}

// HKey is a user-defined key whose hash is HashBytes, as the documentation suggests.
type HKey struct{ b []byte }

func (k HKey) used(at int, iter uint) {
	var p unsafe.Pointer
	if len(k.b) > 0 {
		p = unsafe.Pointer(&k.b[0])
	}
	used(at, func(w *World) int { return w.idStr(string(k.b)) }, p, iter)
}
func (k HKey) Equal(o HKey) bool {
	k.used(atEqual, 0)
	o.used(atEqual, 0)
	user("equal")
	return bytes.Equal(k.b, o.b)
}
func (k HKey) Hash(seed maphash.Seed, iter uint) uint64 {
	k.used(atHash, iter)
	user("hash")
	return amt.HashBytes(k.b, seed, iter)
}

// PObj is behind a user-defined key that is a pointer; the nil pointer is key 0.
type PObj struct {
	id   int32
	kept bool
	pad  [3]uint64
	p    *int
}

func (k *PObj) num() int {
	if k == nil {
		return 0
	}
	return int(k.id)
}
func (k *PObj) used(at int, iter uint) { used(at, plain(k.num()), unsafe.Pointer(k), iter) }
func (k *PObj) Equal(o *PObj) bool {
	k.used(atEqual, 0)
	o.used(atEqual, 0)
	user("equal")
	return k.num() == o.num()
}
func (k *PObj) Hash(seed maphash.Seed, iter uint) uint64 {
	k.used(atHash, iter)
	user("hash")
	return directHash(maphash.SimSeed(seed), k.num(), iter)
}

// WKey is a wide user-defined key.
type WKey struct {
	pre  [9]uint64
	id   int32
	obj  *KObj
	post [3]byte
}

func (k WKey) used(at int, iter uint) { used(at, plain(int(k.id)), unsafe.Pointer(k.obj), iter) }
func (k WKey) Equal(o WKey) bool {
	k.used(atEqual, 0)
	o.used(atEqual, 0)
	user("equal")
	return k.id == o.id && k.pre == o.pre
}
func (k WKey) Hash(seed maphash.Seed, iter uint) uint64 {
	k.used(atHash, iter)
	user("hash")
	return directHash(maphash.SimSeed(seed), int(k.id), iter)
}

// IKey is a user-defined key type that is an interface, with keys of two dynamic types.
type IKey interface {
	Hash(seed maphash.Seed, iter uint) uint64
	Equal(o IKey) bool
	base() UKey
}

// IVal and *IPtr are the keys with even and odd numbers.
type IVal struct{ k UKey }
type IPtr struct {
	pad [2]uint64
	k   UKey
}

func (k IVal) base() UKey                                { return k.k }
func (k *IPtr) base() UKey                               { return k.k }
func (k IVal) Equal(o IKey) bool                         { return k.k.Equal(baseOf(o)) }
func (k *IPtr) Equal(o IKey) bool                        { return k.k.Equal(baseOf(o)) }
func (k IVal) Hash(seed maphash.Seed, iter uint) uint64  { return k.k.Hash(seed, iter) }
func (k *IPtr) Hash(seed maphash.Seed, iter uint) uint64 { return k.k.Hash(seed, iter) }

func baseOf(k IKey) UKey {
	if k == nil {
		return UKey{id: -1}
	}
	return k.base()
}

// AKI is an array key type that is an interface, with keys of two dynamic types.
type AKI interface{ KeyBytes() [64]byte }

type A16b A16

func (k A16b) KeyBytes() (b [64]byte) { return A16(k).KeyBytes() }

// A64 is an array key of full length, whose last bytes tell keys apart.
type A64 [64]byte

func (k A64) KeyBytes() [64]byte {
	used(atBytes, func(w *World) int { return a64KC.id(w, k) }, nil, 0)
	user("bytes")
	return k
}

// A16 is a byte-array key.
type A16 [16]byte

func (k A16) KeyBytes() (b [64]byte) {
	used(atBytes, func(w *World) int { return a16KC.id(w, k) }, nil, 0)
	user("bytes")
	copy(b[:], k[:])
	return
}

// AStr is an array key with a string inside.
type AStr struct{ s string }

func (k AStr) KeyBytes() (b [64]byte) {
	var p unsafe.Pointer
	if len(k.s) > 0 {
		p = unsafe.Pointer(unsafe.StringData(k.s))
	}
	used(atBytes, func(w *World) int { return w.idStr(k.s) }, p, 0)
	user("bytes")
	return astrBytes(k.s)
}

func astrBytes(s string) (b [64]byte) {
	if len(s) <= 63 {
		b[0] = byte(len(s))
		copy(b[1:], s)
		return
	}
	b[0] = 0xFF
	binary.LittleEndian.PutUint64(b[1:], hashStr(s))
	copy(b[9:], s[len(s)-55:])
	return
}

// ---- key codecs --------------------------------------------------------------

// key classes: what is fed to the hash function
const (
	clsInt = iota
	clsStr
	clsA16
	clsAStr
	clsA64
	clsDirect
	nCls
)

func keyMsg(cls int, k *KeyDef) []byte {
	switch cls {
	case clsInt:
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(k.Int))
		return b[:]
	case clsStr:
		return k.Str
	case clsA16:
		a := a16of(k)
		b := a.keyBytes()
		return b[:]
	case clsA64:
		a := a64of(k)
		return a[:]
	case clsAStr:
		b := astrBytes(string(k.Str))
		return b[:]
	}
	return nil
}

func (k A16) keyBytes() (b [64]byte) { copy(b[:], k[:]); return }

func a16of(k *KeyDef) (a A16) {
	binary.LittleEndian.PutUint64(a[:8], uint64(k.Int))
	binary.LittleEndian.PutUint64(a[8:], hash2(uint64(k.Int), 3))
	return
}

func a64of(k *KeyDef) (a A64) {
	for i := range a {
		a[i] = byte(i)
	}
	binary.LittleEndian.PutUint64(a[56:], uint64(k.Int))
	return
}

// use says what a key value is made for.
type use int

const (
	useLookup use = iota // may be overwritten by the caller afterwards
	useInsert            // may be retained
)

type keyCodec[K any] struct {
	mk func(w *World, c *Cont, i int, u use) K
	id func(w *World, k K) int
	// weakOf returns a liveness probe for the memory behind k (nil: none)
	weakOf func(k K) func() bool
	// raw returns the bytes of k in place (nil: k has none)
	raw func(k K) []byte
	// ref returns a pointer that tells keys with the same contents apart (nil: there is none)
	ref func(k K) unsafe.Pointer
}

// where is the identity of key k.
func (kc *keyCodec[K]) where(k K) unsafe.Pointer {
	if kc.ref != nil {
		return kc.ref(k)
	}
	if kc.raw != nil {
		if b := kc.raw(k); len(b) > 0 {
			return unsafe.Pointer(&b[0])
		}
	}
	return nil
}

// note follows the key of an operation: the one that inserts an entry must stay, others must not (C25).
func (kc *keyCodec[K]) note(w *World, c *Cont, i int, u use, k K) K {
	if w.plan.Prop == "C28" {
		kc.passed(w, c, i, u, k)
		return k
	}
	if c == nil || c.ident == nil || kc.weakOf == nil {
		return k
	}
	if u == useInsert && !c.has[i] {
		c.ident[i] = kc.where(k)
	} else if t := w.current(); t != nil && kc.where(k) != nil {
		t.lweak = append(t.lweak, lookupKey{i, t.opn, kc.weakOf(k)})
	}
	return k
}

// passed follows the key of an operation (C28).
func (kc *keyCodec[K]) passed(w *World, c *Cont, i int, u use, k K) {
	t := w.current()
	if t == nil || len(t.frames) == 0 {
		return
	}
	f := t.frames[len(t.frames)-1]
	f.arg = keyArg{id: -1, any: true}
	if c != nil {
		f.arg = keyArg{id: i, where: kc.where(k), on: true}
		if u == useInsert && !c.has[i] {
			c.ident[i] = f.arg.where
		}
	}
}

// handed looks at a key that All hands to its callback (C25).
func (kc *keyCodec[K]) handed(w *World, id int, k K) {
	c := w.visited
	if w.plan.Prop != "C25" || c == nil || c.ident == nil || id < 0 || !c.has[id] || kc.weakOf == nil {
		return
	}
	if kc.where(k) != c.ident[id] {
		w.violate(c, "key-replaced", "All hands out a key equal to key %d, but not the one that was inserted", id)
	}
}

func cloneString(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	c := make([]byte, len(b))
	copy(c, b)
	return unsafe.String(&c[0], len(c))
}

func weakBytes(p *byte) func() bool {
	w := weak.Make(p)
	return func() bool { return w.Value() != nil }
}

var intKC = keyCodec[int64]{
	mk: func(w *World, c *Cont, i int, u use) int64 { return w.plan.Keys[i].Int },
	id: func(w *World, k int64) int { return w.idInt(k) },
}
var strKC = keyCodec[string]{
	mk: func(w *World, c *Cont, i int, u use) string {
		return w.mkString(c, i, u)
	},
	id:     func(w *World, k string) int { return w.idStr(k) },
	raw:    func(k string) []byte { return unsafe.Slice(unsafe.StringData(k), len(k)) },
	weakOf: func(k string) func() bool { return weakBytes(unsafe.StringData(k)) },
}
var bytesKC = keyCodec[[]byte]{
	mk:     func(w *World, c *Cont, i int, u use) []byte { return w.mkBytes(c, i, u) },
	id:     func(w *World, k []byte) int { return w.idStr(string(k)) },
	raw:    func(k []byte) []byte { return k },
	weakOf: func(k []byte) func() bool { return weakBytes(unsafe.SliceData(k)) },
}

// conv derives a codec for a type that wraps another one.
func conv[A, B any](kc keyCodec[A], to func(A) B, from func(B) A) keyCodec[B] {
	r := keyCodec[B]{
		mk: func(w *World, c *Cont, i int, u use) B { return to(kc.mk(w, c, i, u)) },
		id: func(w *World, k B) int { return kc.id(w, from(k)) },
	}
	if kc.raw != nil {
		r.raw = func(k B) []byte { return kc.raw(from(k)) }
	}
	if kc.ref != nil {
		r.ref = func(k B) unsafe.Pointer { return kc.ref(from(k)) }
	}
	if kc.weakOf != nil {
		r.weakOf = func(k B) func() bool { return kc.weakOf(from(k)) }
	}
	return r
}

var a16KC = keyCodec[A16]{
	mk: func(w *World, c *Cont, i int, u use) A16 { return a16of(&w.plan.Keys[i]) },
	id: func(w *World, k A16) int {
		i := w.idInt(int64(binary.LittleEndian.Uint64(k[:8])))
		if i >= 0 && a16of(&w.plan.Keys[i]) != k {
			return -1
		}
		return i
	},
}
var ukeyKC = keyCodec[UKey]{
	mk: func(w *World, c *Cont, i int, u use) UKey {
		k := UKey{id: int32(i)}
		if u == useInsert || w.plan.ident() {
			k.obj = &KObj{id: i}
		}
		return k
	},
	id: func(w *World, k UKey) int {
		if k.id < 0 || int(k.id) >= len(w.plan.Keys) || k.obj == nil || k.obj.id != int(k.id) {
			return -1
		}
		return int(k.id)
	},
	ref: func(k UKey) unsafe.Pointer { return unsafe.Pointer(k.obj) },
	weakOf: func(k UKey) func() bool {
		if k.obj == nil {
			return func() bool { return true }
		}
		w := weak.Make(k.obj)
		return func() bool { return w.Value() != nil }
	},
}

var a64KC = keyCodec[A64]{
	mk: func(w *World, c *Cont, i int, u use) A64 { return a64of(&w.plan.Keys[i]) },
	id: func(w *World, k A64) int {
		i := w.idInt(int64(binary.LittleEndian.Uint64(k[56:])))
		if i >= 0 && a64of(&w.plan.Keys[i]) != k {
			return -1
		}
		return i
	},
}
var pkeyKC = keyCodec[*PObj]{
	mk: func(w *World, c *Cont, i int, u use) *PObj {
		if i == 0 && !w.plan.ownKeys() {
			return nil
		}
		return &PObj{id: int32(i), kept: u == useInsert || w.plan.ident()}
	},
	id: func(w *World, k *PObj) int {
		if i := k.num(); i >= 0 && i < len(w.plan.Keys) && (k == nil || k.kept) {
			return i
		}
		return -1
	},
	ref: func(k *PObj) unsafe.Pointer { return unsafe.Pointer(k) },
	weakOf: func(k *PObj) func() bool {
		w := weak.Make(k)
		return func() bool { return w.Value() != nil }
	},
}
var wkeyKC = keyCodec[WKey]{
	mk: func(w *World, c *Cont, i int, u use) WKey {
		k := WKey{id: int32(i), post: [3]byte{1, byte(i), byte(i >> 8)}}
		for j := range k.pre {
			k.pre[j] = uint64(i*31 + j)
		}
		if u == useInsert || w.plan.ident() {
			k.obj = &KObj{id: i}
		}
		return k
	},
	id: func(w *World, k WKey) int {
		i := int(k.id)
		if i < 0 || i >= len(w.plan.Keys) || k.obj == nil || k.obj.id != i || k.post != [3]byte{1, byte(i), byte(i >> 8)} {
			return -1
		}
		for j := range k.pre {
			if k.pre[j] != uint64(i*31+j) {
				return -1
			}
		}
		return i
	},
	ref: func(k WKey) unsafe.Pointer { return unsafe.Pointer(k.obj) },
	weakOf: func(k WKey) func() bool {
		if k.obj == nil {
			return func() bool { return true }
		}
		w := weak.Make(k.obj)
		return func() bool { return w.Value() != nil }
	},
}

// ---- value codecs ------------------------------------------------------------

type valCodec[V any] struct {
	name   string
	enc    func(w *World, v uint64) V
	dec    func(w *World, v V) (uint64, bool)
	norm   func(v uint64) uint64
	weakOf func(v V) func() bool
}

func ident(v uint64) uint64 { return v }

type Big struct {
	A, B uint64
	C    [5]uint64
}
type VObj struct {
	V, N uint64
	self *VObj
}

var u64VC = valCodec[uint64]{"u64", func(_ *World, v uint64) uint64 { return v }, func(_ *World, v uint64) (uint64, bool) { return v, true }, ident, nil}
var u8VC = valCodec[uint8]{"u8", func(_ *World, v uint64) uint8 { return uint8(v) }, func(_ *World, v uint8) (uint64, bool) { return uint64(v), true }, func(v uint64) uint64 { return v & 0xff }, nil}
var zeroVC = valCodec[struct{}]{"zero", func(_ *World, v uint64) struct{} { return struct{}{} }, func(_ *World, v struct{}) (uint64, bool) { return 0, true }, func(uint64) uint64 { return 0 }, nil}
var bigVC = valCodec[Big]{"big", func(_ *World, v uint64) (b Big) {
	if v == 0 {
		return
	}
	b.A, b.B = v, ^v
	for i := range b.C {
		b.C[i] = hash2(v, uint64(i))
	}
	return
}, func(_ *World, b Big) (uint64, bool) {
	if b == (Big{}) {
		return 0, true
	}
	ok := b.B == ^b.A
	for i := range b.C {
		ok = ok && b.C[i] == hash2(b.A, uint64(i))
	}
	return b.A, ok
}, ident, nil}
var ptrVC = valCodec[*VObj]{"ptr", func(_ *World, v uint64) *VObj {
	if v == 0 {
		return nil
	}
	o := &VObj{V: v, N: ^v}
	o.self = o
	return o
}, func(_ *World, o *VObj) (uint64, bool) {
	if o == nil {
		return 0, true
	}
	return o.V, o.N == ^o.V && o.self == o
}, ident, func(o *VObj) func() bool {
	if o == nil {
		return nil
	}
	w := weak.Make(o)
	return func() bool { return w.Value() != nil }
}}
var strVC = valCodec[string]{"str", func(_ *World, v uint64) string {
	if v == 0 {
		return ""
	}
	return "value-" + strconv.FormatUint(v, 10)
}, func(_ *World, s string) (uint64, bool) {
	if s == "" {
		return 0, true
	}
	if len(s) < 7 || s[:6] != "value-" {
		return 0, false
	}
	v, err := strconv.ParseUint(s[6:], 10, 64)
	return v, err == nil
}, ident, nil}
var sliceVC = valCodec[[]uint64]{"slice", func(_ *World, v uint64) []uint64 {
	if v == 0 {
		return nil
	}
	return []uint64{v, v + 1, v + 2}
}, func(_ *World, s []uint64) (uint64, bool) {
	if s == nil {
		return 0, true
	}
	return s[0], len(s) == 3 && s[1] == s[0]+1 && s[2] == s[0]+2
}, ident, nil}
var anyVC = valCodec[any]{"any", func(w *World, v uint64) any {
	switch {
	case v == 0:
		return nil
	case v%3 == 0:
		return v
	case v%3 == 1:
		return strVC.enc(w, v)
	}
	return ptrVC.enc(w, v)
}, func(w *World, a any) (uint64, bool) {
	switch a := a.(type) {
	case nil:
		return 0, true
	case uint64:
		return a, a%3 == 0
	case string:
		v, ok := strVC.dec(w, a)
		return v, ok && v%3 == 1
	case *VObj:
		v, ok := ptrVC.dec(w, a)
		return v, ok && v%3 == 2
	}
	return 0, false
}, ident, nil}

// locVC: pointers that are different, but point to equal memory.
var locs [1 << 16]byte
var locVC = valCodec[*byte]{"loc", func(_ *World, v uint64) *byte {
	if v == 0 {
		return nil
	}
	return &locs[v]
}, func(_ *World, p *byte) (uint64, bool) {
	if p == nil {
		return 0, true
	}
	d := uintptr(unsafe.Pointer(p)) - uintptr(unsafe.Pointer(&locs))
	return uint64(d), d < uintptr(len(locs))
}, func(v uint64) uint64 { return v % uint64(len(locs)) }, nil}

// f64VC: floating-point values with negative zeros and NaNs.
var f64VC = valCodec[float64]{"f64", func(_ *World, v uint64) float64 { return math.Float64frombits(v) },
	func(_ *World, f float64) (uint64, bool) { return math.Float64bits(f), true },
	func(v uint64) uint64 {
		switch v & 7 {
		case 1, 2:
			return 1 << 63
		case 3, 4:
			return 0
		case 5:
			return 0x7FF8000000000001
		case 6:
			return 0x7FF8000000000000 + v>>3&0xFF
		}
		return v &^ (0xFFF << 52)
	}, nil}

type Huge struct {
	h    byte
	A    uint64
	pad  [130]uint64
	P    *VObj
	tail [3]byte
}

var hugeVC = valCodec[Huge]{"huge", func(w *World, v uint64) (h Huge) {
	if v == 0 {
		return
	}
	h.h, h.A, h.P, h.tail = byte(v), v, ptrVC.enc(w, v), [3]byte{1, 2, byte(v)}
	for i := range h.pad {
		h.pad[i] = v + uint64(i)
	}
	return
}, func(w *World, h Huge) (uint64, bool) {
	if h.P == nil {
		return 0, h == (Huge{})
	}
	v, ok := ptrVC.dec(w, h.P)
	for i := range h.pad {
		ok = ok && h.pad[i] == v+uint64(i)
	}
	return v, ok && h.A == v && h.h == byte(v) && h.tail == [3]byte{1, 2, byte(v)}
}, ident, func(h Huge) func() bool { return ptrVC.weakOf(h.P) }}

// nestVC stores containers in containers.
var nestVC = valCodec[amt.IntMap[uint64]]{"nest", func(w *World, v uint64) (m amt.IntMap[uint64]) {
	if v == 0 {
		return
	}
	defer w.aside()()
	m = amt.NewIntMap[uint64]()
	m.Set(int64(v%5), v)
	m.Set(int64(v%5)+16, ^v)
	m.Set(-int64(v%7)-1, v+1)
	m.Del(-int64(v%7) - 1)
	return m
}, func(w *World, m amt.IntMap[uint64]) (uint64, bool) {
	if m.Nil() {
		return 0, true
	}
	defer w.aside()()
	var v, n uint64
	cnt := 0
	m.All(func(k int64, p *uint64) bool {
		if k < 16 {
			v = *p
		} else {
			n = *p
		}
		cnt++
		return true
	})
	return v, cnt == 2 && n == ^v && m.Len() == 2 && m.Val(int64(v%5)) == v
}, ident, nil}

// aside keeps the statements executed until the returned function is called out of
// the count of the operation under way.
func (w *World) aside() func() {
	t := w.current()
	if t == nil || len(t.frames) == 0 {
		return func() {}
	}
	f := &Frame{op: t.frames[len(t.frames)-1].op}
	f.start = zzamtsim.Steps()
	f.budgetEnd = f.start + hangBudget
	t.push(f)
	return func() { t.pop(f) }
}

// ---- containers ----------------------------------------------------------------

// VP is a value pointer handed out by a container.
type VP interface {
	Load(w *World) (uint64, bool)
	Store(w *World, v uint64)
	Addr() unsafe.Pointer
}

type vp[V any] struct {
	p  *V
	vc *valCodec[V]
}

func (p vp[V]) Load(w *World) (uint64, bool) { return p.vc.dec(w, *p.p) }
func (p vp[V]) Store(w *World, v uint64)     { *p.p = p.vc.enc(w, v) }
func (p vp[V]) Addr() unsafe.Pointer         { return unsafe.Pointer(p.p) }

// Box is one copy of a container value, with keys and values as numbers.
type Box interface {
	Copy() Box
	Plain(w *World, c *Cont, i int, v uint64) any // a key and a value in an allocation of their own
	Nil() bool
	Len() uint64
	Dep() float64
	Put(w *World, c *Cont, i int, v uint64)
	Get(w *World, c *Cont, i int) (v uint64, good, ok bool)
	Val(w *World, c *Cont, i int) (v uint64, good bool)
	Ptr(w *World, c *Cont, i int) VP // nil: absent
	Has(w *World, c *Cont, i int) bool
	Mod(w *World, c *Cont, i int, f func(p VP, ok bool))
	Del(w *World, c *Cont, i int)
	All(w *World, f func(id int, p VP) bool)
}

type mapAPI[K, V any] interface {
	Nil() bool
	Len() uint
	Dep() float64
	Get(K) (V, bool)
	Val(K) V
	Ptr(K) *V
	Set(K, V)
	Mod(K, func(*V, bool))
	Del(K)
	All(func(K, *V) bool)
}
type setAPI[K any] interface {
	Nil() bool
	Len() uint
	Dep() float64
	Has(K) bool
	Add(K)
	Del(K)
	All(func(K) bool)
}

type mapBox[M mapAPI[K, V], K, V any] struct {
	m  M
	kc *keyCodec[K]
	vc *valCodec[V]
}

//go:noinline
func (b *mapBox[M, K, V]) Copy() Box {
	c := *b
	return &c
}
func (b *mapBox[M, K, V]) Plain(w *World, c *Cont, i int, v uint64) any {
	if c.kind.Base == "IntMap" { // integer keys are in the branches
		return &struct{ v V }{b.vc.enc(w, v)}
	}
	return &struct {
		v V
		k K
	}{b.vc.enc(w, v), b.kc.mk(w, c, i, useInsert)}
}
func (b *mapBox[M, K, V]) Nil() bool    { return b.m.Nil() }
func (b *mapBox[M, K, V]) Len() uint64  { return uint64(b.m.Len()) }
func (b *mapBox[M, K, V]) Dep() float64 { return b.m.Dep() }

//go:noinline
func (b *mapBox[M, K, V]) Put(w *World, c *Cont, i int, v uint64) {
	k, x := b.kc.note(w, c, i, useInsert, b.kc.mk(w, c, i, useInsert)), b.vc.enc(w, v)
	if c != nil && c.track {
		if b.kc.weakOf != nil {
			c.trackKey(i, b.kc.weakOf(k))
		}
		if b.vc.weakOf != nil {
			c.trackVal(i, 1, b.vc.weakOf(x))
		}
	}
	b.m.Set(k, x)
}

//go:noinline
func (b *mapBox[M, K, V]) Get(w *World, c *Cont, i int) (uint64, bool, bool) {
	x, ok := b.m.Get(b.kc.note(w, c, i, useLookup, b.kc.mk(w, c, i, useLookup)))
	v, good := b.vc.dec(w, x)
	return v, good, ok
}

//go:noinline
func (b *mapBox[M, K, V]) Val(w *World, c *Cont, i int) (uint64, bool) {
	return b.vc.dec(w, b.m.Val(b.kc.note(w, c, i, useLookup, b.kc.mk(w, c, i, useLookup))))
}

//go:noinline
func (b *mapBox[M, K, V]) Ptr(w *World, c *Cont, i int) VP {
	p := b.m.Ptr(b.kc.note(w, c, i, useLookup, b.kc.mk(w, c, i, useLookup)))
	if p == nil {
		return nil
	}
	return vp[V]{p, b.vc}
}

func (b *mapBox[M, K, V]) Has(w *World, c *Cont, i int) bool { return b.Ptr(w, c, i) != nil }

//go:noinline
func (b *mapBox[M, K, V]) Mod(w *World, c *Cont, i int, f func(p VP, ok bool)) {
	k := b.kc.note(w, c, i, useInsert, b.kc.mk(w, c, i, useInsert))
	if c != nil && c.track && b.kc.weakOf != nil {
		c.trackKey(i, b.kc.weakOf(k))
	}
	b.m.Mod(k, func(p *V, ok bool) {
		if p == nil {
			f(nil, ok)
			return
		}
		f(vp[V]{p, b.vc}, ok)
		if c != nil && c.track && b.vc.weakOf != nil {
			next := uint32(1)
			if c.has[i] { // the callback's writes have been counted
				next = 0
			}
			c.trackVal(i, next, b.vc.weakOf(*p))
		}
	})
}

//go:noinline
func (b *mapBox[M, K, V]) Del(w *World, c *Cont, i int) {
	b.m.Del(b.kc.note(w, c, i, useLookup, b.kc.mk(w, c, i, useLookup)))
}

//go:noinline
func (b *mapBox[M, K, V]) All(w *World, f func(id int, p VP) bool) {
	b.m.All(func(k K, p *V) bool {
		if w.watchKeys && b.kc.raw != nil {
			w.keepKey(b.kc.raw(k))
		}
		id := b.kc.id(w, k)
		b.kc.handed(w, id, k)
		if p == nil {
			return f(id, nil)
		}
		return f(id, vp[V]{p, b.vc})
	})
}

type setBox[S setAPI[K], K any] struct {
	s  S
	kc *keyCodec[K]
}

//go:noinline
func (b *setBox[S, K]) Copy() Box {
	c := *b
	return &c
}
func (b *setBox[S, K]) Plain(w *World, c *Cont, i int, v uint64) any {
	if c.kind.Base == "IntSet" {
		return nil
	}
	return &struct{ k K }{b.kc.mk(w, c, i, useInsert)}
}
func (b *setBox[S, K]) Nil() bool    { return b.s.Nil() }
func (b *setBox[S, K]) Len() uint64  { return uint64(b.s.Len()) }
func (b *setBox[S, K]) Dep() float64 { return b.s.Dep() }

//go:noinline
func (b *setBox[S, K]) Put(w *World, c *Cont, i int, v uint64) {
	k := b.kc.note(w, c, i, useInsert, b.kc.mk(w, c, i, useInsert))
	if c != nil && c.track && b.kc.weakOf != nil {
		c.trackKey(i, b.kc.weakOf(k))
	}
	b.s.Add(k)
}
func (b *setBox[S, K]) Get(w *World, c *Cont, i int) (uint64, bool, bool) {
	return 0, true, b.Has(w, c, i)
}
func (b *setBox[S, K]) Val(w *World, c *Cont, i int) (uint64, bool) { return 0, true }
func (b *setBox[S, K]) Ptr(w *World, c *Cont, i int) VP             { panic("sim: Ptr on set") }

//go:noinline
func (b *setBox[S, K]) Has(w *World, c *Cont, i int) bool {
	return b.s.Has(b.kc.note(w, c, i, useLookup, b.kc.mk(w, c, i, useLookup)))
}
func (b *setBox[S, K]) Mod(w *World, c *Cont, i int, f func(p VP, ok bool)) {
	panic("sim: Mod on set")
}

//go:noinline
func (b *setBox[S, K]) Del(w *World, c *Cont, i int) {
	b.s.Del(b.kc.note(w, c, i, useLookup, b.kc.mk(w, c, i, useLookup)))
}

//go:noinline
func (b *setBox[S, K]) All(w *World, f func(id int, p VP) bool) {
	b.s.All(func(k K) bool {
		if w.watchKeys && b.kc.raw != nil {
			w.keepKey(b.kc.raw(k))
		}
		id := b.kc.id(w, k)
		b.kc.handed(w, id, k)
		return f(id, nil)
	})
}

// Kind describes one container type instantiation.
// family is the container type without its key and value types.
func (k *Kind) family() string {
	f, _, _ := strings.Cut(k.Base, "[")
	return f
}

type Kind struct {
	Name    string
	Base    string // container type without the value type
	Set     bool
	Cls     int
	Generic bool // Map or Set (key methods are user code)
	Slices  bool // keys are byte slices
	VZero   bool // all values are equal
	WeakK   bool // key liveness is observable
	WeakV   bool
	Norm    func(uint64) uint64
	New     func() Box
	Zero    func() Box // an uninitialised container value
}

// exactSize: kinds whose memory use can be told exactly. Values or keys that the runtime packs
// several to a block (small pointer-free objects) would blur the measurement.
var exactSize = map[string]bool{}

func init() {
	for _, n := range []string{"IntMap/ptr", "IntMap/big", "IntMap/zero", "StringMap/u64", "StringMap/ptr", "StringMap/big", "StringMap/zero", "StringMap/slice",
		"BytesMap/u64", "BytesMap/ptr", "BytesMap/big", "BytesMap/zero", "ArrMap[A16]/u64", "ArrMap[A16]/ptr", "ArrMap[A16]/big", "ArrMap[AStr]/u64", "ArrMap[AStr]/ptr",
		"Map[UKey]/u64", "Map[UKey]/ptr", "Map[UKey]/big", "Map[UKey]/zero", "Map[UKey]/slice", "Map[HKey]/u64", "Map[HKey]/ptr", "Map[Bytes]/u64", "Map[Bytes]/ptr",
		"Map[String]/u64", "Map[String]/ptr", "Map[Int]/u64",
		"IntSet", "StringSet", "BytesSet", "ArrSet[A16]", "ArrSet[AStr]", "Set[UKey]", "Map[*PObj]/u64", "Map[*PObj]/ptr", "Map[WKey]/u64", "Set[*PObj]", "Set[WKey]",
		"Set[HKey]", "Set[Bytes]", "Set[String]"} {
		exactSize[n] = true
	}
}

const bits64 = math.MaxInt > 1<<31

var kinds []*Kind
var kindByName = map[string]*Kind{}

func regMap[M mapAPI[K, V], K, V any](name string, cls int, mk func() M, kc *keyCodec[K], vc *valCodec[V], flags string) {
	k := &Kind{Name: name + "/" + vc.name, Base: name, Cls: cls, Norm: vc.norm, VZero: vc.name == "zero",
		WeakK: kc.weakOf != nil, WeakV: vc.weakOf != nil,
		New:  func() Box { return &mapBox[M, K, V]{mk(), kc, vc} },
		Zero: func() Box { return &mapBox[M, K, V]{kc: kc, vc: vc} }}
	k.flags(flags)
}

func regSet[S setAPI[K], K any](name string, cls int, mk func() S, kc *keyCodec[K], flags string) {
	k := &Kind{Name: name, Base: name, Set: true, Cls: cls, Norm: func(uint64) uint64 { return 0 }, VZero: true,
		WeakK: kc.weakOf != nil,
		New:   func() Box { return &setBox[S, K]{mk(), kc} },
		Zero:  func() Box { return &setBox[S, K]{kc: kc} }}
	k.flags(flags)
}

func (k *Kind) flags(f string) {
	for _, c := range f {
		switch c {
		case 'g':
			k.Generic = true
		case 's':
			k.Slices = true
		}
	}
	kinds = append(kinds, k)
	kindByName[k.Name] = k
}

var (
	bytesNKC  = conv(bytesKC, func(b []byte) amt.Bytes { return b }, func(b amt.Bytes) []byte { return b })
	hkeyKC    = conv(bytesKC, func(b []byte) HKey { return HKey{b} }, func(k HKey) []byte { return k.b })
	stringNKC = conv(strKC, func(s string) amt.String { return amt.String(s) }, func(s amt.String) string { return string(s) })
	intNKC    = conv(intKC, func(i int64) amt.Int { return amt.Int(i) }, func(i amt.Int) int64 { return int64(i) })
	ikeyKC    = conv(ukeyKC, func(k UKey) IKey {
		if k.id&1 == 0 {
			return IVal{k}
		}
		return &IPtr{k: k}
	}, func(k IKey) (u UKey) {
		u = k.base()
		if _, ok := k.(IVal); ok != (u.id&1 == 0) {
			u.id = -1
		}
		return
	})
	akiKC = conv(a16KC, func(k A16) AKI {
		if k[0]&1 == 0 {
			return k
		}
		return A16b(k)
	}, func(k AKI) A16 {
		switch k := k.(type) {
		case A16:
			if k[0]&1 == 0 {
				return k
			}
		case A16b:
			if k[0]&1 != 0 {
				return A16(k)
			}
		}
		return A16{}
	})
	astrKC = conv(strKC, func(s string) AStr { return AStr{s} }, func(k AStr) string { return k.s })
)

func regIntMap[V any](vc *valCodec[V]) {
	regMap("IntMap", clsInt, amt.NewIntMap[V], &intKC, vc, "")
}
func regStringMap[V any](vc *valCodec[V]) {
	regMap("StringMap", clsStr, amt.NewStringMap[V], &strKC, vc, "")
}
func regBytesMap[V any](vc *valCodec[V]) {
	regMap("BytesMap", clsStr, amt.NewBytesMap[V], &bytesKC, vc, "s")
}
func regArrMap[V any](vc *valCodec[V]) {
	regMap("ArrMap[A16]", clsA16, amt.NewArrMap[A16, V], &a16KC, vc, "g")
}
func regArrSMap[V any](vc *valCodec[V]) {
	regMap("ArrMap[AStr]", clsAStr, amt.NewArrMap[AStr, V], &astrKC, vc, "g")
}
func regMapU[V any](vc *valCodec[V]) {
	regMap("Map[UKey]", clsDirect, amt.NewMap[UKey, V], &ukeyKC, vc, "g")
}
func regMapP[V any](vc *valCodec[V]) {
	regMap("Map[*PObj]", clsDirect, amt.NewMap[*PObj, V], &pkeyKC, vc, "g")
}
func regMapW[V any](vc *valCodec[V]) {
	regMap("Map[WKey]", clsDirect, amt.NewMap[WKey, V], &wkeyKC, vc, "g")
}
func regMapIK[V any](vc *valCodec[V]) {
	regMap("Map[IKey]", clsDirect, amt.NewMap[IKey, V], &ikeyKC, vc, "g")
}
func regArrIMap[V any](vc *valCodec[V]) {
	regMap("ArrMap[AKI]", clsA16, amt.NewArrMap[AKI, V], &akiKC, vc, "g")
}
func regArr64Map[V any](vc *valCodec[V]) {
	regMap("ArrMap[A64]", clsA64, amt.NewArrMap[A64, V], &a64KC, vc, "g")
}
func regMapH[V any](vc *valCodec[V]) {
	regMap("Map[HKey]", clsStr, amt.NewMap[HKey, V], &hkeyKC, vc, "gs")
}
func regMapB[V any](vc *valCodec[V]) {
	regMap("Map[Bytes]", clsStr, amt.NewMap[amt.Bytes, V], &bytesNKC, vc, "s")
}
func regMapS[V any](vc *valCodec[V]) {
	regMap("Map[String]", clsStr, amt.NewMap[amt.String, V], &stringNKC, vc, "")
}
func regMapI[V any](vc *valCodec[V]) {
	regMap("Map[Int]", clsInt, amt.NewMap[amt.Int, V], &intNKC, vc, "")
}

func init() {
	regIntMap(&u64VC)
	regIntMap(&ptrVC)
	regIntMap(&bigVC)
	regIntMap(&zeroVC)
	regIntMap(&u8VC)
	regIntMap(&anyVC)
	regIntMap(&nestVC)
	regIntMap(&locVC)
	regIntMap(&f64VC)
	regIntMap(&sliceVC)
	regIntMap(&hugeVC)
	regStringMap(&u64VC)
	regStringMap(&ptrVC)
	regStringMap(&bigVC)
	regStringMap(&zeroVC)
	regStringMap(&strVC)
	regStringMap(&sliceVC)
	regStringMap(&nestVC)
	regStringMap(&locVC)
	regStringMap(&f64VC)
	regStringMap(&anyVC)
	regBytesMap(&u64VC)
	regBytesMap(&ptrVC)
	regBytesMap(&bigVC)
	regBytesMap(&anyVC)
	regBytesMap(&zeroVC)
	regBytesMap(&locVC)
	regBytesMap(&f64VC)
	regBytesMap(&sliceVC)
	regArrMap(&u64VC)
	regArrMap(&ptrVC)
	regArrMap(&bigVC)
	regArrMap(&strVC)
	regArrMap(&locVC)
	regArrMap(&f64VC)
	regArrMap(&anyVC)
	regArr64Map(&u64VC)
	regArr64Map(&ptrVC)
	regArr64Map(&zeroVC)
	regArrSMap(&u64VC)
	regArrSMap(&ptrVC)
	regMapU(&u64VC)
	regMapU(&ptrVC)
	regMapU(&bigVC)
	regMapU(&zeroVC)
	regMapU(&sliceVC)
	regMapU(&locVC)
	regMapU(&f64VC)
	regMapU(&hugeVC)
	regMapP(&u64VC)
	regMapP(&ptrVC)
	regMapP(&zeroVC)
	regMapIK(&u64VC)
	regMapIK(&anyVC)
	regArrIMap(&u64VC)
	regArrIMap(&ptrVC)
	regMapW(&u64VC)
	regMapW(&u8VC)
	regMapW(&zeroVC)
	regMapH(&u64VC)
	regMapH(&ptrVC)
	regMapB(&u64VC)
	regMapB(&ptrVC)
	regMapS(&u64VC)
	regMapS(&ptrVC)
	if bits64 { // Int is an int
		regMapI(&u64VC)
		regMapI(&anyVC)
	}

	regSet("IntSet", clsInt, amt.NewIntSet, &intKC, "")
	regSet("StringSet", clsStr, amt.NewStringSet, &strKC, "")
	regSet("BytesSet", clsStr, amt.NewBytesSet, &bytesKC, "s")
	regSet("ArrSet[A16]", clsA16, amt.NewArrSet[A16], &a16KC, "g")
	regSet("ArrSet[AStr]", clsAStr, amt.NewArrSet[AStr], &astrKC, "g")
	regSet("Set[UKey]", clsDirect, amt.NewSet[UKey], &ukeyKC, "g")
	regSet("ArrSet[A64]", clsA64, amt.NewArrSet[A64], &a64KC, "g")
	regSet("Set[*PObj]", clsDirect, amt.NewSet[*PObj], &pkeyKC, "g")
	regSet("Set[IKey]", clsDirect, amt.NewSet[IKey], &ikeyKC, "g")
	regSet("ArrSet[AKI]", clsA16, amt.NewArrSet[AKI], &akiKC, "g")
	regSet("Set[WKey]", clsDirect, amt.NewSet[WKey], &wkeyKC, "g")
	regSet("Set[HKey]", clsStr, amt.NewSet[HKey], &hkeyKC, "gs")
	regSet("Set[Bytes]", clsStr, amt.NewSet[amt.Bytes], &bytesNKC, "s")
	regSet("Set[String]", clsStr, amt.NewSet[amt.String], &stringNKC, "")
	if bits64 {
		regSet("Set[Int]", clsInt, amt.NewSet[amt.Int], &intNKC, "")
	}
}
