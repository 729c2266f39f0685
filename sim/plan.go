package main

// A Plan is one simulated execution, written out: executing it is a pure
// function of the plan and the code under test.

// KeyDef is one key of the universe of a run. Every key has a representation
// in every key type. Its hash bits are a sequence of 4-bit groups: the first
// Cut groups are those of key Base, group Cut differs, the rest derive from Salt.
type KeyDef struct {
	Base  int    `json:"b"` // -1: none
	Cut   int    `json:"c,omitempty"`
	Salt  uint64 `json:"s"`
	Str   []byte `json:"x"`
	Int   int64  `json:"i"`
	Ghost bool   `json:"g,omitempty"` // never inserted (C17: bytes for corruption)
}

type ContDef struct {
	Kind string `json:"k"`
	Seed uint64 `json:"s"`
}

// Fault interrupts user code called by an operation.
type Fault struct {
	At   string `json:"at"`             // mod, all, hash, equal, bytes
	N    int    `json:"n"`              // n-th call (1-based)
	Exit bool   `json:"exit,omitempty"` // runtime.Goexit instead of panic
}

// The kinds of operation. Lookups, insertions and so on go to the container under test;
// verify, compare, fresh, corrupt, gc are acts of the harness.
const (
	opPut = iota + 1
	opMod
	opDel
	opGet
	opAll
	opLen
	opDep
	opHold
	opPStore
	opPLoad
	opCopy
	opVerify
	opCompare
	opScribble
	opCorrupt
	opGC
	opHelper
	opFresh
	opZero
	opNew
)

var opNames = []string{"?", "put", "mod", "del", "get", "all", "len", "dep", "hold", "pstore", "pload", "copy", "verify", "compare", "scribble", "corrupt", "gc", "helper", "fresh", "zero", "new"}

// Op is one operation of a simulated caller.
type Op struct {
	K   uint8  `json:"k"`
	C   int    `json:"c"`           // container
	H   int    `json:"h,omitempty"` // which copy of the container value
	I   int    `json:"i,omitempty"` // key
	V   uint64 `json:"v,omitempty"` // value
	N   int    `json:"n,omitempty"` // parameter
	M   int    `json:"m,omitempty"` // mode bits
	F   *Fault `json:"f,omitempty"`
	W   string `json:"w,omitempty"`   // user code that runs Sub, if not the callback: hash, equal, bytes
	At  int    `json:"at,omitempty"`  // callback invocation that runs Sub
	Sub []Op   `json:"sub,omitempty"` // operations from inside the callback
}

// Slice: after S statements, do A, then (A=switch) continue with runnable thread number P.
type Slice struct {
	S uint32 `json:"s"`
	A uint8  `json:"a,omitempty"` // 0 switch, 1 gc, 2 move stack, 3 both
	P uint8  `json:"p,omitempty"`
}

type Phase struct {
	Threads [][]Op  `json:"t"`
	Sched   []Slice `json:"sched,omitempty"`
}

type Plan struct {
	Prop     string    `json:"prop"`
	Seed     uint64    `json:"seed"`
	Keys     []KeyDef  `json:"keys"`
	Conts    []ContDef `json:"conts"`
	Phases   []Phase   `json:"phases"`
	AutoKeys int       `json:"autokeys,omitempty"` // add plain keys up to this number
	Locks    bool      `json:"locks,omitempty"`    // readers-writer lock around each operation
	Race     bool      `json:"race,omitempty"`     // run under the race detector
	Bits32   bool      `json:"bits32,omitempty"`   // 32-bit build
	Cold     bool      `json:"cold,omitempty"`     // no reads by the harness between the calls
	Tame     bool      `json:"tame,omitempty"`     // leave caller memory alone (clean twin)
}

const (
	maxCut  = 8192
	maxNibs = maxCut + 96
)

// genNibs writes out the designed hash bits: enough 4-bit groups to separate all keys.
func genNibs(keys []KeyDef) [][]uint8 {
	out := make([][]uint8, len(keys))
	nn := 0
	for i := range keys {
		nn = max(nn, min(keys[i].Cut, maxCut))
	}
	nn = nn/16*16 + 80
	mem := make([]uint8, nn*len(keys))
	for i := range keys {
		out[i] = mem[i*nn : (i+1)*nn : (i+1)*nn]
		k := &keys[i]
		s := k.Salt
		for j := 0; j < nn; j += 16 {
			s = hash2(s, uint64(j)+1)
			for q := 0; q < 16; q++ {
				out[i][j+q] = uint8(s>>(4*q)) & 15
			}
		}
		if k.Base >= 0 && k.Base < i {
			cut := min(k.Cut, maxCut)
			copy(out[i][:cut], out[k.Base][:cut])
			out[i][cut] = (out[k.Base][cut] + 1 + uint8(hash2(k.Salt, 77)%15)) & 15
		}
	}
	return out
}

func packNibs(n []uint8, block int) uint64 {
	var x uint64
	for q := 0; q < 16; q++ {
		x |= uint64(n[block*16+q]) << (4 * q)
	}
	return x
}

// ownKeys: the memory of every key is an allocation of its own.
func (p *Plan) ownKeys() bool {
	return p.Prop == "C19" || p.Prop == "C22" || p.Prop == "C29" || p.ident() || p.Prop == "C27"
}

// ident: keys that are equal can be told apart.
func (p *Plan) ident() bool { return p.Prop == "C25" || p.Prop == "C28" }
