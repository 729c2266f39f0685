package main

import (
	"bytes"
	"hash/maphash"

	"github.com/wdamron/amt/zzamtsim"
)

// formatOK says, per container type, whether the keys are hashed as the depth
// oracle assumes (n-th rehash: the key repeated n+1 times). Where they are not,
// the exact depths cannot be computed and the oracle stays silent.
var formatOK = map[string]bool{}

func formatKnown(k *Kind) bool { return formatOK[k.Base] }

func probeFormats() {
	for _, k := range kinds {
		if _, done := formatOK[k.Base]; !done {
			formatOK[k.Base] = probeFormat(k)
		}
	}
}

func probeFormat(k *Kind) (ok bool) {
	p := &Plan{Prop: "probe", Seed: 1, Conts: []ContDef{{k.Name, 99}}, Keys: []KeyDef{
		{Base: -1, Salt: 5, Str: []byte("probe-key-one"), Int: 1234567},
		{Base: 0, Cut: 17, Salt: 6, Str: []byte("probe-key-two"), Int: 7654321},
	}}
	st := &Stats{}
	st.init()
	w, err := setup(p, st, false)
	if err != nil {
		return true
	}
	ok = true
	if k.Cls != clsDirect {
		maphash.SimSum = func(seed uint64, msg []byte) uint64 {
			good := false
			for i := range p.Keys {
				m := keyMsg(k.Cls, &p.Keys[i])
				for n := 1; n <= 2; n++ {
					good = good || bytes.Equal(msg, bytes.Repeat(m, n))
				}
			}
			if !good {
				ok = false
			}
			return w.sum(seed, msg)
		}
	}
	zzamtsim.SetTrap(func(int) { zzamtsim.SetLimit(^uint64(0)); panic(simAbort{}) })
	zzamtsim.SetLimit(zzamtsim.Steps() + 100000)
	defer func() {
		recover() // broken operations are reported by the runs
		zzamtsim.SetLimit(^uint64(0))
		zzamtsim.SetTrap(nil)
		maphash.SimSum, maphash.SimRand, userHook, directHash = nil, nil, nil, nil
	}()
	b := w.conts[0].root
	b.Put(w, nil, 0, 1)
	b.Put(w, nil, 1, 2)
	b.Has(w, nil, 0)
	b.Has(w, nil, 1)
	b.Del(w, nil, 1)
	if !k.Set {
		b.Mod(w, nil, 1, func(VP, bool) {})
	}
	return
}
