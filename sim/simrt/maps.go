package simrt

import (
	"encoding/binary"
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

// Deterministic identities of pointers used as map keys: the code under test
// passes every pointer-bearing key through T when it stores it. The table keeps
// the pointers alive for the run, so an address is never reused. It is a plain
// open-addressing table: Go maps would be visible to the race detector.
var (
	ptrTab  []unsafe.Pointer
	ptrID   []uint64
	ptrNext uint64
)

//go:norace
func ptrReset() {
	if ptrNext == 0 && ptrTab != nil {
		return
	}
	ptrTab = make([]unsafe.Pointer, 1<<10)
	ptrID = make([]uint64, 1<<10)
	ptrNext = 0
}

//go:norace
func ptrSlot(tab []unsafe.Pointer, p unsafe.Pointer) int {
	mask := len(tab) - 1
	h := int(Mix(uint64(uintptr(p)), 3)) & mask
	for tab[h] != nil && tab[h] != p {
		h = (h + 1) & mask
	}
	return h
}

//go:norace
func ptrLookup(p unsafe.Pointer) (uint64, bool) {
	if ptrTab == nil {
		return 0, false
	}
	h := ptrSlot(ptrTab, p)
	return ptrID[h], ptrTab[h] != nil
}

//go:norace
func ptrAdd(p unsafe.Pointer) {
	h := ptrSlot(ptrTab, p)
	if ptrTab[h] != nil {
		return
	}
	ptrNext++
	ptrTab[h] = p
	ptrID[h] = ptrNext
	if int(ptrNext)*2 > len(ptrTab) {
		nt := make([]unsafe.Pointer, 2*len(ptrTab))
		ni := make([]uint64, 2*len(ptrTab))
		for i := 0; i < len(ptrTab); i++ {
			if ptrTab[i] != nil {
				k := ptrSlot(nt, ptrTab[i])
				nt[k] = ptrTab[i]
				ni[k] = ptrID[i]
			}
		}
		ptrTab, ptrID = nt, ni
	}
}

// T tags the pointers inside a key that is being stored in a map.
//
//go:norace
func T[K any](k K) K {
	if active {
		tag(reflect.ValueOf(&k).Elem(), 0)
	}
	return k
}

//go:norace
func tag(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Map:
		if v.IsNil() {
			return
		}
		ptrAdd(v.UnsafePointer())
	case reflect.Interface:
		if !v.IsNil() {
			tag(v.Elem(), depth)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			tag(v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			tag(v.Index(i), depth+1)
		}
	}
}

//go:norace
func encode(b []byte, v reflect.Value, depth int) []byte {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return binary.BigEndian.AppendUint64(b, uint64(v.Int())^(1<<63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return binary.BigEndian.AppendUint64(b, v.Uint())
	case reflect.String:
		b = append(b, v.String()...)
		return append(b, 0)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = encode(b, v.Field(i), depth)
		}
		return b
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = encode(b, v.Index(i), depth)
		}
		return b
	case reflect.Interface:
		if v.IsNil() {
			return append(b, 0)
		}
		b = append(b, v.Elem().Type().String()...)
		return encode(b, v.Elem(), depth)
	case reflect.Pointer:
		if v.IsNil() {
			return append(b, 0)
		}
		if id, ok := ptrLookup(v.UnsafePointer()); ok {
			b = append(b, 1)
			return binary.BigEndian.AppendUint64(b, id)
		}
		b = append(b, 2)
		if depth > 0 {
			return b
		}
		return encode(b, v.Elem(), depth+1) // untagged: by content
	case reflect.Float32, reflect.Float64:
		return append(b, fmt.Sprintf("%030.10f", v.Float())...)
	}
	return b
}

//go:norace
func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	enc := make([]string, len(keys))
	for i := range keys {
		enc[i] = string(encode(nil, reflect.ValueOf(&keys[i]).Elem(), 0))
	}
	sort.Stable(&byEnc[K]{keys, enc})
}

type byEnc[K any] struct {
	k []K
	e []string
}

//go:norace
func (s *byEnc[K]) Len() int { return len(s.k) }

//go:norace
func (s *byEnc[K]) Less(i, j int) bool { return s.e[i] < s.e[j] }

//go:norace
func (s *byEnc[K]) Swap(i, j int) { s.k[i], s.k[j] = s.k[j], s.k[i]; s.e[i], s.e[j] = s.e[j], s.e[i] }

// order decides the visiting order of n >= 2 keys at this iteration. It returns
// nil for the canonical order.
//
//go:norace
func order(site, n int) ([]int, uint64) {
	if !active {
		return nil, 0
	}
	idx := rangeIdx
	rangeIdx++
	if cfg.Order == OrderSorted {
		return nil, 0
	}
	if cfg.Spans != nil {
		in := false
		for _, s := range cfg.Spans {
			if idx >= s.Lo && idx < s.Hi {
				in = true
				break
			}
		}
		if !in {
			return nil, 0
		}
	}
	r := Rand{Mix(cfg.Seed, uint64(idx))}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	switch cfg.Order {
	case OrderReverse:
		for i := range p {
			p[i] = n - 1 - i
		}
	case OrderRotate:
		o := r.Intn(n)
		for i := range p {
			p[i] = (i + o) % n
		}
	default:
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	permuted++
	if site < len(SiteHits) {
		SiteHits[site]++
	}
	h := uint64(idx)<<20 ^ uint64(n)
	for _, x := range p {
		h = Mix(h, uint64(x))
	}
	fold(h)
	return p, r.Uint64()
}

// Range replaces `range m`. The iterator visits every key present throughout in
// the decided order, skips keys deleted meanwhile, and may or may not visit keys
// inserted meanwhile -- exactly the freedom the language gives the runtime.
func Range[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		n := len(m)
		if n == 0 {
			return
		}
		keys := make([]K, 0, n)
		for k := range m {
			keys = append(keys, k)
		}
		var perm []int
		var coin uint64
		if n >= 2 {
			sortKeys(keys)
			perm, coin = order(site, n)
		}
		for i := 0; i < n; i++ {
			k := keys[i]
			if perm != nil {
				k = keys[perm[i]]
			}
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
		if len(m) > n && coin&1 == 1 {
			old := make(map[K]bool, n)
			for _, k := range keys {
				old[k] = true
			}
			var fresh []K
			for k := range m {
				if !old[k] {
					fresh = append(fresh, k)
				}
			}
			sortKeys(fresh)
			for _, k := range fresh {
				v, ok := m[k]
				if !ok {
					continue
				}
				if !yield(k, v) {
					return
				}
			}
		}
	}
}
