package simrt

import (
	"fmt"
	"sort"
)

//go:norace
func mapOrder() uint64 {
	if pol == nil {
		return 0
	}
	mapCtr++
	return mix(pol.MapSeed ^ mapCtr*0x9e3779b97f4a7c15)
}

// Keys returns the keys of m in an order decided by the run's seed.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	switch s := any(ks).(type) {
	case []string:
		sort.Strings(s)
	case []int:
		sort.Ints(s)
	default:
		str := make(map[K]string, len(ks))
		for _, k := range ks {
			str[k] = fmt.Sprintf("%v", k)
		}
		sort.SliceStable(ks, func(i, j int) bool { return str[ks[i]] < str[ks[j]] })
	}
	r := mapOrder()
	for i := len(ks) - 1; i > 0; i-- {
		r = mix(r)
		j := int(r % uint64(i+1))
		ks[i], ks[j] = ks[j], ks[i]
	}
	return ks
}

// Has reports whether k is still in m.
func Has[M ~map[K]V, K comparable, V any](m M, k K) bool {
	_, ok := m[k]
	return ok
}

// ZeroK returns a zero key of m's type.
func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }

// ZeroV returns a zero value of m's type.
func ZeroV[M ~map[K]V, K comparable, V any](m M) (v V) { return }
