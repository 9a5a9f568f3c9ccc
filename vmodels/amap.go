package vmodels

import "github.com/miniLCT/gosb/verifh/vsym"

// AMap is a reference map whose operations never branch on symbolic values.
type AMap struct {
	K, V []int
	Live []bool
}

// Get returns the value under k (0 when absent) and whether it is present.
func (m *AMap) Get(k int) (int, bool) {
	v, ok := 0, false
	for i := range m.K {
		h := vsym.And(m.Live[i], m.K[i] == k)
		v = vsym.IteI(h, m.V[i], v)
		ok = vsym.Or(ok, h)
	}
	return v, ok
}

func (m *AMap) Put(k, v int) {
	hit := false
	for i := range m.K {
		h := vsym.And(m.Live[i], m.K[i] == k)
		m.V[i] = vsym.IteI(h, v, m.V[i])
		hit = vsym.Or(hit, h)
	}
	m.K = append(m.K, k)
	m.V = append(m.V, v)
	m.Live = append(m.Live, !hit)
}

// Set changes the value only if k is present.
func (m *AMap) Set(k, v int) {
	for i := range m.K {
		m.V[i] = vsym.IteI(vsym.And(m.Live[i], m.K[i] == k), v, m.V[i])
	}
}

func (m *AMap) Del(k int) {
	for i := range m.K {
		m.Live[i] = vsym.And(m.Live[i], m.K[i] != k)
	}
}

func (m *AMap) Len() int {
	n := 0
	for i := range m.Live {
		n = vsym.IteI(m.Live[i], n+1, n)
	}
	return n
}

func (m *AMap) Clear() { m.K, m.V, m.Live = nil, nil, nil }

func (m *AMap) Clone() *AMap {
	return &AMap{append([]int(nil), m.K...), append([]int(nil), m.V...), append([]bool(nil), m.Live...)}
}

// Least returns the least live key >= k (and > k when strict) and whether there is one.
func (m *AMap) Least(k int, strict bool) (int, bool) {
	r, ok := 0, false
	for i := range m.K {
		q := vsym.And(m.Live[i], vsym.Or(m.K[i] > k, vsym.And(!strict, m.K[i] == k)))
		better := vsym.And(q, vsym.Or(!ok, m.K[i] < r))
		r = vsym.IteI(better, m.K[i], r)
		ok = vsym.Or(ok, q)
	}
	return r, ok
}
