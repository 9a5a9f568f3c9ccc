package files

import (
	"sync"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// one is the model of one key.
type one struct {
	has bool
	val int
}

const (
	fGet = iota
	fSet
	fDel
	fMGet
	fPurge
	fkinds
)

type fcall struct{ kind, v int }

type fres struct {
	v    int
	ok   bool
	fail bool
}

func (s *one) step(c fcall) (r fres) {
	switch c.kind {
	case fGet, fMGet:
		if s.has {
			r.v, r.ok = s.val, true
		}
	case fSet:
		s.has, s.val = true, c.v
	case fDel, fPurge:
		s.has = false
	}
	return
}

func fdo(f *cachex.FileStore[string, int], c fcall) (r fres) {
	var err error
	switch c.kind {
	case fGet:
		r.v, r.ok, err = f.Get(bg, "k")
	case fMGet:
		vs, oks, e := f.MGet(bg, "k")
		err = e
		if e == nil && len(vs) == 1 && len(oks) == 1 {
			r.v, r.ok = vs[0], oks[0]
		}
	case fSet:
		err = f.Set(bg, "k", c.v, time.Hour)
	case fDel:
		err = f.Delete(bg, "k")
	case fPurge:
		err = f.Purge()
	}
	r.fail = err != nil
	return
}

func fexplain(s one, cs [][]fcall, rs [][]fres, final fres) bool {
	left := false
	for t := range cs {
		if len(cs[t]) == 0 {
			continue
		}
		left = true
		c2 := append([][]fcall{}, cs...)
		r2 := append([][]fres{}, rs...)
		c2[t], r2[t] = cs[t][1:], rs[t][1:]
		n := s
		if n.step(cs[t][0]) == rs[t][0] && fexplain(n, c2, r2, final) {
			return true
		}
	}
	return !left && s.step(fcall{fGet, 0}) == final
}

// fstart prepares a store whose key is absent, live, expired or unreadable.
func fstart(state int) (*cachex.FileStore[string, int], one) {
	vmodels.ResetFS("/c")
	vmodels.NowNS = 1 << 42
	f := &cachex.FileStore[string, int]{Dir: "/c/store", GCCycle: never}
	var s one
	if state > 0 {
		ttl := time.Hour
		if state == 2 {
			ttl = time.Second
		}
		f.Set(bg, "k", 7, ttl)
		s = one{state == 1, 7}
		vmodels.NowNS += int64(time.Minute)
	}
	return f, s
}

func frace(f *cachex.FileStore[string, int], s one, cs [][]fcall) {
	rs := make([][]fres, len(cs))
	vsym.Race(true)
	var wg sync.WaitGroup
	for t := range cs {
		t := t
		rs[t] = make([]fres, len(cs[t]))
		wg.Add(1)
		go func() {
			for i, c := range cs[t] {
				rs[t][i] = fdo(f, c)
			}
			wg.Done()
		}()
	}
	wg.Wait()
	vsym.Assert(fexplain(s, cs, rs, fdo(f, fcall{fGet, 0})), "the results and the entry are those of some order of the calls")
}

// H_C46_race: two callers use the same key together.
func H_C46_race() {
	c := vsym.Case(3 * fkinds)
	f, s := fstart(c % 3)
	a := fcall{c / 3, 100}
	b := fcall{vsym.Pick("op", 0, fPurge), 200}
	cs := [][]fcall{{a}, {b}}
	if vsym.Pick("more", 0, 1) == 1 {
		cs[1] = append(cs[1], fcall{fGet, 0})
	}
	frace(f, s, cs)
}

// H_C46_three: three callers, two of them writing.
func H_C46_three() {
	c := vsym.Case(3 * 2)
	f, s := fstart(c % 3)
	a := fcall{fGet, 0}
	if c/3 == 1 {
		a.kind = fDel
	}
	frace(f, s, [][]fcall{{a}, {fcall{fSet, 200}}, {fcall{fSet, 300}}})
}

// H_C48_race: the background scan meets writes, reads and deletions.
func H_C48_race() {
	c := vsym.Case(4 * 4)
	state, kind := c%4, []int{fGet, fSet, fDel, fPurge}[c/4]
	f, s := fstart(state % 3)
	if state == 3 {
		f.Set(bg, "k", 7, time.Hour)
		for _, p := range vmodels.Files() {
			vmodels.Put(p, []byte("{"))
		}
	}
	f.Set(bg, "live", 1, time.Hour)
	f.Set(bg, "dead", 2, time.Second)
	vmodels.Put("/c/store/other", []byte("x"))
	vmodels.NowNS += int64(time.Minute)
	f.GCCycle = time.Second
	f.Get(bg, "nothing") // starts the scan
	vsym.Race(true)
	var fin fres
	r := fdo(f, fcall{kind, 9})
	if state != 3 || kind == fSet || kind == fDel || kind == fPurge {
		want := s.step(fcall{kind, 9})
		vsym.Assert(r == want, "calls during a scan answer as without it")
	}
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "the scan ends")
	fin = fdo(f, fcall{fGet, 0})
	vsym.Assert(fin == s.step(fcall{fGet, 0}), "the scan leaves what is alive")
	v, ok, err := f.Get(bg, "live")
	if kind == fPurge {
		vsym.Assert(!ok && err == nil, "purged")
	} else {
		vsym.Assert(ok && v == 1 && err == nil, "a live entry survives the scan")
	}
	n := 1
	if kind != fPurge {
		n++
	}
	if fin.ok {
		n++
	}
	vsym.Quiesce()
	vsym.Assert(len(vmodels.Files()) == n && has("/c/store/other"), "dead entries and nothing else are removed")
}

// H_C46_crowd: three callers with several calls each on one key, over the
// schedules that deviate a few times from three fixed ones.
func H_C46_crowd() {
	c := vsym.Case(3 * fkinds)
	vsym.Delays(vsym.Bound(1, 2), vsym.Pick("order", 0, 2))
	f, s := fstart(c % 3)
	off := vsym.Pick("off", 0, fkinds-1)
	frace(f, s, fcrowd(3, c/3, off, fkinds))
}

func fcrowd(callers, first, off, kinds int) [][]fcall {
	cs := make([][]fcall, callers)
	for t := range cs {
		for i := 0; i < vsym.Bound(2, 3); i++ {
			k := (first + t*(off+1) + i*2) % kinds
			if t == 0 && i == 1 {
				k = fSet
			}
			cs[t] = append(cs[t], fcall{k, 100*(t+1) + i})
		}
	}
	return cs
}

// H_C48_crowd: two callers with several calls each while the scan runs.
func H_C48_crowd() {
	c := vsym.Case(3 * fPurge)
	vsym.Delays(vsym.Bound(1, 2), vsym.Pick("order", 0, 2))
	f, s := fstart(c % 3)
	f.Set(bg, "live", 1, time.Hour)
	f.Set(bg, "dead", 2, time.Second)
	vmodels.NowNS += int64(time.Minute)
	f.GCCycle = time.Second
	f.Get(bg, "nothing") // starts the scan
	frace(f, s, fcrowd(2, c/3, vsym.Pick("off", 0, fPurge-1), fPurge))
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "the scan ends")
	v, ok, err := f.Get(bg, "live")
	vsym.Assert(ok && v == 1 && err == nil, "a live entry survives the scan")
	n := 1
	if _, ok, _ = f.Get(bg, "k"); ok {
		n++
	}
	vsym.Assert(len(vmodels.Files()) == n, "dead entries and nothing else are removed")
}
