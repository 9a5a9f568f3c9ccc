package files

import (
	"context"
	"encoding/json"
	"errors"
	"io/fs"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

var bg = context.Background()

const never = time.Duration(1<<63 - 1)

func clock() {
	vmodels.NowNS = vsym.I64("now")
	vsym.Assume(vsym.And(vmodels.NowNS > 1<<40, vmodels.NowNS < 1<<61))
}

func advance() {
	d := int64(vsym.U32("dt"))
	vmodels.NowNS += d
}

func newTTL() time.Duration { return time.Duration(vsym.I32("ttl")) }

func newStore[K comparable, V any]() *cachex.FileStore[K, V] {
	vmodels.ResetFS("/c")
	clock()
	return &cachex.FileStore[K, V]{Dir: "/c/store", GCCycle: never}
}

// model is the reference store.
type model struct {
	has [3]bool
	val [3]int
	exp [3]int64
}

func (m *model) live(k int) bool { return vsym.And(m.has[k], m.exp[k] > vmodels.NowNS) }

func (m *model) set(k, v int, ttl time.Duration) {
	m.has[k], m.val[k], m.exp[k] = true, v, vmodels.NowNS+int64(ttl)
}

var names = []string{"a", "../x", ""}

// H_C46_history: any short history of single and batch operations.
func H_C46_history() {
	f := newStore[string, int]()
	var m model
	c := vsym.Case(12)
	n := vsym.Bound(3, 4)
	for s := 0; s < n; s++ {
		op, k := c%6, c/6
		if s > 0 {
			op, k = vsym.Pick("op", 0, 5), vsym.Pick("k", 0, 1)
		}
		switch op {
		case 0:
			v, ttl := int(vsym.I64("v")), newTTL()
			vsym.Assert(f.Set(bg, names[k], v, ttl) == nil, "a write succeeds")
			m.set(k, v, ttl)
		case 1:
			check(f, &m, k)
		case 2:
			vsym.Assert(f.Delete(bg, names[k]) == nil, "a deletion succeeds, also of an absent key")
			m.has[k] = false
		case 3:
			v, w, ttl := int(vsym.I64("v")), int(vsym.I64("v")), newTTL()
			kv := map[string]int{names[k]: v}
			m.set(k, v, ttl)
			if k == 1 {
				kv[names[2]] = w
				m.set(2, w, ttl)
			}
			vsym.Assert(f.MSet(bg, kv, ttl) == nil, "a batch write succeeds")
		case 4:
			vsym.Assert(f.Delete(bg, names[2], names[k], names[k]) == nil, "a batch deletion succeeds")
			m.has[k], m.has[2] = false, false
		case 5:
			advance()
			vs, oks, err := f.MGet(bg, names[k], names[1-k], names[2], names[k])
			vsym.Assert(err == nil && len(vs) == 4 && len(oks) == 4, "a batch read answers every key")
			for i, j := range []int{k, 1 - k, 2, k} {
				vsym.Assert(oks[i] == m.live(j), "a hit exactly while the entry lives")
				vsym.Assert(vsym.Implies(oks[i], vs[i] == m.val[j]), "the value stored last")
			}
		}
	}
	for k := range names {
		check(f, &m, k)
	}
}

func check(f *cachex.FileStore[string, int], m *model, k int) {
	v, ok, err := f.Get(bg, names[k])
	vsym.Assert(err == nil, "a read succeeds")
	vsym.Assert(ok == m.live(k), "a hit exactly while the entry lives")
	vsym.Assert(vsym.Implies(ok, v == m.val[k]), "the value stored last")
	vsym.Assert(vsym.Implies(!ok, v == 0), "no value without a hit")
}

type pair struct{ A, B string }

type couple struct{ A, B string }

type word string

// H_C46_alike: keys that print alike are still different keys.
func H_C46_alike() {
	v, w := int(vsym.I64("v")), int(vsym.I64("w"))
	switch vsym.Case(5) {
	case 3:
		ks := []any{1, int64(1), uint8(1), uint(1), word("1"), "1", pair{"1", ""}, couple{"1", ""}}
		i, j := vsym.Pick("i", 0, len(ks)-1), vsym.Pick("j", 0, len(ks)-1)
		if i != j {
			alike(newStore[any, int](), ks[i], ks[j], v, w)
		}
	case 4:
		// stores with keys of different types in the same directory
		f, g := newStore[word, int](), &cachex.FileStore[string, int]{}
		g.Dir = f.Dir
		vsym.Assert(f.Set(bg, "k", v, time.Hour) == nil, "a write succeeds")
		_, ok, err := g.Get(bg, "k")
		vsym.Assert(!ok && err == nil, "another key's entry is not seen")
		vsym.Assert(g.Set(bg, "k", w, time.Hour) == nil, "a write succeeds")
		got, ok, err := f.Get(bg, "k")
		vsym.Assert(ok && err == nil && got == v, "another key's write changes nothing")
	case 0:
		f := newStore[any, int]()
		alike[any](f, 1, "1", v, w)
	case 1:
		f := newStore[pair, int]()
		alike(f, pair{"a b", "c"}, pair{"a", "b c"}, v, w)
	case 2:
		f := newStore[[2]string, int]()
		alike(f, [2]string{"", " "}, [2]string{" ", ""}, v, w)
	}
}

func alike[K comparable](f *cachex.FileStore[K, int], a, b K, v, w int) {
	vsym.Assert(f.Set(bg, a, v, time.Hour) == nil, "a write succeeds")
	got, ok, err := f.Get(bg, b)
	vsym.Assert(!ok && err == nil && got == 0, "another key's entry is not seen")
	vsym.Assert(f.Set(bg, b, w, time.Hour) == nil, "a write succeeds")
	got, ok, err = f.Get(bg, a)
	vsym.Assert(ok && err == nil && got == v, "another key's write changes nothing")
	vsym.Assert(f.Delete(bg, a) == nil, "a deletion succeeds")
	got, ok, err = f.Get(bg, b)
	vsym.Assert(ok && err == nil && got == w, "another key's deletion changes nothing")
}

type rich struct {
	N  int
	S  string
	L  []int
	P  *int
	M  map[string]bool
	In struct{ B bool }
}

// H_C46_values: structured values come back equal and unshared.
func H_C46_values() {
	f := newStore[int, rich]()
	x := int(vsym.I64("p"))
	in := rich{N: int(vsym.I64("n")), S: vsym.Str("s", 2), L: []int{int(vsym.I64("l")), 2}, P: &x, M: map[string]bool{"k": vsym.Bool("m")}}
	vsym.Assume(vsym.And(in.S[0] < 0x80, in.S[1] < 0x80))
	in.In.B = vsym.Bool("b")
	want := in
	l0, m0 := in.L[0], in.M["k"]
	vsym.Assert(f.Set(bg, 7, in, time.Minute) == nil, "a write succeeds")
	in.L[0], in.M["k"], x = 99, !m0, x+1
	got, ok, err := f.Get(bg, 7)
	vsym.Assert(ok && err == nil, "the entry is found")
	vsym.Assert(got.N == want.N && got.S == want.S && len(got.L) == 2 && got.L[0] == l0 && got.L[1] == 2 && got.P != nil && *got.P == x-1 &&
		len(got.M) == 1 && got.M["k"] == m0 && got.In.B == want.In.B, "the value as it was when stored")
	g := newStore[int, *int]()
	vsym.Assert(g.Set(bg, -1, nil, time.Minute) == nil, "a nil value can be stored")
	p, ok, err := g.Get(bg, -1)
	vsym.Assert(ok && err == nil && p == nil, "a nil value is a hit")
}

// H_C46_empty: a store without a directory refuses writes and finds nothing.
func H_C46_empty() {
	vmodels.ResetFS("/c")
	clock()
	f := &cachex.FileStore[string, int]{}
	vsym.Assert(f.Set(bg, "k", 1, time.Hour) != nil, "a write without a directory is an error")
	vsym.Assert(f.MSet(bg, map[string]int{"k": 1}, time.Hour) != nil, "a batch write without a directory is an error")
	vsym.Assert(f.Delete(bg, "k") != nil, "a deletion without a directory is an error")
	vsym.Assert(f.Purge() != nil, "a purge without a directory is an error")
	_, ok, err := f.Get(bg, "k")
	vsym.Assert(!ok && err == nil, "nothing is found")
	vsym.Assert(len(vmodels.Files()) == 0 && len(vmodels.Log) == 0, "nothing is touched")
}

// ---- C47 ----

type entry struct {
	Data            int
	Key             string
	TTL, Ctime, Exp int64
}

func seal(v any) []byte {
	b, err := json.MarshalIndent(v, "", "  ")
	vsym.Assert(err == nil, "harness: encodes")
	return b
}

func ascii(name string, n int) string {
	s := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 0x80)
	}
	return s
}

// only is the path of the single file of the store.
func only() string {
	fs := vmodels.Files()
	vsym.Assert(len(fs) == 1, "one key, one file")
	return fs[0]
}

// H_C47_content: whatever the file holds.
func H_C47_content() {
	f := newStore[string, int]()
	vsym.Assert(f.Set(bg, "k", int(vsym.I64("v")), time.Hour) == nil, "a write succeeds")
	path := only()
	e := entry{int(vsym.I64("data")), "k", vsym.I64("ttl"), vsym.I64("ctime"), vsym.I64("exp")}
	alive := e.Exp > vmodels.NowNS
	good := seal(e)
	var data []byte
	c := vsym.Case(40)
	hit, free := false, false
	switch c {
	case 0:
		data, hit = good, true
	case 1: // an entry of another key
		e.Key = "other"
		data, free = seal(e), true
	case 2:
		data = good[:len(good)-1]
	case 3:
		data = good[:len(good)/2]
	case 4:
		data = good[:1]
	case 5:
		data = append(append([]byte(nil), good...), good...)
	case 6:
		data = append(append([]byte(nil), good...), "x"...)
	case 7:
		data, hit = append([]byte(" \n"), append(good, '\n')...), true
	case 8:
		data = seal(struct {
			Data string
			Exp  int64
		}{ascii("s", 1), e.Exp})
	case 9:
		data = seal(struct {
			Data int
			Exp  string
		}{e.Data, "9"})
	case 10:
		data = seal(struct {
			Data, Key int
			Exp       int64
		}{e.Data, 1, e.Exp})
	case 11:
		data, free = seal(struct{ Exp int64 }{e.Exp}), true
	case 12: // no expiry
		data = seal(struct{ Data int }{e.Data})
	case 13:
		data = seal([]entry{e})
	case 14:
		data = seal(e.Data)
	case 15:
		data = seal(vsym.Bool("b"))
	case 16:
		data = seal(struct {
			Data []int
			Exp  int64
		}{[]int{1}, e.Exp})
	case 17: // null data
		data, free = seal(struct {
			Data *int
			Exp  int64
		}{nil, e.Exp}), true
	case 18:
		data, free = seal(struct {
			DATA int
			Exp  int64
		}{e.Data, e.Exp}), true
	case 19:
		data = seal(struct {
			Data uint64
			Exp  int64
		}{1<<63 + vsym.U64("big")>>1, e.Exp})
	default:
		texts := []string{"null", "", " ", "\n", "{}", "[]", "[null]", "\"\"", "0", "-1", "true", "nul", "{", "}", "\x00", "\xff\xfe", "{\"Exp\":1e30}", "{\"Exp\":9223372036854775808}", "{\"Data\":1.5,\"Exp\":9223372036854775807}", "{\"Exp\":null}"}
		data = []byte(texts[c-20])
	}
	vmodels.Put(path, data)
	v, ok, err := f.Get(bg, "k")
	if ok {
		vsym.Assert(hit || free, "only an entry is a hit")
		vsym.Assert(alive && err == nil, "an expired entry is no hit")
		vsym.Assert(!hit || v == e.Data, "the data of the entry")
	} else {
		vsym.Assert(v == 0, "no value without a hit")
		vsym.Assert(!hit || !alive && err == nil, "an entry is a hit while it lives")
	}
	w := int(vsym.I64("w"))
	vsym.Assert(f.Set(bg, "k", w, time.Hour) == nil, "a write over it succeeds")
	v, ok, err = f.Get(bg, "k")
	vsym.Assert(ok && err == nil && v == w, "a write that reports success is readable")
}

// H_C47_faults: any file operation may fail, and writes may be torn.
func H_C47_faults() {
	f := newStore[string, int]()
	on := false
	hit := 0
	vmodels.Fault = func(op, path string) error {
		if on && vsym.Bool("fault") {
			hit++
			return vmodels.ErrIO
		}
		return nil
	}
	vmodels.Partial = func(n int) int { return []int{-1, 0, n / 2, n - 1, n}[vsym.Pick("torn", 0, 4)] }
	// values the key may have, and whether it may be absent
	var may []int
	absent := true
	first := vsym.Case(4)
	n := vsym.Bound(3, 4)
	for s := 0; s < n; s++ {
		op := first
		if s > 0 {
			op = vsym.Pick("op", 0, 3)
		}
		on, hit = true, 0
		switch op {
		case 0:
			v := int(vsym.I64("v"))
			err := f.Set(bg, "k", v, time.Hour)
			if err == nil {
				may, absent = []int{v}, false
			} else {
				may, absent = append(may, v), true
				vsym.Assert(hit > 0, "no failure, no error")
			}
		case 1:
			v, ok, err := f.Get(bg, "k")
			if ok {
				vsym.Assert(err == nil && member(may, v), "a value that was stored")
			} else {
				vsym.Assert(v == 0 && (absent || err != nil), "a stored value is not reported missing")
				vsym.Assert(absent || hit > 0, "no failure, no error")
			}
		case 2:
			err := f.Delete(bg, "k")
			vsym.Assert((err == nil) == (hit == 0), "a failed deletion is reported")
			if err == nil {
				may, absent = nil, true
			}
		case 3:
			err := f.Purge()
			if err == nil && hit == 0 {
				may, absent = nil, true
			} else {
				absent = true
			}
		}
		on = false
	}
	v, ok, err := f.Get(bg, "k")
	if ok {
		vsym.Assert(err == nil && member(may, v), "a value that was stored")
	} else {
		vsym.Assert(absent, "a write that reports success is readable")
	}
	v, ok, err = f.Get(bg, "k")
	vsym.Assert(err == nil, "an unreadable entry is reported once")
	vsym.Assert(ok || absent, "a write that reports success is readable")
}

// H_C47_batch: a batch of reads or writes in which any file operation may fail.
func H_C47_batch() {
	f := newStore[string, int]()
	c := vsym.Case(4)
	a, b := int(vsym.I64("a")), int(vsym.I64("b"))
	vsym.Assert(f.Set(bg, "a", a, time.Hour) == nil && f.Set(bg, "b", b, time.Hour) == nil, "a write succeeds")
	hit, left := 0, 2
	vmodels.Fault = func(op, path string) error {
		if left > 0 && vsym.Bool("fault") {
			hit++
			left--
			return vmodels.ErrIO
		}
		return nil
	}
	keys := [][]string{{"a", "b"}, {"b", "x", "a"}}[c%2]
	want := map[string]int{"a": a, "b": b}
	if c < 2 {
		vs, oks, err := f.MGet(bg, keys...)
		vsym.Assert(err == nil || hit > 0, "no failure, no error")
		if err == nil {
			vsym.Assert(len(vs) == len(keys) && len(oks) == len(keys), "a batch read answers every key")
			for i, k := range keys {
				w, in := want[k]
				vsym.Assert(oks[i] == in, "a failed read is no miss")
				vsym.Assert(vs[i] == w, "the value stored last")
			}
		}
	} else {
		a2, b2 := int(vsym.I64("a")), int(vsym.I64("b"))
		err := f.MSet(bg, map[string]int{"a": a2, "b": b2}, time.Hour)
		vsym.Assert(err == nil || hit > 0, "no failure, no error")
		if err == nil {
			want["a"], want["b"] = a2, b2
			left = 0
			for _, k := range []string{"a", "b"} {
				v, ok, e := f.Get(bg, k)
				vsym.Assert(e == nil && ok && v == want[k], "a write that reports success is readable")
			}
		}
	}
	left = 0
	// a failed batch may leave any part of it, each key with one of its values or none
	for _, k := range []string{"a", "b"} {
		f.Get(bg, k)
		_, _, err := f.Get(bg, k)
		vsym.Assert(err == nil, "an unreadable entry is reported once")
	}
}

// H_C47_rest: entries that cannot be written or removed do not keep the rest
// of a batch from being.
func H_C47_rest() {
	f := newStore[string, int]()
	ks := []string{"a", "b", "c"}
	at := map[string]int{}
	for i, k := range ks {
		vsym.Assert(f.Set(bg, k, i, time.Hour) == nil, "a write succeeds")
		for _, p := range vmodels.Files() {
			if _, in := at[p]; !in {
				at[p] = i
			}
		}
	}
	vsym.Assert(len(at) == len(ks), "one entry per key")
	var bad [3]bool
	for i := range bad {
		bad[i] = vsym.Bool("bad")
	}
	hit := 0
	vmodels.Fault = func(op, path string) error {
		if i, in := at[path]; in && (op == "write" || op == "remove") && bad[i] {
			hit++
			return vmodels.ErrIO
		}
		return nil
	}
	var err error
	if vsym.Case(2) == 0 {
		err = f.MSet(bg, map[string]int{"a": 10, "b": 11, "c": 12}, time.Hour)
	} else {
		err = f.Delete(bg, ks...)
	}
	vsym.Assert((err == nil) == (hit == 0), "failures are reported")
	vsym.Assert(hit == 0 || errors.Is(err, vmodels.ErrIO), "the failure itself is reported")
	vmodels.Fault = nil
	for i, k := range ks {
		if bad[i] {
			continue
		}
		v, ok, err := f.Get(bg, k)
		if vsym.Case(2) == 0 {
			vsym.Assert(err == nil && ok && v == 10+i, "the rest of a batch is written")
		} else {
			vsym.Assert(err == nil && !ok && v == 0, "the rest of a batch is removed")
		}
	}
}

// H_C46_sizes: entries replaced by shorter and longer ones.
func H_C46_sizes() {
	f := newStore[string, string]()
	vmodels.NowNS = 1 << 60
	texts := []string{"", "x", "a text that is a good deal longer", "[1]"}
	last := map[string]string{}
	for i := 0; i < vsym.Bound(3, 5); i++ {
		k := []string{"k", "a longer key"}[vsym.Pick("key", 0, 1)]
		v := texts[vsym.Pick("text", 0, len(texts)-1)]
		var err error
		if vsym.Case(2) == 0 {
			err = f.Set(bg, k, v, time.Hour)
		} else {
			err = f.MSet(bg, map[string]string{k: v}, time.Minute)
		}
		vsym.Assert(err == nil, "a write succeeds")
		last[k] = v
		for k, v := range last {
			w, ok, err := f.Get(bg, k)
			vsym.Assert(err == nil && ok && w == v, "the value stored last")
		}
	}
}

func member(l []int, v int) bool {
	r := false
	for _, x := range l {
		r = vsym.Or(r, x == v)
	}
	return r
}

// H_C47_value: a value that cannot be encoded is an error and stores nothing.
func H_C47_value() {
	f := newStore[string, any]()
	k := vsym.Case(2)
	bad := []any{make(chan int), func() {}}[k]
	vsym.Assert(f.Set(bg, "k", bad, time.Hour) != nil, "a write that cannot be encoded is an error")
	_, ok, err := f.Get(bg, "k")
	vsym.Assert(!ok && err == nil, "nothing was stored")
	vsym.Assert(f.MSet(bg, map[string]any{"a": "x", "b": bad}, time.Hour) != nil, "a batch reports the failing part")
	v, ok, err := f.Get(bg, "a")
	vsym.Assert(ok && err == nil && v == any("x"), "the other part of the batch is stored")
	vsym.Assert(f.Set(bg, "a", bad, time.Hour) != nil, "a write that cannot be encoded is an error")
	v, ok, err = f.Get(bg, "a")
	vsym.Assert(ok && err == nil && v == any("x"), "the value stored before stays")
}

// ---- C48 ----

// foreign puts files that are not entries of the store.
func foreign(dir string) []string {
	l := []string{dir + "/notes.txt", dir + "/abc/README", dir + "/.cachex", dir + "/data.json", "/c/other/x.cache"}
	for i, p := range l {
		vmodels.Put(p, []byte([]string{"hello", "null", "{}", "{\"Exp\":1}", "x"}[i]))
	}
	return l
}

func has(p string) bool { _, ok := vmodels.Peek(p); return ok }

// H_C48_gc: the background scan.
func H_C48_gc() {
	f := newStore[string, int]()
	f.GCCycle = time.Second
	var m model
	l := foreign("/c/store")
	for k := range names {
		if vsym.Pick("in", 0, 1) == 1 {
			v, ttl := int(vsym.I64("v")), newTTL()
			old := vmodels.Files()
			vsym.Assert(f.Set(bg, names[k], v, ttl) == nil, "a write succeeds")
			m.set(k, v, ttl)
			if c := vsym.Pick("corrupt", 0, 2); c > 0 {
				for _, p := range vmodels.Files() {
					if !strings.Contains(strings.Join(old, "|"), p) {
						vmodels.Put(p, [][]byte{nil, []byte("{\"Data\":"), []byte("null")}[c])
						m.has[k] = false
					}
				}
			}
		}
	}
	f.Get(bg, "nothing") // notes the time of the last scan
	vmodels.NowNS += int64(time.Second) + int64(vsym.U32("dt"))
	f.Get(bg, "nothing")
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "the scan ends")
	alive := 0
	for k := range names {
		if m.live(k) {
			alive++
		}
	}
	vsym.Assert(len(vmodels.Files()) == len(l)+alive, "dead entries are removed, nothing else")
	for _, p := range l {
		vsym.Assert(has(p), "files that are not entries stay")
	}
	for k := range names {
		check(f, &m, k)
	}
}

// H_C48_again: every kind of call starts the next scan once a cycle has passed,
// as often as needed.
func H_C48_again() {
	c := vsym.Case(5 * 3)
	f := newStore[string, int]()
	vmodels.NowNS = 1<<42 + int64(vsym.Pick("base", 0, 1))*123456789
	f.GCCycle = []time.Duration{0, time.Second, 90 * time.Second}[c/5]
	cycle := f.GCCycle
	if cycle == 0 {
		cycle = time.Minute
	}
	f.Get(bg, "nothing") // notes the time of the last scan
	rounds := vsym.Bound(2, 4)
	for r := 0; r < rounds; r++ {
		vsym.Assert(f.Set(bg, "dead", r, time.Second) == nil, "a write succeeds")
		vsym.Assert(f.Set(bg, "live", r, 100*time.Hour) == nil, "a write succeeds")
		vsym.Quiesce()
		vmodels.NowNS += int64(cycle) + int64(time.Second) + []int64{0, 1, 999999999, int64(time.Hour)}[vsym.Pick("dt", 0, 3)]
		var err error
		switch c % 5 {
		case 0:
			_, _, err = f.Get(bg, "nothing")
		case 1:
			err = f.Set(bg, "live", r, 100*time.Hour)
		case 2:
			_, _, err = f.MGet(bg, "nothing", "live")
		case 3:
			err = f.MSet(bg, map[string]int{"live": r}, 100*time.Hour)
		case 4:
			err = f.Delete(bg, "nothing")
		}
		vsym.Assert(err == nil, "the call succeeds")
		vsym.Quiesce()
		vsym.Assert(vsym.Blocked() == 0, "the scan ends")
		vsym.Assert(len(vmodels.Files()) == 1, "the dead entry is removed")
		v, ok, err := f.Get(bg, "live")
		vsym.Assert(ok && err == nil && v == r, "the live one stays")
	}
}

// H_C48_purge: purge, for directories and other files of any name.
func H_C48_purge() {
	vmodels.ResetFS("/c")
	clock()
	c := vsym.Case(4)
	dir := []string{"/c/store", "/c/store.cache", "/c/store/", "/c/./x"}[c]
	f := &cachex.FileStore[string, int]{Dir: dir, GCCycle: never}
	l := foreign(dir)
	vmodels.MkdirAll("/c/store/sub.cache", 0777)
	vmodels.Put("/c/store/sub.cache/keep", []byte("x"))
	for k := range names {
		if vsym.Pick("in", 0, 1) == 1 {
			vsym.Assert(f.Set(bg, names[k], 1, newTTL()) == nil, "a write succeeds")
		}
	}
	if torn := vsym.Pick("torn", 0, 2); torn > 0 && len(vmodels.Files()) > len(l)+1 {
		// a write that was cut off
		mine := ""
		for _, p := range vmodels.Files() {
			other := p == "/c/store/sub.cache/keep"
			for _, q := range l {
				other = other || p == filepath.Clean(q)
			}
			if !other {
				mine = p
			}
		}
		vmodels.Put(mine, []byte([]string{"", "{\"Da"}[torn-1]))
	}
	vsym.Assert(f.Purge() == nil, "a purge succeeds")
	vsym.Assert(len(vmodels.Files()) == len(l)+1, "all entries and nothing else are removed")
	for _, p := range l {
		vsym.Assert(has(p), "files that are not entries stay")
	}
	for k := range names {
		_, ok, err := f.Get(bg, names[k])
		vsym.Assert(!ok && err == nil, "after a purge no key is found")
	}
	vsym.Assert(f.Purge() == nil, "an empty store can be purged")
}

// H_C48_vanish: entries that disappear while they are being removed are no error.
func H_C48_vanish() {
	f := newStore[string, int]()
	for k := range names {
		vsym.Assert(f.Set(bg, names[k], 1, time.Hour) == nil, "a write succeeds")
	}
	n := 0
	vmodels.Fault = func(op, path string) error {
		if op == "remove" && vsym.Bool("gone") {
			n++
			vmodels.Fault = nil
			vmodels.Remove(path)
		}
		return nil
	}
	if vsym.Case(2) == 0 {
		vsym.Assert(f.Purge() == nil, "an entry that is gone already is no error")
	} else {
		vsym.Assert(f.Delete(bg, names[0], names[1], names[2]) == nil, "an entry that is gone already is no error")
	}
	vsym.Assert(len(vmodels.Files()) == 0, "all entries are removed")
}

// H_C48_fault: a removal that fails is reported and the others still happen.
func H_C48_fault() {
	f := newStore[string, int]()
	for k := range names {
		vsym.Assert(f.Set(bg, names[k], k, time.Hour) == nil, "a write succeeds")
	}
	n := 0
	vmodels.Fault = func(op, path string) error {
		if op == "remove" && vsym.Bool("fault") {
			n++
			return vmodels.ErrIO
		}
		return nil
	}
	var err error
	if vsym.Case(2) == 0 {
		err = f.Purge()
	} else {
		err = f.Delete(bg, names...)
	}
	vsym.Assert((err == nil) == (n == 0), "failures are reported")
	vsym.Assert(n == 0 || errors.Is(err, vmodels.ErrIO), "the failure itself is reported")
	vsym.Assert(len(vmodels.Files()) == n, "everything that can be removed is removed")
}

// H_C48_unlisted: directories that cannot be listed and files that cannot be
// read or removed do not keep the others from being cleaned.
func H_C48_unlisted() {
	f := newStore[string, int]()
	for k := range names {
		vsym.Assert(f.Set(bg, names[k], k, time.Second) == nil, "a write succeeds")
	}
	files := vmodels.Files()
	vsym.Assert(len(files) == len(names), "one entry per key")
	var stuck [3]bool
	failed := false
	lost := func(path string) {
		failed = true
		for i, p := range files {
			if p == path || strings.HasPrefix(p, path+"/") {
				stuck[i] = true
			}
		}
	}
	purge := vsym.Case(2) == 1
	vmodels.Fault = func(op, path string) error {
		if op != "readdir" && op != "remove" && op != "open" {
			return nil
		}
		if vsym.Pick("fault", 0, 1) == 1 {
			lost(path)
			return vmodels.ErrIO
		}
		return nil
	}
	if purge {
		err := f.Purge()
		vsym.Assert((err != nil) == failed, "what cannot be listed or removed is reported")
		vsym.Assert(!failed || errors.Is(err, vmodels.ErrIO), "the failure itself is reported")
	} else {
		f.GCCycle = time.Second
		f.Get(bg, "nothing")
		vmodels.NowNS += int64(time.Minute)
		f.Get(bg, "nothing")
		vsym.Quiesce()
		vsym.Assert(vsym.Blocked() == 0, "the scan ends")
	}
	for i, p := range files {
		vsym.Assert(has(p) == stuck[i], "everything that can be removed is removed")
	}
}

// scans counts the scans of the store's directory.
func scans() *int {
	n := new(int)
	vmodels.Fault = func(op, path string) error {
		if op == "readdir" && path == "/c/store" {
			*n++
		}
		return nil
	}
	return n
}

// H_C48_throttle: one scan a cycle.
func H_C48_throttle() {
	f := newStore[string, int]()
	vmodels.NowNS = 1<<42 + 123456789
	cycle := []time.Duration{0, 3 * time.Second, 90 * time.Second}[vsym.Case(3)]
	f.GCCycle = cycle
	if cycle == 0 {
		cycle = time.Minute
	}
	n := scans()
	vsym.Assert(f.Set(bg, "live", 1, 100*time.Hour) == nil, "a write succeeds")
	for round := 0; round < vsym.Bound(2, 3); round++ {
		vsym.Quiesce()
		vsym.Assert(*n == round, "one scan a cycle")
		for k := 0; k < 2; k++ {
			vmodels.NowNS += int64(cycle) / 3 * int64(vsym.Pick("dt", 0, 1))
			switch vsym.Pick("op", 0, 2) {
			case 0:
				f.Get(bg, "live")
			case 1:
				f.Set(bg, "live", 1, 100*time.Hour)
			case 2:
				f.MGet(bg, "live", "nothing")
			}
			vsym.Quiesce()
			vsym.Assert(*n == round, "no scan before a cycle has passed")
		}
		vmodels.NowNS += int64(cycle) + int64(time.Second)
		f.Get(bg, "live")
	}
}

// H_C48_once: callers that find a scan due together start one.
func H_C48_once() {
	f := newStore[string, int]()
	vmodels.NowNS = 1<<42 + 123456789
	f.GCCycle = time.Minute
	n := scans()
	vsym.Assert(f.Set(bg, "live", 1, time.Hour) == nil, "a write succeeds")
	vmodels.NowNS += int64(2 * time.Minute)
	vsym.Race(true)
	callers := 2 + vsym.Case(2)
	if callers == 3 {
		vsym.Delays(vsym.Bound(2, 3), vsym.Pick("order", 0, 2))
	}
	for t := 0; t < callers; t++ {
		go f.Get(bg, "k")
	}
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, "the scan ends")
	vsym.Assert(*n == 1, "one scan a cycle")
}

var _ fs.FileInfo

// H_C46_wide: many keys at once and in any state.
func H_C46_wide() {
	f := newStore[string, int]()
	vmodels.NowNS = 1 << 50
	n := []int{9, 20, 40}[vsym.Case(3)]
	keys := make([]string, n)
	val := make([]int, n)
	kvs := map[string]int{}
	for i := range keys {
		keys[i] = "key-" + string(rune('a'+i%26)) + strings.Repeat("x", i/26)
		val[i] = 3 * i
		if i == n/2 {
			val[i] = int(vsym.I64("v"))
		}
		kvs[keys[i]] = val[i]
	}
	if vsym.Pick("batch", 0, 1) == 1 {
		vsym.Assert(f.MSet(bg, kvs, 100) == nil, "a batch write succeeds")
	} else {
		for i, k := range keys {
			vsym.Assert(f.Set(bg, k, val[i], 100) == nil, "a write succeeds")
		}
	}
	gone := vsym.Pick("gone", 0, n)
	if gone < n {
		vsym.Assert(f.Delete(bg, keys[gone], keys[n-1], "absent") == nil, "a batch deletion succeeds")
	}
	long := vsym.Pick("long", 0, 1)
	if long == 1 {
		vsym.Assert(f.Set(bg, keys[1], val[1], 1000) == nil, "a write succeeds")
	}
	vmodels.NowNS += int64(vsym.U8("dt"))
	ask := append(append([]string{}, keys...), keys[0], "absent")
	vs, oks, err := f.MGet(bg, ask...)
	vsym.Assert(err == nil && len(vs) == n+2 && len(oks) == n+2, "a batch read answers every key")
	for i := range ask {
		live, v := vmodels.NowNS < 1<<50+100, 0
		j := i
		if i >= n {
			j = 0
		}
		v = val[j]
		if gone < n && (j == gone || j == n-1) {
			live = false
		}
		if long == 1 && j == 1 {
			live = true
		}
		if i == n+1 {
			live = false
		}
		vsym.Assert(oks[i] == live, "a hit exactly while the entry lives")
		vsym.Assert(vsym.Implies(oks[i], vs[i] == v), "the value stored last")
	}
}

// H_C46_digest: keys whose digests have their first or last 12 to 48 bits in
// common still have entries of their own.
func H_C46_digest() {
	c := vsym.Case(16)
	p := [][2]int{{20, 95}, {2, 116}, {104, 1928}, {9843, 11376}, {28295, 60448}, {93150, 312889},
		{2459514, 12623281}, {10485842, 16341428}, {0, 42}, {36, 62}, {8707, 9856}, {1481, 3791},
		{212267, 241283}, {309175, 317099}, {7176324, 7828602}, {12568333, 14364971}}[c]
	v, w := int(vsym.I64("v")), int(vsym.I64("w"))
	if c < 8 {
		apart(newStore[string, int](), "k"+strconv.Itoa(p[0]), "k"+strconv.Itoa(p[1]), v, w)
	} else {
		apart(newStore[int, int](), p[0], p[1], v, w)
	}
}

func apart[K comparable](f *cachex.FileStore[K, int], a, b K, v, w int) {
	vsym.Assert(f.Set(bg, a, v, time.Hour) == nil, "a write succeeds")
	_, ok, err := f.Get(bg, b)
	vsym.Assert(!ok && err == nil, "distinct keys have entries of their own")
	vsym.Assert(f.Set(bg, b, w, time.Hour) == nil, "a write succeeds")
	x, ok, err := f.Get(bg, a)
	vsym.Assert(ok && err == nil && x == v, "distinct keys have entries of their own")
	vsym.Assert(f.Delete(bg, a) == nil, "a deletion succeeds")
	x, ok, err = f.Get(bg, b)
	vsym.Assert(ok && err == nil && x == w, "distinct keys have entries of their own")
}
