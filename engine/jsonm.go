package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// A model of encoding/json: marshalling yields an opaque text that stands for
// the tree of (possibly symbolic) values; unmarshalling such a text, or any
// concrete text, follows the rules of encoding/json on types the model knows
// and is unsupported on others.

type jnode struct {
	kind  byte // n null, b bool, i integer, f float, s string, a array, o object
	t     *Term
	uns   bool
	num   string // concrete number literal
	s     Str
	kids  []*jnode
	names []string
}

func (ex *Exec) jkey(n *jnode, b *strings.Builder) {
	fmt.Fprintf(b, "%c", n.kind)
	if n.t != nil {
		fmt.Fprintf(b, "%p", n.t)
	}
	if n.uns {
		b.WriteByte('u')
	}
	if n.kind == 's' {
		if n.s.t == nil {
			fmt.Fprintf(b, "%q", n.s.s)
		} else {
			for _, t := range n.s.t {
				fmt.Fprintf(b, "%p,", t)
			}
		}
	}
	b.WriteString(n.num)
	for i, k := range n.kids {
		b.WriteByte('(')
		if n.kind == 'o' {
			fmt.Fprintf(b, "%q:", n.names[i])
		}
		ex.jkey(k, b)
		b.WriteByte(')')
	}
}

const jOpen, jClose = "{\"\x01J", "\x01\"}"

// plain writes the real text of a tree without symbolic parts.
func (n *jnode) plain(b *strings.Builder) bool {
	str := func(s string) {
		t, _ := json.Marshal(s)
		b.Write(t)
	}
	switch n.kind {
	case 'n':
		b.WriteString("null")
	case 'b', 'i':
		switch {
		case n.t == nil:
			b.WriteString(n.num)
		case n.t.op != OConst:
			return false
		case n.kind == 'b':
			fmt.Fprint(b, n.t.val != 0)
		case n.uns:
			fmt.Fprint(b, n.t.val)
		default:
			fmt.Fprint(b, int64(n.t.val))
		}
	case 's':
		if n.s.t != nil {
			return false
		}
		str(n.s.s)
	case 'a', 'o':
		b.WriteByte("[{"[b2i(n.kind == 'o')])
		for i, k := range n.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			if n.kind == 'o' {
				str(n.names[i])
				b.WriteByte(':')
			}
			if !k.plain(b) {
				return false
			}
		}
		b.WriteByte("]}"[b2i(n.kind == 'o')])
	default:
		return false
	}
	return true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (ex *Exec) seal(n *jnode) string {
	var p strings.Builder
	if n.plain(&p) {
		return p.String()
	}
	var b strings.Builder
	ex.jkey(n, &b)
	k := b.String()
	if ex.jsonIdx == nil {
		ex.jsonIdx = map[string]int{}
	}
	id, ok := ex.jsonIdx[k]
	if !ok {
		id = len(ex.jsonTab)
		ex.jsonTab = append(ex.jsonTab, n)
		ex.jsonIdx[k] = id
	}
	return fmt.Sprintf("%s%07d%s", jOpen, id, jClose)
}

func hasMethodNamed(t types.Type, names ...string) bool {
	for _, n := range names {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

type jfield struct {
	name  string
	omit  bool
	index int
}

func jfields(u *types.Struct) []jfield {
	var r []jfield
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Embedded() {
			panic(unsupported("json: embedded field"))
		}
		if !f.Exported() {
			continue
		}
		name, opts, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
		if name == "-" && opts == "" {
			continue
		}
		if strings.Contains(opts, "string") {
			panic(unsupported("json: string option"))
		}
		if name == "" {
			name = f.Name()
		}
		r = append(r, jfield{name, strings.Contains(opts, "omit"), i})
	}
	return r
}

type jsonErr string

// jsonTree converts a value; it panics with jsonErr where Marshal fails.
func (ex *Exec) jsonTree(st *State, v Value, t types.Type, depth int) *jnode {
	if depth > 20 {
		panic(unsupported("json: deep value"))
	}
	if _, isI := under(t).(*types.Interface); !isI && hasMethodNamed(t, "MarshalJSON", "MarshalText") {
		panic(unsupported("json: custom marshaller " + typeStr(t)))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := v.(Str)
			if s.t == nil {
				return &jnode{kind: 's', s: Str{s: strings.ToValidUTF8(s.s, "\ufffd")}}
			}
			for _, b := range s.t {
				if !ex.decide(st, ex.tc.Ult(b, ex.tc.Const(0x80, 8))) {
					panic(unsupported("json: symbolic text outside ASCII"))
				}
			}
			return &jnode{kind: 's', s: s}
		case u.Info()&types.IsBoolean != 0:
			return &jnode{kind: 'b', t: v.(*Term)}
		case isFloat(t):
			return &jnode{kind: 'f', t: v.(*Term)}
		case isInteger(t):
			x := v.(*Term)
			if x.w < 64 {
				if isUnsigned(t) {
					x = ex.tc.Zext(x, 64)
				} else {
					x = ex.tc.Sext(x, 64)
				}
			}
			return &jnode{kind: 'i', t: x, uns: isUnsigned(t) && widthOf(t) == 64}
		}
		panic(jsonErr("json: unsupported type: " + typeStr(t)))
	case *types.Interface:
		i := v.(Iface)
		if i.typ == nil {
			return &jnode{kind: 'n'}
		}
		return ex.jsonTree(st, i.v, i.typ, depth+1)
	case *types.Pointer:
		p := v.(Ptr)
		if p.isNil() {
			return &jnode{kind: 'n'}
		}
		return ex.jsonTree(st, ex.load(st, p, u.Elem(), 0), u.Elem(), depth+1)
	case *types.Struct:
		n := &jnode{kind: 'o'}
		for _, f := range jfields(u) {
			if f.omit {
				panic(unsupported("json: omitempty"))
			}
			n.names = append(n.names, f.name)
			n.kids = append(n.kids, ex.jsonTree(st, v.(*Agg).e[f.index], u.Field(f.index).Type(), depth+1))
		}
		return n
	case *types.Array:
		n := &jnode{kind: 'a'}
		for _, e := range v.(*Agg).e {
			n.kids = append(n.kids, ex.jsonTree(st, e, u.Elem(), depth+1))
		}
		return n
	case *types.Slice:
		s := v.(Slice)
		if s.arr == 0 {
			return &jnode{kind: 'n'}
		}
		if widthOf(u.Elem()) == 8 {
			panic(unsupported("json: byte slice"))
		}
		n := &jnode{kind: 'a'}
		for _, e := range ex.sliceElems(st, s) {
			n.kids = append(n.kids, ex.jsonTree(st, e, u.Elem(), depth+1))
		}
		return n
	case *types.Map:
		m := v.(MapRef)
		if m.obj == 0 {
			return &jnode{kind: 'n'}
		}
		if !isString(u.Key()) {
			panic(unsupported("json: map key"))
		}
		n := &jnode{kind: 'o'}
		mo := st.getObj(ex, m.obj).v.(*MapObj)
		ents := append([]MapEnt(nil), mo.ents...)
		for _, e := range ents {
			if e.k.(Str).t != nil {
				panic(unsupported("json: symbolic map key"))
			}
		}
		sort.Slice(ents, func(i, j int) bool { return ents[i].k.(Str).s < ents[j].k.(Str).s })
		for _, e := range ents {
			n.names = append(n.names, e.k.(Str).s)
			n.kids = append(n.kids, ex.jsonTree(st, e.v, u.Elem(), depth+1))
		}
		return n
	}
	panic(jsonErr("json: unsupported type: " + typeStr(t)))
}

// parseJSON reads a concrete text.
func parseJSON(data []byte) *jnode {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var val func() *jnode
	val = func() *jnode {
		t, _ := d.Token()
		switch x := t.(type) {
		case nil:
			return &jnode{kind: 'n'}
		case bool:
			n := &jnode{kind: 'b', num: "false"}
			if x {
				n.num = "true"
			}
			return n
		case json.Number:
			return &jnode{kind: 'i', num: string(x)}
		case string:
			return &jnode{kind: 's', s: Str{s: x}}
		case json.Delim:
			n := &jnode{kind: 'a'}
			if x == '{' {
				n.kind = 'o'
			}
			for d.More() {
				if x == '{' {
					k, _ := d.Token()
					n.names = append(n.names, k.(string))
				}
				n.kids = append(n.kids, val())
			}
			d.Token()
			return n
		}
		panic(unsupported("json: token"))
	}
	return val()
}

type jdec struct {
	ex     *Exec
	st     *State
	err    string
	strict bool
}

func (d *jdec) mismatch(n *jnode, t types.Type) {
	if d.err == "" {
		what := map[byte]string{'n': "null", 'b': "bool", 'i': "number", 'f': "number", 's': "string", 'a': "array", 'o': "object"}[n.kind]
		d.err = "json: cannot unmarshal " + what + " into Go value of type " + typeStr(t)
	}
}

func (d *jdec) any(n *jnode) Value {
	ex := d.ex
	emptyI := types.NewInterfaceType(nil, nil)
	switch n.kind {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{typ: types.Typ[types.Bool], v: d.boolTerm(n)}
	case 's':
		return Iface{typ: types.Typ[types.String], v: n.s}
	case 'i', 'f':
		if n.num == "" && n.t.op != OConst {
			panic(unsupported("json: symbolic number into interface"))
		}
		var f float64
		switch {
		case n.num != "":
			x, err := strconv.ParseFloat(n.num, 64)
			if err != nil {
				d.mismatch(n, types.Typ[types.Float64])
				return Iface{}
			}
			f = x
		case n.kind == 'f':
			panic(unsupported("json: float into interface"))
		case n.uns:
			f = float64(n.t.val)
		default:
			f = float64(int64(n.t.val))
		}
		return Iface{typ: types.Typ[types.Float64], v: ex.tc.Const(math.Float64bits(f), 64)}
	case 'a':
		vals := make([]Value, len(n.kids))
		for i, k := range n.kids {
			vals[i] = d.any(k)
		}
		return Iface{typ: ex.P.canon(types.NewSlice(emptyI)), v: ex.mkSlice(d.st, vals)}
	}
	id := d.st.alloc(&MapObj{conc: map[string]int{}}, nil)
	for i, k := range n.kids {
		ex.mapSet(d.st, id, Str{s: n.names[i]}, d.any(k), types.Typ[types.String])
	}
	return Iface{typ: ex.P.canon(types.NewMap(types.Typ[types.String], emptyI)), v: MapRef{obj: id}}
}

func (d *jdec) boolTerm(n *jnode) *Term {
	if n.t != nil {
		return n.t
	}
	if n.num == "true" {
		return d.ex.tc.tru
	}
	return d.ex.tc.fls
}

func (d *jdec) into(n *jnode, p Ptr, t types.Type) {
	ex, st := d.ex, d.st
	if _, isI := under(t).(*types.Interface); !isI && hasMethodNamed(types.NewPointer(t), "UnmarshalJSON", "UnmarshalText") {
		panic(unsupported("json: custom unmarshaller " + typeStr(t)))
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if n.kind == 'n' {
			ex.store(st, p, Ptr{}, 0)
			return
		}
		q := ex.load(st, p, t, 0).(Ptr)
		if q.isNil() {
			q = Ptr{obj: st.alloc(ex.zero(u.Elem()), u.Elem())}
			ex.store(st, p, q, 0)
		}
		d.into(n, q, u.Elem())
	case *types.Interface:
		if n.kind == 'n' {
			ex.store(st, p, Iface{}, 0)
			return
		}
		if u.NumMethods() > 0 {
			d.mismatch(n, t)
			return
		}
		if cur := ex.load(st, p, t, 0).(Iface); cur.typ != nil {
			if _, ok := under(cur.typ).(*types.Pointer); ok {
				panic(unsupported("json: pointer in interface target"))
			}
		}
		ex.store(st, p, d.any(n), 0)
	case *types.Basic:
		if n.kind == 'n' {
			return
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind == 's' {
				ex.store(st, p, n.s, 0)
				return
			}
		case u.Info()&types.IsBoolean != 0:
			if n.kind == 'b' {
				ex.store(st, p, d.boolTerm(n), 0)
				return
			}
		case isFloat(t):
			if n.kind == 'f' && int(n.t.w) == widthOf(t) {
				ex.store(st, p, n.t, 0)
				return
			}
			if n.kind == 'i' && n.num != "" && widthOf(t) == 64 {
				if f, err := strconv.ParseFloat(n.num, 64); err == nil {
					ex.store(st, p, ex.tc.Const(math.Float64bits(f), 64), 0)
					return
				}
			} else if n.kind == 'i' || n.kind == 'f' {
				panic(unsupported("json: number into float"))
			}
		case isInteger(t):
			if n.kind == 'f' {
				panic(unsupported("json: float into integer"))
			}
			if n.kind == 'i' && d.integer(n, p, t) {
				return
			}
		default:
			panic(unsupported("json: target " + typeStr(t)))
		}
		d.mismatch(n, t)
	case *types.Struct:
		if n.kind == 'n' {
			return
		}
		if n.kind != 'o' {
			d.mismatch(n, t)
			return
		}
		fs := jfields(u)
		for i, name := range n.names {
			k := -1
			for j, f := range fs {
				if f.name == name {
					k = j
				}
			}
			for j, f := range fs {
				if k < 0 && strings.EqualFold(f.name, name) {
					k = j
				}
			}
			if k < 0 && d.strict && d.err == "" {
				d.err = "json: unknown field " + strconv.Quote(name)
			}
			if k >= 0 {
				d.into(n.kids[i], Ptr{obj: p.obj, path: extPath(p.path, fs[k].index)}, u.Field(fs[k].index).Type())
			}
		}
	case *types.Slice:
		switch {
		case n.kind == 'n':
			ex.store(st, p, Slice{}, 0)
		case widthOf(u.Elem()) == 8 && n.kind == 's':
			panic(unsupported("json: byte slice"))
		case n.kind != 'a':
			d.mismatch(n, t)
		default:
			vals := make([]Value, len(n.kids))
			for i := range vals {
				vals[i] = ex.zero(u.Elem())
			}
			s := ex.mkSlice(st, vals)
			ex.store(st, p, s, 0)
			for i, k := range n.kids {
				d.into(k, Ptr{obj: s.arr, path: []int32{int32(i)}}, u.Elem())
			}
		}
	case *types.Array:
		if n.kind == 'n' {
			return
		}
		if n.kind != 'a' {
			d.mismatch(n, t)
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			q := Ptr{obj: p.obj, path: extPath(p.path, i)}
			if i < len(n.kids) {
				d.into(n.kids[i], q, u.Elem())
			} else {
				ex.store(st, q, ex.zero(u.Elem()), 0)
			}
		}
	case *types.Map:
		if n.kind == 'n' {
			ex.store(st, p, MapRef{}, 0)
			return
		}
		if n.kind != 'o' {
			d.mismatch(n, t)
			return
		}
		if !isString(u.Key()) {
			panic(unsupported("json: map key"))
		}
		m := ex.load(st, p, t, 0).(MapRef)
		if m.obj == 0 {
			m = MapRef{obj: st.alloc(&MapObj{conc: map[string]int{}}, nil)}
			ex.store(st, p, m, 0)
		}
		for i, k := range n.kids {
			c := Ptr{obj: st.alloc(ex.zero(u.Elem()), u.Elem())}
			d.into(k, c, u.Elem())
			ex.mapSet(st, m.obj, Str{s: n.names[i]}, ex.load(st, c, u.Elem(), 0), u.Key())
		}
	default:
		d.mismatch(n, t)
	}
}

func (d *jdec) integer(n *jnode, p Ptr, t types.Type) bool {
	ex, st := d.ex, d.st
	w := widthOf(t)
	if n.num != "" {
		if isUnsigned(t) {
			x, err := strconv.ParseUint(n.num, 10, w)
			if err != nil {
				return false
			}
			ex.store(st, p, ex.tc.Const(x, w), 0)
			return true
		}
		x, err := strconv.ParseInt(n.num, 10, w)
		if err != nil {
			return false
		}
		ex.store(st, p, ex.tc.Const(uint64(x), w), 0)
		return true
	}
	if n.uns != (isUnsigned(t) && w == 64) {
		// between signed and unsigned 64 bits the sign bit must be clear
		if w == 64 || n.uns {
			if !ex.decide(st, ex.tc.Sle(ex.tc.Const(0, 64), n.t)) {
				return false
			}
		}
	}
	if w == 64 {
		ex.store(st, p, n.t, 0)
		return true
	}
	x := ex.tc.Extract(n.t, w-1, 0)
	back := ex.tc.Sext(x, 64)
	if isUnsigned(t) {
		back = ex.tc.Zext(x, 64)
	}
	if !ex.decide(st, ex.tc.Eq(back, n.t)) {
		return false
	}
	ex.store(st, p, x, 0)
	return true
}

func addJSON(m map[string]intrinsic) {
	pkg := modPath + "/verifh/vmodels."
	marshal := func(ex *Exec, st *State, c *callCtx) (r Value, a act) {
		defer func() {
			if e := recover(); e != nil {
				je, ok := e.(jsonErr)
				if !ok {
					panic(e)
				}
				r, a = Tuple{Str{}, Str{s: string(je)}}, actRet
			}
		}()
		i := c.args[0].(Iface)
		n := &jnode{kind: 'n'}
		if i.typ != nil {
			n = ex.jsonTree(st, i.v, i.typ, 0)
		}
		return Tuple{Str{s: ex.seal(n)}, Str{}}, actRet
	}
	m[pkg+"jsonSeal"] = marshal
	concrete := func(ex *Exec, st *State, v Value) []byte {
		b := make([]byte, 0, 64)
		for _, t := range ex.sliceBytes(st, v.(Slice)) {
			if t.op != OConst {
				panic(unsupported("json: symbolic text"))
			}
			b = append(b, byte(t.val))
		}
		return b
	}
	parse := func(ex *Exec, b []byte) *jnode {
		s := strings.TrimSpace(string(b))
		if strings.HasPrefix(s, jOpen) && strings.HasSuffix(s, jClose) && len(s) == len(jOpen)+7+len(jClose) {
			id, err := strconv.Atoi(s[len(jOpen) : len(jOpen)+7])
			if err == nil && id < len(ex.jsonTab) {
				return ex.jsonTab[id]
			}
		}
		if !json.Valid(b) {
			return nil
		}
		return parseJSON(b)
	}
	m[pkg+"jsonValid"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if parse(ex, concrete(ex, st, c.args[0])) == nil {
			return ex.tc.fls, actRet
		}
		return ex.tc.tru, actRet
	}
	// jsonOpen(data, v) returns "" or "!" for a syntax error or the type error text.
	open := func(strict bool) intrinsic {
		return func(ex *Exec, st *State, c *callCtx) (Value, act) {
			n := parse(ex, concrete(ex, st, c.args[0]))
			i := c.args[1].(Iface)
			if i.typ == nil {
				panic(unsupported("json: nil target"))
			}
			pt, ok := under(i.typ).(*types.Pointer)
			if !ok || i.v.(Ptr).isNil() {
				panic(unsupported("json: target is no pointer"))
			}
			if n == nil {
				return Str{s: "!"}, actRet
			}
			d := &jdec{ex: ex, st: st, strict: strict}
			d.into(n, i.v.(Ptr), pt.Elem())
			return Str{s: d.err}, actRet
		}
	}
	m[pkg+"jsonOpen"], m[pkg+"jsonStrict"] = open(false), open(true)
	m[pkg+"jsonFirst"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		b := concrete(ex, st, c.args[0])
		if k := len(jOpen) + 7 + len(jClose); len(b) >= k && strings.HasPrefix(string(b), jOpen) && strings.HasSuffix(string(b[:k]), jClose) {
			return ex.tc.Const(uint64(k), 64), actRet
		}
		d := json.NewDecoder(bytes.NewReader(b))
		var raw json.RawMessage
		n := int64(-2)
		switch err := d.Decode(&raw); {
		case err == nil:
			n = d.InputOffset()
		case err == io.EOF:
			n = -1
		case err == io.ErrUnexpectedEOF:
			n = -3
		}
		return ex.tc.Const(uint64(n), 64), actRet
	}
	m[pkg+"jsonNo"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		panic(unsupported("json: " + argS(ex, c, 0)))
	}
	same := func(ex *Exec, st *State, c *callCtx) (Value, act) { return c.args[0], actRet }
	for _, n := range []string{"jsonDecOut", "jsonDecIn", "jsonEncOut", "jsonEncIn"} {
		m[pkg+n] = same
	}
}
