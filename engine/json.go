package main

import (
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json over static types: a document is a tree of nodes, its text one
// opaque part. Marshal and Unmarshal methods of the repository are executed.

type jnode struct {
	k    string // null, bool, num, str, b64, quoted, arr, obj
	t    *Term
	els  []*Term
	kids []*jnode
	keys []string
}

var jnodes []*jnode

func jsonChunk(n *jnode) *Term {
	jnodes = append(jnodes, n)
	return UF("chunk:json", nil, nil, K(int64(len(jnodes)-1)))
}

type jfield struct {
	name                string
	index               []int
	typ                 types.Type
	tagged              bool
	omitempty, asString bool
}

// jsonFields are the fields encoding/json uses, dominance rules included.
func jsonFields(st *types.Struct) []jfield {
	var all []jfield
	var walk func(st *types.Struct, index []int)
	walk = func(st *types.Struct, index []int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			ix := append(append([]int(nil), index...), i)
			if f.Anonymous() && name == "" {
				t := f.Type()
				if s, ok := t.Underlying().(*types.Struct); ok {
					walk(s, ix)
					continue
				}
				if p, ok := t.Underlying().(*types.Pointer); ok {
					if _, ok := p.Elem().Underlying().(*types.Struct); ok {
						fail("JSON of an embedded pointer")
					}
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: name, index: ix, typ: f.Type(), tagged: name != ""}
			if name == "" {
				jf.name = f.Name()
			}
			for _, o := range strings.Split(opts, ",") {
				switch o {
				case "omitempty":
					jf.omitempty = true
				case "string":
					jf.asString = true
				case "":
				default:
					fail("JSON option %s", o)
				}
			}
			all = append(all, jf)
		}
	}
	walk(st, nil)
	var out []jfield
	for i, f := range all {
		keep := true
		for j, g := range all {
			if i == j || g.name != f.name {
				continue
			}
			// the shallower field wins, then the tagged one; else none
			switch {
			case len(g.index) != len(f.index):
				keep = keep && len(f.index) < len(g.index)
			case f.tagged != g.tagged:
				keep = keep && f.tagged
			default:
				keep = false
			}
		}
		if keep {
			out = append(out, f)
		}
	}
	return out
}

func (it *Interp) methodOf(t types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return it.prog.MethodValue(sel)
}

type jsonErr struct{ err value }

// jsonCall runs a MarshalJSON or MarshalText method.
func (it *Interp) jsonCall(fn *ssa.Function, recv value, text bool) *jnode {
	r := it.callFn(fn, []value{recv}, nil, it.cur).(tuple)
	if e := r[1].(iface); e.t != nil {
		panic(jsonErr{e})
	}
	els := termsOf(r[0])
	if text {
		return &jnode{k: "str", els: els}
	}
	n, rest := it.jsonParse(els)
	if len(rest) != 0 {
		panic(jsonErr{it.mkErr("invalid JSON")})
	}
	return n
}

func (it *Interp) jsonEncode(t types.Type, v value, addr *value, quoted bool) *jnode {
	isBig := namedPath(t) == "math/big.Int"
	if p, ok := t.Underlying().(*types.Pointer); ok {
		q := v.(*value)
		if q == nil {
			return &jnode{k: "null"}
		}
		if m := it.methodOf(t, "MarshalJSON"); m != nil && namedPath(p.Elem()) != "math/big.Int" {
			return it.jsonCall(m, q, false)
		}
		if m := it.methodOf(t, "MarshalText"); m != nil && namedPath(p.Elem()) != "math/big.Int" {
			return it.jsonCall(m, q, true)
		}
		return it.jsonEncode(p.Elem(), *q, q, quoted)
	}
	if isBig {
		if addr == nil {
			return &jnode{k: "obj"}
		}
		return &jnode{k: "num", t: v.(bigv).t}
	}
	for _, x := range []string{"MarshalJSON", "MarshalText"} {
		if _, ok := t.Underlying().(*types.Interface); ok {
			break
		}
		if m := it.methodOf(t, x); m != nil {
			return it.jsonCall(m, copyVal(v), x == "MarshalText")
		}
		if addr != nil {
			if m := it.methodOf(types.NewPointer(t), x); m != nil {
				return it.jsonCall(m, addr, x == "MarshalText")
			}
		}
	}
	q := func(n *jnode) *jnode {
		if quoted {
			return &jnode{k: "quoted", kids: []*jnode{n}}
		}
		return n
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return q(&jnode{k: "bool", t: v.(*Term)})
		case u.Info()&types.IsInteger != 0:
			return q(&jnode{k: "num", t: v.(*Term)})
		case u.Info()&types.IsString != 0:
			els := strEls(v)
			for _, e := range els {
				if e.op != OConst || e.k.Int64() >= 0x80 {
					if isChunk(e) {
						continue // texts of numbers
					}
					fail("JSON of a symbolic string")
				}
			}
			return q(&jnode{k: "str", els: els})
		}
	case *types.Struct:
		s := v.(structure)
		n := &jnode{k: "obj"}
		for _, f := range jsonFields(u) {
			c := &s[f.index[0]]
			for _, i := range f.index[1:] {
				c = &(*c).(structure)[i]
			}
			var a *value
			if addr != nil {
				a = c
			}
			if f.omitempty && it.jsonEmpty(*c) {
				continue
			}
			n.keys = append(n.keys, f.name)
			n.kids = append(n.kids, it.jsonEncode(f.typ, *c, a, f.asString))
		}
		return n
	case *types.Slice:
		s := v.([]value)
		if s == nil {
			return &jnode{k: "null"}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return &jnode{k: "b64", els: termsOf(s)}
		}
		n := &jnode{k: "arr"}
		for i := range s {
			n.kids = append(n.kids, it.jsonEncode(u.Elem(), s[i], &s[i], false))
		}
		return n
	case *types.Array:
		s := v.(array)
		n := &jnode{k: "arr"}
		for i := range s {
			var a *value
			if addr != nil {
				a = &s[i]
			}
			n.kids = append(n.kids, it.jsonEncode(u.Elem(), s[i], a, false))
		}
		return n
	case *types.Interface:
		x := v.(iface)
		if x.t == nil {
			return &jnode{k: "null"}
		}
		return it.jsonEncode(x.t, x.v, nil, false)
	}
	fail("JSON of %s", t)
	return nil
}

func (it *Interp) jsonEmpty(v value) bool {
	switch x := v.(type) {
	case *value:
		return x == nil
	case []value:
		return len(x) == 0
	case string:
		return x == ""
	case iface:
		return x.t == nil
	case *Term:
		if x.isBool {
			return !it.branch(x)
		}
		return it.branch(Eq(x, K(0)))
	}
	return false
}

// jsonParse reads a value made of literal bytes and opaque parts.
func (it *Interp) jsonParse(els []*Term) (*jnode, []*Term) {
	bad := func() { panic(jsonErr{it.mkErr("invalid JSON")}) }
	at := func() byte {
		for len(els) > 0 && els[0].op == OConst && strings.IndexByte(" \t\r\n", byte(els[0].k.Int64())) >= 0 {
			els = els[1:]
		}
		if len(els) == 0 {
			bad()
		}
		if els[0].op != OConst {
			return 0
		}
		return byte(els[0].k.Int64())
	}
	str := func() []*Term {
		els = els[1:]
		var out []*Term
		for {
			if len(els) == 0 {
				bad()
			}
			e := els[0]
			els = els[1:]
			if e.op == OConst {
				if e.k.Int64() == '"' {
					return out
				}
				if e.k.Int64() == '\\' {
					fail("JSON escapes")
				}
			} else if !isChunk(e) {
				fail("JSON with symbolic bytes")
			}
			out = append(out, e)
		}
	}
	word := func(w string) bool {
		if len(els) < len(w) {
			return false
		}
		for i := range w {
			if els[i].op != OConst || els[i].k.Int64() != int64(w[i]) {
				return false
			}
		}
		els = els[len(w):]
		return true
	}
	c := at()
	switch {
	case c == 0:
		e := els[0]
		if e.op == OUF && e.name == "chunk:json" {
			return jnodes[e.args[0].k.Int64()], els[1:]
		}
		if e.op == OUF && e.name == "chunk:dec" {
			return &jnode{k: "num", t: e.args[0]}, els[1:]
		}
		fail("JSON with symbolic bytes")
	case c == '"':
		return &jnode{k: "str", els: str()}, els
	case c == '[' || c == '{':
		n := &jnode{k: map[byte]string{'[': "arr", '{': "obj"}[c]}
		end := c + 2
		els = els[1:]
		if at() == end {
			return n, els[1:]
		}
		for {
			if c == '{' {
				if at() != '"' {
					bad()
				}
				k, ok := mkStr(str()).(string)
				if !ok {
					fail("JSON with a symbolic key")
				}
				n.keys = append(n.keys, k)
				if at() != ':' {
					bad()
				}
				els = els[1:]
			}
			var x *jnode
			x, els = it.jsonParse(els)
			n.kids = append(n.kids, x)
			d := at()
			els = els[1:]
			if d == end {
				return n, els
			}
			if d != ',' {
				bad()
			}
		}
	case word("null"):
		return &jnode{k: "null"}, els
	case word("true"):
		return &jnode{k: "bool", t: True}, els
	case word("false"):
		return &jnode{k: "bool", t: False}, els
	case c == '-' || c >= '0' && c <= '9':
		s := ""
		for len(els) > 0 && els[0].op == OConst && strings.IndexByte("+-.eE0123456789", byte(els[0].k.Int64())) >= 0 {
			s += string(rune(els[0].k.Int64()))
			els = els[1:]
		}
		z, ok := new(big.Int).SetString(s, 10)
		if ok && z.Sign() == 0 && s == "-0" {
			s = "0"
		}
		if !ok || z.String() != s {
			bad()
		}
		return &jnode{k: "num", t: Kb(z)}, els
	}
	bad()
	return nil, nil
}

// jsonDecode stores n into the variable at p; it reports whether the types fit.
func (it *Interp) jsonDecode(n *jnode, t types.Type, p *value, quoted bool) value {
	wrong := func() value { return it.mkErr("json: cannot unmarshal into " + t.String()) }
	call := func(name string) (value, bool) {
		if namedPath(t) == "math/big.Int" {
			return nil, false
		}
		m := it.methodOf(types.NewPointer(t), name)
		if m == nil {
			return nil, false
		}
		var els []*Term
		if name == "UnmarshalJSON" {
			els = []*Term{jsonChunk(n)}
		} else {
			if n.k != "str" {
				return wrong(), true
			}
			els = n.els
		}
		return it.callFn(m, []value{p, it.sliceOf(els)}, nil, it.cur), true
	}
	if ptr, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == "null" {
			it.store(p, (*value)(nil))
			return iface{}
		}
		q := (*p).(*value)
		if q == nil {
			q = it.newCell(it.zero(ptr.Elem()))
			it.store(p, q)
		}
		return it.jsonDecode(n, ptr.Elem(), q, quoted)
	}
	if r, ok := call("UnmarshalJSON"); ok {
		return r
	}
	if n.k == "null" {
		if _, ok := t.Underlying().(*types.Slice); ok {
			it.store(p, []value(nil))
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			it.store(p, iface{})
		}
		return iface{}
	}
	if r, ok := call("UnmarshalText"); ok {
		return r
	}
	if namedPath(t) == "math/big.Int" {
		if n.k != "num" {
			return wrong()
		}
		it.store(p, bigv{n.t})
		return iface{}
	}
	if quoted {
		switch t.Underlying().(type) {
		case *types.Basic:
			if n.k != "quoted" {
				return wrong()
			}
			n = n.kids[0]
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0 && n.k == "bool":
			it.store(p, n.t)
			return iface{}
		case u.Info()&types.IsInteger != 0 && n.k == "num":
			lo, hi, _, _, _ := intRange(t)
			if !inRange(n.t, lo, hi) && !it.branch(And(Le(Kb(lo), n.t), Le(n.t, Kb(hi)))) {
				return wrong()
			}
			it.store(p, n.t)
			return iface{}
		case u.Info()&types.IsString != 0 && n.k == "str":
			it.store(p, mkStr(n.els))
			return iface{}
		}
		return wrong()
	case *types.Struct:
		if n.k != "obj" {
			return wrong()
		}
		fs := jsonFields(u)
		var err value = iface{}
		for i, k := range n.keys {
			var f *jfield
			for j := range fs {
				if fs[j].name == k {
					f = &fs[j]
				}
			}
			for j := range fs {
				if f == nil && strings.EqualFold(fs[j].name, k) {
					f = &fs[j]
				}
			}
			if f == nil {
				continue
			}
			c := p
			for _, ix := range f.index {
				c = &(*c).(structure)[ix]
			}
			if e := it.jsonDecode(n.kids[i], f.typ, c, f.asString).(iface); e.t != nil && err.(iface).t == nil {
				err = e
			}
		}
		return err
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if n.k != "b64" {
				return wrong()
			}
			it.store(p, it.sliceOf(n.els))
			return iface{}
		}
		if n.k != "arr" {
			return wrong()
		}
		s := make([]value, len(n.kids))
		for i := range s {
			s[i] = it.zero(u.Elem())
		}
		it.markAlloc(s)
		it.store(p, s)
		var err value = iface{}
		for i := range s {
			if e := it.jsonDecode(n.kids[i], u.Elem(), &s[i], false).(iface); e.t != nil && err.(iface).t == nil {
				err = e
			}
		}
		return err
	case *types.Array:
		if n.k != "arr" {
			return wrong()
		}
		s := (*p).(array)
		var err value = iface{}
		for i := range s {
			if i >= len(n.kids) {
				it.storeVal(&s[i], it.zero(u.Elem()))
			} else if e := it.jsonDecode(n.kids[i], u.Elem(), &s[i], false).(iface); e.t != nil && err.(iface).t == nil {
				err = e
			}
		}
		return err
	}
	fail("JSON into %s", t)
	return nil
}

func (it *Interp) mkErr(msg string) value { return it.mkErrV(msg) }

func (it *Interp) mkErrV(msg value) value {
	for _, p := range it.prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			return it.callFn(p.Func("New"), []value{msg}, nil, it.cur)
		}
	}
	fail("errors package not loaded")
	return nil
}

func init() {
	note := "encoding/json encodes exported fields, big integers exactly and nil as null, and decodes what it has encoded"
	guard := func(it *Interp, f func() value, bad func(e value) value) (r value) {
		defer func() {
			switch p := recover().(type) {
			case nil:
			case jsonErr:
				r = bad(p.err)
			default:
				panic(p)
			}
		}()
		return f()
	}
	marshal := func(it *Interp, fn *ssa.Function, a []value) value {
		it.assumed[note] = true
		x := a[0].(iface)
		return guard(it, func() value {
			n := &jnode{k: "null"}
			if x.t != nil {
				n = it.jsonEncode(x.t, x.v, nil, false)
			}
			return tuple{it.sliceOf([]*Term{jsonChunk(n)}), iface{}}
		}, func(e value) value { return tuple{[]value(nil), e} })
	}
	baseIntr["encoding/json.Marshal"] = marshal
	baseIntr["encoding/json.MarshalIndent"] = marshal
	baseIntr["encoding/json.Unmarshal"] = func(it *Interp, fn *ssa.Function, a []value) value {
		it.assumed[note] = true
		x := a[1].(iface)
		return guard(it, func() value {
			n, rest := it.jsonParse(termsOf(a[0]))
			if len(rest) != 0 {
				return it.mkErr("invalid JSON")
			}
			var ptr *types.Pointer
			if x.t != nil {
				ptr, _ = x.t.Underlying().(*types.Pointer)
			}
			if ptr == nil || x.v.(*value) == nil {
				return it.mkErr("json: Unmarshal(nil)")
			}
			return it.jsonDecode(n, ptr.Elem(), x.v.(*value), false)
		}, func(e value) value { return e })
	}
}
