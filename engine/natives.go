package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions on concrete arguments are computed by the library itself.

// nativeFns lists functions without side effects whose bodies the interpreter
// can not run (assembly, unsafe code); others join for speed.
var nativeFns = map[string]interface{}{
	"bytes.Contains":              bytes.Contains,
	"bytes.ContainsAny":           bytes.ContainsAny,
	"bytes.Count":                 bytes.Count,
	"bytes.Fields":                bytes.Fields,
	"bytes.Index":                 bytes.Index,
	"bytes.IndexByte":             bytes.IndexByte,
	"bytes.LastIndex":             bytes.LastIndex,
	"bytes.LastIndexByte":         bytes.LastIndexByte,
	"bytes.Replace":               bytes.Replace,
	"bytes.ReplaceAll":            bytes.ReplaceAll,
	"bytes.Split":                 bytes.Split,
	"bytes.SplitN":                bytes.SplitN,
	"bytes.ToLower":               bytes.ToLower,
	"bytes.ToUpper":               bytes.ToUpper,
	"bytes.Trim":                  bytes.Trim,
	"bytes.TrimLeft":              bytes.TrimLeft,
	"bytes.TrimRight":             bytes.TrimRight,
	"bytes.TrimSpace":             bytes.TrimSpace,
	"strings.Contains":            strings.Contains,
	"strings.ContainsAny":         strings.ContainsAny,
	"strings.ContainsRune":        strings.ContainsRune,
	"strings.Count":               strings.Count,
	"strings.EqualFold":           strings.EqualFold,
	"strings.Fields":              strings.Fields,
	"strings.HasPrefix":           strings.HasPrefix,
	"strings.HasSuffix":           strings.HasSuffix,
	"strings.Index":               strings.Index,
	"strings.IndexAny":            strings.IndexAny,
	"strings.IndexByte":           strings.IndexByte,
	"strings.IndexRune":           strings.IndexRune,
	"strings.LastIndex":           strings.LastIndex,
	"strings.LastIndexByte":       strings.LastIndexByte,
	"strings.Repeat":              strings.Repeat,
	"strings.Replace":             strings.Replace,
	"strings.ReplaceAll":          strings.ReplaceAll,
	"strings.Split":               strings.Split,
	"strings.SplitN":              strings.SplitN,
	"strings.Title":               strings.Title,
	"strings.ToLower":             strings.ToLower,
	"strings.ToUpper":             strings.ToUpper,
	"strings.Trim":                strings.Trim,
	"strings.TrimLeft":            strings.TrimLeft,
	"strings.TrimPrefix":          strings.TrimPrefix,
	"strings.TrimRight":           strings.TrimRight,
	"strings.TrimSpace":           strings.TrimSpace,
	"strings.TrimSuffix":          strings.TrimSuffix,
	"encoding/hex.EncodeToString": hex.EncodeToString,
	"encoding/hex.DecodeString":   hex.DecodeString,
	"strconv.Quote":               strconv.Quote,
	"strconv.Atoi":                strconv.Atoi,
	"strconv.ParseInt":            strconv.ParseInt,
	"strconv.ParseUint":           strconv.ParseUint,
	"strconv.ParseBool":           strconv.ParseBool,
	"strconv.FormatBool":          strconv.FormatBool,
	"math/big.Jacobi":             big.Jacobi,
}

var bigIntT = reflect.TypeOf((*big.Int)(nil))
var errorT = reflect.TypeOf((*error)(nil)).Elem()

// toNative converts a concrete value.
func (it *Interp) toNative(v value, t reflect.Type) (r reflect.Value, ok bool) {
	switch t.Kind() {
	case reflect.Ptr:
		if t != bigIntT {
			return r, false
		}
		p, isP := v.(*value)
		if !isP {
			return r, false
		}
		if p == nil {
			return reflect.Zero(t), true
		}
		b, isB := (*p).(bigv)
		if !isB || b.t.op != OConst {
			return r, false
		}
		return reflect.ValueOf(new(big.Int).Set(b.t.k)), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, isT := v.(*Term)
		if !isT || x.op != OConst {
			return r, false
		}
		return reflect.ValueOf(x.k.Int64()).Convert(t), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, isT := v.(*Term)
		if !isT || x.op != OConst {
			return r, false
		}
		return reflect.ValueOf(x.k.Uint64()).Convert(t), true
	case reflect.Bool:
		x, isT := v.(*Term)
		if !isT || x != True && x != False {
			return r, false
		}
		return reflect.ValueOf(x == True), true
	case reflect.String:
		s, isS := v.(string)
		if !isS {
			return r, false
		}
		return reflect.ValueOf(s), true
	case reflect.Slice:
		s, isS := v.([]value)
		if !isS {
			return r, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r = reflect.MakeSlice(t, len(s), len(s))
		for i := range s {
			e, ok := it.toNative(s[i], t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return r, false
}

// fromNative converts a result back.
func (it *Interp) fromNative(r reflect.Value) (value, bool) {
	if r.Type() == errorT {
		if r.IsNil() {
			return iface{}, true
		}
		return it.mkErr(r.Interface().(error).Error()), true
	}
	switch r.Kind() {
	case reflect.Ptr:
		if r.Type() != bigIntT {
			return nil, false
		}
		if r.IsNil() {
			return (*value)(nil), true
		}
		return it.newBig(Kb(r.Interface().(*big.Int))), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return K(r.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Kb(new(big.Int).SetUint64(r.Uint())), true
	case reflect.Bool:
		return Kbool(r.Bool()), true
	case reflect.String:
		return r.String(), true
	case reflect.Slice:
		if r.IsNil() {
			return []value(nil), true
		}
		out := make([]value, r.Len())
		for i := range out {
			e, ok := it.fromNative(r.Index(i))
			if !ok {
				return nil, false
			}
			out[i] = e
		}
		it.markAlloc(out)
		return out, true
	}
	return nil, false
}

// native calls f if all arguments are concrete.
func (it *Interp) native(f reflect.Value, a []value) (v value, ok bool) {
	t := f.Type()
	if t.NumIn() != len(a) {
		return nil, false
	}
	in := make([]reflect.Value, len(a))
	for i := range a {
		if in[i], ok = it.toNative(a[i], t.In(i)); !ok {
			return nil, false
		}
	}
	defer func() {
		if r := recover(); r != nil {
			panic(targetPanic{msg: fmt.Sprint(r), where: it.where()})
		}
	}()
	var out []reflect.Value
	if t.IsVariadic() {
		out = f.CallSlice(in)
	} else {
		out = f.Call(in)
	}
	// a big.Int result that is one of the arguments is written there
	conv := func(r reflect.Value) (value, bool) {
		if r.Type() == bigIntT && !r.IsNil() {
			for i := range in {
				if in[i].Type() == bigIntT && in[i].Pointer() == r.Pointer() {
					return a[i], true
				}
			}
		}
		return it.fromNative(r)
	}
	for i := range in {
		if in[i].Type() == bigIntT && !in[i].IsNil() {
			z := in[i].Interface().(*big.Int)
			if z.Cmp((*a[i].(*value)).(bigv).t.k) != 0 {
				it.setBig(a[i], Kb(z))
			}
		}
	}
	res := make(tuple, len(out))
	for i := range out {
		if res[i], ok = conv(out[i]); !ok {
			return nil, false
		}
	}
	if len(res) == 1 {
		return res[0], true
	}
	return res, true
}

// bigNative models a method of big.Int by the method itself, on constants.
func bigNative(name string) intrinsicFn {
	i := strings.LastIndex(name, ".")
	m, ok := bigIntT.MethodByName(name[i+1:])
	if !ok {
		return nil
	}
	return func(it *Interp, fn *ssa.Function, a []value) value {
		v, ok := it.native(m.Func, a)
		if !ok {
			fail("no model for %s on symbolic values", fn)
		}
		return v
	}
}

// interpret runs the body of a function that also has a model.
func (it *Interp) interpret(fn *ssa.Function, a []value) value {
	if fn.Blocks == nil {
		fail("no body and no model for %s", fn)
	}
	it.skipIntr = fn
	return it.callFn(fn, a, nil, it.cur)
}

// callMethodOf calls the model of another method of fn's receiver type.
func (it *Interp) callMethodOf(fn *ssa.Function, name string, a ...value) value {
	s := fn.String()
	return baseIntr[s[:strings.LastIndex(s, ".")+1]+name](it, fn, a)
}

// find: the first (or last) position of c, by case distinction.
func (it *Interp) find(els []*Term, c *Term, last bool) *Term {
	r := K(-1)
	for i := range els {
		j := len(els) - 1 - i
		if last {
			j = i
		}
		if isChunk(els[j]) && !strings.HasPrefix(els[j].name, "chunk:m:") {
			fail("search in opaque text")
		}
		r = Ite(Eq(els[j], c), K(int64(j)), r)
	}
	return r
}

func anyEls(v value) []*Term {
	if s, ok := v.([]value); ok {
		return termsOf(s)
	}
	return strEls(v)
}

func seqCompare(a, b []*Term) *Term {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	a, b = a[i:], b[i:]
	con := true
	for _, x := range append(append([]*Term(nil), a...), b...) {
		con = con && !isChunk(x)
	}
	if con {
		// lexicographic order of the bytes
		r := K(0)
		switch {
		case len(a) < len(b):
			r = K(-1)
		case len(a) > len(b):
			r = K(1)
		}
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		for i := n - 1; i >= 0; i-- {
			r = Ite(Eq(a[i], b[i]), r, Ite(Lt(a[i], b[i]), K(-1), K(1)))
		}
		return r
	}
	return Ite(seqEq(a, b), K(0), Ite(UB("order:"+bytesKey(a)+"|"+bytesKey(b)), K(-1), K(1)))
}

func init() {
	for name, f := range nativeFns {
		rv := reflect.ValueOf(f)
		baseIntr[name] = func(it *Interp, fn *ssa.Function, a []value) value {
			if v, ok := it.native(rv, a); ok {
				return v
			}
			return it.interpret(fn, a)
		}
	}
	const alg = "internal/bytealg."
	count := func(it *Interp, fn *ssa.Function, a []value) value {
		r := K(0)
		for _, e := range anyEls(a[0]) {
			if isChunk(e) && !strings.HasPrefix(e.name, "chunk:m:") {
				fail("search in opaque text")
			}
			r = Add(r, Ite(Eq(e, a[1].(*Term)), K(1), K(0)))
		}
		return r
	}
	baseIntr[alg+"Count"] = count
	baseIntr[alg+"CountString"] = count
	for _, s := range []string{"", "String"} {
		baseIntr[alg+"IndexByte"+s] = func(it *Interp, fn *ssa.Function, a []value) value {
			return it.find(anyEls(a[0]), a[1].(*Term), false)
		}
		baseIntr[alg+"LastIndexByte"+s] = func(it *Interp, fn *ssa.Function, a []value) value {
			return it.find(anyEls(a[0]), a[1].(*Term), true)
		}
		index := func(it *Interp, fn *ssa.Function, a []value) value {
			x, y := anyEls(a[0]), anyEls(a[1])
			r := K(-1)
			for j := len(x) - len(y); j >= 0; j-- {
				r = Ite(seqEq(x[j:j+len(y)], y), K(int64(j)), r)
			}
			return r
		}
		baseIntr[alg+"Index"+s] = index
		baseIntr[alg+"Compare"+s] = func(it *Interp, fn *ssa.Function, a []value) value {
			return seqCompare(anyEls(a[0]), anyEls(a[1]))
		}
	}
	baseIntr["bytes.Compare"] = baseIntr[alg+"Compare"]
	baseIntr["strings.Compare"] = baseIntr[alg+"Compare"]
	baseIntr[alg+"Equal"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return seqEq(termsOf(a[0]), termsOf(a[1]))
	}
	baseIntr[alg+"MakeNoZero"] = func(it *Interp, fn *ssa.Function, a []value) value {
		n := it.concInt(a[0].(*Term), "length")
		els := make([]*Term, n)
		for i := range els {
			els[i] = K(0)
		}
		return it.sliceOf(els)
	}
	for _, n := range []string{"crypto/subtle.ConstantTimeCompare", "crypto/internal/fips140/subtle.ConstantTimeCompare", "crypto/hmac.Equal"} {
		eq := n == "crypto/hmac.Equal"
		baseIntr[n] = func(it *Interp, fn *ssa.Function, a []value) value {
			x, y := termsOf(a[0]), termsOf(a[1])
			r := False
			if len(x) == len(y) {
				r = seqEq(x, y)
			}
			if eq {
				return r
			}
			return Ite(r, K(1), K(0))
		}
	}
	baseIntr["fmt.Sprintf"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			fail("symbolic format")
		}
		return mkStr(it.render(s, a[1].([]value)))
	}
	sprint := func(it *Interp, args []value) []*Term {
		var els []*Term
		str := func(v value) bool {
			switch v.(iface).v.(type) {
			case string, *symStr:
				return true
			}
			return false
		}
		for i, v := range args {
			if i > 0 && !str(v) && !str(args[i-1]) {
				els = append(els, K(' '))
			}
			els = append(els, it.renderOne("%v", v.(iface))...)
		}
		return els
	}
	baseIntr["(*strings.Builder).WriteRune"] = func(it *Interp, fn *ssa.Function, a []value) value {
		r := a[1].(*Term)
		if r.op != OConst {
			fail("symbolic rune")
		}
		s := string(rune(r.k.Int64()))
		return it.callMethodOf(fn, "WriteString", a[0], s)
	}
	baseIntr["(*bytes.Buffer).WriteRune"] = baseIntr["(*strings.Builder).WriteRune"]
	baseIntr["fmt.Sprint"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return mkStr(sprint(it, a[0].([]value)))
	}
	baseIntr["fmt.Errorf"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s, _ := a[0].(string)
		args := a[1].([]value)
		var msg value = "errorf:" + s
		if els := it.render(strings.ReplaceAll(s, "%w", "%v"), args); els != nil {
			msg = mkStr(els)
		}
		if strings.Count(s, "%w") == 1 && fn.Pkg != nil {
			for _, v := range args {
				x := v.(iface)
				if x.t == nil || it.prog.MethodSets.MethodSet(x.t).Lookup(nil, "Error") == nil {
					continue
				}
				if t := fn.Pkg.Type("wrapError"); t != nil {
					return iface{types.NewPointer(t.Type()), it.newCell(structure{msg, x})}
				}
			}
		}
		return it.mkErrV(msg)
	}
	fprint := func(it *Interp, w value, els []*Term) value {
		p, ok := w.(iface).v.(*value)
		if !ok || p == nil {
			fail("print to %T", w.(iface).v)
		}
		switch x := (*p).(type) {
		case bufv:
			it.store(p, bufv{append(append([]*Term(nil), x.els...), els...)})
		case hashv:
			it.store(p, hashv{append(append([]*Term(nil), x.els...), els...)})
		default:
			fail("print to %T", x)
		}
		return tuple{K(int64(len(els))), iface{}}
	}
	baseIntr["fmt.Fprintf"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s, ok := a[1].(string)
		if !ok {
			fail("symbolic format")
		}
		return fprint(it, a[0], it.render(s, a[2].([]value)))
	}
	baseIntr["fmt.Fprint"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return fprint(it, a[0], sprint(it, a[1].([]value)))
	}
	baseIntr["io.WriteString"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return fprint(it, a[0], strEls(a[1]))
	}

	baseIntr["crypto/internal/constanttime.boolToUint8"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return Ite(a[0].(*Term), K(1), K(0))
	}
	for _, n := range []string{"crypto/internal/constanttime.Select", "crypto/subtle.ConstantTimeSelect"} {
		baseIntr[n] = func(it *Interp, fn *ssa.Function, a []value) value {
			return Ite(Eq(a[0].(*Term), K(0)), a[2].(*Term), a[1].(*Term))
		}
	}

	// error chains
	unwrap := func(it *Interp, e iface) iface {
		if sel := it.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Unwrap"); sel != nil {
			if r, ok := it.call(it.prog.MethodValue(sel), []value{e.v}, it.cur).(iface); ok {
				return r
			}
			fail("error with several causes")
		}
		return iface{}
	}
	baseIntr["errors.Is"] = func(it *Interp, fn *ssa.Function, a []value) value {
		e, t := a[0].(iface), a[1].(iface)
		if e.t == nil || t.t == nil {
			return Kbool(e.t == nil && t.t == nil)
		}
		for ; e.t != nil; e = unwrap(it, e) {
			if it.branch(it.equal(e, t)) {
				return True
			}
		}
		return False
	}
	baseIntr["errors.As"] = func(it *Interp, fn *ssa.Function, a []value) value {
		e, t := a[0].(iface), a[1].(iface)
		p, ok := t.t.(*types.Pointer)
		if !ok {
			fail("errors.As")
		}
		for ; e.t != nil; e = unwrap(it, e) {
			if i, ok := p.Elem().Underlying().(*types.Interface); ok {
				if types.Implements(e.t, i) {
					it.store(t.v.(*value), e)
					return True
				}
			} else if types.Identical(e.t, p.Elem()) {
				it.store(t.v.(*value), e.v)
				return True
			}
		}
		return False
	}

	// sorting: insertion sort, by case distinction
	sortBy := func(it *Interp, s []value, less func(i, j int) *Term, swap func(i, j int)) {
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && it.branch(less(j, j-1)); j-- {
				swap(j, j-1)
			}
		}
	}
	slices := func(it *Interp, v value) ([]value, func(i, j int)) {
		if x, ok := v.(iface); ok {
			v = x.v
		}
		s, ok := v.([]value)
		if !ok {
			fail("sort of %T", v)
		}
		return s, func(i, j int) {
			x, y := s[i], s[j]
			it.store(&s[i], y)
			it.store(&s[j], x)
		}
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		baseIntr[n] = func(it *Interp, fn *ssa.Function, a []value) value {
			s, swap := slices(it, a[0])
			sortBy(it, s, func(i, j int) *Term {
				return it.call(a[1], []value{K(int64(i)), K(int64(j))}, it.cur).(*Term)
			}, swap)
			return tuple{}
		}
	}
	baseIntr["sort.Ints"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s, swap := slices(it, a[0])
		sortBy(it, s, func(i, j int) *Term { return Lt(s[i].(*Term), s[j].(*Term)) }, swap)
		return tuple{}
	}
	baseIntr["sort.Strings"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s, swap := slices(it, a[0])
		sortBy(it, s, func(i, j int) *Term { return Lt(seqCompare(anyEls(s[i]), anyEls(s[j])), K(0)) }, swap)
		return tuple{}
	}
}

// render formats as fmt does: natively for concrete operands, else digit by
// digit for plain decimal and string verbs; other verbs stay opaque.
func (it *Interp) render(s string, args []value) []*Term {
	var els []*Term
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' || i+1 >= len(s) {
			els = append(els, K(int64(s[i])))
			continue
		}
		st := i
		i++
		for i < len(s)-1 && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			i++
		}
		verb := s[st : i+1]
		if s[i] == '%' {
			els = append(els, K('%'))
			continue
		}
		if ai >= len(args) {
			fail("Sprintf arguments")
		}
		els = append(els, it.renderOne(verb, args[ai].(iface))...)
		ai++
	}
	return els
}

func (it *Interp) renderOne(verb string, f iface) []*Term {
	plain := verb == "%d" || verb == "%v" || verb == "%s"
	switch x := f.v.(type) {
	case *Term:
		if x == True || x == False {
			return strEls(fmt.Sprintf(verb, x == True))
		}
		if x.op == OConst {
			if b, ok := f.t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return strEls(fmt.Sprintf(verb, x.k.Uint64()))
			}
			return strEls(fmt.Sprintf(verb, x.k.Int64()))
		}
		if plain && !x.isBool {
			return strEls(symText(x))
		}
		if !x.isBool {
			return []*Term{UF("chunk:fmt"+verb, nil, nil, x)}
		}
		return strEls("<?>")
	case string:
		return strEls(fmt.Sprintf(verb, x))
	case *symStr:
		if plain {
			return x.els
		}
	case *value:
		if x != nil {
			if b, ok := (*x).(bigv); ok {
				if b.t.op == OConst {
					return strEls(fmt.Sprintf(verb, b.t.k))
				}
				if plain {
					return strEls(symText(b.t))
				}
				return []*Term{UF("chunk:fmt"+verb, nil, nil, b.t)}
			}
		}
	}
	if f.t != nil {
		// errors and stringers
		for _, m := range []string{"Error", "String"} {
			if sel := it.prog.MethodSets.MethodSet(f.t).Lookup(nil, m); sel != nil && plain {
				if sig := sel.Type().(*types.Signature); sig.Params().Len() == 0 && sig.Results().Len() == 1 {
					return anyEls(it.call(it.prog.MethodValue(sel), []value{f.v}, it.cur))
				}
			}
		}
	}
	return strEls("<?>")
}
