package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----------------------------------------------------------------

type value interface{}

type structure []value
type array []value
type tuple []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn  *ssa.Function
	env []value
}
type symStr struct{ els []*Term } // string with symbolic bytes / opaque chunks
type bigv struct{ t *Term }       // contents of a big.Int
type bufv struct{ els []*Term }   // contents of a bytes.Buffer / strings.Builder
type hashv struct{ els []*Term }  // contents of a running sha256
type grpv struct{ g *Grp }        // abstract group element
type opaquev struct{ name string }
type mapData struct {
	keys []value
	vals []value
}
type mapRef struct{ cell value } // cell holds *mapData (copy on write)
type mapIter struct {
	d *mapData
	i int
}
type symIter struct {
	els []*Term
	i   int
}
type strIter struct {
	s string
	i int
}

// control-flow signals
type targetPanic struct {
	msg   string
	where string
	val   value // of an explicit panic
}
type pathEnd struct{ reason string } // assumption violated / infeasible
type engineErr struct{ msg string }  // something the engine cannot encode
type mergeAbort struct{ why string }

func fail(f string, a ...interface{}) { panic(engineErr{fmt.Sprintf(f, a...)}) }

type undo struct {
	addr *value
	old  value
}

type frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]value
	caller  *frame
	defers  []func()
	prev    *ssa.BasicBlock
	merging map[*ssa.BasicBlock]bool
	call    ssa.Instruction
}

type Interp struct {
	prog     *ssa.Program
	globals  map[*ssa.Global]*value
	log      []undo
	cfg      *Config
	steps    int64
	maxSteps int64

	pc       []*Term
	pcSet    map[*Term]bool
	dec      []bool
	pos      int
	newForks [][]bool
	noFork   int // >0: inside a merge, forking aborts it
	inInit   bool
	alloc    map[*value]bool // cells allocated inside the current merge side

	draws     []Draw
	hashReuse []*HashEvent
	hashes    []*HashEvent
	encoded   map[string]bool
	assumed   map[string]bool
	obs       []*Obligation
	reached   map[string]bool
	snaps     []value
	callCnt   map[string]int
	cur       *frame
	panicking *targetPanic
	skipIntr  *ssa.Function // run its body, not its model, once
	paths     int
	merges    int
	abortWhy  map[string]int
	concrete  map[string]value

	intrCache map[*ssa.Function]intrinsicFn
	hashTerms map[*Term]bool
	res       *Result
	inputs    []*Term
	lastPanic string
}

type Draw struct {
	v   *Term
	max *big.Int
}
type HashEvent struct {
	els []*Term
	out *Term
}

var ipdoms = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}

func repoFn(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return strings.HasPrefix(p, "github.com/ing-bank/zkrp") && !strings.HasSuffix(p, "/verifrt")
}
func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return fn.Origin().Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// ---- memory ------------------------------------------------------------------

func (it *Interp) store(addr *value, v value) {
	if addr == nil {
		panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
	}
	it.log = append(it.log, undo{addr, *addr})
	*addr = v
}

func (it *Interp) rollback(mark int) {
	for i := len(it.log) - 1; i >= mark; i-- {
		*it.log[i].addr = it.log[i].old
	}
	it.log = it.log[:mark]
}

func (it *Interp) newCell(v value) *value {
	p := new(value)
	*p = v
	if it.alloc != nil {
		it.alloc[p] = true
	}
	return p
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

// load reads a cell; aggregates are copied.
func (it *Interp) load(addr *value) value {
	if addr == nil {
		panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
	}
	return copyVal(*addr)
}

// storeVal stores into a cell field-wise, so that interior pointers stay valid.
func (it *Interp) storeVal(addr *value, v value) {
	if addr == nil {
		panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
	}
	switch o := (*addr).(type) {
	case structure:
		n := v.(structure)
		for i := range o {
			it.storeVal(&o[i], n[i])
		}
		return
	case array:
		n := v.(array)
		for i := range o {
			it.storeVal(&o[i], n[i])
		}
		return
	}
	it.store(addr, v)
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
	}
	return ""
}

func (it *Interp) zero(t types.Type) value {
	switch namedPath(t) {
	case "math/big.Int":
		return bigv{K(0)}
	case "bytes.Buffer", "strings.Builder":
		return bufv{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return K(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return opaquev{"zero " + t.String()}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapRef)(nil)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = it.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i] = it.zero(u.Elem())
		}
		return a
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return opaquev{"chan"}
	case *types.Tuple:
		r := make(tuple, u.Len())
		for i := range r {
			r[i] = it.zero(u.At(i).Type())
		}
		return r
	}
	fail("zero value of %s", t)
	return nil
}

// ---- conversions between Go constants / terms --------------------------------

func intRange(t types.Type) (lo, hi *big.Int, bits uint, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		bits, signed = 64, true
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint64, types.Uint, types.Uintptr:
		bits = 64
	default:
		return nil, nil, 0, false, false
	}
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(b1, bits-1), b1)
		lo = new(big.Int).Neg(new(big.Int).Lsh(b1, bits-1))
	} else {
		lo, hi = b0, new(big.Int).Sub(new(big.Int).Lsh(b1, bits), b1)
	}
	return lo, hi, bits, signed, true
}

// wrap reduces a mathematical integer into the machine type t.
func wrap(x *Term, t types.Type) *Term {
	lo, hi, bits, signed, ok := intRange(t)
	if !ok {
		return x
	}
	if inRange(x, lo, hi) {
		return x
	}
	m := new(big.Int).Lsh(b1, bits)
	if !signed {
		return Mod(x, m)
	}
	half := Kb(new(big.Int).Lsh(b1, bits-1))
	return Sub(Mod(Add(x, half), m), half)
}

// wrapSplit is wrap for sums and differences, with separate paths for the
// values that do and do not overflow.
func (it *Interp) wrapSplit(x *Term, t types.Type) *Term {
	lo, hi, bits, signed, ok := intRange(t)
	if !ok || inRange(x, lo, hi) {
		return x
	}
	if !signed || bits < 32 || it.noFork > 0 {
		return wrap(x, t)
	}
	if it.branch(And(Le(Kb(lo), x), Le(x, Kb(hi)))) {
		return x
	}
	m := Kb(new(big.Int).Lsh(b1, bits))
	if it.branch(Lt(Kb(hi), x)) {
		return Sub(x, m)
	}
	return Add(x, m)
}

// wrapSign is wrap for conversions between signed and unsigned 64-bit integers;
// it leaves out the reduction where the path settles the sign.
func (it *Interp) wrapSign(x *Term, dst, src types.Type) *Term {
	lo, hi, bits, signed, ok := intRange(dst)
	if !ok || inRange(x, lo, hi) {
		return x
	}
	_, _, sbits, ssigned, ok := intRange(src)
	if !ok || bits != 64 || sbits != 64 || signed == ssigned {
		return wrap(x, dst)
	}
	in := And(Le(Kb(lo), x), Le(x, Kb(hi)))
	if !it.feasible(Not(in)) {
		return x
	}
	if !it.feasible(in) {
		m := Kb(new(big.Int).Lsh(b1, bits))
		if signed {
			return Sub(x, m)
		}
		return Add(x, m)
	}
	return wrap(x, dst)
}

func (it *Interp) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return it.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Kbool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return K(i)
			}
			z, _ := new(big.Int).SetString(v.ExactString(), 10)
			return Kb(z)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		}
	}
	fail("constant %s", c)
	return nil
}

// ---- frames --------------------------------------------------------------------

func (it *Interp) get(fr *frame, v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return it.constVal(v)
	case *ssa.Global:
		return it.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	fail("no value for %s in %s", v.Name(), fr.fn)
	return nil
}

func (it *Interp) global(g *ssa.Global) *value {
	if p, ok := it.globals[g]; ok {
		return p
	}
	p := new(value)
	*p = it.zero(g.Type().(*types.Pointer).Elem())
	it.globals[g] = p
	return p
}

func (it *Interp) where() string {
	fr := it.cur
	for fr != nil {
		if repoFn(fr.fn) {
			pos := token.NoPos
			if fr.call != nil {
				pos = fr.call.Pos()
			}
			p := it.prog.Fset.Position(pos)
			return fmt.Sprintf("%s (%s:%d)", fr.fn.RelString(nil), p.Filename, p.Line)
		}
		fr = fr.caller
	}
	if it.cur != nil {
		return it.cur.fn.String()
	}
	return "?"
}

func (it *Interp) stack() string {
	var sb strings.Builder
	for fr := it.cur; fr != nil; fr = fr.caller {
		pos := token.NoPos
		if fr.call != nil {
			pos = fr.call.Pos()
		}
		p := it.prog.Fset.Position(pos)
		fmt.Fprintf(&sb, "  %s %s:%d\n", fr.fn, p.Filename, p.Line)
	}
	return sb.String()
}

func (it *Interp) callFn(fn *ssa.Function, args []value, env []value, caller *frame) value {
	if it.skipIntr == fn {
		it.skipIntr = nil
	} else if in := it.intrinsic(fn); in != nil {
		return in(it, fn, args)
	}
	if fn.Blocks == nil {
		if it.inInit {
			return it.zeroResult(fn)
		}
		fail("no body and no model for %s", fn)
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && fn.Synthetic != "" {
		if !it.initAllowed(fn.Pkg.Pkg.Path()) {
			return tuple{}
		}
	}
	depth := 0
	for f := caller; f != nil; f = f.caller {
		depth++
	}
	if depth > 400 {
		fail("call depth limit in %s", fn)
	}
	if repoFn(fn) && !it.inInit {
		n := fn.String()
		if !strings.Contains(it.prog.Fset.Position(fn.Pos()).Filename, "zz_verif") {
			it.encoded[n] = true
		}
	}
	fr := &frame{fn: fn, env: make(map[ssa.Value]value, 16), caller: caller}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = env[i]
	}
	for _, l := range fn.Locals {
		fr.env[l] = it.newCell(it.zero(l.Type().(*types.Pointer).Elem()))
	}
	saved := it.cur
	it.cur = fr
	var r value
	if fn.Recover != nil {
		r = it.runRecover(fr)
	} else {
		r = it.run(fr, fn.Blocks[0], nil)
	}
	it.cur = saved
	return r
}

// runRecover runs a function that may have deferred calls: they also run when
// it panics and may recover.
func (it *Interp) runRecover(fr *frame) (r value) {
	var p *targetPanic
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case targetPanic:
				if len(fr.defers) == 0 {
					panic(x)
				}
				p = &x
			default:
				panic(x)
			}
		}()
		r = it.run(fr, fr.fn.Blocks[0], nil)
	}()
	if p == nil {
		return r
	}
	outer := it.panicking
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		it.cur, it.panicking = fr, p
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
					p = it.panicking
				case targetPanic:
					p = &x // a panic in a deferred call replaces the first one
				default:
					panic(x)
				}
			}()
			d()
		}()
	}
	it.panicking = outer
	if p != nil {
		panic(*p)
	}
	it.cur = fr
	return it.run(fr, fr.fn.Recover, nil)
}

func (it *Interp) zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return tuple{}
	case 1:
		return it.zero(r.At(0).Type())
	}
	return it.zero(r)
}

func (it *Interp) call(fv value, args []value, caller *frame) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			panic(targetPanic{msg: "call of nil function", where: it.where()})
		}
		return it.callFn(f, args, nil, caller)
	case *closure:
		return it.callFn(f.fn, args, f.env, caller)
	}
	fail("call of %T", fv)
	return nil
}

type returned struct{ v value }

// run executes blocks from b. It stops before entering `stop` (non-nil) and
// returns nil then; otherwise it returns the function result.
func (it *Interp) run(fr *frame, b *ssa.BasicBlock, stop *ssa.BasicBlock) value {
	for {
		it.steps += int64(len(b.Instrs))
		if it.steps > it.maxSteps {
			fail("step limit (%d) reached in %s", it.maxSteps, fr.fn)
		}
		// phis are evaluated simultaneously
		var phiv []value
		np := 0
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			np++
			if fr.prev == nil { // values were set by a merge
				continue
			}
			for i, p := range b.Preds {
				if p == fr.prev {
					phiv = append(phiv, it.get(fr, phi.Edges[i]))
					break
				}
			}
		}
		if fr.prev != nil {
			for i := 0; i < np; i++ {
				fr.env[b.Instrs[i].(*ssa.Phi)] = phiv[i]
			}
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[np:] {
			fr.call = in
			switch in := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
				fr.prev = b
			case *ssa.If:
				next = it.doIf(fr, b, in)
			case *ssa.Return:
				if stop != nil {
					panic(mergeAbort{"return inside a merged branch"})
				}
				switch len(in.Results) {
				case 0:
					return tuple{}
				case 1:
					return it.get(fr, in.Results[0])
				}
				r := make(tuple, len(in.Results))
				for i, x := range in.Results {
					r[i] = it.get(fr, x)
				}
				return r
			case *ssa.Panic:
				panic(targetPanic{fmt.Sprintf("panic: %v", it.describe(it.get(fr, in.X))), it.where(), it.get(fr, in.X)})
			default:
				it.exec(fr, in)
			}
		}
		if next == nil {
			fail("block without successor in %s", fr.fn)
		}
		if stop != nil && next == stop {
			return nil
		}
		b = next
	}
}

func (it *Interp) describe(v value) string {
	switch v := v.(type) {
	case iface:
		return it.describe(v.v)
	case string:
		return v
	case *value:
		if v != nil {
			return it.describe(*v)
		}
	case structure:
		if len(v) > 0 {
			return it.describe(v[0])
		}
	}
	return fmt.Sprintf("%v", v)
}

func (it *Interp) doIf(fr *frame, b *ssa.BasicBlock, in *ssa.If) *ssa.BasicBlock {
	c := it.get(fr, in.Cond).(*Term)
	take := func(d bool) *ssa.BasicBlock {
		fr.prev = b
		if d {
			return b.Succs[0]
		}
		return b.Succs[1]
	}
	if d, ok := it.known(c); ok {
		return take(d)
	}
	if it.pos >= len(it.dec) || it.cfg.AlwaysMerge {
		// not replaying a recorded fork: try to merge
	}
	if !it.cfg.NoMerge {
		if nb := it.tryMerge(fr, b, c); nb != nil {
			return nb
		}
	}
	return take(it.branch(c))
}

func postdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if m, ok := ipdoms[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	// pd[i] = set of blocks post-dominating i; virtual exit is n. Panicking
	// blocks do not reach the exit and are ignored.
	reach := make([]bool, n)
	changed := true
	for changed {
		changed = false
		for i, b := range fn.Blocks {
			if reach[i] {
				continue
			}
			r := false
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				r = true
			}
			for _, s := range b.Succs {
				r = r || reach[s.Index]
			}
			if r {
				reach[i] = true
				changed = true
			}
		}
	}
	full := make([]bool, n+1)
	for i := range full {
		full[i] = true
	}
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = append([]bool(nil), full...)
	}
	pd[n] = make([]bool, n+1)
	pd[n][n] = true
	changed = true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !reach[i] {
				continue
			}
			nw := append([]bool(nil), full...)
			any := false
			meet := func(s []bool) {
				any = true
				for k := range nw {
					nw[k] = nw[k] && s[k]
				}
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				meet(pd[n])
			}
			for _, s := range b.Succs {
				if reach[s.Index] {
					meet(pd[s.Index])
				}
			}
			if !any {
				continue
			}
			nw[i] = true
			for k := range nw {
				if nw[k] != pd[i][k] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		if !reach[i] {
			continue
		}
		// immediate: the strict post-dominator whose own set has size |pd(i)|-1
		cnt := 0
		for k := range pd[i] {
			if pd[i][k] {
				cnt++
			}
		}
		for k := 0; k < n; k++ {
			if k == i || !pd[i][k] {
				continue
			}
			c := 0
			for j := range pd[k] {
				if pd[k][j] {
					c++
				}
			}
			if c == cnt-1 {
				m[b] = fn.Blocks[k]
			}
		}
	}
	ipdoms[fn] = m
	return m
}

var rpoMemo = map[*ssa.Function][]int{}

// joinPoint is where the two sides of a branch are expected to meet: the
// immediate post-dominator, or the nearest block both sides can reach when
// some path returns early. Any choice is sound: a side that does not arrive
// there aborts the merge.
func joinPoint(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	if p := postdoms(fn)[b]; p != nil {
		return p
	}
	rpo, ok := rpoMemo[fn]
	if !ok {
		rpo = make([]int, len(fn.Blocks))
		seen := make([]bool, len(fn.Blocks))
		n := len(fn.Blocks)
		var dfs func(x *ssa.BasicBlock)
		dfs = func(x *ssa.BasicBlock) {
			seen[x.Index] = true
			for _, s := range x.Succs {
				if !seen[s.Index] {
					dfs(s)
				}
			}
			n--
			rpo[x.Index] = n
		}
		dfs(fn.Blocks[0])
		rpoMemo[fn] = rpo
	}
	reach := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		m := map[*ssa.BasicBlock]bool{}
		var w func(x *ssa.BasicBlock)
		w = func(x *ssa.BasicBlock) {
			if m[x] {
				return
			}
			m[x] = true
			if x == b {
				return
			}
			for _, s := range x.Succs {
				w(s)
			}
		}
		w(from)
		return m
	}
	r0, r1 := reach(b.Succs[0]), reach(b.Succs[1])
	var best *ssa.BasicBlock
	for _, x := range fn.Blocks {
		if !r0[x] || !r1[x] || x == b {
			continue
		}
		if best == nil {
			best = x
			continue
		}
		fx, fb := rpo[x.Index] > rpo[b.Index], rpo[best.Index] > rpo[b.Index]
		if fx && !fb || fx == fb && rpo[x.Index] < rpo[best.Index] {
			best = x
		}
	}
	return best
}

// tryMerge executes both sides of a symbolic branch up to their join point and
// combines the results with ite; nil when the sides cannot be merged.
func (it *Interp) tryMerge(fr *frame, b *ssa.BasicBlock, c *Term) (res *ssa.BasicBlock) {
	p := joinPoint(b)
	if p == nil || fr.merging[b] {
		return nil
	}
	if fr.merging == nil {
		fr.merging = map[*ssa.BasicBlock]bool{}
	}
	fr.merging[b] = true
	defer delete(fr.merging, b)

	mark := len(it.log)
	npc := len(it.pc)
	ndraw, nhash, nobs, ndef := len(it.draws), len(it.hashes), len(it.obs), len(fr.defers)
	savedEnv := fr.env
	savedAlloc := it.alloc
	savedCur := it.cur
	pos0, steps0 := it.pos, it.steps
	restore := func() {
		it.rollback(mark)
		it.popPC(npc)
		fr.env = savedEnv
		it.alloc = savedAlloc
		it.cur = savedCur
		fr.defers = fr.defers[:ndef]
	}
	type side struct {
		writes map[*value]value
		order  []*value
		phis   []value
		env    map[ssa.Value]value
		alloc  map[*value]bool
		dead   bool
	}
	var phis []*ssa.Phi
	for _, in := range p.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
		} else {
			break
		}
	}
	it.noFork++
	runSide := func(cond *Term, s *ssa.BasicBlock) (sd *side) {
		defer restore()
		it.pushPC(cond)
		fr.env = make(map[ssa.Value]value, len(savedEnv)+8)
		for k, v := range savedEnv {
			fr.env[k] = v
		}
		it.alloc = map[*value]bool{}
		fr.prev = b
		if s != p {
			it.run(fr, s, p)
		}
		if len(it.draws) != ndraw || len(it.obs) != nobs || len(fr.defers) != ndef {
			panic(mergeAbort{"draw, obligation or defer in a branch"})
		}
		_ = nhash
		if it.steps-steps0 > 3000000 {
			panic(mergeAbort{"long branch"})
		}
		sd = &side{writes: map[*value]value{}, alloc: it.alloc, env: fr.env}
		for i := mark; i < len(it.log); i++ {
			a := it.log[i].addr
			if it.alloc[a] {
				continue
			}
			if _, ok := sd.writes[a]; !ok {
				sd.order = append(sd.order, a)
			}
			sd.writes[a] = *a
		}
		if fr.prev == nil && s != p {
			// an inner merge ended at the same join point
			for _, phi := range phis {
				sd.phis = append(sd.phis, fr.env[phi])
			}
			return sd
		}
		pi := -1
		for i, q := range p.Preds {
			if q == fr.prev {
				pi = i
				break
			}
		}
		for _, phi := range phis {
			sd.phis = append(sd.phis, it.get(fr, phi.Edges[pi]))
		}
		return sd
	}
	aborted := ""
	var s1, s2 *side
	func() {
		defer func() {
			it.noFork--
			switch r := recover().(type) {
			case nil:
			case mergeAbort:
				aborted = r.why
			case targetPanic:
				aborted = "panic"
			case pathEnd:
				aborted = "path end"
			default:
				panic(r)
			}
		}()
		s1 = runSide(c, b.Succs[0])
		s2 = runSide(Not(c), b.Succs[1])
	}()
	fail1 := func(why string) *ssa.BasicBlock {
		it.abortWhy[why]++
		it.draws = it.draws[:ndraw]
		it.hashes = it.hashes[:nhash]
		it.obs = it.obs[:nobs]
		it.pos = pos0
		fr.prev = b
		return nil
	}
	if aborted != "" {
		return fail1(aborted)
	}
	mg := &merger{it: it, c: c, a1: s1.alloc, a2: s2.alloc, memo: map[[2]*value]*value{}, w1: s1.writes, w2: s2.writes}
	// combine
	var addrs []*value
	seen := map[*value]bool{}
	for _, a := range append(append([]*value{}, s1.order...), s2.order...) {
		if !seen[a] {
			seen[a] = true
			addrs = append(addrs, a)
		}
	}
	merged := make([]value, len(addrs))
	for i, a := range addrs {
		v1, ok1 := s1.writes[a]
		v2, ok2 := s2.writes[a]
		if !ok1 {
			v1 = *a
		}
		if !ok2 {
			v2 = *a
		}
		m, ok := mg.merge(v1, v2)
		if !ok {
			return fail1(fmt.Sprintf("unmergeable store %T/%T", v1, v2))
		}
		merged[i] = m
	}
	phiv := make([]value, len(phis))
	for i := range phis {
		m, ok := mg.merge(s1.phis[i], s2.phis[i])
		if !ok {
			return fail1(fmt.Sprintf("unmergeable phi %T", s1.phis[i]))
		}
		phiv[i] = m
	}
	// values computed before the branch and again on a side (a loop header
	// reached a second time)
	type redef struct {
		k ssa.Value
		v value
	}
	var redefs []redef
	for k, old := range savedEnv {
		v1, v2 := s1.env[k], s2.env[k]
		if sameVal(old, v1) && sameVal(old, v2) {
			continue
		}
		m, ok := mg.merge(v1, v2)
		if !ok {
			return fail1(fmt.Sprintf("unmergeable value %T", v1))
		}
		redefs = append(redefs, redef{k, m})
	}
	for i, a := range addrs {
		it.store(a, merged[i])
	}
	for _, r := range redefs {
		fr.env[r.k] = r.v
	}
	for i, phi := range phis {
		fr.env[phi] = phiv[i]
	}
	fr.prev = nil
	it.merges++
	return p
}

// sameVal: the two are the same value (false when in doubt).
func sameVal(a, b value) bool {
	seq := func(x, y []value) bool {
		if len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return false
		}
		return cap(x) == 0 || &x[:1][0] == &y[:1][0]
	}
	els := func(x, y []value) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch a := a.(type) {
	case []value:
		b, ok := b.([]value)
		return ok && seq(a, b)
	case structure:
		b, ok := b.(structure)
		return ok && els(a, b)
	case array:
		b, ok := b.(array)
		return ok && els(a, b)
	case tuple:
		b, ok := b.(tuple)
		return ok && els(a, b)
	case iface:
		b, ok := b.(iface)
		return ok && a.t == b.t && sameVal(a.v, b.v)
	case *Term, *value, bigv, string, float64, *symStr, *mapRef, nil, *ssa.Function, *ssa.Builtin:
		return a == b
	case grpv:
		b, ok := b.(grpv)
		return ok && a.g == b.g
	case halfv:
		return a == b
	case symFloat:
		b, ok := b.(symFloat)
		return ok && a.t == b.t && a.id == b.id
	case *closure:
		return a == b
	}
	return false
}

type merger struct {
	it     *Interp
	c      *Term
	a1, a2 map[*value]bool
	w1, w2 map[*value]value
	memo   map[[2]*value]*value
	depth  int
}

func (m *merger) merge(x, y value) (value, bool) {
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok || a == nil || b == nil {
			return x, a == nil && b == nil
		}
		if a == b {
			return a, true
		}
		if a.grp != nil && b.grp != nil && a.name == b.name {
			return mergeCoord(m.c, a, b)
		}
		return Ite(m.c, a, b), true
	case bigv:
		b, ok := y.(bigv)
		if !ok {
			return nil, false
		}
		t, ok := m.merge(a.t, b.t)
		if !ok {
			return nil, false
		}
		return bigv{t.(*Term)}, true
	case grpv:
		b, ok := y.(grpv)
		if !ok {
			return nil, false
		}
		g := mergeGrp(m.c, a.g, b.g)
		return grpv{g}, g != nil
	case halfv:
		b, ok := y.(halfv)
		if !ok || a.half != b.half || a.neg != b.neg {
			return nil, false
		}
		g := mergeGrp(m.c, a.g, b.g)
		return halfv{g, a.half, a.neg}, g != nil
	case string:
		b, ok := y.(string)
		return x, ok && a == b
	case float64:
		b, ok := y.(float64)
		return x, ok && a == b
	case symFloat:
		b, ok := y.(symFloat)
		return x, ok && a.t == b.t && a.id == b.id && a.lo.Cmp(b.lo) == 0 && a.hi.Cmp(b.hi) == 0
	case *value:
		b, ok := y.(*value)
		if !ok {
			return nil, false
		}
		if a == b {
			return a, true
		}
		if a == nil || b == nil {
			return nil, false
		}
		return m.mergePtr(a, b)
	case []value:
		b, ok := y.([]value)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		if len(a) == 0 {
			return a, (a == nil) == (b == nil)
		}
		if &a[0] == &b[0] && cap(a) == cap(b) {
			return a, true
		}
		// both slices freshly allocated: merge element-wise
		if m.a1[&a[0]] && m.a2[&b[0]] {
			r := make([]value, len(a))
			for i := range a {
				v, ok := m.merge(a[i], b[i])
				if !ok {
					return nil, false
				}
				r[i] = v
			}
			return r, true
		}
		return nil, false
	case structure:
		b, ok := y.(structure)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		r := make(structure, len(a))
		for i := range a {
			v, ok := m.merge(a[i], b[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case array:
		b, ok := y.(array)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		r := make(array, len(a))
		for i := range a {
			v, ok := m.merge(a[i], b[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case tuple:
		b, ok := y.(tuple)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		r := make(tuple, len(a))
		for i := range a {
			v, ok := m.merge(a[i], b[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case iface:
		b, ok := y.(iface)
		if !ok {
			return nil, false
		}
		if a.t == nil && b.t == nil {
			return x, true
		}
		if a.t != nil && b.t != nil && types.Identical(a.t, b.t) {
			v, ok := m.merge(a.v, b.v)
			return iface{a.t, v}, ok
		}
		return nil, false
	case *ssa.Function, *closure, *mapRef, *mapData:
		return x, x == y
	case nil:
		return nil, y == nil
	}
	return nil, false
}

// mergePtr merges pointers to cells allocated inside the two branches. Cells
// holding group coordinates are never written through, so they need not be
// fresh.
func (m *merger) mergePtr(a, b *value) (value, bool) {
	if r, ok := m.memo[[2]*value{a, b}]; ok {
		return r, true
	}
	get := func(p *value, w map[*value]value) value { // content at the end of the side
		if v, ok := w[p]; ok {
			return v
		}
		return *p
	}
	va, vb := get(a, m.w1), get(b, m.w2)
	coord := func(v value) bool { bv, ok := v.(bigv); return ok && bv.t.grp != nil }
	if !(m.a1[a] && m.a2[b]) && !(coord(va) && coord(vb)) {
		return nil, false
	}
	m.depth++
	defer func() { m.depth-- }()
	if m.depth > 12 {
		return nil, false
	}
	p := m.it.newCell(nil)
	m.memo[[2]*value{a, b}] = p
	v, ok := m.merge(va, vb)
	if !ok {
		return nil, false
	}
	*p = v
	return p, true
}

// ---- instructions ------------------------------------------------------------

func (it *Interp) exec(fr *frame, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if in.Heap {
			fr.env[in] = it.newCell(it.zero(t))
		} else {
			p := fr.env[in].(*value)
			it.storeVal(p, it.zero(t))
		}
	case *ssa.UnOp:
		fr.env[in] = it.unop(fr, in)
	case *ssa.BinOp:
		fr.env[in] = it.binop(in.Op, in.X.Type(), it.get(fr, in.X), it.get(fr, in.Y), in.Y.Type())
	case *ssa.Call:
		fr.env[in] = it.doCall(fr, &in.Call)
	case *ssa.ChangeInterface:
		fr.env[in] = it.get(fr, in.X)
	case *ssa.ChangeType:
		fr.env[in] = it.get(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = it.convert(in.Type(), in.X.Type(), it.get(fr, in.X))
	case *ssa.MultiConvert:
		fr.env[in] = it.convert(in.Type(), in.X.Type(), it.get(fr, in.X))
	case *ssa.MakeInterface:
		fr.env[in] = iface{in.X.Type(), it.get(fr, in.X)}
	case *ssa.MakeClosure:
		var b []value
		for _, x := range in.Bindings {
			b = append(b, it.get(fr, x))
		}
		fr.env[in] = &closure{in.Fn.(*ssa.Function), b}
	case *ssa.MakeSlice:
		n := it.concInt(it.get(fr, in.Len).(*Term), "slice length")
		c := it.concInt(it.get(fr, in.Cap).(*Term), "slice capacity")
		if n < 0 || c < n {
			panic(targetPanic{msg: "makeslice: len out of range", where: it.where()})
		}
		if c > 1<<22 {
			fail("make of %d elements", c)
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]value, c)
		for i := range s {
			s[i] = it.zero(et)
		}
		it.markAlloc(s)
		fr.env[in] = s[:n]
	case *ssa.MakeMap:
		fr.env[in] = &mapRef{cell: &mapData{}}
	case *ssa.Store:
		p, _ := it.get(fr, in.Addr).(*value)
		it.storeVal(p, copyVal(it.get(fr, in.Val)))
	case *ssa.FieldAddr:
		p, _ := it.get(fr, in.X).(*value)
		if p == nil {
			panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
		}
		s, ok := (*p).(structure)
		if !ok {
			fail("field of %T in %s (%s)", *p, fr.fn, in)
		}
		fr.env[in] = it.sub(p, &s[in.Field])
	case *ssa.Field:
		s, ok := it.get(fr, in.X).(structure)
		if !ok {
			fail("field of %T", it.get(fr, in.X))
		}
		fr.env[in] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		x := it.get(fr, in.X)
		idx := it.get(fr, in.Index).(*Term)
		switch x := x.(type) {
		case []value:
			i := it.index(idx, len(x))
			fr.env[in] = &x[i]
		case *value:
			if x == nil {
				panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
			}
			a := (*x).(array)
			i := it.index(idx, len(a))
			fr.env[in] = it.sub(x, &a[i])
		default:
			fail("indexaddr of %T", x)
		}
	case *ssa.Index:
		x := it.get(fr, in.X)
		idx := it.get(fr, in.Index).(*Term)
		switch x := x.(type) {
		case array:
			fr.env[in] = copyVal(x[it.index(idx, len(x))])
		case string, *symStr:
			els := strEls(x)
			fr.env[in] = els[it.index(idx, len(els))]
		default:
			fail("index of %T", x)
		}
	case *ssa.Lookup:
		x := it.get(fr, in.X)
		switch x := x.(type) {
		case string, *symStr:
			els := strEls(x)
			fr.env[in] = els[it.index(it.get(fr, in.Index).(*Term), len(els))]
		case *mapRef:
			v, ok := it.mapLookup(x, it.get(fr, in.Index), in.X.Type().Underlying().(*types.Map).Elem())
			if in.CommaOk {
				fr.env[in] = tuple{v, ok}
			} else {
				fr.env[in] = v
			}
		default:
			fail("lookup in %T", x)
		}
	case *ssa.MapUpdate:
		m, _ := it.get(fr, in.Map).(*mapRef)
		if m == nil {
			panic(targetPanic{msg: "assignment to entry in nil map", where: it.where()})
		}
		it.mapSet(m, it.get(fr, in.Key), copyVal(it.get(fr, in.Value)))
	case *ssa.Slice:
		fr.env[in] = it.slice(fr, in)
	case *ssa.SliceToArrayPointer:
		fail("slice to array pointer")
	case *ssa.Extract:
		t, ok := it.get(fr, in.Tuple).(tuple)
		if !ok {
			fail("extract from %T: %s", it.get(fr, in.Tuple), in)
		}
		fr.env[in] = t[in.Index]
	case *ssa.TypeAssert:
		fr.env[in] = it.typeAssert(in, it.get(fr, in.X).(iface))
	case *ssa.Range:
		switch x := it.get(fr, in.X).(type) {
		case *mapRef:
			d := &mapData{}
			if x != nil {
				d = x.cell.(*mapData)
			}
			fr.env[in] = it.newCell(&mapIter{d, 0})
		case string:
			fr.env[in] = it.newCell(&strIter{x, 0})
		case *symStr:
			fr.env[in] = it.newCell(&symIter{x.els, 0})
		default:
			fail("range over %T", x)
		}
	case *ssa.Next:
		p := it.get(fr, in.Iter).(*value)
		switch x := (*p).(type) {
		case *mapIter:
			if x.i >= len(x.d.keys) {
				fr.env[in] = tuple{False, nil, nil}
			} else {
				fr.env[in] = tuple{True, x.d.keys[x.i], copyVal(x.d.vals[x.i])}
				it.store(p, &mapIter{x.d, x.i + 1})
			}
		case *strIter:
			if x.i >= len(x.s) {
				fr.env[in] = tuple{False, K(0), K(0)}
			} else {
				r, n := utf8.DecodeRuneInString(x.s[x.i:])
				fr.env[in] = tuple{True, K(int64(x.i)), K(int64(r))}
				it.store(p, &strIter{x.s, x.i + n})
			}
		case *symIter:
			if x.i >= len(x.els) {
				fr.env[in] = tuple{False, K(0), K(0)}
			} else {
				r, n := it.decodeRune(x.els[x.i:])
				fr.env[in] = tuple{True, K(int64(x.i)), r}
				it.store(p, &symIter{x.els, x.i + n})
			}
		}
	case *ssa.Defer:
		fv, args := it.prepare(fr, &in.Call)
		fr.defers = append(fr.defers, func() {
			if bi, ok := fv.(*ssa.Builtin); ok {
				it.builtin(fr, bi, args, nil)
				return
			}
			it.call(fv, args, fr)
		})
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			fr.defers = fr.defers[:i]
			d()
		}
	default:
		fail("instruction %T in %s", instr, fr.fn)
	}
}

func (it *Interp) sub(parent, child *value) *value {
	if it.alloc != nil && it.alloc[parent] {
		it.alloc[child] = true
	}
	return child
}

func (it *Interp) markAlloc(s []value) {
	if it.alloc != nil {
		for i := range s {
			it.alloc[&s[i]] = true
		}
	}
}

// index checks bounds and concretises a symbolic index.
func (it *Interp) index(idx *Term, n int) int {
	if idx.op == OConst {
		if !idx.k.IsInt64() || idx.k.Int64() < 0 || idx.k.Int64() >= int64(n) {
			panic(targetPanic{msg: fmt.Sprintf("index out of range [%s] with length %d", idx.k, n), where: it.where()})
		}
		return int(idx.k.Int64())
	}
	ok := And(Le(K(0), idx), Lt(idx, K(int64(n))))
	if !it.branch(ok) {
		panic(targetPanic{msg: fmt.Sprintf("index out of range with length %d", n), where: it.where()})
	}
	return int(it.concInt(idx, "index"))
}

func (it *Interp) concInt(t *Term, what string) int64 {
	v := it.concretize(t, what)
	if !v.IsInt64() {
		fail("%s is out of int64", what)
	}
	return v.Int64()
}

func (it *Interp) unop(fr *frame, in *ssa.UnOp) value {
	x := it.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := x.(*value)
		if !ok {
			fail("deref of %T", x)
		}
		return it.load(p)
	case token.NOT:
		return Not(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return wrap(Neg(x), in.X.Type())
		case float64:
			return -x
		case symFloat:
			return x.then("-", func(v float64) float64 { return -v })
		}
	case token.XOR:
		t := x.(*Term)
		_, hi, _, signed, _ := intRange(in.X.Type())
		if signed {
			return Sub(K(-1), t)
		}
		return Sub(Kb(hi), t)
	}
	fail("unop %s", in.Op)
	return nil
}

func (it *Interp) slice(fr *frame, in *ssa.Slice) value {
	x := it.get(fr, in.X)
	bound := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return int(it.concInt(it.get(fr, v).(*Term), "slice bound"))
	}
	bad := func() { panic(targetPanic{msg: "slice bounds out of range", where: it.where()}) }
	switch x := x.(type) {
	case string:
		lo, hi := bound(in.Low, 0), bound(in.High, len(x))
		if lo < 0 || hi < lo || hi > len(x) {
			bad()
		}
		return x[lo:hi]
	case *symStr:
		lo, hi := bound(in.Low, 0), bound(in.High, len(x.els))
		if lo < 0 || hi < lo || hi > len(x.els) {
			bad()
		}
		return mkStr(x.els[lo:hi])
	case []value:
		lo, hi := bound(in.Low, 0), bound(in.High, len(x))
		mx := bound(in.Max, cap(x))
		if lo < 0 || hi < lo || hi > mx || mx > cap(x) {
			bad()
		}
		if x == nil {
			return x
		}
		return x[lo:hi:mx]
	case *value:
		if x == nil {
			panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
		}
		a := (*x).(array)
		lo, hi := bound(in.Low, 0), bound(in.High, len(a))
		mx := bound(in.Max, len(a))
		if lo < 0 || hi < lo || hi > mx || mx > len(a) {
			bad()
		}
		return []value(a)[lo:hi:mx]
	}
	fail("slice of %T", x)
	return nil
}

func (it *Interp) typeAssert(in *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	if it2, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && (types.Implements(x.t, it2) || it2.Empty()) {
			ok = true
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok = true
		v = x.v
	}
	if in.CommaOk {
		if !ok {
			v = it.zero(in.AssertedType)
		}
		return tuple{v, Kbool(ok)}
	}
	if !ok {
		panic(targetPanic{msg: "interface conversion", where: it.where()})
	}
	return v
}

// ---- calls ---------------------------------------------------------------------

func (it *Interp) prepare(fr *frame, c *ssa.CallCommon) (value, []value) {
	var args []value
	if c.IsInvoke() {
		recv, ok := it.get(fr, c.Value).(iface)
		if !ok {
			fail("invoke on %T", it.get(fr, c.Value))
		}
		for _, a := range c.Args {
			args = append(args, copyVal(it.get(fr, a)))
		}
		if recv.t == nil {
			panic(targetPanic{msg: "method call on nil interface", where: it.where()})
		}
		if p, ok := recv.v.(*value); ok && p != nil {
			if _, ok := (*p).(hashv); ok {
				name := c.Method.Name()
				return &nativeFn{func(a []value) value { return it.hashMethod(name, p, a) }}, args
			}
		}
		if o, ok := recv.v.(opaquev); ok {
			name := c.Method.Name()
			return &nativeFn{func(a []value) value { return it.opaqueMethod(o, name, a, c.Signature()) }}, args
		}
		fn := it.prog.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			fail("no method %s on %s", c.Method.Name(), recv.t)
		}
		return fn, append([]value{recv.v}, args...)
	}
	fv := it.get(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, copyVal(it.get(fr, a)))
	}
	return fv, args
}

type nativeFn struct{ f func([]value) value }

func (it *Interp) doCall(fr *frame, c *ssa.CallCommon) value {
	fv, args := it.prepare(fr, c)
	switch f := fv.(type) {
	case *ssa.Builtin:
		return it.builtin(fr, f, args, c)
	case *nativeFn:
		return f.f(args)
	}
	return it.call(fv, args, fr)
}

func (it *Interp) builtin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon) value {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case string:
			return K(int64(len(x)))
		case *symStr:
			return K(int64(len(x.els)))
		case []value:
			if b.Name() == "cap" {
				return K(int64(cap(x)))
			}
			return K(int64(len(x)))
		case *mapRef:
			if x == nil {
				return K(0)
			}
			return K(int64(len(x.cell.(*mapData).keys)))
		case array:
			return K(int64(len(x)))
		case *value:
			return K(int64(len((*x).(array))))
		}
	case "append":
		var add []value
		switch y := args[1].(type) {
		case []value:
			for _, e := range y {
				add = append(add, copyVal(e))
			}
		case string, *symStr:
			for _, e := range strEls(y) {
				add = append(add, e)
			}
		}
		x := args[0].([]value)
		if len(add) == 0 {
			return x
		}
		n := len(x) + len(add)
		if n <= cap(x) {
			r := x[:n]
			for i, e := range add {
				it.store(&r[len(x)+i], e)
			}
			return r
		}
		c := 2 * cap(x)
		if c < n {
			c = n
		}
		if c < 4 {
			c = 4
		}
		r := make([]value, n, c)
		for i := range x {
			r[i] = copyVal(x[i])
		}
		copy(r[len(x):], add)
		// spare cells need a zero of the element type
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = zeroLike(full[0])
		}
		it.markAlloc(full)
		return r
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = append([]value(nil), y...)
		case string, *symStr:
			for _, e := range strEls(y) {
				src = append(src, e)
			}
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			it.storeVal(&dst[i], copyVal(src[i]))
		}
		return K(int64(n))
	case "delete":
		m := args[0].(*mapRef)
		if m != nil {
			it.mapDelete(m, args[1])
		}
		return tuple{}
	case "print", "println":
		return tuple{}
	case "recover":
		p := it.panicking
		if p == nil {
			return iface{}
		}
		it.panicking = nil
		if v, ok := p.val.(iface); ok && v.t != nil {
			return v
		}
		return it.mkErr(p.msg)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			panic(targetPanic{msg: "nil receiver", where: it.where()})
		}
		return args[0]
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Lt(t, r), t, r)
			} else {
				r = Ite(Lt(r, t), t, r)
			}
		}
		return r
	case "clear":
		if m, ok := args[0].(*mapRef); ok && m != nil {
			it.store(&m.cell, &mapData{})
			return tuple{}
		}
	}
	fail("builtin %s(%T)", b.Name(), args[0])
	return nil
}

func zeroLike(v value) value {
	switch v := v.(type) {
	case *Term:
		if v.isBool {
			return False
		}
		return K(0)
	case *value:
		return (*value)(nil)
	case string, *symStr:
		return ""
	case []value:
		return []value(nil)
	case iface:
		return iface{}
	case float64, symFloat:
		return float64(0)
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	}
	return nil
}

// ---- maps ------------------------------------------------------------------------

func (it *Interp) keyEq(a, b value) *Term {
	return it.equal(a, b)
}

func (it *Interp) mapSet(m *mapRef, k, v value) {
	d := m.cell.(*mapData)
	n := &mapData{append([]value(nil), d.keys...), append([]value(nil), d.vals...)}
	for i := range n.keys {
		e := it.keyEq(n.keys[i], k)
		if e == False {
			continue
		}
		if e == True || it.branch(e) {
			n.vals[i] = v
			it.store(&m.cell, n)
			return
		}
	}
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	it.store(&m.cell, n)
}

func (it *Interp) mapDelete(m *mapRef, k value) {
	d := m.cell.(*mapData)
	n := &mapData{}
	for i := range d.keys {
		e := it.keyEq(d.keys[i], k)
		if e == True || (e != False && it.branch(e)) {
			continue
		}
		n.keys = append(n.keys, d.keys[i])
		n.vals = append(n.vals, d.vals[i])
	}
	it.store(&m.cell, n)
}

func (it *Interp) mapLookup(m *mapRef, k value, et types.Type) (value, *Term) {
	if m == nil {
		return it.zero(et), False
	}
	d := m.cell.(*mapData)
	var conds []*Term
	undecided := 0
	for i := range d.keys {
		e := it.keyEq(d.keys[i], k)
		if kn, ok := it.known(e); ok {
			if kn {
				return copyVal(d.vals[i]), True
			}
			e = False
		}
		if e != False {
			undecided++
		}
		conds = append(conds, e)
	}
	if undecided == 0 {
		return it.zero(et), False
	}
	// symbolic key: one value template covering all entries
	if v, mem, ok := it.mapTemplate(d, conds, k); ok {
		if !it.branch(mem) {
			return it.zero(et), False
		}
		v = v.(func() value)()
		return v, True
	}
	for i, e := range conds {
		if e == False {
			continue
		}
		if it.branch(e) {
			return copyVal(d.vals[i]), True
		}
	}
	return it.zero(et), False
}

// ---- operators -------------------------------------------------------------------

func strEls(v value) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = K(int64(v[i]))
		}
		return r
	case *symStr:
		return v.els
	}
	fail("not a string: %T", v)
	return nil
}

func isChunk(t *Term) bool { return t.op == OUF && strings.HasPrefix(t.name, "chunk:") }

// mkStr builds a string value, concrete when every byte is constant.
func mkStr(els []*Term) value {
	b := make([]byte, len(els))
	for i, e := range els {
		if e.op != OConst {
			return &symStr{els}
		}
		b[i] = byte(e.k.Int64())
	}
	return string(b)
}

func seqEq(a, b []*Term) *Term {
	chunk := false
	for _, x := range a {
		chunk = chunk || isChunk(x)
	}
	for _, x := range b {
		chunk = chunk || isChunk(x)
	}
	if !chunk {
		if len(a) != len(b) {
			return False
		}
		r := True
		for i := range a {
			r = And(r, Eq(a[i], b[i]))
			if r == False {
				return r
			}
		}
		return r
	}
	// one opaque decimal chunk against a literal
	dec := func(x []*Term) *Term {
		if len(x) == 1 && x[0].op == OUF && x[0].name == "chunk:dec" {
			return x[0].args[0]
		}
		return nil
	}
	lit := func(x []*Term) (*big.Int, bool, bool) { // value, canonical, all constant
		s, ok := mkStr(x).(string)
		if !ok {
			return nil, false, false
		}
		z, ok := new(big.Int).SetString(s, 10)
		if !ok || z.String() != s {
			return nil, false, true
		}
		return z, true, true
	}
	if d := dec(a); d != nil {
		if e := dec(b); e != nil {
			return Eq(d, e)
		}
		if z, can, c := lit(b); c {
			if !can {
				return False
			}
			return Eq(d, Kb(z))
		}
	} else if d := dec(b); d != nil {
		return seqEq(b, a)
	}
	if x, ok := numTokens(a); ok {
		if y, ok := numTokens(b); ok {
			return tokensEq(x, y)
		}
	}
	if len(a) == len(b) {
		r := True
		seg := map[string]*encSeg{}
		var order []string
		for i := range a {
			x, y := a[i], b[i]
			if x == y {
				continue
			}
			if isChunk(x) && strings.HasPrefix(x.name, "chunk:m:") && isChunk(y) && x.name == y.name && x.args[0] == y.args[0] {
				key := fmt.Sprint(x.grp.id, "|", y.grp.id)
				s := seg[key]
				if s == nil {
					s = &encSeg{x.name[len("chunk:m:"):], x.grp, y.grp, map[int]bool{}}
					seg[key] = s
					order = append(order, key)
				}
				s.at[int(x.args[0].k.Int64())] = true
				continue
			}
			r = And(r, chunkEq(x, y))
		}
		for _, k := range order {
			r = And(r, seg[k].equal())
		}
		return r
	}
	fail("comparison of strings with opaque parts")
	return nil
}

// encSeg is a comparison of some bytes of the encodings of two elements.
type encSeg struct {
	kind string
	x, y *Grp
	at   map[int]bool
}

// covers: all bytes from i up to j are compared.
func (s *encSeg) covers(i, j int) bool {
	for ; i < j; i++ {
		if !s.at[i] {
			return false
		}
	}
	return true
}

// any: some byte from i up to j is compared.
func (s *encSeg) any(i, j int) bool {
	for ; i < j; i++ {
		if s.at[i] {
			return true
		}
	}
	return false
}

// equal: the compared bytes agree. Equal first coordinates mean equal or
// inverse points, equal second ones that the points differ by a cube root of
// one; of two inverse points the last bytes of the second coordinates differ.
// In the target group the first half of an element determines it and the
// second half determines it up to inversion.
func (s *encSeg) equal() *Term {
	same, n := grpEq(s.x, s.y), map[string]int{"g1": 64, "g2": 128, "gt": 384}[s.kind]
	if n == 0 {
		fail("comparison of encodings of %s", s.kind)
	}
	inv := Or(same, grpEq(s.x, grpMul(s.y, K(-1))))
	h := n / 2
	if s.kind == "gt" {
		switch {
		case s.covers(0, h):
			return same
		case s.covers(h, n) && !s.any(0, h):
			return inv
		}
	} else {
		x, y := s.covers(0, h), s.covers(h, n)
		switch {
		case x && (y || s.at[n-1]):
			return same
		case x && !s.any(h, n):
			return inv
		case y && !s.any(0, h):
			l := Kb(cubeRoot(kindOrder[s.kind]))
			z := grpMul(s.y, l)
			return Or(same, grpEq(s.x, z), grpEq(s.x, grpMul(z, l)))
		}
	}
	key := ""
	for i := 0; i < n; i++ {
		if s.at[i] {
			key += fmt.Sprint(i, ",")
		}
	}
	u := UB(fmt.Sprint("bytes:", key, s.x.id, "|", s.y.id))
	partialEnc[u] = s
	return Or(same, u)
}

// partialEnc: comparisons of some bytes of two encodings, by their atom.
var partialEnc = map[*Term]*encSeg{}

// encRest: for "equal, or at least these bytes agree", the first part.
func encRest(c *Term) *Term {
	if c.op != OOr {
		return nil
	}
	var rest []*Term
	for _, a := range c.args {
		if partialEnc[a] == nil {
			rest = append(rest, a)
		}
	}
	if len(rest) == len(c.args) {
		return nil
	}
	return Or(rest...)
}

// encFacts: byte-wise comparisons of two encodings that agree everywhere say
// together what a comparison of all these bytes would say.
func encFacts(c *Term) []*Term {
	type pair struct {
		s  *encSeg
		us []*Term
	}
	pairs := map[string]*pair{}
	var order []string
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if s := partialEnc[t]; s != nil {
			k := fmt.Sprint(s.kind, s.x.id, "|", s.y.id)
			p := pairs[k]
			if p == nil {
				p = &pair{s: &encSeg{s.kind, s.x, s.y, map[int]bool{}}}
				pairs[k] = p
				order = append(order, k)
			}
			for i := range s.at {
				p.s.at[i] = true
			}
			p.us = append(p.us, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(c)
	var out []*Term
	for _, k := range order {
		p := pairs[k]
		if len(p.us) < 2 {
			continue
		}
		eq := p.s.equal()
		out = append(out, Or(eq, Not(And(p.us...))))
	}
	return out
}

// cubeRoot is an element of order three modulo the prime n.
func cubeRoot(n *big.Int) *big.Int {
	e := new(big.Int).Div(new(big.Int).Sub(n, b1), big.NewInt(3))
	for g := int64(2); ; g++ {
		if z := new(big.Int).Exp(big.NewInt(g), e, n); z.Cmp(b1) != 0 {
			return z
		}
	}
}

// numTok is a decimal number or a literal byte of a string.
type numTok struct {
	num   *Term // the number (nil: not a canonical one)
	lit   string
	isNum bool
}

// numTokens splits a string of constant bytes and decimal chunks.
func numTokens(x []*Term) ([]numTok, bool) {
	var r []numTok
	digits := func(e *Term) bool {
		return e.op == OConst && (e.k.Int64() == '-' || e.k.Int64() >= '0' && e.k.Int64() <= '9')
	}
	for i := 0; i < len(x); {
		e := x[i]
		switch {
		case e.op == OUF && e.name == "chunk:dec":
			if i+1 < len(x) && (digits(x[i+1]) || isChunk(x[i+1])) {
				return nil, false
			}
			r = append(r, numTok{num: e.args[0], isNum: true})
			i++
		case e.op != OConst:
			return nil, false
		case digits(e):
			j := i
			s := ""
			for j < len(x) && digits(x[j]) {
				s += string(rune(x[j].k.Int64()))
				j++
			}
			if j < len(x) && isChunk(x[j]) {
				return nil, false
			}
			t := numTok{lit: s, isNum: true}
			if z, ok := new(big.Int).SetString(s, 10); ok && z.String() == s {
				t.num = Kb(z)
			}
			r = append(r, t)
			i = j
		default:
			r = append(r, numTok{lit: string([]byte{byte(e.k.Int64())})})
			i++
		}
	}
	return r, true
}

// tokensEq: numbers are delimited by other characters, so that strings are
// equal iff their tokens are.
func tokensEq(x, y []numTok) *Term {
	if len(x) != len(y) {
		return False
	}
	r := True
	for i := range x {
		a, b := x[i], y[i]
		switch {
		case a.isNum != b.isNum:
			return False
		case !a.isNum:
			r = And(r, Kbool(a.lit == b.lit))
		case a.num == nil || b.num == nil:
			// a non-canonical number is not the text of any number
			r = And(r, Kbool(a.num == nil && b.num == nil && a.lit == b.lit))
		case a.num.grp != nil && b.num.grp != nil:
			r = And(r, grpEq(a.num.grp, b.num.grp))
		default:
			r = And(r, Eq(a.num, b.num))
		}
	}
	return r
}

func chunkEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if isChunk(a) && isChunk(b) && a.name == b.name && !strings.HasPrefix(a.name, "chunk:m:") {
		if a.grp != nil && b.grp != nil {
			return grpEq(a.grp, b.grp)
		}
		if len(a.args) == 1 && len(b.args) == 1 {
			return Eq(a.args[0], b.args[0])
		}
	}
	if isChunk(a) || isChunk(b) {
		fail("comparison of opaque string parts")
	}
	return Eq(a, b)
}

func (it *Interp) equal(x, y value) *Term {
	switch a := x.(type) {
	case *Term:
		return Eq(a, y.(*Term))
	case string:
		if b, ok := y.(string); ok {
			return Kbool(a == b)
		}
		return seqEq(strEls(x), strEls(y))
	case *symStr:
		return seqEq(strEls(x), strEls(y))
	case float64:
		return Kbool(a == y.(float64))
	case *value:
		b, ok := y.(*value)
		if !ok {
			return Kbool(a == nil && y == nil)
		}
		return Kbool(a == b)
	case *mapRef:
		b, ok := y.(*mapRef)
		return Kbool(ok && a == b)
	case []value:
		b, _ := y.([]value)
		if a == nil || b == nil {
			return Kbool(a == nil && b == nil)
		}
		fail("slice comparison")
	case *ssa.Function:
		if a == nil {
			return Kbool(isNilFn(y))
		}
		return Kbool(x == y)
	case *closure:
		return Kbool(x == y)
	case iface:
		b, ok := y.(iface)
		if !ok {
			fail("iface == %T", y)
		}
		if a.t == nil || b.t == nil {
			return Kbool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return False
		}
		return it.equal(a.v, b.v)
	case structure:
		b := y.(structure)
		r := True
		for i := range a {
			r = And(r, it.equal(a[i], b[i]))
		}
		return r
	case array:
		b := y.(array)
		r := True
		for i := range a {
			r = And(r, it.equal(a[i], b[i]))
		}
		return r
	case bigv:
		return Eq(a.t, y.(bigv).t)
	case opaquev:
		b, ok := y.(opaquev)
		return Kbool(ok && a == b)
	case nil:
		return Kbool(y == nil)
	}
	fail("comparison of %T", x)
	return nil
}

func isNilFn(v value) bool {
	f, ok := v.(*ssa.Function)
	return ok && f == nil
}

func (it *Interp) binop(op token.Token, t types.Type, x, y value, yt types.Type) value {
	if r, ok := it.symFloatOp(op, x, y); ok {
		return r
	}
	switch op {
	case token.EQL:
		return it.equal(x, y)
	case token.NEQ:
		return Not(it.equal(x, y))
	}
	switch a := x.(type) {
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return Kbool(a < b)
		case token.LEQ:
			return Kbool(a <= b)
		case token.GTR:
			return Kbool(a > b)
		case token.GEQ:
			return Kbool(a >= b)
		}
	case string, *symStr:
		switch op {
		case token.ADD:
			sa, ok1 := x.(string)
			sb, ok2 := y.(string)
			if ok1 && ok2 {
				return sa + sb
			}
			return mkStr(append(append([]*Term(nil), strEls(x)...), strEls(y)...))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			sa, ok1 := x.(string)
			sb, ok2 := y.(string)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return Kbool(sa < sb)
				case token.LEQ:
					return Kbool(sa <= sb)
				case token.GTR:
					return Kbool(sa > sb)
				default:
					return Kbool(sa >= sb)
				}
			}
			fail("string ordering")
		}
	case *Term:
		b := y.(*Term)
		if a.isBool {
			switch op {
			case token.AND:
				return And(a, b)
			case token.OR:
				return Or(a, b)
			case token.XOR:
				return Not(Eq(a, b))
			}
		}
		switch op {
		case token.ADD:
			return it.wrapSplit(Add(a, b), t)
		case token.SUB:
			return it.wrapSplit(Sub(a, b), t)
		case token.MUL:
			return wrap(Mul(a, b), t)
		case token.QUO, token.REM:
			if z := Eq(b, K(0)); z != False {
				if it.branch(z) {
					panic(targetPanic{msg: "integer divide by zero", where: it.where()})
				}
			}
			q, r := it.truncDiv(a, b)
			if op == token.QUO {
				return wrap(q, t)
			}
			return wrap(r, t)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.SHL, token.SHR:
			n := it.concretize(b, "shift count")
			if n.Sign() < 0 {
				panic(targetPanic{msg: "negative shift amount", where: it.where()})
			}
			if n.Cmp(big.NewInt(1000)) > 0 {
				n = big.NewInt(1000)
			}
			m := new(big.Int).Lsh(b1, uint(n.Int64()))
			if op == token.SHL {
				return wrap(Scale(a, m), t)
			}
			return Div(a, m)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return it.bitwise(op, t, a, b)
		}
	}
	fail("binop %s on %T", op, x)
	return nil
}

func (it *Interp) bitwise(op token.Token, t types.Type, a, b *Term) *Term {
	_, _, bits, signed, _ := intRange(t)
	m := new(big.Int).Lsh(b1, bits)
	ua, ub := a, b
	if signed {
		ua, ub = Mod(a, m), Mod(b, m)
	}
	var r *Term
	switch op {
	case token.AND:
		r = bitop(OBand, ua, ub)
	case token.OR:
		r = bitop(OBor, ua, ub)
	case token.XOR:
		r = bitop(OBxor, ua, ub)
	case token.AND_NOT:
		nb := Sub(Kb(new(big.Int).Sub(m, b1)), ub)
		r = bitop(OBand, ua, nb)
	}
	return wrap(r, t)
}

// truncDiv is Go's truncated division.
func (it *Interp) truncDiv(a, b *Term) (q, r *Term) {
	if a.op == OConst && b.op == OConst && b.k.Sign() != 0 {
		z, m := new(big.Int).QuoRem(a.k, b.k, new(big.Int))
		return Kb(z), Kb(m)
	}
	if d, ok := it.known(Le(K(0), a)); ok && d || it.pcSet[Lt(K(0), a)] {
		q = DivT(a, b)
		return q, Sub(a, Mul(q, b))
	}
	n := Neg(a)
	q = Ite(Lt(a, K(0)), Neg(DivT(n, b)), DivT(a, b))
	return q, Sub(a, Mul(q, b))
}

func (it *Interp) convert(dst, src types.Type, x value) value {
	du, su := dst.Underlying(), src.Underlying()
	if db, ok := du.(*types.Basic); ok {
		switch {
		case db.Info()&types.IsInteger != 0:
			switch v := x.(type) {
			case *Term:
				return it.wrapSign(v, dst, src)
			case float64:
				if v != v || math.IsInf(v, 0) || math.Abs(v) >= 1<<63 {
					// amd64 yields the most negative number
					return wrap(Kb(new(big.Int).Lsh(big.NewInt(-1), 63)), dst)
				}
				z, _ := new(big.Float).SetFloat64(v).Int(nil)
				return wrap(Kb(z), dst)
			case symFloat:
				return wrap(v.toInt(), dst)
			}
		case db.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case *Term:
				if v.op != OConst && db.Kind() == types.Float64 {
					return newSymFloat(it, v)
				}
				z := it.concretize(v, "integer converted to float")
				f, _ := new(big.Float).SetInt(z).Float64()
				if db.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case symFloat:
				if db.Kind() != types.Float64 {
					fail("float32 conversion of a symbolic float")
				}
				return v
			case float64:
				if db.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			}
		case db.Info()&types.IsString != 0:
			switch v := x.(type) {
			case string, *symStr:
				return v
			case []value:
				if s, ok := su.(*types.Slice); ok {
					if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() != types.Uint8 {
						var els []*Term
						for _, r := range v {
							els = append(els, it.encodeRune(r.(*Term))...)
						}
						return mkStr(els)
					}
				}
				els := make([]*Term, len(v))
				for i := range v {
					els[i] = v[i].(*Term)
				}
				return mkStr(els)
			case *Term: // string(rune)
				if v.op == OConst {
					if v.k.IsInt64() {
						return string(rune(v.k.Int64()))
					}
					return "\uFFFD"
				}
				return &symStr{[]*Term{UF("chunk:rune", nil, nil, v)}}
			}
		}
		if db.Kind() == types.UnsafePointer {
			return x
		}
	}
	if sl, ok := du.(*types.Slice); ok {
		switch x.(type) {
		case string, *symStr:
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				els := strEls(x)
				r := make([]value, len(els))
				for i := range els {
					r[i] = els[i]
				}
				it.markAlloc(r)
				return r
			}
			els := strEls(x)
			var r []value
			for len(els) > 0 {
				c, n := it.decodeRune(els)
				r = append(r, c)
				els = els[n:]
			}
			it.markAlloc(r)
			return r
		}
		return x
	}
	if _, ok := du.(*types.Pointer); ok {
		return x
	}
	fail("convert %s to %s", src, dst)
	return nil
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("SYMGO_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
