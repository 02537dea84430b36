package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	Modes       []string         `json:"modes"`
	Params      map[string]int64 `json:"params"`
	NoMerge     bool             `json:"noMerge"`
	AlwaysMerge bool             `json:"-"`
	PadBytes    bool             `json:"padBytes"`
	InvNonzero  bool             `json:"invNonzero"`
	MaxHashes   int              `json:"maxHashes"`
	MaxPaths    int              `json:"maxPaths"`
	MaxSteps    int64            `json:"maxSteps"`
}

type Obligation struct {
	Msg    string
	Where  string
	Status string // proved, trivial, violated, unknown
}

type Violation struct {
	Msg       string            `json:"msg"`
	Where     string            `json:"where"`
	Vars      map[string]string `json:"vars"`
	Draws     []string          `json:"draws"`
	DrawMax   []string          `json:"draw_max"`
	Hashes    []string          `json:"hashes"`
	Validated bool              `json:"validated"`
	Stack     string            `json:"stack,omitempty"`
}

type Result struct {
	Paths       int               `json:"paths"`
	Bounded     int               `json:"bounded"`
	Obligations int               `json:"obligations"`
	Proved      int               `json:"proved"`
	BySolver    int               `json:"by_solver"`
	Unknown     []string          `json:"unknown"`
	Violations  []*Violation      `json:"violations"`
	Candidates  []*Violation      `json:"candidates"`
	Reached     map[string]string `json:"reached"`
	Encoded     []string          `json:"encoded"`
	Assumed     []string          `json:"assumed"`
	Errors      []string          `json:"errors"`
	Queries     int               `json:"queries"`
	Unsat       int               `json:"unsat"`
	Sat         int               `json:"sat"`
	UnknownQ    int               `json:"unknown_queries"`
	Identities  int               `json:"identities"`
	SolverS     float64           `json:"solver_s"`
	WallS       float64           `json:"wall_s"`
	ByLogic     map[string]int    `json:"by_logic"`
	Merges      int               `json:"merges"`
	Steps       int64             `json:"steps"`
	Samples     []string          `json:"samples"`
}

var feasMemo = map[string]bool{}
var concMemo = map[string]*big.Int{}

func (it *Interp) pcKey() string {
	// order-independent enough: paths replay deterministically
	return fmt.Sprint(And(it.pc...).id)
}

func (it *Interp) known(c *Term) (bool, bool) {
	if c.op == OBool {
		return c == True, true
	}
	if it.pcSet[c] {
		return true, true
	}
	if it.pcSet[Not(c)] {
		return false, true
	}
	switch c.op {
	case OAnd:
		all := true
		for _, a := range c.args {
			d, ok := it.known(a)
			if ok && !d {
				return false, true
			}
			all = all && ok
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range c.args {
			d, ok := it.known(a)
			if ok && d {
				return true, true
			}
			all = all && ok
		}
		if all {
			return false, true
		}
	case ONot:
		if d, ok := it.known(c.args[0]); ok {
			return !d, true
		}
	}
	return false, false
}

func (it *Interp) pushPC(c *Term) {
	if c == True {
		return
	}
	if c == False {
		panic(pathEnd{"infeasible"})
	}
	if c.op == OAnd {
		for _, a := range c.args {
			it.pushPC(a)
		}
		return
	}
	if it.pcSet[c] {
		return
	}
	if it.pcSet[Not(c)] {
		panic(pathEnd{"infeasible"})
	}
	it.pc = append(it.pc, c)
	it.pcSet[c] = true
}

func (it *Interp) popPC(n int) {
	for i := len(it.pc) - 1; i >= n; i-- {
		delete(it.pcSet, it.pc[i])
	}
	it.pc = it.pc[:n]
}

// witness: some test assignment satisfies the path condition and c.
func (it *Interp) witness(c *Term) bool {
	for i := 0; i < nAssign; i++ {
		ok := c.eval(i).Sign() != 0
		for j := 0; ok && j < len(it.pc); j++ {
			ok = it.pc[j].eval(i).Sign() != 0
		}
		if ok {
			return true
		}
	}
	return false
}

// feasible: the path condition and c have a common solution (or may have one).
func (it *Interp) feasible(c *Term) bool {
	if it.witness(c) {
		return true
	}
	key := it.pcKey() + "|" + fmt.Sprint(c.id)
	if r, ok := feasMemo[key]; ok {
		return r
	}
	v, _ := check(append(append([]*Term(nil), it.pc...), c), feasTimeout)
	r := v != vUnsat
	feasMemo[key] = r
	return r
}

func (it *Interp) branch(c *Term) bool {
	if d, ok := it.known(c); ok {
		return d
	}
	if len(partialEnc) > 0 {
		// comparisons of bytes of encodings that are equal as a whole
		for _, d := range []*Term{c, Not(c)} {
			if rest := encRest(d); rest != nil && !it.feasible(Not(rest)) {
				it.pushPC(rest)
				return d == c
			}
		}
	}
	if it.noFork > 0 {
		if !it.feasible(c) {
			it.pushPC(Not(c))
			return false
		}
		if !it.feasible(Not(c)) {
			it.pushPC(c)
			return true
		}
		panic(mergeAbort{"fork"})
	}
	push := func(d bool) bool {
		if d {
			it.pushPC(c)
		} else {
			it.pushPC(Not(c))
		}
		return d
	}
	if it.pos < len(it.dec) {
		d := it.dec[it.pos]
		it.pos++
		return push(d)
	}
	t, f := it.feasible(c), it.feasible(Not(c))
	if !t && !f {
		panic(pathEnd{"infeasible"})
	}
	d := t
	if t && f {
		other := append(append([]bool(nil), it.dec[:it.pos]...), false)
		it.newForks = append(it.newForks, other)
		dbg("fork %s at %s", c, it.where())
	}
	it.dec = append(it.dec[:it.pos:it.pos], d)
	it.pos++
	return push(d)
}

const concLimit = 260

func (it *Interp) concretize(t *Term, what string) *big.Int {
	if t.op == OConst {
		return t.k
	}
	if t.lo != nil && t.hi != nil {
		w := new(big.Int).Sub(t.hi, t.lo)
		if w.IsInt64() && w.Int64() <= concLimit {
			for v := new(big.Int).Set(t.lo); v.Cmp(t.hi) <= 0; v.Add(v, b1) {
				if it.branch(Eq(t, Kb(v))) {
					return new(big.Int).Set(v)
				}
			}
			panic(pathEnd{"infeasible"})
		}
	}
	for n := 0; n < concLimit; n++ {
		key := it.pcKey() + "|c|" + fmt.Sprint(t.id)
		v, ok := concMemo[key]
		if !ok {
			v = it.someValue(t)
			concMemo[key] = v
		}
		if v == nil {
			panic(pathEnd{"infeasible"})
		}
		if it.branch(Eq(t, Kb(v))) {
			return v
		}
	}
	fail("too many values for %s at %s", what, it.where())
	return nil
}

// someValue finds a value t can take on this path.
func (it *Interp) someValue(t *Term) *big.Int {
	for i := 0; i < nAssign; i++ {
		ok := true
		for _, c := range it.pc {
			if c.eval(i).Sign() == 0 {
				ok = false
				break
			}
		}
		if ok {
			return new(big.Int).Set(t.eval(i))
		}
	}
	cs := append([]*Term(nil), it.pc...)
	probe := Var(fmt.Sprintf("probe%d", t.id), t.lo, t.hi)
	v, m := check(append(cs, Eq(probe, t)), feasTimeout)
	switch v {
	case vUnsat:
		return nil
	case vSat:
		if over, _, ok := findModel(append(cs, Eq(probe, t)), m); ok {
			_ = over
			return new(big.Int).Set(t.eval(mslot))
		}
		if z, ok := m[probe]; ok {
			return z
		}
	}
	fail("no value for %s", t)
	return nil
}

// ---- invertibility --------------------------------------------------------------

// knownNonzero: a non-zero expression in hash outputs only; it vanishes with
// negligible probability when the hash is modelled as a random oracle.
func (it *Interp) knownNonzero(g *Term, m *big.Int) bool {
	g = ringNorm(g, m)
	if globalNonzero[nzKey(g, m)] {
		return true
	}
	for _, l := range leaves([]*Term{g}) {
		if !it.hashTerms[l] {
			under := false
			for _, h := range it.hashes {
				for _, x := range leaves(h.els) {
					if x == l {
						under = true
					}
				}
			}
			_ = under
			if !onlyUnderHash(g, it.hashTerms) {
				return false
			}
			break
		}
	}
	for i := 0; i < nAssign; i++ {
		if g.evalM(i, m).Sign() == 0 {
			return false
		}
	}
	it.assumed["challenges derived from SHA-256 do not vanish modulo the group order, nor do the fixed polynomials of them that the code inverts"] = true
	return true
}

// onlyUnderHash: every leaf of t outside hash arguments is a hash output.
func onlyUnderHash(t *Term, hash map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if hash[t] || seen[t] {
			return true
		}
		seen[t] = true
		switch t.op {
		case OVar, OBVar, OUF, OUB:
			return false
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func (it *Interp) assumeNonzero(g *Term, m *big.Int) {
	g = ringNorm(g, m)
	key := nzKey(g, m)
	if !globalNonzero[key] {
		globalNonzero[key] = true
		globalNonzeroT = append(globalNonzeroT, Not(Eq(Mod(g, m), K(0))))
		if it.cfg.InvNonzero {
			it.assumed["values inverted modulo a prime are non-zero"] = true
		}
	}
}

func (it *Interp) assumeNonzeroQuiet(g *Term, m *big.Int) {
	g = ringNorm(g, m)
	if g.op == OMul {
		for _, f := range g.args {
			it.assumeNonzeroQuiet(f, m)
		}
		return
	}
	if globalNonzero[nzKey(g, m)] {
		return
	}
	it.pushPC(Not(Eq(Mod(g, m), K(0))))
}

// ---- paths ------------------------------------------------------------------------

func (it *Interp) resetPath(dec []bool) {
	it.rollback(0)
	it.pc = nil
	it.pcSet = map[*Term]bool{}
	it.dec = append([]bool(nil), dec...)
	it.pos = 0
	it.newForks = nil
	it.noFork = 0
	it.alloc = nil
	it.draws = nil
	it.hashReuse = nil
	it.hashes = nil
	it.snaps = nil
	it.steps = 0
	it.cur, it.panicking, it.skipIntr = nil, nil, nil
}

func explore(it *Interp, fn *ssa.Function, deadline time.Time) *Result {
	res := &Result{Reached: map[string]string{}}
	it.res = res
	work := [][]bool{nil}
	t0 := time.Now()
	for len(work) > 0 {
		dec := work[len(work)-1]
		work = work[:len(work)-1]
		it.resetPath(dec)
		it.paths++
		if it.cfg.MaxPaths > 0 && it.paths > it.cfg.MaxPaths {
			res.Errors = append(res.Errors, fmt.Sprintf("path limit %d reached", it.cfg.MaxPaths))
			break
		}
		if time.Now().After(deadline) {
			res.Errors = append(res.Errors, "time limit reached")
			break
		}
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case pathEnd:
					dbg("path %d ends: %s", it.paths, r.reason)
				case targetPanic:
					it.violated("the code panics: "+r.msg, r.where, False)
				case mergeAbort:
					res.Errors = append(res.Errors, "merge aborted outside a merge: "+r.why)
				case engineErr:
					msg := r.msg + " at " + it.where()
					res.Errors = append(res.Errors, msg)
					dbg("%s\n%s", msg, it.stack())
				default:
					dbg("engine crash at %s\n%s", it.where(), it.stack())
					panic(r)
				}
			}()
			it.callFn(fn, nil, nil, nil)
		}()
		res.Steps += it.steps
		work = append(work, it.newForks...)
		if len(res.Errors) > 0 || len(res.Violations) >= 3 || len(res.Candidates) >= 20 {
			break
		}
	}
	res.Paths = it.paths
	res.Merges = it.merges
	for k := range it.encoded {
		res.Encoded = append(res.Encoded, k)
	}
	sort.Strings(res.Encoded)
	for k := range it.assumed {
		res.Assumed = append(res.Assumed, k)
	}
	sort.Strings(res.Assumed)
	res.Queries, res.Unsat, res.Sat, res.UnknownQ = stats.queries, stats.unsat, stats.sat, stats.unknown
	res.Identities = stats.proved
	res.SolverS = stats.time.Seconds()
	res.ByLogic = stats.byLogic
	res.WallS = time.Since(t0).Seconds()
	return res
}

// assertC discharges an assertion on the current path.
func (it *Interp) assertC(c *Term, msg string) {
	if it.noFork > 0 {
		panic(mergeAbort{"obligation"})
	}
	it.res.Obligations++
	if d, ok := it.known(c); ok && d {
		it.res.Proved++
		return
	}
	goals := conjuncts(c)
	for k := 0; k < len(goals); k++ {
		g := goals[k]
		if d, ok := it.known(g); ok && d {
			continue
		}
		v, m := prove(it.pc, g, queryTimeout)
		switch v {
		case vUnsat:
			it.res.BySolver++
			if len(goals) > 1 {
				it.pushPC(g)
			}
		case vSat:
			if !it.record(append(append([]*Term(nil), it.pc...), Not(g)), m, msg, it.where()) {
				it.res.Unknown = append(it.res.Unknown, msg+" (counterexample of the abstraction only: "+g.String()+")")
			}
			panic(pathEnd{"violated"})
		default:
			if !it.record(append(append([]*Term(nil), it.pc...), Not(g)), model{}, msg, it.where()) {
				it.res.Unknown = append(it.res.Unknown, msg+" ("+g.String()+")")
			}
			panic(pathEnd{"unknown"})
		}
	}
	it.res.Proved++
	it.pushPC(c)
}

// violated reports an unconditional failure on this path.
func (it *Interp) violated(msg, where string, c *Term) {
	it.res.Obligations++
	v, m := check(append(append([]*Term(nil), it.pc...), Not(c)), queryTimeout)
	if v == vUnsat {
		it.res.Proved++
		return
	}
	if m == nil {
		m = model{}
	}
	if !it.record(append(append([]*Term(nil), it.pc...), Not(c)), m, msg, where) {
		it.res.Unknown = append(it.res.Unknown, msg+" at "+where)
	}
}

// record turns a model into a concrete, validated counterexample.
func (it *Interp) record(cs []*Term, m model, msg, where string) bool {
	if v, _ := check(it.pc, feasTimeout); v == vUnsat {
		it.res.Proved++
		return true // the path itself is infeasible
	}
	// a run in which a value assumed invertible is zero would not replay
	_, _, ok := findModel(append(append([]*Term(nil), cs...), globalNonzeroT...), m)
	if !ok {
		_, _, ok = findModel(cs, m)
	}
	if !ok {
		resetEval(mslot, 1, liftModel(m, nil))
	}
	vi := &Violation{Msg: msg, Where: where, Vars: map[string]string{}, Validated: ok, Stack: it.stack()}
	for _, v := range it.inputs {
		vi.Vars[v.name] = v.eval(mslot).String()
	}
	for _, d := range it.draws {
		vi.Draws = append(vi.Draws, d.v.eval(mslot).String())
		vi.DrawMax = append(vi.DrawMax, d.max.String())
	}
	for _, h := range it.hashes {
		vi.Hashes = append(vi.Hashes, h.out.eval(mslot).String())
	}
	if !ok {
		dbg("unvalidated counterexample for %s", msg)
		it.res.Candidates = append(it.res.Candidates, vi)
		return false
	}
	it.res.Violations = append(it.res.Violations, vi)
	return true
}

// ---- verifrt ------------------------------------------------------------------------

var rtIntr = map[string]intrinsicFn{}

func (it *Interp) str(v value) string {
	s, ok := v.(string)
	if !ok {
		fail("harness string is symbolic")
	}
	return s
}

func (it *Interp) input(name string, lo, hi *big.Int) *Term {
	t := Var(name, lo, hi)
	if t.op == OVar {
		for _, v := range it.inputs {
			if v == t {
				return t
			}
		}
		it.inputs = append(it.inputs, t)
	}
	return t
}

func constOf(it *Interp, v value) *big.Int {
	t := it.big(v)
	if t.op != OConst {
		fail("harness bound is symbolic")
	}
	return t.k
}

func init() {
	rtIntr["Int"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.newBig(it.input(it.str(a[0]), constOf(it, a[1]), constOf(it, a[2])))
	}
	rtIntr["I64"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.input(it.str(a[0]), a[1].(*Term).k, a[2].(*Term).k)
	}
	rtIntr["Bool"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return Eq(it.input(it.str(a[0]), b0, b1), K(1))
	}
	rtIntr["Bytes"] = func(it *Interp, fn *ssa.Function, a []value) value {
		n := int(it.concInt(a[1].(*Term), "n"))
		els := make([]*Term, n)
		for i := range els {
			els[i] = it.input(fmt.Sprintf("%s[%d]", it.str(a[0]), i), b0, big.NewInt(255))
		}
		return it.sliceOf(els)
	}
	rtIntr["Str"] = func(it *Interp, fn *ssa.Function, a []value) value {
		n := int(it.concInt(a[1].(*Term), "n"))
		els := make([]*Term, n)
		for i := range els {
			els[i] = it.input(fmt.Sprintf("%s[%d]", it.str(a[0]), i), b0, big.NewInt(255))
		}
		return mkStr(els)
	}
	// Bits: an n-bit number whose bits are separate 0/1 variables.
	rtIntr["Bits"] = func(it *Interp, fn *ssa.Function, a []value) value {
		n := int(it.concInt(a[1].(*Term), "n"))
		top := a[2].(*Term) == True
		l := newLin()
		for i := 0; i < n; i++ {
			if top && i == n-1 {
				l.add(K(1), new(big.Int).Lsh(b1, uint(i)))
				continue
			}
			l.add(it.input(fmt.Sprintf("%s.%d", it.str(a[0]), i), b0, b1), new(big.Int).Lsh(b1, uint(i)))
		}
		return it.newBig(l.term())
	}
	rtIntr["Param"] = func(it *Interp, fn *ssa.Function, a []value) value {
		v, ok := it.cfg.Params[it.str(a[0])]
		if !ok {
			fail("parameter %s not set", it.str(a[0]))
		}
		return K(v)
	}
	rtIntr["Assume"] = func(it *Interp, fn *ssa.Function, a []value) value {
		c := a[0].(*Term)
		if d, ok := it.known(c); ok {
			if !d {
				panic(pathEnd{"assumption"})
			}
			return tuple{}
		}
		if it.noFork > 0 {
			panic(mergeAbort{"assume"})
		}
		it.pushPC(c)
		if !it.feasible(True) {
			panic(pathEnd{"assumption"})
		}
		return tuple{}
	}
	rtIntr["Assert"] = func(it *Interp, fn *ssa.Function, a []value) value {
		it.assertC(a[0].(*Term), it.str(a[1]))
		return tuple{}
	}
	rtIntr["Reach"] = func(it *Interp, fn *ssa.Function, a []value) value {
		l := it.str(a[0])
		if it.res.Reached[l] == "witness" {
			return tuple{}
		}
		if it.witness(True) {
			it.res.Reached[l] = "witness"
		} else if v, m := check(it.pc, feasTimeout); v == vSat {
			if _, _, ok := findModel(it.pc, m); ok {
				it.res.Reached[l] = "witness"
			} else if it.res.Reached[l] == "" {
				it.res.Reached[l] = "sat"
			}
		} else if v == vUnknown && it.res.Reached[l] == "" {
			it.res.Reached[l] = "unknown"
		}
		return tuple{}
	}
	// Expect declares a label that some path must reach.
	rtIntr["Expect"] = func(it *Interp, fn *ssa.Function, a []value) value {
		for _, x := range strings.Split(it.str(a[0]), ",") {
			if _, ok := it.res.Reached[x]; !ok {
				it.res.Reached[x] = ""
			}
		}
		return tuple{}
	}
	rtIntr["Try"] = func(it *Interp, fn *ssa.Function, a []value) (r value) {
		cur, alloc := it.cur, it.alloc
		defer func() {
			switch p := recover().(type) {
			case nil:
			case targetPanic:
				it.cur, it.alloc = cur, alloc
				it.lastPanic = p.msg + " at " + p.where
				r = False
			default:
				panic(p)
			}
		}()
		it.call(a[0], nil, it.cur)
		return True
	}
	rtIntr["Snap"] = func(it *Interp, fn *ssa.Function, a []value) value {
		args := a[0].([]value)
		memo := map[*value]*value{}
		var cp func(v value) value
		cp = func(v value) value {
			switch x := v.(type) {
			case *value:
				if x == nil {
					return x
				}
				if r, ok := memo[x]; ok {
					return r
				}
				p := new(value)
				memo[x] = p
				*p = cp(*x)
				return p
			case structure:
				r := make(structure, len(x))
				for i := range x {
					r[i] = cp(x[i])
				}
				return r
			case array:
				r := make(array, len(x))
				for i := range x {
					r[i] = cp(x[i])
				}
				return r
			case []value:
				if x == nil {
					return x
				}
				r := make([]value, len(x))
				for i := range x {
					r[i] = cp(x[i])
				}
				return r
			case iface:
				return iface{x.t, cp(x.v)}
			case *mapRef:
				if x == nil {
					return x
				}
				d := x.cell.(*mapData)
				n := &mapData{}
				for i := range d.keys {
					n.keys = append(n.keys, d.keys[i])
					n.vals = append(n.vals, cp(d.vals[i]))
				}
				return &mapRef{cell: n}
			}
			return v
		}
		var saved []value
		for _, x := range args {
			saved = append(saved, cp(x))
		}
		it.snaps = append(it.snaps, []value{args, saved})
		return K(int64(len(it.snaps) - 1))
	}
	rtIntr["All"] = func(it *Interp, fn *ssa.Function, a []value) value {
		r := True
		for _, x := range a[0].([]value) {
			r = And(r, x.(*Term))
		}
		return r
	}
	rtIntr["Unchanged"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s := it.snaps[a[0].(*Term).k.Int64()].([]value)
		r := True
		x, y := s[0].([]value), s[1].([]value)
		for i := range x {
			r = And(r, it.deepEq(x[i], y[i], map[[2]*value]bool{}))
		}
		return r
	}
	rtIntr["DrawBound"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.newBig(Kb(it.draws[it.concInt(a[0].(*Term), "i")].max))
	}
	rtIntr["Native"] = func(it *Interp, fn *ssa.Function, a []value) value { return False }
	rtIntr["Hashes"] = func(it *Interp, fn *ssa.Function, a []value) value { return K(int64(len(it.hashes))) }
	rtIntr["SameHashes"] = func(it *Interp, fn *ssa.Function, a []value) value {
		i, n := it.concInt(a[0].(*Term), "i"), it.concInt(a[1].(*Term), "n")
		it.hashReuse = append([]*HashEvent(nil), it.hashes[i:n]...)
		return tuple{}
	}
	rtIntr["Same"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.deepEq(a[0], a[1], map[[2]*value]bool{})
	}
	rtIntr["Draws"] = func(it *Interp, fn *ssa.Function, a []value) value { return K(int64(len(it.draws))) }
	rtIntr["Draw"] = func(it *Interp, fn *ssa.Function, a []value) value {
		i := it.concInt(a[0].(*Term), "i")
		if int(i) >= len(it.draws) {
			fail("harness asks for draw %d of %d", i, len(it.draws))
		}
		return it.newBig(it.draws[i].v)
	}
}

func (it *Interp) deepEq(x, y value, seen map[[2]*value]bool) *Term {
	switch a := x.(type) {
	case *value:
		b, ok := y.(*value)
		if !ok || (a == nil) != (b == nil) {
			return False
		}
		if a == b || seen[[2]*value{a, b}] {
			return True
		}
		seen[[2]*value{a, b}] = true
		return it.deepEq(*a, *b, seen)
	case structure:
		b, ok := y.(structure)
		if !ok || len(a) != len(b) {
			return False
		}
		r := True
		for i := range a {
			r = And(r, it.deepEq(a[i], b[i], seen))
		}
		return r
	case array:
		b, ok := y.(array)
		if !ok {
			return False
		}
		return it.deepEq(structure(a), structure(b), seen)
	case []value:
		b, ok := y.([]value)
		if !ok || len(a) != len(b) {
			return False
		}
		return it.deepEq(structure(a), structure(b), seen)
	case iface:
		b, ok := y.(iface)
		if !ok || (a.t == nil) != (b.t == nil) {
			return False
		}
		if a.t == nil {
			return True
		}
		return it.deepEq(a.v, b.v, seen)
	case bigv:
		b, ok := y.(bigv)
		if !ok {
			return False
		}
		return Eq(a.t, b.t)
	case grpv:
		b, ok := y.(grpv)
		if !ok {
			return False
		}
		return grpEq(a.g, b.g)
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			return False
		}
		return Eq(a, b)
	case *mapRef:
		b, ok := y.(*mapRef)
		if !ok || (a == nil) != (b == nil) {
			return False
		}
		if a == nil {
			return True
		}
		da, db := a.cell.(*mapData), b.cell.(*mapData)
		if len(da.keys) != len(db.keys) {
			return False
		}
		r := True
		for i := range da.keys {
			r = And(r, it.equal(da.keys[i], db.keys[i]), it.deepEq(da.vals[i], db.vals[i], seen))
		}
		return r
	case string, *symStr:
		return it.equal(x, y)
	case float64:
		return Kbool(x == y)
	case nil:
		return Kbool(y == nil)
	case *ssa.Function, *closure:
		return Kbool(x == y)
	}
	return Kbool(fmt.Sprint(x) == fmt.Sprint(y))
}
