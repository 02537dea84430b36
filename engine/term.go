package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms: hash-consed integer / boolean expressions. Every integer of the
// program under analysis (machine or big.Int) is an Int-sorted term with
// mathematical semantics; wrap-around of machine integers is made explicit.

type Op uint8

const (
	OConst Op = iota // integer constant k
	OBool            // boolean constant (k = 0/1)
	OVar             // integer variable
	OBVar            // boolean variable
	OLin             // k + sum coef[i]*args[i]
	OMul             // product of args
	ODiv             // floor(args[0]/k), k>0 constant (Euclidean)
	OMod             // args[0] mod k, k>0 constant
	ODivT            // Euclidean division by a term
	OModT            // Euclidean modulus by a term
	OInv             // args[0]^-1 mod k (meaningful when invertible)
	OIte             // ite(args[0] bool, args[1], args[2])
	OEq              // args[0] == args[1] (ints)
	OLt              // args[0] < args[1]
	ONot
	OAnd
	OOr
	OBand // bitwise on non-negative integers
	OBor
	OBxor
	OUF   // uninterpreted function name(args)
	OSign // sign of args[0]: -1, 0, 1
	OUB   // uninterpreted boolean name(args)
)

type Term struct {
	op     Op
	id     int
	isBool bool
	args   []*Term
	coef   []*big.Int
	k      *big.Int
	name   string
	lo, hi *big.Int // interval (nil: unbounded)
	grp    *Grp     // for coordinate terms of abstract group elements
	ev     [nSlots]*big.Int
	evGen  [nSlots]int
	depth  int
	domain *VarDom
}

// VarDom describes how a variable is drawn for random evaluation.
type VarDom struct {
	bits bool
}

const nAssign = 3 // test assignments
const nSlots = 4  // the last slot is for validating models

var (
	intern    = map[string]*Term{}
	terms     []*Term
	b0        = big.NewInt(0)
	b1        = big.NewInt(1)
	bm1       = big.NewInt(-1)
	True      *Term
	False     *Term
	evalOver  [nSlots]map[*Term]*big.Int
	evalGen   [nSlots]int
	evalSeed  [nSlots]int64
	allVars   []*Term
	chunkBits = uint(0)
)

func init() {
	True = mk(&Term{op: OBool, k: b1, isBool: true})
	False = mk(&Term{op: OBool, k: b0, isBool: true})
	for i := range evalSeed {
		evalSeed[i] = int64(i + 1)
		evalGen[i] = 1
	}
}

func (t *Term) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", t.op, t.name)
	if t.k != nil {
		sb.WriteString(t.k.Text(62))
	}
	for i, a := range t.args {
		if t.coef != nil {
			fmt.Fprintf(&sb, "|%s*%d", t.coef[i].Text(62), a.id)
		} else {
			fmt.Fprintf(&sb, "|%d", a.id)
		}
	}
	if t.grp != nil {
		fmt.Fprintf(&sb, "|g%d", t.grp.id)
	}
	return sb.String()
}

func mk(t *Term) *Term {
	k := t.key()
	if o, ok := intern[k]; ok {
		return o
	}
	t.id = len(terms)
	for _, a := range t.args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	t.setInterval()
	terms = append(terms, t)
	intern[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst || t.op == OBool }

func K(i int64) *Term { return Kb(big.NewInt(i)) }
func Kb(v *big.Int) *Term {
	return mk(&Term{op: OConst, k: new(big.Int).Set(v)})
}
func Kbool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Var creates (or returns) the integer variable with the given name and range.
func Var(name string, lo, hi *big.Int) *Term {
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return Kb(lo)
	}
	n := len(terms)
	t := &Term{op: OVar, name: name, lo: lo, hi: hi}
	r := mk(t)
	if len(terms) > n {
		allVars = append(allVars, r)
	}
	return r
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func mulIv(alo, ahi, blo, bhi *big.Int) (lo, hi *big.Int) {
	if alo != nil && ahi != nil && blo != nil && bhi != nil {
		p := []*big.Int{new(big.Int).Mul(alo, blo), new(big.Int).Mul(alo, bhi), new(big.Int).Mul(ahi, blo), new(big.Int).Mul(ahi, bhi)}
		lo, hi = p[0], p[0]
		for _, x := range p[1:] {
			lo, hi = minB(lo, x), maxB(hi, x)
		}
		return
	}
	if alo != nil && blo != nil && alo.Sign() >= 0 && blo.Sign() >= 0 {
		return new(big.Int).Mul(alo, blo), nil
	}
	return nil, nil
}

func (t *Term) setInterval() {
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OLin:
		lo, hi := new(big.Int).Set(t.k), new(big.Int).Set(t.k)
		for i, a := range t.args {
			l, h := a.lo, a.hi
			if t.coef[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(l, t.coef[i]))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(h, t.coef[i]))
			} else {
				hi = nil
			}
		}
		t.lo, t.hi = lo, hi
	case OMul:
		lo, hi := t.args[0].lo, t.args[0].hi
		for _, a := range t.args[1:] {
			lo, hi = mulIv(lo, hi, a.lo, a.hi)
		}
		// even power of a single factor
		if len(t.args)%2 == 0 {
			same := true
			for _, a := range t.args {
				same = same && a == t.args[0]
			}
			if same && (lo == nil || lo.Sign() < 0) {
				lo = b0
			}
		}
		t.lo, t.hi = lo, hi
	case ODiv:
		a := t.args[0]
		if a.lo != nil {
			t.lo = floorDiv(a.lo, t.k)
		}
		if a.hi != nil {
			t.hi = floorDiv(a.hi, t.k)
		}
	case OMod, OInv:
		t.lo, t.hi = b0, new(big.Int).Sub(t.k, b1)
	case ODivT:
		if t.args[0].lo != nil && t.args[0].lo.Sign() >= 0 && t.args[1].lo != nil && t.args[1].lo.Sign() > 0 {
			t.lo = b0
			t.hi = t.args[0].hi
		}
	case OModT:
		t.lo = b0
		m := t.args[1]
		if m.hi != nil && m.lo != nil {
			t.hi = new(big.Int).Sub(maxB(new(big.Int).Abs(m.lo), new(big.Int).Abs(m.hi)), b1)
		}
	case OIte:
		if !t.isBool {
			a, b := t.args[1], t.args[2]
			if a.lo != nil && b.lo != nil {
				t.lo = minB(a.lo, b.lo)
			}
			if a.hi != nil && b.hi != nil {
				t.hi = maxB(a.hi, b.hi)
			}
		}
	case OSign:
		t.lo, t.hi = bm1, b1
		a := t.args[0]
		if a.lo != nil && a.lo.Sign() >= 0 {
			t.lo = b0
		}
		if a.hi != nil && a.hi.Sign() <= 0 {
			t.hi = b0
		}
	case OBand:
		t.lo = b0
		if t.args[0].hi != nil && t.args[1].hi != nil {
			t.hi = minB(t.args[0].hi, t.args[1].hi)
		}
	case OBor, OBxor:
		t.lo = b0
		if t.args[0].hi != nil && t.args[1].hi != nil {
			n := maxB(t.args[0].hi, t.args[1].hi).BitLen()
			t.hi = new(big.Int).Sub(new(big.Int).Lsh(b1, uint(n)), b1)
		}
	}
}

func floorDiv(a, m *big.Int) *big.Int { return new(big.Int).Div(a, m) } // m>0: Euclid = floor

func in01(t *Term) bool {
	return t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(b1) <= 0
}

// inRange reports lo <= t <= hi by interval.
func inRange(t *Term, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

type linAcc struct {
	k *big.Int
	m map[*Term]*big.Int
}

func newLin() *linAcc { return &linAcc{new(big.Int), map[*Term]*big.Int{}} }
func (l *linAcc) add(t *Term, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	switch t.op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
		for i, a := range t.args {
			l.add1(a, new(big.Int).Mul(c, t.coef[i]))
		}
	default:
		l.add1(t, c)
	}
}
func (l *linAcc) add1(t *Term, c *big.Int) {
	if o, ok := l.m[t]; ok {
		s := new(big.Int).Add(o, c)
		if s.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = s
		}
		return
	}
	l.m[t] = c
}
func (l *linAcc) term() *Term {
	if len(l.m) == 0 {
		return Kb(l.k)
	}
	args := make([]*Term, 0, len(l.m))
	for a := range l.m {
		args = append(args, a)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 1 && l.k.Sign() == 0 && l.m[args[0]].Cmp(b1) == 0 {
		return args[0]
	}
	coef := make([]*big.Int, len(args))
	for i, a := range args {
		coef[i] = l.m[a]
	}
	return mk(&Term{op: OLin, k: new(big.Int).Set(l.k), args: args, coef: coef})
}

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, b1)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, b1)
	l.add(b, bm1)
	return l.term()
}
func Neg(a *Term) *Term { return Scale(a, bm1) }
func Scale(a *Term, c *big.Int) *Term {
	l := newLin()
	l.add(a, c)
	return l.term()
}

// content splits a single-monomial linear term c*t.
func content(t *Term) (*big.Int, *Term) {
	if t.op == OLin && len(t.args) == 1 && t.k.Sign() == 0 {
		return t.coef[0], t.args[0]
	}
	return b1, t
}

func Mul(ts ...*Term) *Term {
	c := new(big.Int).Set(b1)
	var fs []*Term
	for _, t := range ts {
		if t.op == OConst {
			c.Mul(c, t.k)
			continue
		}
		k, u := content(t)
		c.Mul(c, k)
		if u.op == OMul {
			fs = append(fs, u.args...)
		} else {
			fs = append(fs, u)
		}
	}
	if c.Sign() == 0 {
		return K(0)
	}
	if len(fs) == 0 {
		return Kb(c)
	}
	// 0/1 factors are idempotent
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	out := fs[:0:0]
	for _, f := range fs {
		if len(out) > 0 && out[len(out)-1] == f && in01(f) {
			continue
		}
		out = append(out, f)
	}
	var p *Term
	if len(out) == 1 {
		p = out[0]
	} else {
		p = mk(&Term{op: OMul, args: out})
	}
	return Scale(p, c)
}

// splitDiv splits t = m*q + r with r collecting the coefficients not divisible by m.
func splitDiv(t *Term, m *big.Int) (q, r *Term) {
	ql, rl := newLin(), newLin()
	part := func(a *Term, c *big.Int) {
		qq, rr := new(big.Int).DivMod(c, m, new(big.Int))
		if rr.Sign() == 0 {
			ql.add(a, qq)
		} else {
			rl.add(a, c)
		}
	}
	switch t.op {
	case OLin:
		kq, kr := new(big.Int).DivMod(t.k, m, new(big.Int))
		ql.k.Add(ql.k, kq)
		rl.k.Add(rl.k, kr)
		for i, a := range t.args {
			part(a, t.coef[i])
		}
	default:
		rl.add(t, b1)
	}
	return ql.term(), rl.term()
}

// Div is floor(t/m) for constant m > 0.
func Div(t *Term, m *big.Int) *Term {
	if m.Cmp(b1) == 0 {
		return t
	}
	if t.op == OConst {
		return Kb(floorDiv(t.k, m))
	}
	if t.lo != nil && t.hi != nil {
		a, b := floorDiv(t.lo, m), floorDiv(t.hi, m)
		if a.Cmp(b) == 0 {
			return Kb(a)
		}
	}
	q, r := splitDiv(t, m)
	if !(q.op == OConst && q.k.Sign() == 0) {
		return Add(q, Div(r, m))
	}
	if t.op == ODiv {
		return Div(t.args[0], new(big.Int).Mul(t.k, m))
	}
	return mk(&Term{op: ODiv, args: []*Term{t}, k: new(big.Int).Set(m)})
}

// Mod is t mod m for constant m > 0.
func Mod(t *Term, m *big.Int) *Term {
	if t.op == OConst {
		return Kb(new(big.Int).Mod(t.k, m))
	}
	if m.Cmp(b1) == 0 {
		return K(0)
	}
	if t.lo != nil && t.hi != nil {
		a, b := floorDiv(t.lo, m), floorDiv(t.hi, m)
		if a.Cmp(b) == 0 {
			return Sub(t, Kb(new(big.Int).Mul(a, m)))
		}
	}
	_, r := splitDiv(t, m)
	if r != t {
		return Mod(r, m)
	}
	if t.op == OMod && new(big.Int).Mod(t.k, m).Sign() == 0 {
		return Mod(t.args[0], m)
	}
	if t.op == OMod && m.BitLen() > 80 && t.k.Cmp(m) > 0 && t.k.Cmp(new(big.Int).Lsh(m, 1)) <= 0 {
		return Ite(Lt(t, Kb(m)), t, Sub(t, Kb(m)))
	}
	return mk(&Term{op: OMod, args: []*Term{t}, k: new(big.Int).Set(m)})
}

// Euclidean div/mod by a term.
func DivT(a, b *Term) *Term {
	if b.op == OConst && b.k.Sign() > 0 {
		return Div(a, b.k)
	}
	if b.op == OConst && b.k.Sign() < 0 { // Euclid: a = b*q + r, 0<=r<|b|
		return Neg(Div(a, new(big.Int).Neg(b.k)))
	}
	return mk(&Term{op: ODivT, args: []*Term{a, b}})
}
func ModT(a, b *Term) *Term {
	if b.op == OConst && b.k.Sign() != 0 {
		return Mod(a, new(big.Int).Abs(b.k))
	}
	return mk(&Term{op: OModT, args: []*Term{a, b}})
}

func Inv(a *Term, m *big.Int) *Term {
	if a.op == OConst {
		r := new(big.Int).ModInverse(a.k, m)
		if r == nil {
			return K(0)
		}
		return Kb(r)
	}
	if a.op == OMod && a.k.Cmp(m) == 0 {
		a = a.args[0]
	}
	if a.op == OInv && a.k.Cmp(m) == 0 {
		return Mod(a.args[0], m)
	}
	if isPrime(m) {
		switch {
		case a.op == OMul:
			fs := make([]*Term, len(a.args))
			for i, f := range a.args {
				fs[i] = Inv(f, m)
			}
			return Mod(Mul(fs...), m)
		case a.op == OLin && len(a.args) == 1 && a.k.Sign() == 0:
			return Mod(Mul(Inv(Kb(a.coef[0]), m), Inv(a.args[0], m)), m)
		}
	}
	return mk(&Term{op: OInv, args: []*Term{a}, k: new(big.Int).Set(m)})
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.isBool {
		return Or(And(c, a), And(Not(c), b))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	// nested same condition
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	// the same value on both ways to it
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return Ite(And(Not(c), b.args[0]), b.args[1], a)
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return Ite(And(c, Not(a.args[0])), a.args[2], b)
	}
	// a reduction that is left out only for reduced values
	if a.op == OMod && reducedUnless(c, true, b, a.k) && Mod(b, a.k) == a {
		return a
	}
	if b.op == OMod && reducedUnless(c, false, a, b.k) && Mod(a, b.k) == b {
		return b
	}
	// ite(x == 0, a, b) over a 0/1 value x: b*x + a*(1-x) when both constant offsets
	d := Sub(b, a)
	if c.op == OEq && d.op == OConst {
		if x := zeroTested(c); x != nil && in01(x) {
			return Add(a, Scale(x, d.k))
		}
	}
	if d.op == OConst && !(a.op == OConst) {
		return Add(a, Ite(c, K(0), d))
	}
	return mk(&Term{op: OIte, args: []*Term{c, a, b}})
}

// reducedUnless: 0 <= x < k whenever c is false (neg) or true.
func reducedUnless(c *Term, neg bool, xt *Term, k *big.Int) bool {
	lo := xt.lo != nil && xt.lo.Sign() >= 0
	hi := xt.hi != nil && xt.hi.Cmp(k) < 0
	cs := []*Term{c}
	if neg && c.op == OOr || !neg && c.op == OAnd {
		cs = c.args
	}
	for _, l := range cs {
		if neg {
			l = Not(l)
		}
		// l holds: f >= 0
		var f *Term
		if l.op == OLt && l.args[0].op == OConst {
			f = Sub(Sub(l.args[1], l.args[0]), K(1))
		} else if l.op == ONot && l.args[0].op == OLt {
			f = Sub(l.args[0].args[0], l.args[0].args[1])
		} else {
			continue
		}
		if d := Sub(xt, f); d.op == OConst && d.k.Sign() >= 0 {
			lo = true
		}
		if d := Sub(Sub(Kb(new(big.Int).Sub(k, b1)), xt), f); d.op == OConst && d.k.Sign() >= 0 {
			hi = true
		}
	}
	return lo && hi
}

// zeroTested returns x when c is the atom x == 0.
func zeroTested(c *Term) *Term {
	if c.op == OEq {
		if c.args[1].op == OConst && c.args[1].k.Sign() == 0 {
			return c.args[0]
		}
	}
	return nil
}

// Sign is the sign function.
func Sign(x *Term) *Term {
	if x.lo != nil && x.lo.Sign() > 0 {
		return K(1)
	}
	if x.hi != nil && x.hi.Sign() < 0 {
		return K(-1)
	}
	if x.op == OConst {
		return K(int64(x.k.Sign()))
	}
	return mk(&Term{op: OSign, args: []*Term{x}})
}

// signCmp decides a comparison of k + c*sign(x) with 0, for small c.
func signParts(d *Term) (x *Term, c, k *big.Int) {
	if d.op == OSign {
		return d.args[0], b1, b0
	}
	if d.op == OLin && len(d.args) == 1 && d.args[0].op == OSign {
		return d.args[0].args[0], d.coef[0], d.k
	}
	return nil, nil, nil
}

func signCond(d *Term, holds func(v *big.Int) bool) *Term {
	x, c, k := signParts(d)
	if x == nil {
		return nil
	}
	at := func(s int64) bool {
		return holds(new(big.Int).Add(k, new(big.Int).Mul(c, big.NewInt(s))))
	}
	n, z, p := at(-1), at(0), at(1)
	switch {
	case n && z && p:
		return True
	case !n && !z && !p:
		return False
	case n && z:
		return Not(Lt(K(0), x))
	case n && p:
		return Not(Eq(x, K(0)))
	case z && p:
		return Not(Lt(x, K(0)))
	case n:
		return Lt(x, K(0))
	case z:
		return Eq(x, K(0))
	}
	return Lt(K(0), x)
}

// constTree reports an ite tree with constant leaves.
func constTree(t *Term) bool {
	if t.op == OConst {
		return true
	}
	return t.op == OIte && !t.isBool && constTree(t.args[1]) && constTree(t.args[2])
}

func mapTree(t *Term, f func(*big.Int) bool) *Term {
	if t.op == OConst {
		return Kbool(f(t.k))
	}
	return Ite(t.args[0], mapTree(t.args[1], f), mapTree(t.args[2], f))
}

// shiftTree recognises k + c*tree.
func cmpTree(d *Term, holds func(v *big.Int) bool) *Term {
	if d.op == OIte && constTree(d) {
		return mapTree(d, holds)
	}
	if d.op == OLin && len(d.args) == 1 && d.args[0].op == OIte && constTree(d.args[0]) {
		return mapTree(d.args[0], func(v *big.Int) bool {
			return holds(new(big.Int).Add(d.k, new(big.Int).Mul(d.coef[0], v)))
		})
	}
	return nil
}

// telescope rewrites digits (x div a) mod k as x div a - k*(x div a*k) and
// returns the sum if it became shorter.
func telescope(d *Term) *Term {
	if d.op != OLin || len(d.args) < 2 {
		return d
	}
	n, mods := 0, false
	for _, a := range d.args {
		switch a.op {
		case OMod:
			if isFieldPrime(a.k) {
				return d
			}
			mods = true
			n++
		case ODiv:
			n++
		}
	}
	if n < 2 || !mods {
		return d
	}
	l := newLin()
	l.k.Set(d.k)
	for i, a := range d.args {
		for a.op == OMod && !isFieldPrime(a.k) {
			l.add(Div(a.args[0], a.k), new(big.Int).Neg(new(big.Int).Mul(a.k, d.coef[i])))
			a = a.args[0]
		}
		l.add(a, d.coef[i])
	}
	r := l.term()
	if r.op != OLin || len(r.args) < len(d.args) {
		return r
	}
	return d
}

func isFieldPrime(k *big.Int) bool {
	for _, p := range []*big.Int{secpN, secpP, bnP, bnN} {
		if p.Cmp(k) == 0 {
			return true
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isBool || b.isBool {
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if isEnc(a) && isEnc(b) && a.name == b.name && a.args[0] == b.args[0] {
		return seqEq([]*Term{a}, []*Term{b})
	}
	if x := popSrc[a]; x != nil && b.op == OConst && b.k.Cmp(b1) == 0 {
		// one bit set: a power of two
		r := make([]*Term, 64)
		for i := range r {
			r[i] = Eq(x, Kb(new(big.Int).Lsh(b1, uint(i))))
		}
		return Or(r...)
	}
	if b.op == OConst && b.k.Sign() == 0 && a.op == OBor {
		return And(Eq(a.args[0], b), Eq(a.args[1], b))
	}
	d := Sub(a, b)
	if t := telescope(d); t != d {
		return Eq(t, K(0))
	}
	if d.op == OConst {
		return Kbool(d.k.Sign() == 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return False
	}
	isZ := func(v *big.Int) bool { return v.Sign() == 0 }
	if r := signCond(d, isZ); r != nil {
		return r
	}
	if r := cmpTree(d, isZ); r != nil {
		return r
	}
	if r := coordEq(a, b); r != nil {
		return r
	}
	// normal form: difference == 0 with positive leading coefficient, or a == const
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if in01(a) && b.k.Cmp(b1) == 0 && a.op != OLin {
			return Not(Eq(a, K(0)))
		}
		if a.op == OLin && len(a.args) == 1 {
			// c*x + k == v  ->  x == (v-k)/c
			v := new(big.Int).Sub(b.k, a.k)
			q, r := new(big.Int).QuoRem(v, a.coef[0], new(big.Int))
			if r.Sign() != 0 {
				return False
			}
			return Eq(a.args[0], Kb(q))
		}
		if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
			e1, e2 := a.args[1].k.Cmp(b.k) == 0, a.args[2].k.Cmp(b.k) == 0
			switch {
			case e1 && e2:
				return True
			case e1:
				return a.args[0]
			case e2:
				return Not(a.args[0])
			default:
				return False
			}
		}
		if a.op == OMul && b.k.Sign() == 0 {
			// integer product is zero iff a factor is
			r := False
			for _, f := range a.args {
				r = Or(r, Eq(f, K(0)))
			}
			return r
		}
	}
	if a.op == OLin || b.op == OLin {
		if d.op == OLin && len(d.args) > 0 {
			if d.coef[0].Sign() < 0 {
				d = Neg(d)
			}
			if b.op != OConst || a.op == OLin {
				if d.op == OLin && len(d.args) == 1 {
					return Eq(d, K(0))
				}
				// two-sided when it is a plain difference of two atoms
				if d.op == OLin && len(d.args) == 2 && d.k.Sign() == 0 && d.coef[0].Cmp(b1) == 0 && d.coef[1].Cmp(bm1) == 0 {
					return mk(&Term{op: OEq, isBool: true, args: []*Term{d.args[0], d.args[1]}})
				}
				return mk(&Term{op: OEq, isBool: true, args: []*Term{d, K(0)}})
			}
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEq, isBool: true, args: []*Term{a, b}})
}

func Lt(a, b *Term) *Term {
	d := Sub(b, a) // a<b iff d>0
	if d.lo != nil && d.lo.Sign() > 0 {
		return True
	}
	if d.hi != nil && d.hi.Sign() <= 0 {
		return False
	}
	if in01(d) { // d>0 iff d != 0
		return Not(Eq(d, K(0)))
	}
	isP := func(v *big.Int) bool { return v.Sign() > 0 }
	if r := signCond(d, isP); r != nil {
		return r
	}
	if r := cmpTree(d, isP); r != nil {
		return r
	}
	return mk(&Term{op: OLt, isBool: true, args: []*Term{K(0), d}})
}
func Le(a, b *Term) *Term { return Lt(a, Add(b, K(1))) }

func Not(a *Term) *Term {
	switch a.op {
	case OBool:
		return Kbool(a.k.Sign() == 0)
	case ONot:
		return a.args[0]
	case OLt: // not (0 < d)  <=>  0 < 1 - d
		if a.args[0].op == OConst {
			d := a.args[1]
			n := Sub(K(1), d)
			r := mk(&Term{op: OLt, isBool: true, args: []*Term{K(0), n}})
			// keep one polarity per pair
			if r.id < a.id {
				return r
			}
		}
	}
	return mk(&Term{op: ONot, isBool: true, args: []*Term{a}})
}

// isEnc: a byte of the encoding of a group element.
func isEnc(t *Term) bool { return t.op == OUF && strings.HasPrefix(t.name, "chunk:m:") }

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(&Term{op: op, isBool: true, args: out})
}
func And(ts ...*Term) *Term { return nary(OAnd, True, False, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, False, True, ts) }

// bitwise operators on non-negative operands
func bitop(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		z := new(big.Int)
		switch op {
		case OBand:
			z.And(a.k, b.k)
		case OBor:
			z.Or(a.k, b.k)
		case OBxor:
			z.Xor(a.k, b.k)
		}
		return Kb(z)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.k.Sign() == 0 {
			if op == OBand {
				return K(0)
			}
			return a
		}
		ones := new(big.Int).Add(b.k, b1)
		isOnes := new(big.Int).And(ones, b.k).Sign() == 0 // b = 2^k-1
		if op == OBand {
			if isOnes {
				return Mod(a, ones)
			}
			// single contiguous run of ones: 2^j * (2^k-1)
			tz := b.k.TrailingZeroBits()
			top := new(big.Int).Rsh(b.k, tz)
			t1 := new(big.Int).Add(top, b1)
			if new(big.Int).And(t1, top).Sign() == 0 {
				return Scale(Mod(Div(a, new(big.Int).Lsh(b1, tz)), t1), new(big.Int).Lsh(b1, tz))
			}
		}
		if op == OBxor && isOnes && inRange(a, b0, b.k) {
			return Sub(b, a)
		}
	}
	if a == b {
		if op == OBxor {
			return K(0)
		}
		return a
	}
	if op == OBxor && isEnc(a) && isEnc(b) && a.name == b.name && a.args[0] == b.args[0] {
		return Ite(Eq(a, b), K(0), UF(fmt.Sprint("xor:", a.id, "|", b.id), b1, big.NewInt(255)))
	}
	if op == OBand && a.op != OConst && b.op != OConst {
		// x & (x-1) etc. stay as they are
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: op, args: []*Term{a, b}})
}

func UF(name string, lo, hi *big.Int, args ...*Term) *Term {
	t := &Term{op: OUF, name: name, args: args, lo: lo, hi: hi}
	return mk(t)
}

// ---- evaluation under pseudo-random assignments ---------------------------

func hashBig(parts ...string) *big.Int {
	h := sha256.Sum256([]byte(strings.Join(parts, "\x00")))
	h2 := sha256.Sum256(append(h[:], 1))
	return new(big.Int).SetBytes(append(h[:], h2[:]...))
}

func intoRange(v, lo, hi *big.Int) *big.Int {
	if lo == nil && hi == nil {
		return new(big.Int).Rsh(v, 200)
	}
	if lo == nil {
		return new(big.Int).Sub(hi, new(big.Int).Rsh(v, 250))
	}
	if hi == nil {
		return new(big.Int).Add(lo, new(big.Int).Rsh(v, 250))
	}
	w := new(big.Int).Sub(hi, lo)
	w.Add(w, b1)
	r := new(big.Int).Mod(v, w)
	return r.Add(r, lo)
}

func resetEval(i int, seed int64, over map[*Term]*big.Int) {
	evalGen[i]++
	evalSeed[i] = seed
	evalOver[i] = over
}

// eval computes the value of t under assignment i (booleans as 0/1).
func (t *Term) eval(i int) *big.Int {
	if t.op == OConst || t.op == OBool {
		return t.k
	}
	if t.evGen[i] == evalGen[i] {
		return t.ev[i]
	}
	v := t.eval0(i)
	t.ev[i] = v
	t.evGen[i] = evalGen[i]
	return v
}

func bb(b bool) *big.Int {
	if b {
		return b1
	}
	return b0
}

func (t *Term) eval0(i int) *big.Int {
	if o := evalOver[i]; o != nil {
		if v, ok := o[t]; ok {
			return v
		}
	}
	switch t.op {
	case OVar, OBVar:
		seed := evalSeed[i]
		if t.lo != nil && t.hi != nil && t.lo.Sign() == 0 && t.hi.Cmp(b1) == 0 && seed == 2 {
			// complement of assignment 1, so that no bit is 0 in both
			v := hashBig("var", t.name, "1")
			return new(big.Int).Sub(b1, intoRange(v, t.lo, t.hi))
		}
		v := hashBig("var", t.name, fmt.Sprint(seed))
		if t.op == OBVar {
			return new(big.Int).Mod(v, big.NewInt(2))
		}
		return intoRange(v, t.lo, t.hi)
	case OLin:
		s := new(big.Int).Set(t.k)
		for j, a := range t.args {
			s.Add(s, new(big.Int).Mul(t.coef[j], a.eval(i)))
		}
		return s
	case OMul:
		s := new(big.Int).Set(b1)
		for _, a := range t.args {
			s.Mul(s, a.eval(i))
		}
		return s
	case ODiv:
		return floorDiv(t.args[0].eval(i), t.k)
	case OMod:
		if a := t.args[0]; a.op == OMul || a.op == OLin {
			return a.evalM(i, t.k)
		}
		return new(big.Int).Mod(t.args[0].eval(i), t.k)
	case ODivT:
		b := t.args[1].eval(i)
		if b.Sign() == 0 {
			return b0
		}
		return new(big.Int).Div(t.args[0].eval(i), b)
	case OModT:
		b := t.args[1].eval(i)
		if b.Sign() == 0 {
			return b0
		}
		return new(big.Int).Mod(t.args[0].eval(i), b)
	case OInv:
		r := new(big.Int).ModInverse(t.args[0].evalM(i, t.k), t.k)
		if r == nil {
			return b0
		}
		return r
	case OIte:
		if t.args[0].eval(i).Sign() != 0 {
			return t.args[1].eval(i)
		}
		return t.args[2].eval(i)
	case OEq:
		return bb(t.args[0].eval(i).Cmp(t.args[1].eval(i)) == 0)
	case OLt:
		return bb(t.args[0].eval(i).Cmp(t.args[1].eval(i)) < 0)
	case ONot:
		return bb(t.args[0].eval(i).Sign() == 0)
	case OAnd:
		for _, a := range t.args {
			if a.eval(i).Sign() == 0 {
				return b0
			}
		}
		return b1
	case OOr:
		for _, a := range t.args {
			if a.eval(i).Sign() != 0 {
				return b1
			}
		}
		return b0
	case OBand:
		return new(big.Int).And(t.args[0].eval(i), t.args[1].eval(i))
	case OBor:
		return new(big.Int).Or(t.args[0].eval(i), t.args[1].eval(i))
	case OBxor:
		return new(big.Int).Xor(t.args[0].eval(i), t.args[1].eval(i))
	case OSign:
		return big.NewInt(int64(t.args[0].eval(i).Sign()))
	case OUF, OUB:
		if strings.HasPrefix(t.name, "inv6:") {
			var as []*big.Int
			for _, a := range t.args {
				as = append(as, a.eval(i))
			}
			return gf6inv(int(t.name[5]-'0'), as)
		}
		parts := []string{"uf", t.name, fmt.Sprint(evalSeed[i])}
		for _, a := range t.args {
			parts = append(parts, a.eval(i).String())
		}
		if t.grp != nil {
			parts = append(parts, t.grp.evalKey(i))
		}
		if t.op == OUB {
			return new(big.Int).And(hashBig(parts...), b1)
		}
		return intoRange(hashBig(parts...), t.lo, t.hi)
	}
	panic("eval: op")
}

// vars collects the leaf atoms (variables and uninterpreted terms) below ts.
func leaves(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar, OBVar, OUF, OUB:
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

func (t *Term) String() string {
	return t.str(4)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.k.BitLen() > 70 {
			return "#" + t.k.Text(16)[:8] + "…"
		}
		return t.k.String()
	case OBool:
		return fmt.Sprint(t.k.Sign() != 0)
	case OVar, OBVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	names := map[Op]string{OLin: "lin", OMul: "*", ODiv: "div", OMod: "mod", ODivT: "divT", OModT: "modT", OInv: "inv", OIte: "ite", OEq: "=", OLt: "<", ONot: "not", OAnd: "and", OOr: "or", OBand: "&", OBor: "|", OBxor: "^", OUF: "uf:" + t.name, OUB: "ub:" + t.name, OSign: "sgn"}
	s := "(" + names[t.op]
	for i, a := range t.args {
		if i > 8 {
			s += " …"
			break
		}
		s += " "
		if t.coef != nil && t.coef[i].Cmp(b1) != 0 {
			s += Kb(t.coef[i]).str(1) + "·"
		}
		s += a.str(d - 1)
	}
	if t.k != nil && (t.op != OLin || t.k.Sign() != 0) {
		s += " k=" + Kb(t.k).str(1)
	}
	if t.grp != nil {
		s += " " + t.grp.String()
	}
	return s + ")"
}

func UB(name string, args ...*Term) *Term {
	return mk(&Term{op: OUB, name: name, args: args, isBool: true})
}

// ---- modular evaluation ------------------------------------------------------

type emKey struct {
	t *Term
	m string
}

var emMemo [nSlots]map[emKey]*big.Int
var emGen [nSlots]int

// evalM evaluates t mod m under assignment i without building huge integers.
func (t *Term) evalM(i int, m *big.Int) *big.Int {
	if emMemo[i] == nil || emGen[i] != evalGen[i] {
		emMemo[i] = map[emKey]*big.Int{}
		emGen[i] = evalGen[i]
	}
	return t.evalM1(i, m, string(m.Bytes()))
}
func (t *Term) evalM1(i int, m *big.Int, mk string) *big.Int {
	if t.op == OConst {
		return new(big.Int).Mod(t.k, m)
	}
	if t.evGen[i] == evalGen[i] {
		return new(big.Int).Mod(t.ev[i], m)
	}
	key := emKey{t, mk}
	if v, ok := emMemo[i][key]; ok {
		return v
	}
	var r *big.Int
	over := false
	if o := evalOver[i]; o != nil {
		if v, ok := o[t]; ok {
			r = new(big.Int).Mod(v, m)
			over = true
		}
	}
	if !over {
		switch {
		case t.op == OLin:
			r = new(big.Int).Set(t.k)
			for j, a := range t.args {
				r.Add(r, new(big.Int).Mul(t.coef[j], a.evalM1(i, m, mk)))
			}
			r.Mod(r, m)
		case t.op == OMul:
			r = new(big.Int).Set(b1)
			for _, a := range t.args {
				r.Mul(r, a.evalM1(i, m, mk))
				r.Mod(r, m)
			}
		case t.op == OMod && new(big.Int).Mod(t.k, m).Sign() == 0:
			r = t.args[0].evalM1(i, m, mk)
		case t.op == OMod && (t.args[0].op == OMul || t.args[0].op == OLin):
			r = new(big.Int).Mod(t.args[0].evalM(i, t.k), m)
		case t.op == OInv:
			r = new(big.Int).ModInverse(t.args[0].evalM(i, t.k), t.k)
			if r == nil {
				r = b0
			}
			r = new(big.Int).Mod(r, m)
		case t.op == OIte:
			if t.args[0].eval(i).Sign() != 0 {
				r = t.args[1].evalM1(i, m, mk)
			} else {
				r = t.args[2].evalM1(i, m, mk)
			}
		default:
			r = new(big.Int).Mod(t.eval(i), m)
		}
	}
	emMemo[i][key] = r
	return r
}

// ---- substitution ----------------------------------------------------------------

// subst replaces terms; uninterpreted applications are kept as they are
// (their value is part of what stays fixed).
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 || t.op == OUF || t.op == OUB {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = subst(a, m, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OLin:
		l := newLin()
		l.k.Set(t.k)
		for i, a := range as {
			l.add(a, t.coef[i])
		}
		return l.term()
	case OMul:
		return Mul(as...)
	case ODiv:
		return Div(as[0], t.k)
	case OMod:
		return Mod(as[0], t.k)
	case ODivT:
		return DivT(as[0], as[1])
	case OModT:
		return ModT(as[0], as[1])
	case OInv:
		return Inv(as[0], t.k)
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OEq:
		return Eq(as[0], as[1])
	case OLt:
		return Lt(as[0], as[1])
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OBand, OBor, OBxor:
		return bitop(t.op, as[0], as[1])
	case OSign:
		return Sign(as[0])
	}
	panic("rebuild")
}
