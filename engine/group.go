package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Abstract group elements: formal integer combinations of independent
// generators, with coefficients taken modulo the group order.

func mustBig(s string) *big.Int {
	z, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return z
}

var (
	secpN = mustBig("0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	secpP = mustBig("0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	secpX = mustBig("0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	secpY = mustBig("0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
	bnP   = mustBig("21888242871839275222246405745257275088696311157297823662689037894645226208583")
	bnN   = mustBig("21888242871839275222246405745257275088548364400416034343698204186575808495617")
	f12N  = new(big.Int).Sub(new(big.Int).Exp(bnP, big.NewInt(12), nil), b1)
)

var kindOrder = map[string]*big.Int{
	"p256": secpN, "g1": bnN, "g2": bnN, "gt": bnN,
	"curve": bnN, "twist": bnN, "f12": f12N, "gt12": bnN, "f2": new(big.Int).Sub(new(big.Int).Mul(bnP, bnP), b1),
}

type Grp struct {
	id    int
	kind  string
	gens  []string
	coefs []*Term
}

var grpIntern = map[string]*Grp{}
var grps []*Grp

func mkGrp(kind string, m map[string]*Term) *Grp {
	var gens []string
	n := kindOrder[kind]
	nm := map[string]*Term{}
	for g, c := range m {
		c = ringNorm(c, n)
		if c.op == OConst && new(big.Int).Mod(c.k, n).Sign() == 0 {
			continue
		}
		if c.op == OConst {
			c = Kb(new(big.Int).Mod(c.k, n))
		}
		nm[g] = c
		gens = append(gens, g)
	}
	sort.Strings(gens)
	var sb strings.Builder
	sb.WriteString(kind)
	g := &Grp{kind: kind, gens: gens}
	for _, x := range gens {
		fmt.Fprintf(&sb, "|%s*%d", x, nm[x].id)
		g.coefs = append(g.coefs, nm[x])
	}
	if o, ok := grpIntern[sb.String()]; ok {
		return o
	}
	g.id = len(grps) + 1
	grps = append(grps, g)
	grpIntern[sb.String()] = g
	return g
}

func grpGen(kind, name string) *Grp { return mkGrp(kind, map[string]*Term{name: K(1)}) }
func grpZero(kind string) *Grp      { return mkGrp(kind, nil) }

func (g *Grp) m() map[string]*Term {
	r := map[string]*Term{}
	for i, x := range g.gens {
		r[x] = g.coefs[i]
	}
	return r
}
func (g *Grp) coef(gen string) *Term {
	for i, x := range g.gens {
		if x == gen {
			return g.coefs[i]
		}
	}
	return K(0)
}
func (g *Grp) isZero() bool { return len(g.gens) == 0 }

func (g *Grp) String() string {
	if g == nil {
		return "<nil>"
	}
	s := g.kind + "{"
	for i, x := range g.gens {
		if i > 3 {
			s += " …"
			break
		}
		s += " " + x + ":" + g.coefs[i].str(2)
	}
	return s + " }"
}

func grpAdd(a, b *Grp) *Grp {
	r := a.m()
	for i, x := range b.gens {
		if o, ok := r[x]; ok {
			r[x] = Add(o, b.coefs[i])
		} else {
			r[x] = b.coefs[i]
		}
	}
	return mkGrp(a.kind, r)
}
func grpMul(a *Grp, k *Term) *Grp {
	r := map[string]*Term{}
	for i, x := range a.gens {
		r[x] = Mul(a.coefs[i], k)
	}
	return mkGrp(a.kind, r)
}
func grpPair(a, b *Grp) *Grp {
	r := map[string]*Term{}
	for i, x := range a.gens {
		for j, y := range b.gens {
			k := "e(" + x + "," + y + ")"
			c := Mul(a.coefs[i], b.coefs[j])
			if o, ok := r[k]; ok {
				c = Add(o, c)
			}
			r[k] = c
		}
	}
	return mkGrp("gt", r)
}
func mergeGrp(c *Term, a, b *Grp) *Grp {
	if a == b {
		return a
	}
	if a.kind != b.kind {
		return nil
	}
	r := map[string]*Term{}
	for _, x := range append(append([]string{}, a.gens...), b.gens...) {
		r[x] = Ite(c, a.coef(x), b.coef(x))
	}
	return mkGrp(a.kind, r)
}

func mergeCoord(c, a, b *Term) (value, bool) {
	g := mergeGrp(c, a.grp, b.grp)
	if g == nil {
		return nil, false
	}
	t := &Term{op: OUF, name: a.name, args: a.args, lo: a.lo, hi: a.hi, grp: g}
	return mk(t), true
}

// evalKey is the value of the element under assignment i.
func (g *Grp) evalKey(i int) string {
	n := kindOrder[g.kind]
	s := g.kind
	for j, x := range g.gens {
		v := g.coefs[j].evalM(i, n)
		if v.Sign() != 0 {
			s += "|" + x + "*" + v.Text(62)
		}
	}
	return s
}

var ringMemo = map[string]map[*Term]*Term{}

// ringNorm returns a term congruent to t modulo n, without reductions mod n
// inside sums and products.
func ringNorm(t *Term, n *big.Int) *Term {
	key := string(n.Bytes())
	mm := ringMemo[key]
	if mm == nil {
		mm = map[*Term]*Term{}
		ringMemo[key] = mm
	}
	half := new(big.Int).Rsh(n, 1)
	red := func(c *big.Int) *big.Int {
		if c.CmpAbs(half) <= 0 {
			return c
		}
		r := new(big.Int).Mod(c, n)
		if r.Cmp(half) > 0 {
			r.Sub(r, n)
		}
		return r
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.isBool {
			return t
		}
		switch t.op {
		case OConst, OVar, OUF, ODiv, OInv:
			return t
		}
		if r, ok := mm[t]; ok {
			return r
		}
		r := t
		switch t.op {
		case OMod:
			if new(big.Int).Mod(t.k, n).Sign() == 0 {
				r = rec(t.args[0])
			}
		case OLin:
			l := newLin()
			l.k.Set(red(t.k))
			for i, a := range t.args {
				l.add(rec(a), t.coef[i])
			}
			for a, c := range l.m {
				rc := red(c)
				if rc.Sign() == 0 {
					delete(l.m, a)
				} else {
					l.m[a] = rc
				}
			}
			l.k = red(l.k)
			r = l.term()
		case OMul:
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = rec(a)
			}
			r = Mul(as...)
		case OIte:
			r = Ite(t.args[0], rec(t.args[1]), rec(t.args[2]))
		}
		mm[t] = r
		return r
	}
	return rec(t)
}

var mzMemo = map[string]*Term{}

// modZero is the condition t ≡ 0 (mod n), decided by the solver when the
// difference vanishes on the test assignments.
func modZero(t *Term, n *big.Int) *Term {
	t = ringNorm(t, n)
	if t.op == OConst {
		return Kbool(new(big.Int).Mod(t.k, n).Sign() == 0)
	}
	key := fmt.Sprintf("%d|%s", t.id, n.Text(62))
	if r, ok := mzMemo[key]; ok {
		return r
	}
	r := Eq(Mod(t, n), K(0))
	zero := true
	for i := 0; i < nAssign && zero; i++ {
		zero = t.evalM(i, n).Sign() == 0
	}
	if zero && r != True && n.ProbablyPrime(5) {
		if proveZero(t, n) {
			r = True
		}
	}
	mzMemo[key] = r
	return r
}

func grpEq(a, b *Grp) *Term {
	if a == b {
		return True
	}
	if a.kind != b.kind {
		return False
	}
	n := kindOrder[a.kind]
	r := True
	seen := map[string]bool{}
	for _, x := range append(append([]string{}, a.gens...), b.gens...) {
		if seen[x] {
			continue
		}
		seen[x] = true
		r = And(r, modZero(Sub(a.coef(x), b.coef(x)), n))
		if r == False {
			return r
		}
	}
	return r
}
func grpIsZero(a *Grp) *Term { return grpEq(a, grpZero(a.kind)) }

var canonReps = map[string][]*Grp{}
var canonMemo = map[*Grp]*Grp{}

// canon returns a representative: elements that are equal for all values of
// the variables get the same one.
func canon(g *Grp) *Grp {
	if r, ok := canonMemo[g]; ok {
		return r
	}
	key := ""
	for i := 0; i < nAssign; i++ {
		key += g.evalKey(i) + "#"
	}
	for _, r := range canonReps[key] {
		if grpEq(r, g) == True {
			canonMemo[g] = r
			return r
		}
	}
	canonReps[key] = append(canonReps[key], g)
	canonMemo[g] = g
	return g
}

// coord is an affine coordinate of an abstract point.
func coord(g *Grp, which string) *Term {
	g = canon(g)
	hi := new(big.Int).Sub(secpP, b1)
	return mk(&Term{op: OUF, name: "Pt" + which, grp: g, lo: b0, hi: hi})
}

// coordEq decides comparisons between coordinates of abstract points; nil when
// neither side is one.
func coordEq(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a.op != OUF || a.grp == nil || !strings.HasPrefix(a.name, "Pt") {
		return nil
	}
	if b.op == OConst {
		// no affine point has a zero coordinate (odd prime order, 7 is not a
		// square); (0,0) stands for infinity
		if b.k.Sign() == 0 {
			return grpIsZero(a.grp)
		}
		want := secpX
		if a.name == "PtY" {
			want = secpY
		}
		if b.k.Cmp(want) == 0 {
			g := grpGen("p256", "G")
			return coordEq(a, coord(g, a.name[2:]))
		}
		return nil
	}
	if b.op != OUF || b.grp == nil || b.name != a.name {
		return nil
	}
	same := grpEq(a.grp, b.grp)
	opp := grpEq(a.grp, grpMul(b.grp, K(-1)))
	if a.name == "PtX" {
		return Or(same, opp)
	}
	return Or(same, And(Not(opp), UB(fmt.Sprintf("sameY:%d:%d", a.grp.id, b.grp.id))))
}
