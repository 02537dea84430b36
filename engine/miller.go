package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// The Miller loop over abstract points. A point of the twist is k·Q for the
// free point Q; its coordinates are marked with what they are. A line function
// is known by the two points it passes through, and the accumulated value by
// its divisor: the line through A and B contributes (A)+(B)-(A+B), where
// (-A) = -(A) because vertical lines lie in a subfield and vanish in the final
// exponentiation. Points for which the conditions of a line function do not
// hold give an unknown value.

// absv is an abstract content of a *gfP2.
type absv struct {
	kind string // X, Y, J (a z coordinate), T (its square), one, zero, YY (y²), cX, cY (conjugates), a, b, c (a line)
	g    *Grp
	id   int
}

func xiPow(e, d int64) [2]*big.Int { // (i, 1) coefficients of ξ^((p^e-1)/d)
	mul := func(x, y [2]*big.Int) [2]*big.Int {
		m := func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
		re := new(big.Int).Sub(m(x[1], y[1]), m(x[0], y[0]))
		im := new(big.Int).Add(m(x[0], y[1]), m(x[1], y[0]))
		return [2]*big.Int{im.Mod(im, bnP), re.Mod(re, bnP)}
	}
	k := new(big.Int).Exp(bnP, big.NewInt(e), nil)
	k.Sub(k, b1)
	k.Div(k, big.NewInt(d))
	r := [2]*big.Int{new(big.Int), big.NewInt(1)}
	b := [2]*big.Int{big.NewInt(1), big.NewInt(9)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = mul(r, r)
		if k.Bit(i) != 0 {
			r = mul(r, b)
		}
	}
	return r
}

func init() {
	m := map[string]intrinsicFn{}
	modeIntr["millerloop"] = m
	f2 := "(*" + pkgBn + ".gfP2)."
	tw := "(*" + pkgBn + ".twistPoint)."
	cu := "(*" + pkgBn + ".curvePoint)."
	unknown := 0
	lines := map[int]string{}
	deref := func(it *Interp, v value) *value {
		p := v.(*value)
		if p == nil {
			panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
		}
		return p
	}
	// the content of an element; concrete ones and unknown ones get kind ""
	get := func(it *Interp, v value) absv {
		p := deref(it, v)
		if a, ok := (*p).(absv); ok {
			return a
		}
		if s, ok := (*p).(structure); ok {
			x, y := s[0].(*value), s[1].(*value)
			if x != nil && y != nil {
				tx, ty := it.big(x), it.big(y)
				if tx == K(0) && ty == K(0) {
					return absv{kind: "zero"}
				}
				if tx == K(0) && ty == K(1) {
					return absv{kind: "one"}
				}
			}
		}
		return absv{}
	}
	put := func(it *Interp, v value, a absv) value {
		p := deref(it, v)
		it.store(p, a)
		return p
	}
	konst := func(it *Interp, v value) ([2]*big.Int, bool) {
		if s, ok := (*deref(it, v)).(structure); ok {
			x, y := it.big(s[0]), it.big(s[1])
			if x.op == OConst && y.op == OConst {
				return [2]*big.Int{new(big.Int).Mod(x.k, bnP), new(big.Int).Mod(y.k, bnP)}, true
			}
		}
		return [2]*big.Int{}, false
	}
	same := func(a, b [2]*big.Int) bool { return a[0].Cmp(b[0]) == 0 && a[1].Cmp(b[1]) == 0 }
	p1 := Kb(bnP)
	p2 := Kb(new(big.Int).Mul(bnP, bnP))
	np2 := Kb(new(big.Int).Neg(new(big.Int).Mul(bnP, bnP)))
	eq := func(a, b *Grp) bool { return a != nil && b != nil && grpEq(a, b) == True }
	pm := func(a, b *Grp) bool { return eq(a, b) || a != nil && eq(grpMul(a, K(-1)), b) }
	unk := func() *Grp {
		unknown++
		return grpGen("twist", fmt.Sprintf("unknown%d", unknown))
	}
	// the point with x coordinate of a and y coordinate of b
	join := func(a, b absv) *Grp {
		if a.kind != "X" || b.kind != "Y" {
			return nil
		}
		if pm(a.g, b.g) {
			return b.g
		}
		if n := grpMul(b.g, np2); pm(a.g, n) {
			return n
		}
		return nil
	}
	coord := func(it *Interp, v value, i int) value { return (*deref(it, v)).(structure)[i] }
	// the point, whether it is affine and whether t is z²
	point := func(it *Interp, v value) (g *Grp, affine, t bool) {
		z, tt := get(it, coord(it, v, 2)), get(it, coord(it, v, 3))
		g = join(get(it, coord(it, v, 0)), get(it, coord(it, v, 1)))
		affine = z.kind == "one"
		t = affine && tt.kind == "one" || z.kind == "J" && tt.kind == "T" && z.id == tt.id
		if z.kind != "one" && z.kind != "J" {
			g = nil
		}
		return
	}
	serial := 0
	setPoint := func(it *Interp, v value, g *Grp, jac bool) {
		put(it, coord(it, v, 0), absv{kind: "X", g: g})
		put(it, coord(it, v, 1), absv{kind: "Y", g: g})
		z, t := absv{kind: "one"}, absv{kind: "one"}
		if jac {
			serial++
			z, t = absv{kind: "J", id: serial}, absv{kind: "T", id: serial}
		}
		put(it, coord(it, v, 2), z)
		put(it, coord(it, v, 3), t)
	}
	newPoint := func(it *Interp, g *Grp, jac bool) value {
		s := structure{nil, nil, nil, nil}
		for i := range s {
			s[i] = it.newCell(absv{})
		}
		p := it.newCell(s)
		setPoint(it, p, g, jac)
		return p
	}
	m[f2+"Set"] = func(it *Interp, fn *ssa.Function, a []value) value { return put(it, a[0], get(it, a[1])) }
	m[f2+"SetOne"] = func(it *Interp, fn *ssa.Function, a []value) value { return put(it, a[0], absv{kind: "one"}) }
	m[f2+"SetZero"] = func(it *Interp, fn *ssa.Function, a []value) value { return put(it, a[0], absv{kind: "zero"}) }
	m[f2+"Put"] = func(it *Interp, fn *ssa.Function, a []value) value {
		put(it, a[0], absv{}) // whoever gets it from the pool overwrites it
		return tuple{}
	}
	m[f2+"IsOne"] = func(it *Interp, fn *ssa.Function, a []value) value { return Kbool(get(it, a[0]).kind == "one") }
	m[f2+"IsZero"] = func(it *Interp, fn *ssa.Function, a []value) value { return Kbool(get(it, a[0]).kind == "zero") }
	square := func(it *Interp, x absv) absv {
		switch x.kind {
		case "Y":
			return absv{kind: "YY", g: x.g}
		case "J":
			return absv{kind: "T", id: x.id}
		case "one", "zero":
			return x
		}
		return absv{}
	}
	m[f2+"Square"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return put(it, a[0], square(it, get(it, a[1])))
	}
	m[f2+"Conjugate"] = func(it *Interp, fn *ssa.Function, a []value) value {
		x := get(it, a[1])
		switch x.kind {
		case "X", "Y":
			x.kind = "c" + x.kind
		case "one", "zero":
		default:
			x = absv{}
		}
		return put(it, a[0], x)
	}
	m[f2+"Mul"] = func(it *Interp, fn *ssa.Function, a []value) value {
		r := absv{}
		for i := 1; i <= 2; i++ {
			x := get(it, a[i])
			if x.kind == "one" {
				r = get(it, a[3-i])
			}
			k, ok := konst(it, a[3-i])
			if ok && x.kind == "cX" && same(k, xiPow(1, 3)) {
				r = absv{kind: "X", g: grpMul(x.g, p1)}
			}
			if ok && x.kind == "cY" && same(k, xiPow(1, 2)) {
				r = absv{kind: "Y", g: grpMul(x.g, p1)}
			}
			if ok && x.kind == "X" && same(k, xiPow(2, 3)) {
				r = absv{kind: "X", g: grpMul(x.g, p2)}
			}
		}
		if x := get(it, a[1]); x.kind == "Y" && get(it, a[2]) == x {
			r = square(it, x)
		}
		return put(it, a[0], r)
	}
	m[f2+"MulScalar"] = func(it *Interp, fn *ssa.Function, a []value) value {
		x := get(it, a[1])
		k := it.big(a[2])
		r := absv{}
		if w := xiPow(2, 3); x.kind == "X" && w[0].Sign() == 0 && k.op == OConst && new(big.Int).Mod(k.k, bnP).Cmp(w[1]) == 0 {
			r = absv{kind: "X", g: grpMul(x.g, p2)}
		}
		return put(it, a[0], r)
	}
	m[f2+"Negative"] = func(it *Interp, fn *ssa.Function, a []value) value {
		x := get(it, a[1])
		switch x.kind {
		case "Y":
			x.g = grpMul(x.g, K(-1))
		case "zero":
		default:
			x = absv{}
		}
		return put(it, a[0], x)
	}
	m[tw+"Set"] = func(it *Interp, fn *ssa.Function, a []value) value {
		for i := 0; i < 4; i++ {
			put(it, coord(it, a[0], i), get(it, coord(it, a[1], i)))
		}
		return tuple{}
	}
	m[tw+"Put"] = func(it *Interp, fn *ssa.Function, a []value) value {
		for i := 0; i < 4; i++ {
			put(it, coord(it, a[0], i), absv{})
		}
		return tuple{}
	}
	m[tw+"MakeAffine"] = func(it *Interp, fn *ssa.Function, a []value) value {
		it.assumed["twistPoint MakeAffine, Negative and IsInfinity (checked by C21)"] = true
		if g, _, _ := point(it, a[0]); g != nil {
			setPoint(it, a[0], g, false)
		} else {
			for i := 0; i < 4; i++ {
				put(it, coord(it, a[0], i), absv{})
			}
		}
		return a[0]
	}
	m[tw+"Negative"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g, affine, _ := point(it, a[1])
		z := get(it, coord(it, a[1], 2))
		if g == nil {
			for i := 0; i < 4; i++ {
				put(it, coord(it, a[0], i), absv{})
			}
			return tuple{}
		}
		setPoint(it, a[0], grpMul(g, K(-1)), !affine)
		put(it, coord(it, a[0], 2), z)
		put(it, coord(it, a[0], 3), absv{}) // not maintained
		return tuple{}
	}
	m[tw+"IsInfinity"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g, _, _ := point(it, a[0])
		if g == nil {
			fail("IsInfinity of an unknown point")
		}
		return grpIsZero(g)
	}
	m[pkgBn+".newTwistPoint"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s := structure{nil, nil, nil, nil}
		for i := range s {
			s[i] = it.newCell(absv{})
		}
		return it.newCell(s)
	}
	m[pkgBn+".newGFp2"] = func(it *Interp, fn *ssa.Function, a []value) value { return it.newCell(absv{}) }

	// points of the first group: kept in the cell of x, z tells whether affine
	cget := func(it *Interp, v value) (*Grp, bool) {
		s := (*deref(it, v)).(structure)
		q, ok := s[0].(*value)
		if !ok || q == nil {
			return nil, false
		}
		x, ok := (*q).(absv)
		if !ok || x.kind != "P" {
			return nil, false
		}
		return x.g, x.id == 0
	}
	cset := func(it *Interp, v value, g *Grp, jac bool) {
		s := (*deref(it, v)).(structure)
		x := absv{kind: "P", g: g}
		if jac {
			x.id = 1
		}
		if g == nil {
			x = absv{}
		}
		it.store(&s[0], it.newCell(x))
	}
	m[cu+"Set"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g, aff := cget(it, a[1])
		cset(it, a[0], g, !aff)
		return tuple{}
	}
	m[cu+"MakeAffine"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g, _ := cget(it, a[0])
		cset(it, a[0], g, false)
		return a[0]
	}
	m[cu+"IsInfinity"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g, _ := cget(it, a[0])
		if g == nil {
			fail("IsInfinity of an unknown point")
		}
		return grpIsZero(g)
	}
	m[cu+"Put"] = func(it *Interp, fn *ssa.Function, a []value) value {
		cset(it, a[0], nil, false)
		return tuple{}
	}

	// divisor of the line through a·Q and b·Q evaluated at P
	div := func(k *big.Int, s int64, acc map[string]*Term) {
		k = new(big.Int).Mod(k, bnN)
		if k.Sign() == 0 {
			return
		}
		if new(big.Int).Lsh(k, 1).Cmp(bnN) > 0 {
			k.Sub(bnN, k)
			s = -s
		}
		n := "D" + k.String()
		if o, ok := acc[n]; ok {
			acc[n] = Add(o, K(s))
		} else {
			acc[n] = K(s)
		}
	}
	dlog := func(g *Grp) *big.Int {
		if g == nil || len(g.gens) != 1 || g.gens[0] != "Q" || g.coefs[0].op != OConst {
			return nil
		}
		return g.coefs[0].k
	}
	lineOf := func(a, b *Grp) *Grp {
		x, y := dlog(a), dlog(b)
		if x == nil || y == nil {
			return nil
		}
		acc := map[string]*Term{}
		div(x, 1, acc)
		div(y, 1, acc)
		div(new(big.Int).Add(x, y), -1, acc)
		return mkGrp("f12", acc)
	}
	lineVals := map[int]*Grp{}
	ret := func(it *Interp, l, sum *Grp) value {
		it.assumed["the line functions (checked by LineAdd, LineDouble, MulLine)"] = true
		serial++
		id := serial
		if l == nil {
			unknown++
			l = grpGen("f12", fmt.Sprintf("unknown%d", unknown))
		}
		if sum == nil {
			sum = unk()
		}
		lineVals[id] = l
		var r tuple
		for _, k := range []string{"a", "b", "c"} {
			r = append(r, it.newCell(absv{kind: k, id: id}))
		}
		return append(r, newPoint(it, sum, true))
	}
	okP := func(it *Interp, v value) bool {
		g, aff := cget(it, v)
		return g != nil && aff && len(g.gens) == 1 && g.gens[0] == "P" && g.coefs[0] == K(1)
	}
	m[pkgBn+".lineFunctionDouble"] = func(it *Interp, fn *ssa.Function, a []value) value {
		r, _, t := point(it, a[0])
		if r == nil || !t || !okP(it, a[1]) || r.isZero() {
			return ret(it, nil, nil)
		}
		return ret(it, lineOf(r, r), grpMul(r, K(2)))
	}
	m[pkgBn+".lineFunctionAdd"] = func(it *Interp, fn *ssa.Function, a []value) value {
		r, _, t := point(it, a[0])
		p, aff, _ := point(it, a[1])
		yy := get(it, a[3])
		if r == nil || p == nil || !t || !aff || !okP(it, a[2]) || r.isZero() || p.isZero() || pm(r, p) || yy.kind != "YY" {
			return ret(it, nil, nil)
		}
		// y² is the same for a point, its inverse and their images under the
		// square of the Frobenius
		if !pm(yy.g, p) && !pm(grpMul(yy.g, p2), p) && !pm(yy.g, grpMul(p, p2)) {
			return ret(it, nil, nil)
		}
		return ret(it, lineOf(r, p), grpAdd(r, p))
	}
	f12get := func(it *Interp, v value) *Grp {
		s := (*deref(it, v)).(structure)
		x, ok1 := (*s[0].(*value)).(halfv)
		y, ok2 := (*s[1].(*value)).(halfv)
		if !ok1 || !ok2 || x.g != y.g || x.half != 0 || y.half != 1 || x.neg || y.neg {
			fail("unknown gfP12 element")
		}
		return x.g
	}
	m[pkgBn+".mulLine"] = func(it *Interp, fn *ssa.Function, a []value) value {
		x, y, z := get(it, a[1]), get(it, a[2]), get(it, a[3])
		var l *Grp
		if x.kind == "a" && y.kind == "b" && z.kind == "c" && x.id == y.id && y.id == z.id {
			l = lineVals[x.id]
		}
		if l == nil {
			unknown++
			l = grpGen("f12", fmt.Sprintf("unknown%d", unknown))
		}
		g := grpAdd(f12get(it, a[0]), l)
		s := (*deref(it, a[0])).(structure)
		for i := range s {
			it.store(s[i].(*value), halfv{g, i, false})
		}
		return tuple{}
	}
	_ = lines
	m[pkgBn+".vfreeQ"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return newPoint(it, grpGen("twist", "Q"), true)
	}
	m[pkgBn+".vfreeP"] = func(it *Interp, fn *ssa.Function, a []value) value {
		p := it.newCell(structure{(*value)(nil), (*value)(nil), (*value)(nil), (*value)(nil)})
		cset(it, p, grpGen("curve", "P"), true)
		return p
	}
	// the divisor of the optimal Ate pairing
	m[pkgBn+".vate"] = func(it *Interp, fn *ssa.Function, a []value) value {
		six := mustBig("29793968203157093288") // 6u+2
		acc := map[string]*Term{}
		pp := new(big.Int).Mul(bnP, bnP)
		k := new(big.Int).Add(six, bnP)
		k.Sub(k, pp)
		div(b1, 1, acc)
		want := grpMul(mkGrp("f12", acc), Kb(six))
		acc = map[string]*Term{}
		div(bnP, 1, acc)
		div(pp, -1, acc)
		div(k, -1, acc)
		want = grpAdd(want, mkGrp("f12", acc))
		return grpEq(f12get(it, a[0]), want)
	}
	m[pkgBn+".vsameQ"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g, _, _ := point(it, a[0])
		return Kbool(g != nil && eq(g, grpGen("twist", "Q")))
	}
	m[pkgBn+".vsameP"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g, _ := cget(it, a[0])
		return Kbool(g != nil && eq(g, grpGen("curve", "P")))
	}
}
