package bn256

import (
	"math/big"

	"github.com/ing-bank/zkrp/verifrt"
)

// A point with coordinates in GF(p²) (those of the first group are real).
type vpt struct{ X, Y, Z f2 }

// vany is a point of either group.
type vany struct {
	c *curvePoint
	t *twistPoint
}

func vcurve() bool { return verifrt.Param("twist") == 0 }

func (p vany) val() vpt {
	if p.c != nil {
		re := func(x *big.Int) f2 { return f2{vi0, new(big.Int).Set(x)} }
		return vpt{re(p.c.x), re(p.c.y), re(p.c.z)}
	}
	return vpt{of2(p.t.x), of2(p.t.y), of2(p.t.z)}
}

func (p vany) infinite() bool {
	if p.c != nil {
		return p.c.IsInfinity()
	}
	return p.t.IsInfinity()
}

// vcoef is the constant of the curve equation: 3 or 3/ξ.
func vcoef() f2 {
	if vcurve() {
		return f2{vi0, big.NewInt(3)}
	}
	// 1/ξ = (9-i)/82
	k := new(big.Int).ModInverse(big.NewInt(82), vP)
	return f2{vmul(big.NewInt(-3), k), vmul(big.NewInt(27), k)}
}

func vsq(a f2) f2   { return a.mul(a) }
func vcube(a f2) f2 { return a.mul(a).mul(a) }
func vnonzero(a f2) bool {
	if vcurve() {
		return !veq(a[1], vi0)
	}
	// the norm to GF(p): zero only for zero
	return !veq(vadd(vmul(a[0], a[0]), vmul(a[1], a[1])), vi0)
}

// vZ is a z coordinate: not reduced, but not negative.
func vZ(n string) *big.Int { return verifrt.Int(n, vi0, vBig) }

// vnew is a point with any coordinates; t is arbitrary.
func vnew(n string) vany {
	if vcurve() {
		return vany{c: &curvePoint{vI(n + ".x"), vI(n + ".y"), vZ(n + ".z"), vI(n + ".t")}}
	}
	return vany{t: &twistPoint{ve2(n + ".x"), ve2(n + ".y"), &gfP2{vZ(n + ".z.x"), vZ(n + ".z.y")}, ve2(n + ".t")}}
}

// vfinite is any finite point in any representation. The equation of the curve
// is not assumed: the formulas do not depend on its constant. The groups have
// odd order: y is not zero.
func vfinite(n string) vany {
	p := vnew(n)
	v := p.val()
	verifrt.Assume(vnonzero(v.Z))
	verifrt.Assume(vnonzero(v.Y))
	return p
}

// vinfinite is infinity: the other coordinates are arbitrary.
func vinfinite(n string) vany {
	p := vnew(n)
	if p.c != nil {
		p.c.z.SetInt64(0)
	} else {
		p.t.z.x.SetInt64(0)
		p.t.z.y.SetInt64(0)
	}
	return p
}

// vother is another representation of a (sign 1) or its inverse (sign -1).
func vother(a vany, sign int64) vany {
	p := vnew("b")
	l := ve2("l")
	if vcurve() {
		l.x.SetInt64(0)
	}
	s := of2(l)
	verifrt.Assume(vnonzero(s))
	va, vb := a.val(), p.val()
	verifrt.Assume(vb.X.eq(va.X.mul(vsq(s))))
	verifrt.Assume(vb.Y.eq(va.Y.mul(vcube(s)).scale(sign)))
	verifrt.Assume(vb.Z.eq(va.Z.mul(s)))
	return p
}

// vfresh is a receiver: new or used.
func vfresh(used bool) vany {
	if vcurve() {
		c := newCurvePoint(nil)
		if used {
			c.x.SetInt64(3)
			c.y.SetInt64(4)
			c.z.SetInt64(5)
			c.t.SetInt64(6)
		}
		return vany{c: c}
	}
	t := newTwistPoint(nil)
	if used {
		t.x.x.SetInt64(3)
		t.y.y.SetInt64(4)
		t.z.x.SetInt64(5)
		t.t.y.SetInt64(6)
	}
	return vany{t: t}
}

// vsamept: b is the same point as a.
func vassertSame(a, b vpt, msg string) {
	verifrt.Assert(a.X.mul(vsq(b.Z)).eq(b.X.mul(vsq(a.Z))), msg+" (x)")
	verifrt.Assert(a.Y.mul(vcube(b.Z)).eq(b.Y.mul(vcube(a.Z))), msg+" (y)")
}

func vassertFinite(p vany, msg string) {
	z := p.val().Z
	verifrt.Assert(z[0].Sign() >= 0 && z[1].Sign() >= 0, "z is not negative")
	verifrt.Assert(vnonzero(p.val().Z), msg+" is finite")
	verifrt.Assert(!p.infinite(), msg+" is recognised as finite")
}

// vassertChord asserts r = a + b for points with different x.
func vassertChord(r vany, a, b vpt) {
	vassertFinite(r, "the sum of points with different x")
	u1, u2 := a.X.mul(vsq(b.Z)), b.X.mul(vsq(a.Z))
	s1, s2 := a.Y.mul(vcube(b.Z)), b.Y.mul(vcube(a.Z))
	vassertSlope(r.val(), u1, s1, u2, s2.sub(s1), u2.sub(u1), a.Z.mul(b.Z), "the sum")
}

func vassertTangent(r vany, a vpt) {
	vassertFinite(r, "the double of a finite point")
	vassertSlope(r.val(), a.X, a.Y, a.X, vsq(a.X).scale(3), a.Y.scale(2), a.Z, "the double")
}

// vassertSlope: r is the third point, mirrored, of the line of slope n/(d·z)
// through (u1/z², s1/z³) and (u2/z², ...).
func vassertSlope(r vpt, u1, s1, u2, n, d, z f2, msg string) {
	x := vsq(n).sub(u1.add(u2).mul(vsq(d)))
	y := n.mul(u1.mul(vsq(d)).sub(x)).sub(s1.mul(vcube(d)))
	dz := d.mul(z)
	verifrt.Assert(r.X.mul(vsq(dz)).eq(x.mul(vsq(r.Z))), msg+" has the right x coordinate")
	verifrt.Assert(r.Y.mul(vcube(dz)).eq(y.mul(vcube(r.Z))), msg+" has the right y coordinate")
}

// vadd2 adds through the internal or the exported type.
func vaddPts(r, a, b vany, pool *bnPool) {
	exported := verifrt.Param("api") == 1
	switch {
	case r.c != nil && exported:
		g := &G1{r.c}
		verifrt.Assert(g.Add(&G1{a.c}, &G1{b.c}) == g && g.p == r.c, "the receiver is returned")
	case r.c != nil:
		r.c.Add(a.c, b.c, pool)
	case exported:
		g := &G2{r.t}
		verifrt.Assert(g.Add(&G2{a.t}, &G2{b.t}) == g && g.p == r.t, "the receiver is returned")
	default:
		r.t.Add(a.t, b.t, pool)
	}
}

// VerifPtAdd: addition; case 0 different x, 1 equal points, 2 inverse points,
// 3 to 5 infinity left, right and on both sides, 6 the same object twice.
func VerifPtAdd() {
	verifrt.Expect("end")
	cs := verifrt.Param("case")
	for al := 0; al <= 4; al++ {
		for vPool = 0; vPool <= 2; vPool++ {
			var a, b vany
			switch cs {
			case 0:
				a, b = vfinite("a"), vfinite("b")
				verifrt.Assume(vnonzero(a.val().X.mul(vsq(b.val().Z)).sub(b.val().X.mul(vsq(a.val().Z)))))
			case 1:
				a = vfinite("a")
				b = vother(a, 1)
			case 2:
				a = vfinite("a")
				b = vother(a, -1)
			case 3:
				a, b = vinfinite("a"), vfinite("b")
			case 4:
				a, b = vfinite("a"), vinfinite("b")
			case 5:
				a, b = vinfinite("a"), vinfinite("b")
			case 6:
				a = vfinite("a")
				b = a
			case 7:
				a = vinfinite("a")
				b = a
			}
			va, vb := a.val(), b.val()
			r := vfresh(al == 1)
			switch al {
			case 2:
				r = a
			case 3:
				r = b
			case 4:
				if verifrt.Param("api") == 1 {
					r = vexpAdd(a, b)
				}
			}
			pool := vpool()
			if al != 4 || verifrt.Param("api") != 1 {
				vaddPts(r, a, b, pool)
			}
			vreuse(pool)
			switch cs {
			case 0:
				vassertChord(r, va, vb)
			case 1, 6:
				vassertTangent(r, va)
			case 2, 5, 7:
				verifrt.Assert(r.infinite(), "the sum is infinite")
			case 3:
				vassertFinite(r, "the sum of infinity and a point")
				vassertSame(r.val(), vb, "the sum is the point")
			case 4:
				vassertFinite(r, "the sum of a point and infinity")
				vassertSame(r.val(), va, "the sum is the point")
			}
			if al != 2 && !(al == 3 && cs >= 6) {
				vkept(a, va)
			}
			if al != 3 && !(al == 2 && cs >= 6) {
				vkept(b, vb)
			}
		}
	}
	verifrt.Reach("end")
}

// vexpAdd adds with a zero value as receiver.
func vexpAdd(a, b vany) vany {
	if a.c != nil {
		g := new(G1)
		g.Add(&G1{a.c}, &G1{b.c})
		return vany{c: g.p}
	}
	g := new(G2)
	g.Add(&G2{a.t}, &G2{b.t})
	return vany{t: g.p}
}

// vkept: the coordinates of the argument are as before.
func vkept(a vany, v vpt) {
	w := a.val()
	verifrt.Assert(verifrt.All(w.X.eq(v.X), w.Y.eq(v.Y), w.Z.eq(v.Z)), "the argument keeps its value")
}

// VerifPtDouble: doubling.
func VerifPtDouble() {
	verifrt.Expect("end")
	for al := 0; al <= 2; al++ {
		for vPool = 0; vPool <= 2; vPool++ {
			a := vfinite("a")
			if verifrt.Param("inf") == 1 {
				a = vinfinite("a")
			}
			va := a.val()
			r := vfresh(al == 1)
			if al == 2 {
				r = a
			}
			pool := vpool()
			if r.c != nil {
				r.c.Double(a.c, pool)
			} else {
				r.t.Double(a.t, pool)
			}
			vreuse(pool)
			if verifrt.Param("inf") == 1 {
				verifrt.Assert(r.infinite(), "twice infinity is infinity")
			} else {
				vassertTangent(r, va)
			}
			if al != 2 {
				vkept(a, va)
			}
		}
	}
	verifrt.Reach("end")
}

// VerifPtNegative: the inverse.
func VerifPtNegative() {
	verifrt.Expect("end")
	for al := 0; al <= 3; al++ {
		a := vfinite("a")
		if verifrt.Param("inf") == 1 {
			a = vinfinite("a")
		}
		va := a.val()
		r := vfresh(al == 1)
		if al == 2 {
			r = a
		}
		switch {
		case verifrt.Param("api") == 1 && al == 3 && r.c != nil:
			g := new(G1)
			g.Neg(&G1{a.c})
			r = vany{c: g.p}
		case verifrt.Param("api") == 1 && al == 3:
			g := new(G2)
			g.Neg(&G2{a.t})
			r = vany{t: g.p}
		case verifrt.Param("api") == 1 && r.c != nil:
			g := &G1{r.c}
			verifrt.Assert(g.Neg(&G1{a.c}) == g && g.p == r.c, "the receiver is returned")
		case verifrt.Param("api") == 1:
			g := &G2{r.t}
			verifrt.Assert(g.Neg(&G2{a.t}) == g && g.p == r.t, "the receiver is returned")
		case r.c != nil:
			r.c.Negative(a.c)
		default:
			r.t.Negative(a.t, new(bnPool))
		}
		if verifrt.Param("inf") == 1 {
			verifrt.Assert(r.infinite(), "minus infinity is infinity")
		} else {
			vassertFinite(r, "the inverse of a finite point")
			vassertSame(r.val(), vpt{va.X, f2zero.sub(va.Y), va.Z}, "the inverse has the other y")
		}
		if al != 2 {
			vkept(a, va)
		}
	}
	verifrt.Reach("end")
}

// VerifPtAffine: conversion to affine form; then again after more operations.
func VerifPtAffine() {
	verifrt.Expect("end")
	for vPool = 0; vPool <= 2; vPool++ {
		a := vfinite("a")
		switch verifrt.Param("case") {
		case 1:
			a = vinfinite("a")
		case 2: // affine already, with any t
			v := a.val()
			verifrt.Assume(v.Z.eq(f2one))
			if a.c != nil {
				a.c.z.SetInt64(1)
			} else {
				a.t.z.SetOne()
			}
		}
		va := a.val()
		pool := vpool()
		var same bool
		if a.c != nil {
			same = a.c.MakeAffine(pool) == a.c
		} else {
			same = a.t.MakeAffine(pool) == a.t
		}
		vreuse(pool)
		verifrt.Assert(same, "the receiver is returned")
		if verifrt.Param("case") == 1 {
			verifrt.Assert(a.infinite(), "infinity stays infinity")
		} else {
			v := a.val()
			verifrt.Assert(v.Z[0].Sign() == 0 && v.Z[1].Cmp(vi1) == 0, "z is one")
			if a.c != nil {
				verifrt.Assert(a.c.z.Cmp(vi1) == 0, "z is 1")
			} else {
				verifrt.Assert(a.t.z.IsOne(), "z is 1")
				verifrt.Assert(a.t.t.IsOne(), "t is z²")
			}
			vassertSame(v, va, "the affine form is the same point")
		}
	}
	verifrt.Reach("end")
}

// VerifPtOnCurve: the membership test of affine points is exact.
func VerifPtOnCurve() {
	verifrt.Expect("yes,no")
	p := vnew("a")
	v := p.val()
	on := vsq(v.Y).eq(vcube(v.X).add(vcoef()))
	var is bool
	if p.c != nil {
		p.c.z.SetInt64(1)
		is = p.c.IsOnCurve()
	} else {
		p.t.z.SetOne()
		is = p.t.IsOnCurve()
	}
	verifrt.Assert(is == on, "the membership test accepts exactly the points of the curve")
	w := p.val()
	verifrt.Assert(verifrt.All(w.X.eq(v.X), w.Y.eq(v.Y)), "the test keeps the coordinates")
	if is {
		verifrt.Reach("yes")
	} else {
		verifrt.Reach("no")
	}
}

// VerifPtSet: copies, infinity.
func VerifPtSet() {
	verifrt.Expect("end")
	a := vnew("a")
	va := a.val()
	r := vfresh(true)
	if r.c != nil {
		r.c.Set(a.c)
		a.c.x.SetInt64(1)
		a.c.y.SetInt64(1)
		a.c.z.SetInt64(1)
	} else {
		r.t.Set(a.t)
		a.t.x.SetOne()
		a.t.y.SetOne()
		a.t.z.SetOne()
	}
	vkept(r, va)
	if r.c != nil {
		g := &G1{r.c}
		x, y, z, t := g.CurvePoints()
		verifrt.Assert(x == r.c.x && y == r.c.y && z == r.c.z && t == r.c.t, "the coordinates of a point are given out")
		g.SetZero()
		verifrt.Assert(g.IsZero() && new(G1).SetInfinity().IsZero(), "infinity is recognised")
	} else {
		x, y, z, t := (&G2{r.t}).CurvePoints()
		verifrt.Assert(x == r.t.x && y == r.t.y && z == r.t.z && t == r.t.t, "the coordinates of a point are given out")
		r.t.SetInfinity()
		verifrt.Assert((&G2{r.t}).IsZero() && new(G2).SetInfinity().IsZero(), "infinity is recognised")
	}
	verifrt.Reach("end")
}

// VerifPtGenerators: the generators are finite points of their curves, of the
// order stated.
func VerifPtGenerators() {
	verifrt.Expect("end")
	g := vany{c: curveGen}
	if !vcurve() {
		g = vany{t: twistGen}
	}
	v := g.val()
	verifrt.Assert(v.Z.eq(f2one), "the generator is affine")
	verifrt.Assert(vsq(v.Y).eq(vcube(v.X).add(vcoef())), "the generator is on the curve")
	if g.t != nil {
		verifrt.Assert(g.t.t.IsOne(), "t is z²")
		verifrt.Assert(of2(twistB).eq(vcoef()), "the constant of the twist is 3/ξ")
		r := newTwistPoint(nil)
		r.Mul(g.t, Order, new(bnPool))
		verifrt.Assert(r.IsInfinity(), "the generator has the order of the group")
	} else {
		verifrt.Assert(curveB.Cmp(big.NewInt(3)) == 0, "the constant of the curve is 3")
		r := newCurvePoint(nil)
		r.Mul(g.c, Order, new(bnPool))
		verifrt.Assert(r.IsInfinity(), "the generator has the order of the group")
	}
	verifrt.Reach("end")
}
