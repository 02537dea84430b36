package bn256

import (
	"math/big"

	"github.com/ing-bank/zkrp/verifrt"
)

// vjac is any finite point of the twist with t = z².
func vjac(n string) *twistPoint {
	p := &twistPoint{ve2(n + ".x"), ve2(n + ".y"), ve2(n + ".z"), ve2(n + ".t")}
	v := vany{t: p}.val()
	verifrt.Assume(of2(p.t).eq(vsq(v.Z)))
	verifrt.Assume(vnorm(v.Z).Sign() != 0)
	verifrt.Assume(vnorm(v.Y).Sign() != 0)
	return p
}

// vnorm is zero only for zero.
func vnorm(a f2) *big.Int { return vadd(vmul(a[0], a[0]), vmul(a[1], a[1])) }

// vaffine is any affine point of the first group (y is not zero).
func vaffine(n string) *curvePoint {
	p := &curvePoint{vI(n + ".x"), vI(n + ".y"), big.NewInt(1), big.NewInt(1)}
	verifrt.Assume(vmod(p.y).Sign() != 0)
	return p
}

// vassertLine: c + bω + aω³ is, up to a factor in GF(p²), the line with slope
// dy/dx through (x, y) evaluated at q: yq - (dy/dx)·xq·ω + ((dy/dx)·x - y)·ω³.
func vassertLine(a, b, c f2, q *curvePoint, x, y, dx, dy f2) {
	xq, yq := f2{vi0, vmod(q.x)}, f2{vi0, vmod(q.y)}
	verifrt.Assert(vnorm(c).Sign() != 0, "the line is not zero")
	verifrt.Assert(b.mul(yq).mul(dx).eq(f2zero.sub(c.mul(xq).mul(dy))), "the coefficient of ω")
	verifrt.Assert(a.mul(yq).mul(dx).eq(c.mul(dy.mul(x).sub(y.mul(dx)))), "the coefficient of ω³")
}

// VerifLineAdd: the chord through a point and an affine point.
func VerifLineAdd() {
	verifrt.Expect("end")
	for vPool = 0; vPool <= 2; vPool++ {
		r := vjac("r")
		p := &twistPoint{ve2("p.x"), ve2("p.y"), newGFp2(nil).SetOne(), newGFp2(nil).SetOne()}
		q := vaffine("q")
		pool := vpool()
		r2 := ve2("r2")
		v, w := vany{t: r}.val(), vany{t: p}.val()
		verifrt.Assume(of2(r2).eq(vsq(w.Y)))
		z2, z3 := vsq(v.Z), vcube(v.Z)
		// different x coordinates
		u2, s2 := w.X.mul(z2), w.Y.mul(z3)
		verifrt.Assume(vnorm(u2.sub(v.X)).Sign() != 0)
		cq, c2 := *q, of2(r2)
		cq.x, cq.y = new(big.Int).Set(q.x), new(big.Int).Set(q.y)
		a, b, c, out := lineFunctionAdd(r, p, q, r2, pool)
		vreuse(pool)
		verifrt.Assert(of2(out.t).eq(vsq(of2(out.z))), "t is z^2")
		verifrt.Assert(vnorm(of2(out.z)).Sign() != 0, "the sum of points with different x is finite")
		vassertSlope(vany{t: out}.val(), v.X, v.Y, u2, s2.sub(v.Y), u2.sub(v.X), v.Z, "the sum")
		// the slope (s2-y)/((u2-x)·z)
		vassertLine(of2(a), of2(b), of2(c), q, w.X, w.Y, u2.sub(v.X).mul(v.Z), s2.sub(v.Y))
		vkeptT(r, v)
		vkeptT(p, w)
		verifrt.Assert(veq(q.x, cq.x) && veq(q.y, cq.y), "the point of the first group keeps its value")
		verifrt.Assert(of2(r2).eq(c2), "y^2 keeps its value")
	}
	verifrt.Reach("end")
}

func vkeptT(a *twistPoint, v vpt) {
	w := vany{t: a}.val()
	verifrt.Assert(w.X.eq(v.X) && w.Y.eq(v.Y) && w.Z.eq(v.Z), "the point of the twist keeps its coordinates")
	verifrt.Assert(of2(a.t).eq(vsq(v.Z)), "the point of the twist keeps its t")
}

// VerifLineDouble: the tangent at a point.
func VerifLineDouble() {
	verifrt.Expect("end")
	for vPool = 0; vPool <= 2; vPool++ {
		r := vjac("r")
		q := vaffine("q")
		pool := vpool()
		v := vany{t: r}.val()
		cx, cy := new(big.Int).Set(q.x), new(big.Int).Set(q.y)
		a, b, c, out := lineFunctionDouble(r, q, pool)
		vreuse(pool)
		verifrt.Assert(of2(out.t).eq(vsq(of2(out.z))), "t is z^2")
		verifrt.Assert(vnorm(of2(out.z)).Sign() != 0, "the double of a point with y other than zero is finite")
		n, d := vsq(v.X).scale(3), v.Y.scale(2)
		vassertSlope(vany{t: out}.val(), v.X, v.Y, v.X, n, d, v.Z, "the double")
		// the slope 3x²/(2yz) through (x/z², y/z³); both sides times z³
		z2, z3 := vsq(v.Z), vcube(v.Z)
		xq, yq := f2{vi0, vmod(q.x)}, f2{vi0, vmod(q.y)}
		va, vb, vc := of2(a), of2(b), of2(c)
		verifrt.Assert(vnorm(vc).Sign() != 0, "the line is not zero")
		verifrt.Assert(vb.mul(yq).mul(d).mul(v.Z).eq(f2zero.sub(vc.mul(xq).mul(n))), "the coefficient of ω")
		verifrt.Assert(va.mul(yq).mul(d).mul(z3).eq(vc.mul(n.mul(v.X).sub(v.Y.mul(d)))), "the coefficient of ω³")
		_ = z2
		vkeptT(r, v)
		verifrt.Assert(veq(q.x, cx) && veq(q.y, cy), "the point of the first group keeps its value")
	}
	verifrt.Reach("end")
}

// VerifMulLine: multiplication by c + bω + aω³.
func VerifMulLine() {
	verifrt.Expect("end")
	for vPool = 0; vPool <= 2; vPool++ {
		pool := vpool()
		ret := ve12("r")
		a, b, c := ve2("a"), ve2("b"), ve2("c")
		v, va, vb, vc := of12(ret), of2(a), of2(b), of2(c)
		mulLine(ret, a, b, c, pool)
		vreuse(pool)
		// ω³ = τω
		line := f12{f6{f2zero, va, vb}, f6{f2zero, f2zero, vc}}
		verifrt.Assert(of12(ret).eq(v.mul(line)), "the product with the line")
		verifrt.Assert(of2(a).eq(va) && of2(b).eq(vb) && of2(c).eq(vc), "the coefficients keep their values")
	}
	verifrt.Reach("end")
}

// VerifLoopConstants: the digits of the Miller loop and the parameter.
func VerifLoopConstants() {
	verifrt.Expect("end")
	vu, _ := new(big.Int).SetString("4965661367192848881", 10)
	six := new(big.Int).Mul(vu, big.NewInt(6))
	six.Add(six, big.NewInt(2))
	s := new(big.Int)
	for i := len(sixuPlus2NAF) - 1; i >= 0; i-- {
		verifrt.Assert(sixuPlus2NAF[i] >= -1 && sixuPlus2NAF[i] <= 1, "digits are -1, 0 or 1")
		s.Add(s, s)
		s.Add(s, big.NewInt(int64(sixuPlus2NAF[i])))
	}
	verifrt.Assert(s.Cmp(six) == 0, "the digits are those of 6u+2")
	verifrt.Assert(sixuPlus2NAF[len(sixuPlus2NAF)-1] == 1, "the first digit is one")
	verifrt.Assert(u.Cmp(vu) == 0, "u")
	verifrt.Reach("end")
}

// Free points of the two groups (natively multiples of the generators).
func vfreeC(name string) *curvePoint {
	r := newCurvePoint(nil)
	r.Mul(curveGen, big.NewInt(int64(len(name))*77+int64(name[0])), nil)
	return r
}
func vfreeT(name string) *twistPoint {
	r := newTwistPoint(nil)
	r.Mul(twistGen, big.NewInt(int64(len(name))*77+int64(name[0])), nil)
	return r
}

// Multiples and equality: the specification.
func vscaleC(a *curvePoint, k *big.Int) *curvePoint {
	r := newCurvePoint(nil)
	r.SetInfinity()
	if k.Sign() != 0 {
		r.Mul(a, k, nil)
	}
	return r
}
func vscaleT(a *twistPoint, k *big.Int) *twistPoint {
	r := newTwistPoint(nil)
	r.SetInfinity()
	if k.Sign() != 0 {
		r.Mul(a, k, nil)
	}
	return r
}
func vequalC(a, b *curvePoint) bool { return vequal(vany{c: a}, vany{c: b}) }
func vequalT(a, b *twistPoint) bool { return vequal(vany{t: a}, vany{t: b}) }

// vpairing is the specification of the pairing.
func vpairing(a *curvePoint, b *twistPoint) *gfP12 {
	one := newGFp12(nil)
	one.SetOne()
	if a.IsInfinity() || b.IsInfinity() {
		return one
	}
	return finalExponentiation(miller(b, a, new(bnPool)), new(bnPool))
}

// VerifPair: the pairing, infinity included.
func VerifPair() {
	verifrt.Expect("finite,infinite")
	n1 := new(big.Int).Sub(Order, vi1)
	k, l := verifrt.Int("k", vi0, n1), verifrt.Int("l", vi0, n1)
	a, b := vscaleC(vfreeC("P"), k), vscaleT(vfreeT("Q"), l)
	e := Pair(&G1{a}, &G2{b})
	verifrt.Assert(vequal12(e.p, vpairing(vscaleC(vfreeC("P"), k), vscaleT(vfreeT("Q"), l))), "the pairing is the final power of the Miller value, and one for infinity")
	verifrt.Assert(vequalC(a, vscaleC(vfreeC("P"), k)), "the point of the first group keeps its value")
	verifrt.Assert(vequalT(b, vscaleT(vfreeT("Q"), l)), "the point of the second group keeps its value")
	if k.Sign() == 0 || l.Sign() == 0 {
		verifrt.Reach("infinite")
	} else {
		verifrt.Reach("finite")
	}
}

// VerifPairAgain: the pairing of the same objects with other values.
func VerifPairAgain() {
	verifrt.Expect("end")
	n1 := new(big.Int).Sub(Order, vi1)
	k, l := verifrt.Int("k", vi0, n1), verifrt.Int("l", vi0, n1)
	m, n := verifrt.Int("m", vi0, n1), verifrt.Int("n", vi0, n1)
	P, Q := vfreeC("P"), vfreeT("Q")
	a, b := &G1{vscaleC(P, k)}, &G2{vscaleT(Q, l)}
	e := Pair(a, b)
	a.p = vscaleC(P, m)
	f := Pair(a, b)
	b.p = vscaleT(Q, n)
	g := Pair(a, b)
	verifrt.Assert(vequal12(e.p, vpairing(vscaleC(P, k), vscaleT(Q, l))), "the first pairing")
	verifrt.Assert(vequal12(f.p, vpairing(vscaleC(P, m), vscaleT(Q, l))), "the pairing of another point of the first group")
	verifrt.Assert(vequal12(g.p, vpairing(vscaleC(P, m), vscaleT(Q, n))), "the pairing of another point of the second group")
	verifrt.Reach("end")
}

// VerifPairingCheck: a product of pairings.
func VerifPairingCheck() {
	verifrt.Expect("end")
	n1 := new(big.Int).Sub(Order, vi1)
	var as []*G1
	var bs []*G2
	want := newGFp12(nil)
	want.SetOne()
	names := []string{"0", "1", "2"}
	n := int(verifrt.Param("pairs"))
	for _, s := range names[:n] {
		k, l := verifrt.Int("k"+s, vi0, n1), verifrt.Int("l"+s, vi0, n1)
		// the points may be related
		as = append(as, &G1{vscaleC(vfreeC("P"), k)})
		bs = append(bs, &G2{vscaleT(vfreeT("Q"), l)})
		want = vtimes12(want, vpairing(vscaleC(vfreeC("P"), k), vscaleT(vfreeT("Q"), l)))
	}
	r := PairingCheck(as, bs)
	verifrt.Assert(r == vequal12(want, f12oneGF()), "the check accepts exactly when the product of the pairings is one")
	verifrt.Reach("end")
}

func f12oneGF() *gfP12 {
	one := newGFp12(nil)
	one.SetOne()
	return one
}

// Free points in any representation (natively Jacobian multiples of the
// generators).
func vfreeQ() *twistPoint       { return vfreeT("loop") }
func vfreeP() *curvePoint       { return vfreeC("loop") }
func vsameQ(q *twistPoint) bool { return vequalT(q, vfreeQ()) }
func vsameP(p *curvePoint) bool { return vequalC(p, vfreeP()) }
func (a f2) inv() f2 {
	n := new(big.Int).ModInverse(vnorm(a), vP)
	return f2{vmul(vsub(vi0, a[0]), n), vmul(a[1], n)}
}

// vate: f is, up to factors that vanish in the final exponentiation, the value
// of the optimal Ate pairing before it.
func vate(f *gfP12, q *twistPoint, p *curvePoint) bool {
	q = vscaleT(q, vi1)
	p = vscaleC(p, vi1)
	q.MakeAffine(nil)
	p.MakeAffine(nil)
	type aff struct{ x, y f2 }
	Q := aff{of2(q.x), of2(q.y)}
	T, r := Q, f12one
	step := func(B aff, dbl bool) {
		dx, dy := B.x.sub(T.x), B.y.sub(T.y)
		if dbl {
			dx, dy = T.y.scale(2), vsq(T.x).scale(3)
		}
		s := dy.mul(dx.inv())
		line := f12{f6{f2zero, s.mul(T.x).sub(T.y), f2zero.sub(s.mul(f2{vi0, vmod(p.x)}))}, f6{f2zero, f2zero, f2{vi0, vmod(p.y)}}}
		r = r.mul(line)
		x := vsq(s).sub(T.x).sub(B.x)
		T = aff{x, s.mul(T.x.sub(x)).sub(T.y)}
	}
	n, _ := new(big.Int).SetString("29793968203157093288", 10)
	for i := n.BitLen() - 2; i >= 0; i-- {
		r = r.mul(r)
		step(T, true)
		if n.Bit(i) != 0 {
			step(Q, false)
		}
	}
	step(aff{Q.x.conj().mul(vxi(1, 3)), Q.y.conj().mul(vxi(1, 2))}, false)
	step(aff{Q.x.mul(vxi(2, 3)), f2zero.sub(Q.y.mul(vxi(2, 2)))}, false)
	k := new(big.Int).Exp(vP, big.NewInt(12), nil)
	k.Sub(k, vi1)
	k.Div(k, Order)
	return of12(vpow12(vput12(r), k)).eq(of12(vpow12(f, k)))
}

// VerifMiller: the Miller loop.
func VerifMiller() {
	verifrt.Expect("end")
	for vPool = 0; vPool <= 1; vPool++ {
		q, p := vfreeQ(), vfreeP()
		f := miller(q, p, vpool())
		verifrt.Assert(vate(f, q, p), "the loop evaluates the function of the optimal Ate pairing")
		verifrt.Assert(vsameQ(q), "the point of the second group keeps its value")
		verifrt.Assert(vsameP(p), "the point of the first group keeps its value")
	}
	verifrt.Reach("end")
}
