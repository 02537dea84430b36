package bn256

import (
	"crypto/rand"
	"math/big"

	"github.com/ing-bank/zkrp/verifrt"
)

// vscale is k·a for k >= 0: the specification. The engine works with multiples
// of a free point.
func vscale(a vany, k *big.Int) vany {
	if k.Sign() < 0 {
		if a.c != nil {
			n := newCurvePoint(nil)
			n.Negative(a.c)
			return vscale(vany{c: n}, new(big.Int).Neg(k))
		}
		n := newTwistPoint(nil)
		n.Negative(a.t, nil)
		return vscale(vany{t: n}, new(big.Int).Neg(k))
	}
	if a.c != nil {
		r := newCurvePoint(nil)
		r.SetInfinity()
		for i := k.BitLen() - 1; i >= 0; i-- {
			t := newCurvePoint(nil)
			t.Double(r, nil)
			r.Set(t)
			if k.Bit(i) != 0 {
				t = newCurvePoint(nil)
				t.Add(r, a.c, nil)
				r.Set(t)
			}
		}
		return vany{c: r}
	}
	r := newTwistPoint(nil)
	r.SetInfinity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		t := newTwistPoint(nil)
		t.Double(r, nil)
		r.Set(t)
		if k.Bit(i) != 0 {
			t = newTwistPoint(nil)
			t.Add(r, a.t, nil)
			r.Set(t)
		}
	}
	return vany{t: r}
}

// vfree is a point without known relations (natively some multiple of the
// generator).
func vfree(name string) vany {
	k := int64(1)
	for _, c := range name {
		k = k*31 + int64(c)
	}
	if vcurve() {
		return vscale(vany{c: curveGen}, big.NewInt(k))
	}
	return vscale(vany{t: twistGen}, big.NewInt(k))
}

// vequal: the same point.
func vequal(a, b vany) bool {
	x, y := a.val(), b.val()
	ix, iy := x.Z.eq(f2zero), y.Z.eq(f2zero)
	if ix || iy {
		return ix && iy
	}
	return x.X.mul(vsq(y.Z)).eq(y.X.mul(vsq(x.Z))) && x.Y.mul(vcube(y.Z)).eq(y.Y.mul(vcube(x.Z)))
}

// vscalar is any number of the given length, positive or negative.
func vscalar() *big.Int {
	n := verifrt.Param("bits")
	k := new(big.Int)
	if n > 0 {
		k = verifrt.Bits("k", int(n), true)
	}
	if verifrt.Param("neg") == 1 {
		k.Neg(k)
	}
	return k
}

// VerifPtMul: the loop itself.
func VerifPtMul() {
	verifrt.Expect("end")
	k := verifrt.Bits("k", int(verifrt.Param("bits")), true)
	ck := new(big.Int).Set(k)
	for al := 0; al <= 1; al++ {
		a, b := vfree("a"), vfree("a")
		r := vfresh(al == 1)
		if al == 1 {
			r = a
		}
		if r.c != nil {
			verifrt.Assert(r.c.Mul(a.c, k, new(bnPool)) == r.c, "the receiver is returned")
		} else {
			verifrt.Assert(r.t.Mul(a.t, k, new(bnPool)) == r.t, "the receiver is returned")
		}
		verifrt.Assert(vequal(r, vscale(b, k)), "the result is the multiple of the point")
		if al == 0 {
			verifrt.Assert(vequal(a, b), "the point keeps its value")
		}
		verifrt.Assert(k.Cmp(ck) == 0, "the scalar keeps its value")
	}
	verifrt.Reach("end")
}

// VerifPtScalarMult: the exported methods; base 1: the base point; alias: 0 a
// zero value, 1 the argument, 2 another element, 3 a copy sharing the point is
// the receiver; inf: the point is infinity.
func VerifPtScalarMult() {
	verifrt.Expect("end")
	k := vscalar()
	ck := new(big.Int).Set(k)
	g := vany{c: curveGen}
	if !vcurve() {
		g = vany{t: twistGen}
	}
	cg := vscale(g, vi1)
	for al := 0; al <= 3; al++ {
		a, old := vfree("a"), vfree("old")
		if verifrt.Param("inf") == 1 {
			a = vscale(a, vi0)
		}
		b := vscale(a, vi1)
		base := verifrt.Param("base") == 1
		var r vany
		if vcurve() {
			x, e := &G1{a.c}, new(G1)
			switch al {
			case 1:
				e = x
			case 2:
				e = &G1{old.c}
			case 3:
				e = &G1{a.c}
			}
			var ret *G1
			if base {
				ret = e.ScalarBaseMult(k)
			} else {
				ret = e.ScalarMult(x, k)
			}
			verifrt.Assert(ret == e, "the receiver is returned")
			r = vany{c: e.p}
		} else {
			x, e := &G2{a.t}, new(G2)
			switch al {
			case 1:
				e = x
			case 2:
				e = &G2{old.t}
			case 3:
				e = &G2{a.t}
			}
			var ret *G2
			if base {
				ret = e.ScalarBaseMult(k)
			} else {
				ret = e.ScalarMult(x, k)
			}
			verifrt.Assert(ret == e, "the receiver is returned")
			r = vany{t: e.p}
		}
		if base {
			verifrt.Assert(vequal(r, vscale(g, k)), "the result is the multiple of the base point")
		} else {
			verifrt.Assert(vequal(r, vscale(b, k)), "the result is the multiple of the point")
		}
		if al == 0 || al == 2 {
			verifrt.Assert(vequal(a, b), "the point keeps its value")
		}
		verifrt.Assert(vequal(g, cg), "the generator keeps its value")
		verifrt.Assert(k.Cmp(ck) == 0, "the scalar keeps its value")
	}
	verifrt.Reach("end")
}

// The same for GF(p¹²): a free element, its powers, products and equality.
func vgen12(name string) *gfP12 {
	// an element of the target group: Pair(g1, g2)^hash(name)
	k := int64(1)
	for _, c := range name {
		k = k*31 + int64(c)
	}
	e := optimalAte(twistGen, curveGen, new(bnPool))
	return vpow12(e, big.NewInt(k))
}

func vpow12(a *gfP12, k *big.Int) *gfP12 {
	v := of12(a)
	r := f12one
	e := new(big.Int).Abs(k)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if e.Bit(i) != 0 {
			r = r.mul(v)
		}
	}
	if k.Sign() < 0 {
		// r^(p^12-2)
		n := new(big.Int).Exp(vP, big.NewInt(12), nil)
		return vpow12(vput12(r), n.Sub(n, big.NewInt(2)))
	}
	return vput12(r)
}

func vput12(r f12) *gfP12 {
	return &gfP12{&gfP6{of(r[0][0]), of(r[0][1]), of(r[0][2])}, &gfP6{of(r[1][0]), of(r[1][1]), of(r[1][2])}}
}

func vtimes12(a, b *gfP12) *gfP12     { return vput12(of12(a).mul(of12(b))) }
func vequal12(a, b *gfP12) bool       { return of12(a).eq(of12(b)) }
func vgen2(name string) *gfP2         { return &gfP2{big.NewInt(int64(len(name)) + 3), big.NewInt(5)} }
func vpow2(a *gfP2, k *big.Int) *gfP2 { return of(of2(a).pow(k)) }
func vequal2(a, b *gfP2) bool         { return of2(a).eq(of2(b)) }

// VerifExp12: exponentiation in GF(p¹²).
func VerifExp12() {
	verifrt.Expect("end")
	k := vscalar()
	ck := new(big.Int).Set(k)
	for al := 0; al <= 2; al++ {
		a, b := vgen12("a"), vgen12("a")
		r := newGFp12(nil)
		switch al {
		case 1:
			r = a
		case 2:
			r = vgen12("old")
		}
		verifrt.Assert(r.Exp(a, k, new(bnPool)) == r, "the receiver is returned")
		verifrt.Assert(vequal12(r, vpow12(b, k)), "the result is the power")
		if al != 1 {
			verifrt.Assert(vequal12(a, b), "the base keeps its value")
		}
		verifrt.Assert(k.Cmp(ck) == 0, "the exponent keeps its value")
	}
	verifrt.Reach("end")
}

// VerifExp2: exponentiation in GF(p²).
func VerifExp2() {
	verifrt.Expect("end")
	k := vscalar()
	for al := 0; al <= 2; al++ {
		a, b := vgen2("a"), vgen2("a")
		r := newGFp2(nil)
		switch al {
		case 1:
			r = a
		case 2:
			r = vgen2("old")
		}
		verifrt.Assert(r.Exp(a, k, new(bnPool)) == r, "the receiver is returned")
		verifrt.Assert(vequal2(r, vpow2(b, k)), "the result is the power")
		if al != 1 {
			verifrt.Assert(vequal2(a, b), "the base keeps its value")
		}
	}
	verifrt.Reach("end")
}

// VerifGTExp: the target group; op 0 ScalarMult, 1 Exp.
func VerifGTExp() {
	verifrt.Expect("end")
	k := vscalar()
	ck := new(big.Int).Set(k)
	for al := 0; al <= 3; al++ {
		a, b := &GT{vgen12("a")}, &GT{vgen12("a")}
		r := new(GT)
		switch al {
		case 1:
			r = a
		case 2:
			r = &GT{vgen12("old")}
		case 3:
			r = &GT{a.p}
		}
		var ret *GT
		if verifrt.Param("op") == 0 {
			ret = r.ScalarMult(a, k)
		} else {
			ret = r.Exp(a, k)
		}
		verifrt.Assert(ret == r, "the receiver is returned")
		verifrt.Assert(vequal12(r.p, vpow12(b.p, k)), "the result is the power")
		if al == 0 || al == 2 {
			verifrt.Assert(vequal12(a.p, b.p), "the base keeps its value")
		}
		verifrt.Assert(k.Cmp(ck) == 0, "the exponent keeps its value")
	}
	verifrt.Reach("end")
}

// VerifGTOps: product and inverse in the target group.
func VerifGTOps() {
	verifrt.Expect("end")
	for op := 0; op <= 2; op++ {
		for al := 0; al <= 4; al++ {
			a, b := &GT{vgen12("a")}, &GT{vgen12("b")}
			if al == 4 {
				b = a
			}
			ca, cb := vpow12(a.p, vi1), vpow12(b.p, vi1)
			r := new(GT)
			switch al {
			case 1:
				r = a
			case 2:
				r = b
			case 3:
				r = &GT{vgen12("old")}
			}
			var ret *GT
			want := vtimes12(ca, cb)
			switch op {
			case 0:
				ret = r.Add(a, b)
			case 1:
				ret = r.Neg(a)
			case 2:
				ret = r.Invert(a)
			}
			if op > 0 {
				want = vpow12(ca, big.NewInt(-1))
			}
			verifrt.Assert(ret == r, "the receiver is returned")
			verifrt.Assert(vequal12(r.p, want), "the result is the value of the operation")
			if r != a {
				verifrt.Assert(vequal12(a.p, ca), "the first argument keeps its value")
			}
			if r != b {
				verifrt.Assert(vequal12(b.p, cb), "the second argument keeps its value")
			}
		}
	}
	verifrt.Reach("end")
}

// VerifFinalExp: the final exponentiation raises to (p¹²-1)/Order.
func VerifFinalExp() {
	verifrt.Expect("end")
	a, b := vgen12("f"), vgen12("f")
	r := finalExponentiation(a, new(bnPool))
	n := new(big.Int).Exp(vP, big.NewInt(12), nil)
	n.Sub(n, vi1)
	n.Div(n, Order)
	verifrt.Assert(vequal12(r, vpow12(b, n)), "the final exponentiation raises to (p^12-1)/Order")
	verifrt.Assert(vequal12(a, b), "the argument keeps its value")
	verifrt.Reach("end")
}

// VerifRandom: random elements belong to the scalar returned with them.
func VerifRandom() {
	verifrt.Expect("end")
	var k *big.Int
	var r vany
	g := vany{c: curveGen}
	if vcurve() {
		x, e, err := RandomG1(rand.Reader)
		verifrt.Assert(err == nil, "no error")
		k, r = x, vany{c: e.p}
	} else {
		x, e, err := RandomG2(rand.Reader)
		verifrt.Assert(err == nil, "no error")
		k, r = x, vany{t: e.p}
		g = vany{t: twistGen}
	}
	verifrt.Assert(k.Sign() > 0 && k.Cmp(Order) < 0, "the scalar is in [1, order)")
	verifrt.Assert(k.Cmp(verifrt.Draw(verifrt.Draws()-1)) == 0, "the scalar is the number drawn")
	verifrt.Assert(vequal(r, vscale(g, k)), "the element is the multiple of the generator")
	verifrt.Reach("end")
}
