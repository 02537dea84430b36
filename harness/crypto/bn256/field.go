package bn256

import (
	"math/big"

	"github.com/ing-bank/zkrp/verifrt"
)

// The field of the curves, written down again.
var vP, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
var vBig = new(big.Int).Lsh(big.NewInt(1), 260)

func vmod(x *big.Int) *big.Int    { return new(big.Int).Mod(x, vP) }
func vmul(a, b *big.Int) *big.Int { return vmod(new(big.Int).Mul(a, b)) }
func vadd(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return vmod(r)
}
func vsub(a, b *big.Int) *big.Int { return vmod(new(big.Int).Sub(a, b)) }
func veq(a, b *big.Int) bool      { return vsub(a, b).Sign() == 0 }

// Schoolbook arithmetic. f2 is {imaginary, real}; f6 is {τ², τ, 1}; f12 is {ω, 1}.
type f2 [2]*big.Int
type f6 [3]f2
type f12 [2]f6

var vi0 = big.NewInt(0)
var vi1 = big.NewInt(1)
var f2zero, f2one = f2{vi0, vi0}, f2{vi0, vi1}
var f6zero, f6one = f6{f2zero, f2zero, f2zero}, f6{f2zero, f2zero, f2one}
var f12one = f12{f6zero, f6one}

func (a f2) add(b f2) f2      { return f2{vadd(a[0], b[0]), vadd(a[1], b[1])} }
func (a f2) sub(b f2) f2      { return f2{vsub(a[0], b[0]), vsub(a[1], b[1])} }
func (a f2) scale(k int64) f2 { return f2{vmul(a[0], big.NewInt(k)), vmul(a[1], big.NewInt(k))} }
func (a f2) mul(b f2) f2 {
	return f2{vadd(vmul(a[0], b[1]), vmul(a[1], b[0])), vsub(vmul(a[1], b[1]), vmul(a[0], b[0]))}
}
func (a f2) conj() f2     { return f2{vsub(vi0, a[0]), vmod(a[1])} }
func (a f2) xi() f2       { return a.mul(f2{big.NewInt(1), big.NewInt(9)}) }
func (a f2) eq(b f2) bool { return verifrt.All(veq(a[0], b[0]), veq(a[1], b[1])) }
func (a f2) pow(k *big.Int) f2 {
	r := f2one
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if k.Bit(i) != 0 {
			r = r.mul(a)
		}
	}
	return r
}
func (a f6) add(b f6) f6 { return f6{a[0].add(b[0]), a[1].add(b[1]), a[2].add(b[2])} }
func (a f6) sub(b f6) f6 { return f6{a[0].sub(b[0]), a[1].sub(b[1]), a[2].sub(b[2])} }
func (a f6) mul(b f6) f6 {
	// powers of τ: index 2-k holds τ^k
	var c [5]f2
	for k := range c {
		c[k] = f2zero
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			c[i+j] = c[i+j].add(a[2-i].mul(b[2-j]))
		}
	}
	return f6{c[2], c[1].add(c[4].xi()), c[0].add(c[3].xi())}
}
func (a f6) tau() f6      { return f6{a[1], a[2], a[0].xi()} }
func (a f6) mul2(b f2) f6 { return f6{a[0].mul(b), a[1].mul(b), a[2].mul(b)} }
func (a f6) eq(b f6) bool { return verifrt.All(a[0].eq(b[0]), a[1].eq(b[1]), a[2].eq(b[2])) }
func (a f12) add(b f12) f12 {
	return f12{a[0].add(b[0]), a[1].add(b[1])}
}
func (a f12) sub(b f12) f12 { return f12{a[0].sub(b[0]), a[1].sub(b[1])} }
func (a f12) mul(b f12) f12 {
	return f12{a[0].mul(b[1]).add(a[1].mul(b[0])), a[1].mul(b[1]).add(a[0].mul(b[0]).tau())}
}
func (a f12) eq(b f12) bool { return verifrt.All(a[0].eq(b[0]), a[1].eq(b[1])) }

// vxi is ξ^((p^e-1)/d).
func vxi(e, d int64) f2 {
	k := new(big.Int).Exp(vP, big.NewInt(e), nil)
	k.Sub(k, vi1)
	k.Div(k, big.NewInt(d))
	return f2{vi1, big.NewInt(9)}.pow(k)
}
func (a f6) frob() f6 {
	t := vxi(1, 3)
	return f6{a[0].conj().mul(t).mul(t), a[1].conj().mul(t), a[2].conj()}
}
func (a f12) frob() f12 { return f12{a[0].frob().mul2(vxi(1, 6)), a[1].frob()} }

// The values of the code's elements.
func of2(a *gfP2) f2 {
	return f2{new(big.Int).Set(a.x), new(big.Int).Set(a.y)}
}
func of6(a *gfP6) f6    { return f6{of2(a.x), of2(a.y), of2(a.z)} }
func of12(a *gfP12) f12 { return f12{of6(a.x), of6(a.y)} }

// Elements with any representation of their coordinates.
func vI(n string) *big.Int { return verifrt.Int(n, new(big.Int).Neg(vBig), vBig) }
func ve2(n string) *gfP2   { return &gfP2{vI(n + ".x"), vI(n + ".y")} }
func ve6(n string) *gfP6   { return &gfP6{ve2(n + ".x"), ve2(n + ".y"), ve2(n + ".z")} }
func ve12(n string) *gfP12 { return &gfP12{ve6(n + ".x"), ve6(n + ".y")} }

var vAlias, vPool int64

// veach runs a check for every way of choosing the objects.
func veach(f func()) {
	for vAlias = 0; vAlias <= 5; vAlias++ {
		for vPool = 0; vPool <= 2; vPool++ {
			f()
		}
	}
}

// vpool is the pool used: none, an empty one or one with used numbers.
func vpool() *bnPool {
	switch vPool {
	case 0:
		return nil
	case 1:
		return new(bnPool)
	}
	p := new(bnPool)
	for i := int64(0); i < 100; i++ {
		p.bns = append(p.bns, big.NewInt(1000+i))
	}
	return p
}

// vreuse lets someone else use what has been returned to the pool.
func vreuse(p *bnPool) {
	if p == nil {
		return
	}
	for _, b := range p.bns {
		b.SetInt64(77)
	}
}

// valias chooses receiver and arguments: 0 all different (a receiver with
// values), 1 the receiver is the first, 2 the second argument, 3 both arguments
// are the same object, 4 all three are, 5 a new receiver.
func valias2() (r, a, b *gfP2) {
	a, b, r = ve2("a"), ve2("b"), &gfP2{big.NewInt(5), big.NewInt(6)}
	switch vAlias {
	case 1:
		r = a
	case 2:
		r = b
	case 3:
		b = a
	case 4:
		b = a
		r = a
	case 5:
		r = newGFp2(nil)
	}
	return
}
func valias6() (r, a, b *gfP6) {
	a, b, r = ve6("a"), ve6("b"), newGFp6(nil)
	r.x.x.SetInt64(5)
	r.y.y.SetInt64(6)
	r.z.x.SetInt64(7)
	switch vAlias {
	case 1:
		r = a
	case 2:
		r = b
	case 3:
		b = a
	case 4:
		b = a
		r = a
	case 5:
		r = newGFp6(nil)
	}
	return
}
func valias12() (r, a, b *gfP12) {
	a, b, r = ve12("a"), ve12("b"), newGFp12(nil)
	r.x.x.x.SetInt64(5)
	r.y.y.y.SetInt64(6)
	r.x.z.x.SetInt64(7)
	switch vAlias {
	case 1:
		r = a
	case 2:
		r = b
	case 3:
		b = a
	case 4:
		b = a
		r = a
	case 5:
		r = newGFp12(nil)
	}
	return
}

// VerifF2: the operations of gfP2.
func VerifF2() {
	verifrt.Expect("end")
	veach(vf2)
	verifrt.Reach("end")
}

func vf2() {
	pool := vpool()
	r, a, b := valias2()
	k := vI("k")
	va, vb := of2(a), of2(b)
	var ret *gfP2
	var want f2
	switch verifrt.Param("op") {
	case 0:
		ret, want = r.Add(a, b), va.add(vb)
	case 1:
		ret, want = r.Sub(a, b), va.sub(vb)
	case 2:
		ret, want = r.Mul(a, b, pool), va.mul(vb)
	case 3:
		ret, want = r.Negative(a), f2zero.sub(va)
	case 4:
		ret, want = r.Double(a), va.add(va)
	case 5:
		ret, want = r.Square(a, pool), va.mul(va)
	case 6:
		ret, want = r.Conjugate(a), va.conj()
	case 7:
		ret, want = r.MulXi(a, pool), va.xi()
	case 8:
		ret, want = r.MulScalar(a, k), f2{vmul(va[0], k), vmul(va[1], k)}
	case 9:
		ret, want = r.Set(a), va
	case 10:
		ret, want = r.SetZero(), f2zero
	case 11:
		ret, want = r.SetOne(), f2one
	}
	vreuse(pool)
	verifrt.Assert(ret == r, "the receiver is returned")
	verifrt.Assert(of2(r).eq(want), "the result is the value of the operation")
	if a != r {
		verifrt.Assert(of2(a).eq(va), "the first argument keeps its value")
	}
	if b != r {
		verifrt.Assert(of2(b).eq(vb), "the second argument keeps its value")
	}
	verifrt.Reach("end")
}

// VerifF2Inv: a·a⁻¹ = 1.
func VerifF2Inv() {
	verifrt.Expect("end")
	veach(vf2inv)
	verifrt.Reach("end")
}

func vf2inv() {
	pool := vpool()
	r, a, _ := valias2()
	va := of2(a)
	verifrt.Assume(vadd(vmul(va[0], va[0]), vmul(va[1], va[1])).Sign() != 0)
	ret := r.Invert(a, pool)
	vreuse(pool)
	verifrt.Assert(ret == r, "the receiver is returned")
	verifrt.Assert(of2(r).mul(va).eq(f2one), "an element times its inverse is one")
	if a != r {
		verifrt.Assert(of2(a).eq(va), "the argument keeps its value")
	}
	verifrt.Reach("end")
}

// VerifF2Test: comparison and reduction.
func VerifF2Test() {
	verifrt.Expect("end")
	a := ve2("a")
	va := of2(a)
	a.Minimal()
	verifrt.Assert(of2(a).eq(va), "reduction keeps the value")
	verifrt.Assert(a.x.Sign() >= 0 && a.x.Cmp(vP) < 0 && a.y.Sign() >= 0 && a.y.Cmp(vP) < 0, "coordinates are reduced")
	verifrt.Assert(a.IsZero() == va.eq(f2zero), "a reduced element is zero exactly when its value is")
	verifrt.Assert(a.IsOne() == va.eq(f2one), "a reduced element is one exactly when its value is")
	verifrt.Reach("end")
}

// VerifF6: the operations of gfP6.
func VerifF6() {
	verifrt.Expect("end")
	veach(vf6)
	verifrt.Reach("end")
}

func vf6() {
	pool := vpool()
	r, a, b := valias6()
	k, s := vI("k"), ve2("s")
	va, vb, vs := of6(a), of6(b), of2(s)
	ret := r
	var want f6
	switch verifrt.Param("op") {
	case 0:
		ret, want = r.Add(a, b), va.add(vb)
	case 1:
		ret, want = r.Sub(a, b), va.sub(vb)
	case 2:
		ret, want = r.Mul(a, b, pool), va.mul(vb)
	case 3:
		ret, want = r.Negative(a), f6zero.sub(va)
	case 4:
		ret, want = r.Double(a), va.add(va)
	case 5:
		ret, want = r.Square(a, pool), va.mul(va)
	case 6:
		ret, want = r.Frobenius(a, pool), va.frob()
	case 7:
		r.MulTau(a, pool)
		want = va.tau()
	case 8:
		ret, want = r.MulGFP(a, k), va.mul2(f2{vi0, k})
	case 9:
		ret, want = r.Set(a), va
	case 10:
		ret, want = r.SetZero(), f6zero
	case 11:
		ret, want = r.SetOne(), f6one
	case 12:
		ret, want = r.MulScalar(a, s, pool), va.mul2(vs)
	case 13:
		ret, want = r.FrobeniusP2(a), va.frob().frob()
	}
	vreuse(pool)
	verifrt.Assert(ret == r, "the receiver is returned")
	verifrt.Assert(of6(r).eq(want), "the result is the value of the operation")
	verifrt.Assert(of2(s).eq(vs), "the scalar keeps its value")
	if a != r {
		verifrt.Assert(of6(a).eq(va), "the first argument keeps its value")
	}
	if b != r {
		verifrt.Assert(of6(b).eq(vb), "the second argument keeps its value")
	}
	verifrt.Reach("end")
}

// vnorm6 is the norm of a in GF(p²): the determinant of multiplication by a.
func vnorm6(a f6) f2 {
	x, y, z := a[0], a[1], a[2]
	n := x.mul(x).mul(x).xi().xi().add(y.mul(y).mul(y).xi()).add(z.mul(z).mul(z))
	return n.sub(x.mul(y).mul(z).xi().scale(3))
}

// VerifF6Inv: a·a⁻¹ = 1 (the norm of an element other than zero is not zero).
func VerifF6Inv() {
	verifrt.Expect("end")
	veach(vf6inv)
	verifrt.Reach("end")
}

func vf6inv() {
	pool := vpool()
	r, a, _ := valias6()
	va := of6(a)
	n := vnorm6(va)
	verifrt.Assume(vadd(vmul(n[0], n[0]), vmul(n[1], n[1])).Sign() != 0)
	ret := r.Invert(a, pool)
	vreuse(pool)
	verifrt.Assert(ret == r, "the receiver is returned")
	verifrt.Assert(of6(r).mul(va).eq(f6one), "an element times its inverse is one")
	if a != r {
		verifrt.Assert(of6(a).eq(va), "the argument keeps its value")
	}
	verifrt.Reach("end")
}

// VerifF6Test: comparison and reduction.
func VerifF6Test() {
	verifrt.Expect("end")
	a := ve6("a")
	va := of6(a)
	a.Minimal()
	verifrt.Assert(of6(a).eq(va), "reduction keeps the value")
	verifrt.Assert(a.IsZero() == va.eq(f6zero), "a reduced element is zero exactly when its value is")
	verifrt.Assert(a.IsOne() == va.eq(f6one), "a reduced element is one exactly when its value is")
	verifrt.Reach("end")
}

// VerifF12: the operations of gfP12.
func VerifF12() {
	verifrt.Expect("end")
	veach(vf12)
	verifrt.Reach("end")
}

func vf12() {
	pool := vpool()
	r, a, b := valias12()
	s := ve6("s")
	va, vb, vs := of12(a), of12(b), of6(s)
	ret := r
	var want f12
	switch verifrt.Param("op") {
	case 0:
		ret, want = r.Add(a, b), va.add(vb)
	case 1:
		ret, want = r.Sub(a, b), va.sub(vb)
	case 2:
		ret, want = r.Mul(a, b, pool), va.mul(vb)
	case 3:
		ret, want = r.Negative(a), f12{f6zero, f6zero}.sub(va)
	case 4:
		ret, want = r.Conjugate(a), f12{f6zero.sub(va[0]), va[1]}
	case 5:
		ret, want = r.Square(a, pool), va.mul(va)
	case 6:
		ret, want = r.Frobenius(a, pool), va.frob()
	case 9:
		ret, want = r.Set(a), va
	case 10:
		ret, want = r.SetZero(), f12{f6zero, f6zero}
	case 11:
		ret, want = r.SetOne(), f12one
	case 12:
		ret, want = r.MulScalar(a, s, pool), va.mul(f12{f6zero, vs})
	case 13:
		ret, want = r.FrobeniusP2(a, pool), va.frob().frob()
	}
	vreuse(pool)
	verifrt.Assert(ret == r, "the receiver is returned")
	verifrt.Assert(of12(r).eq(want), "the result is the value of the operation")
	verifrt.Assert(of6(s).eq(vs), "the scalar keeps its value")
	if a != r {
		verifrt.Assert(of12(a).eq(va), "the first argument keeps its value")
	}
	if b != r {
		verifrt.Assert(of12(b).eq(vb), "the second argument keeps its value")
	}
	verifrt.Reach("end")
}

// VerifF12Inv: a·a⁻¹ = 1, with gfP6.Invert replaced by its contract.
func VerifF12Inv() {
	verifrt.Expect("end")
	veach(vf12inv)
	verifrt.Reach("end")
}

func vf12inv() {
	pool := vpool()
	r, a, _ := valias12()
	va := of12(a)
	n := va[1].mul(va[1]).sub(va[0].mul(va[0]).tau())
	verifrt.Assume(!n.eq(f6zero))
	ret := r.Invert(a, pool)
	vreuse(pool)
	verifrt.Assert(ret == r, "the receiver is returned")
	verifrt.Assert(of12(r).mul(va).eq(f12one), "an element times its inverse is one")
	if a != r {
		verifrt.Assert(of12(a).eq(va), "the argument keeps its value")
	}
	verifrt.Reach("end")
}

// VerifF12Test: comparison and reduction.
func VerifF12Test() {
	verifrt.Expect("end")
	a := ve12("a")
	va := of12(a)
	verifrt.Assert(a.IsZero() == va.eq(f12{f6zero, f6zero}), "an element is zero exactly when its value is")
	a = &gfP12{&gfP6{of(va[0][0]), of(va[0][1]), of(va[0][2])}, &gfP6{of(va[1][0]), of(va[1][1]), of(va[1][2])}}
	verifrt.Assert(a.IsOne() == va.eq(f12one), "an element is one exactly when its value is")
	e := &GT{a}
	verifrt.Assert(e.IsOne() == va.eq(f12one), "a target group element is one exactly when its value is")
	verifrt.Assert(e.IsZero() == va.eq(f12{f6zero, f6zero}), "a target group element is zero exactly when its value is")
	verifrt.Assert(of12(a).eq(va), "the test keeps the value")
	verifrt.Reach("end")
}

func of(a f2) *gfP2 { return &gfP2{new(big.Int).Set(a[0]), new(big.Int).Set(a[1])} }

// VerifConstants: the constants of the fields and curves.
func VerifConstants() {
	verifrt.Expect("end")
	u := big.NewInt(4965661367192848881)
	pol := func(a, b, c, d, e int64) *big.Int {
		r := new(big.Int)
		for _, k := range []int64{a, b, c, d, e} {
			r.Mul(r, u)
			r.Add(r, big.NewInt(k))
		}
		return r
	}
	verifrt.Assert(P.Cmp(vP) == 0 && vP.Cmp(pol(36, 36, 24, 6, 1)) == 0, "P is the prime of the curve")
	verifrt.Assert(Order.Cmp(pol(36, 36, 18, 6, 1)) == 0, "Order is the order of the curve")
	for _, c := range []struct {
		v    *gfP2
		e, d int64
		k    int64
	}{{xiToPMinus1Over6, 1, 6, 1}, {xiToPMinus1Over3, 1, 3, 1}, {xiToPMinus1Over2, 1, 2, 1}, {xiTo2PMinus2Over3, 1, 3, 2}} {
		verifrt.Assert(of2(c.v).eq(vxi(c.e, c.d).pow(big.NewInt(c.k))), "a Frobenius constant has its value")
	}
	verifrt.Assert(f2{vi0, xiToPSquaredMinus1Over3}.eq(vxi(2, 3)), "ξ^((p²-1)/3)")
	verifrt.Assert(f2{vi0, xiTo2PSquaredMinus2Over3}.eq(vxi(2, 3).mul(vxi(2, 3))), "ξ^((2p²-2)/3)")
	verifrt.Assert(f2{vi0, xiToPSquaredMinus1Over6}.eq(vxi(2, 6)), "ξ^((p²-1)/6)")
	verifrt.Reach("end")
}
