package p256

import (
	"crypto/sha256"
	"math/big"
	"strconv"

	"github.com/ing-bank/zkrp/util/byteconversion"
	"github.com/ing-bank/zkrp/verifrt"
)

// The field and the curve of secp256k1.
var vP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
var vN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
var vPmax = new(big.Int).Sub(vP, big.NewInt(1))

func vF(name string) *big.Int { return verifrt.Int(name, big.NewInt(0), vPmax) }

func vmod(x *big.Int) *big.Int { return new(big.Int).Mod(x, vP) }
func vmul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r = vmod(new(big.Int).Mul(r, x))
	}
	return r
}
func vadd(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r = vmod(new(big.Int).Add(r, x))
	}
	return r
}
func vsub(a, b *big.Int) *big.Int { return vmod(new(big.Int).Sub(a, b)) }
func veq(a, b *big.Int) bool      { return vsub(a, b).Sign() == 0 }

func vcurve(x, y *big.Int) bool { return veq(vmul(y, y), vadd(vmul(x, x, x), big.NewInt(7))) }

// vPoint is any finite point of the curve. The group has odd order, so that
// no point has y = 0.
func vPoint(n string) *P256 {
	x, y := vF(n+"x"), vF(n+"y")
	verifrt.Assume(vcurve(x, y))
	verifrt.Assume(y.Sign() != 0)
	return &P256{X: x, Y: y}
}

func vcopy(p *P256) *P256 {
	if p.X == nil || p.Y == nil {
		return &P256{}
	}
	return &P256{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

// vinf: a way of writing infinity.
func vinf(i int64) *P256 {
	switch i {
	case 0:
		return &P256{}
	case 1:
		return &P256{X: big.NewInt(0), Y: big.NewInt(0)}
	}
	return new(P256).SetInfinity()
}

func vzero(p *P256) bool {
	return p.X == nil || p.Y == nil || p.X.Sign() == 0 && p.Y.Sign() == 0
}

// vreduced: finite coordinates below the field prime.
func vreduced(p *P256) bool {
	return p.X.Sign() >= 0 && p.X.Cmp(vP) < 0 && p.Y.Sign() >= 0 && p.Y.Cmp(vP) < 0
}

// vchord asserts r = a + b for points with different x.
func vchord(r, a, b *P256) {
	verifrt.Assert(!vzero(r), "the sum of points with different x is finite")
	verifrt.Assert(vreduced(r), "the coordinates of a sum are reduced")
	dx, dy := vsub(b.X, a.X), vsub(b.Y, a.Y)
	verifrt.Assert(veq(vmul(vadd(r.X, a.X, b.X), dx, dx), vmul(dy, dy)), "the sum has the x coordinate of the chord law")
	verifrt.Assert(veq(vmul(vadd(r.Y, a.Y), dx), vmul(dy, vsub(a.X, r.X))), "the sum has the y coordinate of the chord law")
}

// vtangent asserts r = 2a.
func vtangent(r, a *P256) {
	verifrt.Assert(!vzero(r), "the double of a finite point is finite")
	verifrt.Assert(vreduced(r), "the coordinates of a double are reduced")
	n, d := vmul(big.NewInt(3), a.X, a.X), vadd(a.Y, a.Y)
	verifrt.Assert(veq(vmul(vadd(r.X, a.X, a.X), d, d), vmul(n, n)), "the double has the x coordinate of the tangent law")
	verifrt.Assert(veq(vmul(vadd(r.Y, a.Y), d), vmul(n, vsub(a.X, r.X))), "the double has the y coordinate of the tangent law")
}

func vsame(a, b *P256) bool {
	if vzero(a) || vzero(b) {
		return vzero(a) && vzero(b)
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

// vcall runs a binary operation with the given aliasing: 0 a fresh receiver,
// 1 the receiver is a, 2 the receiver is b, 3 a receiver with a value.
func vcall(f func(r, a, b *P256) *P256, a, b *P256) *P256 {
	ca, cb := vcopy(a), vcopy(b)
	r := new(P256)
	al := verifrt.Param("alias")
	switch al {
	case 1:
		r = a
	case 2:
		r = b
	case 3:
		r = &P256{X: big.NewInt(5), Y: big.NewInt(6)}
	}
	ret := f(r, a, b)
	verifrt.Assert(ret == r, "the receiver is returned")
	if al != 1 {
		verifrt.Assert(vsame(a, ca), "the first argument keeps its value")
	}
	if al != 2 {
		verifrt.Assert(vsame(b, cb), "the second argument keeps its value")
	}
	return r
}

func vadder(r, a, b *P256) *P256 {
	if verifrt.Param("op") == 0 {
		return r.Multiply(a, b)
	}
	return r.Add(a, b)
}

// Sum of points with different x coordinates.
func VerifAddChord() {
	a, b := vPoint("a"), vPoint("b")
	verifrt.Assume(a.X.Cmp(b.X) != 0)
	ca, cb := vcopy(a), vcopy(b)
	verifrt.Reach("chord")
	verifrt.Expect("chord")
	vchord(vcall(vadder, a, b), ca, cb)
}

// The complete addition of a point to itself, as an equal point or the same object.
func VerifAddSame() {
	a := vPoint("a")
	b := vcopy(a)
	if verifrt.Param("same") == 1 {
		b = a
	}
	ca := vcopy(a)
	verifrt.Reach("tangent")
	verifrt.Expect("tangent")
	r := new(P256)
	if verifrt.Param("alias") == 1 {
		r = a
	}
	r.Multiply(a, b)
	if r != a {
		verifrt.Assert(vsame(a, ca), "the argument keeps its value")
	}
	vtangent(r, ca)
}

// A point and its inverse.
func VerifAddInverse() {
	a := vPoint("a")
	b := &P256{X: new(big.Int).Set(a.X), Y: new(big.Int).Sub(vP, a.Y)}
	verifrt.Reach("inverse")
	verifrt.Expect("inverse")
	r := vcall(vadder, a, b)
	verifrt.Assert(vzero(r) && r.IsZero(), "a point plus its inverse is infinity")
}

func VerifAddInfinity() {
	a, b := vPoint("a"), vPoint("a")
	verifrt.Reach("infinity")
	verifrt.Expect("infinity")
	switch verifrt.Param("side") {
	case 0:
		a = vinf(verifrt.Param("inf"))
	case 1:
		b = vinf(verifrt.Param("inf"))
	case 2:
		a, b = vinf(verifrt.Param("inf")), vinf(verifrt.Param("inf"))
	}
	want := vPoint("a")
	r := vcall(vadder, a, b)
	if verifrt.Param("side") == 2 {
		verifrt.Assert(vzero(r), "infinity plus infinity is infinity")
		return
	}
	verifrt.Assert(vsame(r, want), "infinity is neutral")
}

// The result of a sum can be used as a receiver without touching the operands.
func VerifAddThenReuse() {
	a, b, c := vPoint("a"), vPoint("b"), vinf(verifrt.Param("inf"))
	verifrt.Assume(a.X.Cmp(b.X) != 0)
	ca, cb := vcopy(a), vcopy(b)
	verifrt.Reach("reused")
	verifrt.Expect("reused")
	r := vadder(new(P256), c, a)
	r = vadder(r, r, b)
	verifrt.Assert(vsame(a, ca) && vsame(b, cb), "operands of earlier sums keep their value")
	vchord(r, ca, cb)
	s := vadder(new(P256), b, c)
	s.SetInfinity()
	verifrt.Assert(vsame(b, cb), "operands of earlier sums keep their value")
	verifrt.Assert(s.IsZero(), "SetInfinity yields infinity")
}

func VerifDouble() {
	a := vPoint("a")
	ca := vcopy(a)
	verifrt.Reach("doubled")
	verifrt.Expect("doubled")
	r := new(P256)
	if verifrt.Param("alias") == 1 {
		r = a
	}
	ret := r.Double(a)
	verifrt.Assert(ret == r, "the receiver is returned")
	if r != a {
		verifrt.Assert(vsame(a, ca), "the argument keeps its value")
	}
	vtangent(r, ca)
	i := vinf(verifrt.Param("inf"))
	verifrt.Assert(new(P256).Double(i).IsZero(), "the double of infinity is infinity")
}

func VerifIsZero() {
	x, y := vF("x"), vF("y")
	p := &P256{X: x, Y: y}
	verifrt.Reach("tested")
	verifrt.Expect("tested")
	verifrt.Assert(p.IsZero() == (x.Sign() == 0 && y.Sign() == 0), "IsZero tells the point at infinity apart")
	verifrt.Assert(vinf(verifrt.Param("inf")).IsZero(), "infinity is recognised")
}

// Membership.
func VerifOnCurve() {
	x, y := vF("x"), vF("y")
	p := &P256{X: x, Y: y}
	sn := verifrt.Snap(p)
	verifrt.Reach("tested")
	verifrt.Expect("tested")
	verifrt.Assert(p.IsOnCurve() == vcurve(x, y), "the membership test is the curve equation")
	verifrt.Assert(verifrt.Unchanged(sn), "the membership test leaves the point alone")
}

// Whatever the outputs of the hash function, the result is the first point hit
// by hashing a counter and the string.
func VerifMapToGroup() {
	verifrt.Expect("mapped")
	s := verifrt.Str("m", int(verifrt.Param("len")))
	vMapped(s)
	if verifrt.Native() {
		// the solver chooses hash outputs; look for a string with such ones
		for i := 0; i < 1<<15; i++ {
			vMapped(s + strconv.Itoa(i))
		}
	}
}

func vMapped(s string) {
	p, err := MapToGroup(s)
	verifrt.Assert(err == nil && p != nil, "the string is mapped")
	verifrt.Reach("mapped")
	verifrt.Assert(!vzero(p) && vreduced(p), "the point is finite and reduced")
	verifrt.Assert(vcurve(p.X, p.Y), "the point is on the curve")
	for i := 0; i < 256; i++ {
		h := sha256.New()
		h.Write([]byte(strconv.Itoa(i) + s))
		x, _ := byteconversion.FromByteArray(h.Sum(nil))
		x = vmod(x)
		if new(big.Int).ModSqrt(vadd(vmul(x, x, x), big.NewInt(7)), vP) != nil {
			verifrt.Assert(p.X.Cmp(x) == 0, "the point is the first one hit by hashing a counter and the string")
			return
		}
	}
}

// Equal strings give equal points, whatever was done with the first one.
func VerifMapTwice() {
	s := verifrt.Str("m", int(verifrt.Param("len")))
	p, err := MapToGroup(s)
	verifrt.Assume(err == nil)
	c := vcopy(p)
	p.Multiply(p, p)
	p.SetInfinity()
	q, err := MapToGroup(s)
	verifrt.Reach("mapped")
	verifrt.Expect("mapped")
	verifrt.Assert(err == nil && vsame(q, c), "equal strings are mapped to equal points")
}

// The curve constants.
func VerifCurve() {
	verifrt.Reach("checked")
	verifrt.Expect("checked")
	verifrt.Assert(CURVE.P.Cmp(vP) == 0 && CURVE.N.Cmp(vN) == 0 && CURVE.B.Cmp(big.NewInt(7)) == 0, "the curve is secp256k1")
	verifrt.Assert(vcurve(CURVE.Gx, CURVE.Gy), "the base point is on the curve")
	gx, _ := new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	verifrt.Assert(CURVE.Gx.Cmp(gx) == 0, "the base point is the standard one")
}

// VerifMapOther: another string is mapped by its own hashes, whatever was
// mapped before.
func VerifMapOther() {
	s := verifrt.Str("m", int(verifrt.Param("len")))
	t := verifrt.Str("n", int(verifrt.Param("other")))
	p, err := MapToGroup(s)
	verifrt.Assume(err == nil)
	n := verifrt.Hashes()
	q, err := MapToGroup(t)
	verifrt.Assume(err == nil && t != s && p != nil && q != nil)
	verifrt.Reach("mapped")
	verifrt.Expect("mapped")
	verifrt.Assert(verifrt.Hashes() > n, "the other string is hashed")
}
