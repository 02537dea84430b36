package bulletproofs

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/verifrt"
)

var wLim = new(big.Int).Lsh(big.NewInt(1), 300)

func wany(n string) *big.Int { return verifrt.Int(n, new(big.Int).Neg(wLim), wLim) }

func wvec(name string, n int64) ([]*big.Int, []*big.Int) {
	r, c := make([]*big.Int, n), make([]*big.Int, n)
	for i := range r {
		r[i] = wany(fmt.Sprintf("%s%d", name, i))
		c[i] = new(big.Int).Set(r[i])
	}
	return r, c
}

func wkept(r, c []*big.Int) {
	for i := range r {
		verifrt.Assert(r[i].Cmp(c[i]) == 0, "the arguments keep their values")
	}
}

func wred(x, want *big.Int, what string) {
	verifrt.Assert(x.Sign() >= 0 && x.Cmp(ORDER) < 0, "the result is reduced")
	verifrt.Assert(x.Cmp(new(big.Int).Mod(want, ORDER)) == 0, what)
}

// VerifVector: the entry-wise operations on n entries (op) and the error for
// another number of entries; same=1: both arguments are one vector.
func VerifVector() {
	verifrt.Expect("end")
	n, op := verifrt.Param("n"), verifrt.Param("op")
	a, ca := wvec("a", n)
	b, cb := wvec("b", n)
	if verifrt.Param("same") == 1 {
		b, cb = a, ca
	}
	var r []*big.Int
	var err error
	switch op {
	case 0:
		r, err = VectorAdd(a, b)
	case 1:
		r, err = VectorSub(a, b)
	case 2:
		r, err = VectorMul(a, b)
	case 3:
		k := wany("k")
		ck := new(big.Int).Set(k)
		r, err = VectorScalarMul(a, k)
		verifrt.Assert(k.Cmp(ck) == 0, "the arguments keep their values")
		for i := range cb {
			cb[i] = ck
		}
		b = cb
	}
	verifrt.Assert(err == nil && int64(len(r)) == n, "as many entries as in the arguments")
	wkeptIf(op != 3, a, ca)
	wkeptIf(op != 3, b, cb)
	for i := range r {
		want := new(big.Int)
		switch op {
		case 0:
			want.Add(ca[i], cb[i])
		case 1:
			want.Sub(ca[i], cb[i])
		default:
			want.Mul(ca[i], cb[i])
		}
		wred(r[i], want, "the entry")
	}
	verifrt.Reach("end")
}

func wkeptIf(c bool, r, k []*big.Int) {
	if c {
		wkept(r, k)
	}
}

// VerifVectorLength: arguments of different lengths.
func VerifVectorLength() {
	verifrt.Expect("end")
	n, m := verifrt.Param("n"), verifrt.Param("m")
	a, ca := wvec("a", n)
	b, cb := wvec("b", m)
	ps, qs := make([]*p256.P256, n), make([]*p256.P256, m)
	for i := range ps {
		ps[i] = vBase(a[i])
	}
	for i := range qs {
		qs[i] = vBase(b[i])
	}
	r, err := VectorAdd(a, b)
	verifrt.Assert(err != nil && r == nil, "different lengths are an error (sum)")
	r, err = VectorSub(a, b)
	verifrt.Assert(err != nil && r == nil, "different lengths are an error (difference)")
	r, err = VectorMul(a, b)
	verifrt.Assert(err != nil && r == nil, "different lengths are an error (product)")
	s, err := ScalarProduct(a, b)
	verifrt.Assert(err != nil && s == nil, "different lengths are an error (inner product)")
	e, err := VectorECAdd(ps, qs)
	verifrt.Assert(err != nil && e == nil, "different lengths are an error (points)")
	x, err := VectorExp(ps, b)
	verifrt.Assert(err != nil && x == nil, "different lengths are an error (powers)")
	wkept(a, ca)
	wkept(b, cb)
	verifrt.Reach("end")
}

// VerifScalarProduct: the inner product.
func VerifScalarProduct() {
	verifrt.Expect("end")
	n := verifrt.Param("n")
	a, ca := wvec("a", n)
	b, cb := wvec("b", n)
	if verifrt.Param("same") == 1 {
		b, cb = a, ca
	}
	r, err := ScalarProduct(a, b)
	verifrt.Assert(err == nil, "no error")
	want := new(big.Int)
	for i := range ca {
		want.Add(want, new(big.Int).Mul(ca[i], cb[i]))
	}
	wred(r, want, "the inner product")
	wkept(a, ca)
	wkept(b, cb)
	verifrt.Reach("end")
}

// VerifPowers: 1, x, x^2, ...
func VerifPowers() {
	verifrt.Expect("end")
	n := verifrt.Param("n")
	x := wany("x")
	cx := new(big.Int).Set(x)
	r := powerOf(x, n)
	verifrt.Assert(int64(len(r)) == n, "n powers")
	verifrt.Assert(x.Cmp(cx) == 0, "the argument keeps its value")
	want := big.NewInt(1)
	for i := range r {
		wred(r[i], want, "the power")
		want = new(big.Int).Mul(want, cx)
	}
	verifrt.Reach("end")
}

// VerifCopies: repetition and conversion.
func VerifCopies() {
	verifrt.Expect("end")
	n := verifrt.Param("n")
	x := wany("x")
	cx := new(big.Int).Set(x)
	r, err := VectorCopy(x, n)
	verifrt.Assert(err == nil && int64(len(r)) == n, "n copies")
	for i := range r {
		verifrt.Assert(r[i].Cmp(cx) == 0, "the copy")
	}
	a, ca := make([]int64, n), make([]int64, n)
	for i := range a {
		a[i] = verifrt.I64(fmt.Sprintf("v%d", i), -9223372036854775808, 9223372036854775807)
		ca[i] = a[i]
	}
	b, err := VectorConvertToBig(a, n)
	verifrt.Assert(err == nil && int64(len(b)) == n, "n entries")
	for i := range b {
		verifrt.Assert(b[i].Cmp(big.NewInt(ca[i])) == 0, "the entry")
		verifrt.Assert(a[i] == ca[i], "the arguments keep their values")
	}
	// later changes of one entry leave the others alone
	for i := range b {
		b[i].Add(b[i], big.NewInt(1))
		for j := range b {
			if j > i {
				verifrt.Assert(b[j].Cmp(big.NewInt(ca[j])) == 0, "the entries are separate")
			}
		}
	}
	verifrt.Reach("end")
}

func wpts(name string, n int64) ([]*p256.P256, []*big.Int) {
	r, d := make([]*p256.P256, n), make([]*big.Int, n)
	for i := range r {
		d[i] = wany(fmt.Sprintf("%s%d", name, i))
		r[i] = vBase(new(big.Int).Mod(d[i], ORDER))
	}
	return r, d
}

func wptsKept(r []*p256.P256, d []*big.Int) {
	for i := range r {
		verifrt.Assert(vSame(r[i], vBase(d[i])), "the arguments keep their values")
	}
}

// VerifVectorPoints: sums and powers of points, infinity included.
func VerifVectorPoints() {
	verifrt.Expect("end")
	n := verifrt.Param("n")
	a, da := wpts("p", n)
	b, db := wpts("q", n)
	if verifrt.Param("same") == 1 {
		b, db = a, da
	}
	r, err := VectorECAdd(a, b)
	verifrt.Assert(err == nil && int64(len(r)) == n, "as many entries as in the arguments")
	for i := range r {
		verifrt.Assert(vSame(r[i], vBase(new(big.Int).Add(da[i], db[i]))), "the entry is the sum")
	}
	wptsKept(a, da)
	wptsKept(b, db)
	k, ck := wvec("k", n)
	e, err := VectorExp(a, k)
	verifrt.Assert(err == nil, "no error")
	want := new(big.Int)
	for i := range ck {
		want.Add(want, new(big.Int).Mul(da[i], ck[i]))
	}
	verifrt.Assert(vSame(e, vBase(want)), "the product of powers")
	wptsKept(a, da)
	wkept(k, ck)
	s := wany("s")
	cs := new(big.Int).Set(s)
	v := vectorScalarExp(a, s)
	verifrt.Assert(int64(len(v)) == n && s.Cmp(cs) == 0, "one power for each entry")
	for i := range v {
		verifrt.Assert(vSame(v[i], vBase(new(big.Int).Mul(da[i], cs))), "the power")
	}
	wptsKept(a, da)
	verifrt.Reach("end")
}

// VerifCommitVectors: the vector commitments of the proofs.
func VerifCommitVectors() {
	verifrt.Expect("end")
	n := verifrt.Param("n")
	g, dg := wpts("g", n)
	h, dh := wpts("h", n)
	hd := wany("hh")
	H := vBase(hd)
	aL, cL := wvec("l", n)
	aR, cR := wvec("r", n)
	al := wany("alpha")
	ca := new(big.Int).Set(al)
	want := new(big.Int).Mul(ca, hd)
	for i := range cL {
		want.Add(want, new(big.Int).Mul(cL[i], dg[i]))
		want.Add(want, new(big.Int).Mul(cR[i], dh[i]))
	}
	c := commitVectorBig(aL, aR, al, H, g, h, n)
	verifrt.Assert(vSame(c, vBase(want)), "the commitment is h^alpha·prod g_i^l_i·h_i^r_i")
	wkept(aL, cL)
	wkept(aR, cR)
	verifrt.Assert(al.Cmp(ca) == 0, "the arguments keep their values")
	wptsKept(g, dg)
	wptsKept(h, dh)
	verifrt.Assert(vSame(H, vBase(hd)), "the arguments keep their values")
	// int64 entries
	iL, iR := make([]int64, n), make([]int64, n)
	want = new(big.Int).Mul(ca, hd)
	for i := range iL {
		iL[i] = verifrt.I64(fmt.Sprintf("il%d", i), -9223372036854775808, 9223372036854775807)
		iR[i] = verifrt.I64(fmt.Sprintf("ir%d", i), -9223372036854775808, 9223372036854775807)
		want.Add(want, new(big.Int).Mul(big.NewInt(iL[i]), dg[i]))
		want.Add(want, new(big.Int).Mul(big.NewInt(iR[i]), dh[i]))
	}
	c = commitVector(iL, iR, al, H, g, h, n)
	verifrt.Assert(vSame(c, vBase(want)), "the commitment to int64 vectors")
	// the inner-product commitment
	want = new(big.Int)
	for i := range cL {
		want.Add(want, new(big.Int).Mul(cL[i], dg[i]))
		want.Add(want, new(big.Int).Mul(cR[i], dh[i]))
	}
	c = commitInnerProduct(g, h, aL, aR)
	verifrt.Assert(vSame(c, vBase(want)), "the inner-product commitment is prod g_i^l_i·h_i^r_i")
	wkept(aL, cL)
	wkept(aR, cR)
	wptsKept(g, dg)
	wptsKept(h, dh)
	verifrt.Reach("end")
}

// VerifPowerOfTwo: every int64.
func VerifPowerOfTwo() {
	verifrt.Expect("yes,no")
	x := verifrt.I64("x", -9223372036854775808, 9223372036854775807)
	want := false
	for k := 0; k < 63; k++ {
		if x == int64(1)<<uint(k) {
			want = true
		}
	}
	r := IsPowerOfTwo(x)
	verifrt.Assert(r == want, "true exactly for 1, 2, 4, ..., 2^62")
	if r {
		verifrt.Reach("yes")
	} else {
		verifrt.Reach("no")
	}
}

// VerifSetup: every int64 as the range end.
func VerifSetup() {
	verifrt.Expect("accepted,refused")
	b := verifrt.I64("b", -9223372036854775808, 9223372036854775807)
	want := int64(0)
	for n := int64(1); n <= 32; n *= 2 {
		if b == int64(1)<<uint(n) {
			want = n
		}
	}
	p, err := Setup(b)
	if want == 0 {
		verifrt.Assert(err != nil, "other range ends are refused")
		verifrt.Reach("refused")
		return
	}
	verifrt.Assert(err == nil, "range ends 2^N with N = 1, 2, 4, 8, 16, 32 are accepted")
	verifrt.Assert(p.N == want, "N bits")
	verifrt.Assert(int64(len(p.Gg)) == want && int64(len(p.Hh)) == want, "N generators on each side")
	verifrt.Reach("accepted")
}

// VerifGenerators: the generators are independent (given that hashing to the
// curve yields points without known relations).
func VerifGenerators() {
	verifrt.Expect("end")
	n := verifrt.Param("N")
	p, err := Setup(vPow2(n).Int64())
	verifrt.Assert(err == nil, "accepted")
	pts := append(append([]*p256.P256{p.G, p.H}, p.Gg...), p.Hh...)
	if verifrt.Param("ipp") == 1 { // the additional generator of the inner product argument
		q, err := setupInnerProduct(p.H, p.Gg, p.Hh, big.NewInt(0), n)
		verifrt.Assert(err == nil, "accepted")
		pts = append(pts, q.Uu)
	}
	cs := make([]*big.Int, len(pts))
	sum := new(p256.P256).SetInfinity()
	for i := range pts {
		cs[i] = verifrt.Int(fmt.Sprintf("c%d", i), big.NewInt(0), new(big.Int).Sub(ORDER, big.NewInt(1)))
		sum = new(p256.P256).Multiply(sum, vMul(pts[i], cs[i]))
	}
	verifrt.Assume(sum.IsZero())
	for i := range pts {
		verifrt.Assert(cs[i].Sign() == 0, "no generator is a combination of the others")
	}
	verifrt.Reach("end")
}

// VerifDistinct: the generators are different finite points of the curve (real
// coordinates).
func VerifDistinct() {
	verifrt.Expect("end")
	n := verifrt.Param("N")
	p, err := Setup(vPow2(n).Int64())
	verifrt.Assert(err == nil, "accepted")
	q, err := setupInnerProduct(p.H, p.Gg, p.Hh, big.NewInt(0), n)
	verifrt.Assert(err == nil, "accepted")
	pts := append(append([]*p256.P256{p.H, q.Uu}, p.Gg...), p.Hh...)
	gx, _ := new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	for i := range pts {
		verifrt.Assert(pts[i].X != nil && pts[i].Y != nil, "a finite point")
		y2 := new(big.Int).Mul(pts[i].Y, pts[i].Y)
		x3 := new(big.Int).Exp(pts[i].X, big.NewInt(3), nil)
		x3.Add(x3, big.NewInt(7))
		x3.Sub(x3, y2)
		verifrt.Assert(x3.Mod(x3, p256.CURVE.P).Sign() == 0, "a point of the curve")
		verifrt.Assert(pts[i].X.Cmp(gx) != 0, "different from the base point")
		for j := 0; j < i; j++ {
			verifrt.Assert(pts[i].X.Cmp(pts[j].X) != 0, "different generators, not even inverses")
		}
	}
	verifrt.Reach("end")
}
