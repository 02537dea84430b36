package util

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/verifrt"
)

var vLim = new(big.Int).Lsh(big.NewInt(1), 300)

func vany(n string) *big.Int { return verifrt.Int(n, new(big.Int).Neg(vLim), vLim) }

var vOrd, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
var vQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func vp(k *big.Int) *p256.P256 { return new(p256.P256).ScalarBaseMult(new(big.Int).Mod(k, vOrd)) }
func vpsame(a, b *p256.P256) bool {
	return new(p256.P256).Multiply(a, new(p256.P256).Neg(b)).IsZero()
}
func v2(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(new(big.Int).Mod(k, vQ)) }
func v2same(a, b *bn256.G2) bool {
	return new(bn256.G2).Add(a, new(bn256.G2).Neg(b)).IsZero()
}
func vmul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func vadd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }

// VerifCommitG1: g^x·h^r on the curve of the bulletproofs; h any point.
func VerifCommitG1() {
	verifrt.Expect("end")
	x, r, h := vany("x"), vany("r"), vany("h")
	cx, cr := new(big.Int).Set(x), new(big.Int).Set(r)
	H := vp(h)
	if verifrt.Param("inf") == 1 {
		H = new(p256.P256).SetInfinity()
		h.SetInt64(0)
	}
	c, err := CommitG1(x, r, H)
	verifrt.Assert(err == nil, "no error")
	verifrt.Assert(vpsame(c, vp(vadd(x, vmul(r, h)))), "the commitment is g^x·h^r")
	verifrt.Assert(vpsame(H, vp(h)), "the generator keeps its value")
	verifrt.Assert(x.Cmp(cx) == 0 && r.Cmp(cr) == 0, "value and blinding factor keep their values")
	verifrt.Reach("end")
}

// VerifCommitG1Add: commitments are additive.
func VerifCommitG1Add() {
	verifrt.Expect("end")
	x, r, y, s, h := vany("x"), vany("r"), vany("y"), vany("s"), vany("h")
	H := vp(h)
	a, _ := CommitG1(x, r, H)
	b, _ := CommitG1(y, s, H)
	c, err := CommitG1(vadd(x, y), vadd(r, s), H)
	verifrt.Assert(err == nil && vpsame(c, new(p256.P256).Multiply(a, b)), "the product of commitments is the commitment to the sum")
	verifrt.Reach("end")
}

// VerifCommit: g^x·h^r in the second pairing group.
func VerifCommit() {
	verifrt.Expect("end")
	x, r, h := vany("x"), vany("r"), vany("h")
	cx, cr := new(big.Int).Set(x), new(big.Int).Set(r)
	H := v2(h)
	c, err := Commit(x, r, H)
	verifrt.Assert(err == nil, "no error")
	verifrt.Assert(v2same(c, v2(vadd(x, vmul(r, h)))), "the commitment is g^x·h^r")
	verifrt.Assert(v2same(H, v2(h)), "the generator keeps its value")
	verifrt.Assert(x.Cmp(cx) == 0 && r.Cmp(cr) == 0, "value and blinding factor keep their values")
	verifrt.Reach("end")
}

// VerifCommitAdd: commitments are additive.
func VerifCommitAdd() {
	verifrt.Expect("end")
	x, r, y, s, h := vany("x"), vany("r"), vany("y"), vany("s"), vany("h")
	H := v2(h)
	a, _ := Commit(x, r, H)
	b, _ := Commit(y, s, H)
	c, err := Commit(vadd(x, y), vadd(r, s), H)
	verifrt.Assert(err == nil && v2same(c, new(bn256.G2).Add(a, b)), "the product of commitments is the commitment to the sum")
	verifrt.Reach("end")
}

// VerifDecompose: the digits of any integer.
func VerifDecompose() {
	verifrt.Expect("inside,outside")
	u, l := verifrt.Param("u"), verifrt.Param("l")
	x := vany("x")
	cx := new(big.Int).Set(x)
	d, err := Decompose(x, u, l)
	verifrt.Assert(err == nil, "no error")
	verifrt.Assert(int64(len(d)) == l, "l digits")
	verifrt.Assert(x.Cmp(cx) == 0, "the integer keeps its value")
	s, w := new(big.Int), big.NewInt(1)
	for _, e := range d {
		verifrt.Assert(e >= 0 && e < u, "digits are in [0, u)")
		s.Add(s, new(big.Int).Mul(w, big.NewInt(e)))
		w.Mul(w, big.NewInt(u))
	}
	verifrt.Assert(s.Cmp(new(big.Int).Mod(cx, w)) == 0, "the digits are those of the integer modulo u^l")
	if cx.Sign() >= 0 && cx.Cmp(w) < 0 {
		verifrt.Assert(s.Cmp(cx) == 0, "an integer in [0, u^l) is the sum of its digits")
		verifrt.Reach("inside")
	} else {
		verifrt.Reach("outside")
	}
}

// VerifAgain: commitments and digits do not depend on earlier calls; the second
// arguments are the same objects with other values.
func VerifAgain() {
	verifrt.Expect("end")
	x, r, h, y, s, i := vany("x"), vany("r"), vany("h"), vany("y"), vany("s"), vany("i")
	H1, H2 := vp(h), v2(h)
	a, _ := CommitG1(x, r, H1)
	b, _ := Commit(x, r, H2)
	wa, wb := vp(vadd(x, vmul(r, h))), v2(vadd(x, vmul(r, h)))
	x.Set(y)
	r.Set(s)
	c, _ := CommitG1(x, r, H1)
	d, _ := Commit(x, r, H2)
	verifrt.Assert(vpsame(c, vp(vadd(y, vmul(s, h)))), "the second commitment")
	verifrt.Assert(v2same(d, v2(vadd(y, vmul(s, h)))), "the second commitment in the pairing group")
	*H1 = *vp(i)
	H2.ScalarBaseMult(new(big.Int).Mod(i, vQ))
	e, _ := CommitG1(x, r, H1)
	f, _ := Commit(x, r, H2)
	verifrt.Assert(vpsame(e, vp(vadd(y, vmul(s, i)))), "the commitment with another generator")
	verifrt.Assert(v2same(f, v2(vadd(y, vmul(s, i)))), "the commitment with another generator of the pairing group")
	verifrt.Assert(vpsame(a, wa) && v2same(b, wb), "the first commitments keep their values")
	verifrt.Reach("end")
}

func VerifDigitsAgain() {
	verifrt.Expect("end")
	u, l := verifrt.Param("u"), verifrt.Param("l")
	x, y := vany("x"), vany("y")
	first, _ := Decompose(x, u, l)
	w := append([]int64(nil), first...)
	x.Set(y)
	d, _ := Decompose(x, u, l)
	sum, f := new(big.Int), big.NewInt(1)
	for _, e := range d {
		sum.Add(sum, new(big.Int).Mul(f, big.NewInt(e)))
		f.Mul(f, big.NewInt(u))
	}
	verifrt.Assert(sum.Cmp(new(big.Int).Mod(y, f)) == 0, "the second digits are those of the second integer")
	for i, e := range w {
		verifrt.Assert(first[i] == e, "the first digits stay as they are")
	}
	verifrt.Reach("end")
}
