package p256

import (
	"math/big"

	"github.com/ing-bank/zkrp/verifrt"
)

var vOrd, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)

// vG is k*G by the curve itself, 0 < k < N or infinity.
func vG(k *big.Int) *P256 {
	k = new(big.Int).Mod(k, vOrd)
	if k.Sign() == 0 {
		return &P256{}
	}
	x, y := CURVE.ScalarBaseMult(k.Bytes())
	return &P256{X: x, Y: y}
}

func vnil(p *P256) bool { return p.X == nil || p.Y == nil || p.X.Sign() == 0 && p.Y.Sign() == 0 }

func vis(p, q *P256) bool {
	if vnil(p) || vnil(q) {
		return vnil(p) && vnil(q)
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func vcp(p *P256) *P256 {
	if p.X == nil {
		return &P256{}
	}
	return &P256{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

// vInt is any integer of the given kind: 0 in [0,N), 1 negative, 2 at least N.
func vInt(name string) *big.Int {
	big2 := new(big.Int).Lsh(big.NewInt(1), 320)
	switch verifrt.Param("range") {
	case 0:
		return verifrt.Int(name, big.NewInt(0), new(big.Int).Sub(vOrd, big.NewInt(1)))
	case 1:
		return verifrt.Int(name, new(big.Int).Neg(big2), big.NewInt(-1))
	}
	return verifrt.Int(name, vOrd, big2)
}

func VerifBaseMult() {
	n := vInt("n")
	cn := new(big.Int).Set(n)
	verifrt.Reach("multiplied")
	verifrt.Expect("multiplied")
	r := new(P256)
	if verifrt.Param("alias") == 1 {
		r = vG(verifrt.Int("old", big.NewInt(1), big.NewInt(1000)))
	}
	ret := r.ScalarBaseMult(n)
	verifrt.Assert(ret == r, "the receiver is returned")
	verifrt.Assert(n.Cmp(cn) == 0, "the scalar keeps its value")
	verifrt.Assert(vis(r, vG(cn)), "the multiple of the base point is right")
}

func VerifMult() {
	n := vInt("n")
	k := verifrt.Int("k", big.NewInt(1), new(big.Int).Sub(vOrd, big.NewInt(1)))
	a := vG(k)
	ca, cn := vcp(a), new(big.Int).Set(n)
	verifrt.Reach("multiplied")
	verifrt.Expect("multiplied")
	r := new(P256)
	if verifrt.Param("alias") == 1 {
		r = a
	}
	ret := r.ScalarMult(a, n)
	verifrt.Assert(ret == r, "the receiver is returned")
	verifrt.Assert(n.Cmp(cn) == 0, "the scalar keeps its value")
	if r != a {
		verifrt.Assert(vis(a, ca), "the point multiplied keeps its value")
	}
	verifrt.Assert(vis(r, vG(new(big.Int).Mul(k, cn))), "the multiple of a point is right")
}

func VerifMultInfinity() {
	n := vInt("n")
	verifrt.Reach("multiplied")
	verifrt.Expect("multiplied")
	for _, a := range []*P256{{}, {X: big.NewInt(0), Y: big.NewInt(0)}, new(P256).SetInfinity()} {
		r := new(P256).ScalarMult(a, n)
		verifrt.Assert(r.IsZero() && vnil(r), "multiples of infinity are infinity")
		a.ScalarMult(a, n)
		verifrt.Assert(a.IsZero() && vnil(a), "multiples of infinity are infinity")
	}
}

func VerifNegate() {
	k := verifrt.Int("k", big.NewInt(1), new(big.Int).Sub(vOrd, big.NewInt(1)))
	a := vG(k)
	ca := vcp(a)
	verifrt.Reach("negated")
	verifrt.Expect("negated")
	r := new(P256)
	switch verifrt.Param("alias") {
	case 1:
		r = a
	case 2:
		r = vG(big.NewInt(77))
	}
	ret := r.Neg(a)
	verifrt.Assert(ret == r, "the receiver is returned")
	if r != a {
		verifrt.Assert(vis(a, ca), "the negated point keeps its value")
	}
	verifrt.Assert(vis(r, vG(new(big.Int).Neg(k))), "negation yields the inverse")
	i := new(P256).Neg(new(P256).SetInfinity())
	verifrt.Assert(i.IsZero() && vnil(i), "the inverse of infinity is infinity")
	verifrt.Assert(new(P256).Multiply(r, ca).IsZero(), "a point plus its inverse is infinity")
}

// Sums of multiples.
func VerifLinear() {
	n, m := vInt("n"), vInt("m")
	verifrt.Reach("added")
	verifrt.Expect("added")
	x, y := new(P256).ScalarBaseMult(n), new(P256).ScalarBaseMult(m)
	r := new(P256).Multiply(x, y)
	verifrt.Assert(vis(r, vG(new(big.Int).Add(n, m))), "n*G + m*G = (n+m)*G")
}
