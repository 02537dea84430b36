package ccs08

import (
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/verifrt"
)

func mdraws(a, b int, want int64) (d []*big.Int) {
	verifrt.Assert(int64(b-a) == want, "one random number for each first message")
	for i := a; i < b; i++ {
		verifrt.Assert(verifrt.DrawBound(i).Cmp(bn256.Order) == 0, "random numbers are drawn from all exponents")
		d = append(d, verifrt.Draw(i))
	}
	return
}

func msame(d, e []*big.Int) bool {
	c := make([]bool, len(d))
	for i := range d {
		c[i] = d[i].Cmp(e[i]) == 0
	}
	return verifrt.All(c...)
}

// mset makes two membership proofs with separate draws and the same challenge.
func mset(p paramsSet, x1, x2 int64) (f, g proofSet, d, e []*big.Int) {
	r1, r2 := vScalar("r1"), vScalar("r2")
	a, h := verifrt.Draws(), verifrt.Hashes()
	f, err := ProveSet(x1, r1, p)
	verifrt.Assert(err == nil, "a member of the set can be proved")
	b := verifrt.Draws()
	verifrt.SameHashes(h, verifrt.Hashes())
	g, err = ProveSet(x2, r2, p)
	verifrt.Assert(err == nil, "a member of the set can be proved")
	c := verifrt.Draws()
	d, e = append(mdraws(a, b, 4), r1), append(mdraws(b, c, 4), r2)
	verifrt.Assume(f.c.Sign() != 0 && !p.H.IsZero())
	return
}

// msetFree: the published values that the verification equations leave free.
func msetFree(f, g *proofSet) bool {
	return verifrt.All(v2same(f.C, g.C), v2same(f.V, g.V), f.zsig.Cmp(g.zsig) == 0, f.zv.Cmp(g.zv) == 0, f.zr.Cmp(g.zr) == 0)
}

// VerifSetMask: the random numbers and the free published values determine each
// other, and those determine the others, whatever the secret.
func VerifSetMask() {
	verifrt.Expect("end")
	s, p := vSet()
	x1, x2 := s[verifrt.Param("i")], s[verifrt.Param("j")]
	f, g, d, e := mset(p, x1, x2)
	verifrt.Assume(msetFree(&f, &g))
	if x1 == x2 {
		verifrt.Assert(msame(d, e), "the published values determine the random numbers")
	}
	verifrt.Assert(v2same(f.D, g.D), "D")
	verifrt.Assert(vTsame(f.a, g.a), "a")
	verifrt.Assert(f.c.Cmp(g.c) == 0, "c")
	verifrt.Assert(verifrt.Same(f, g), "the proofs are the same")
	verifrt.Reach("end")
}

func mul(p paramsUL, x1, x2 *big.Int) (f, g proofUL, d, e []*big.Int) {
	r1, r2 := vScalar("r1"), vScalar("r2")
	a, h := verifrt.Draws(), verifrt.Hashes()
	f, err := ProveUL(x1, r1, p)
	verifrt.Assert(err == nil, "a secret in [0, u^l) can be proved")
	b := verifrt.Draws()
	verifrt.SameHashes(h, verifrt.Hashes())
	g, err = ProveUL(x2, r2, p)
	verifrt.Assert(err == nil, "a secret in [0, u^l) can be proved")
	c := verifrt.Draws()
	d, e = append(mdraws(a, b, 3*p.l+1), r1), append(mdraws(b, c, 3*p.l+1), r2)
	verifrt.Assume(f.c.Sign() != 0 && !p.H.IsZero())
	return
}

func mulFree(f, g *proofUL) bool {
	c := []bool{v2same(f.C, g.C), f.zr.Cmp(g.zr) == 0}
	for i := range f.V {
		c = append(c, v2same(f.V[i], g.V[i]), f.zsig[i].Cmp(g.zsig[i]) == 0, f.zv[i].Cmp(g.zv[i]) == 0)
	}
	return verifrt.All(c...)
}

// VerifULMask: the same for proofs of [0, u^l), all pairs of secrets (x2 < 0: one
// secret).
func VerifULMask() {
	verifrt.Expect("end")
	_, _, p := vUL()
	top := vPow(p.u, p.l)
	x1 := verifrt.Int("x1", big.NewInt(0), new(big.Int).Sub(top, big.NewInt(1)))
	x2 := x1
	if verifrt.Param("two") == 1 {
		x2 = verifrt.Int("x2", big.NewInt(0), new(big.Int).Sub(top, big.NewInt(1)))
	}
	f, g, d, e := mul(p, x1, x2)
	verifrt.Assume(mulFree(&f, &g))
	if verifrt.Param("two") == 0 {
		verifrt.Assert(msame(d, e), "the published values determine the random numbers")
	}
	verifrt.Assert(v2same(f.D, g.D), "D")
	for i := range f.a {
		verifrt.Assert(vTsame(f.a[i], g.a[i]), "a")
	}
	verifrt.Assert(f.c.Cmp(g.c) == 0, "c")
	verifrt.Assert(verifrt.Same(f, g), "the proofs are the same")
	verifrt.Reach("end")
}

// VerifRangeMask: both halves of a proof for [a, a+u^l); they share r.
func VerifRangeMask() {
	verifrt.Expect("end")
	_, _, p := vUL()
	top := vPow(p.u, p.l)
	ai := verifrt.I64("a", math.MinInt64, math.MaxInt64-top.Int64())
	prove := func(n string) (pr proof, c bool) {
		z := &ccs08{p: &params{p: &p, a: ai, b: ai + top.Int64()}}
		z.x = new(big.Int).Add(big.NewInt(ai), big.NewInt(verifrt.Param("x"+n)))
		z.r = vScalar("r" + n)
		err := z.Prove()
		verifrt.Assert(err == nil, "a secret in [a, b) can be proved")
		return z.proof_out, z.proof_out.p1.c.Sign() != 0 && z.proof_out.p2.c.Sign() != 0
	}
	a, h := verifrt.Draws(), verifrt.Hashes()
	f, ok := prove("a")
	verifrt.Assume(ok && !p.H.IsZero())
	b := verifrt.Draws()
	verifrt.SameHashes(h, verifrt.Hashes())
	g, _ := prove("b")
	c := verifrt.Draws()
	d, e := mdraws(a, b, 2*(3*p.l+1)), mdraws(b, c, 2*(3*p.l+1))
	verifrt.Assume(mulFree(&f.p1, &g.p1))
	verifrt.Assume(mulFree(&f.p2, &g.p2))
	if verifrt.Param("xa") == verifrt.Param("xb") {
		verifrt.Assert(msame(d, e), "the published values determine the random numbers")
	}
	verifrt.Assert(v2same(f.p1.D, g.p1.D) && v2same(f.p2.D, g.p2.D), "D")
	for i := range f.p1.a {
		verifrt.Assert(vTsame(f.p1.a[i], g.p1.a[i]) && vTsame(f.p2.a[i], g.p2.a[i]), "a")
	}
	verifrt.Assert(verifrt.Same(f, g), "the proofs are the same")
	verifrt.Reach("end")
}
