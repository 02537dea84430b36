package bulletproofs

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/verifrt"
)

func mdl(name string) *p256.P256 {
	return vBase(verifrt.Int(name, big.NewInt(1), new(big.Int).Sub(ORDER, big.NewInt(1))))
}

// mtwo makes two proofs with separate draws and the same challenges.
func mtwo(s1, s2 *big.Int, params BulletProofSetupParams) (p, q BulletProof, d, e []*big.Int) {
	a, h := verifrt.Draws(), verifrt.Hashes()
	p, err := Prove(s1, params)
	verifrt.Assert(err == nil, "no error")
	b := verifrt.Draws()
	verifrt.SameHashes(h, verifrt.Hashes())
	q, err = Prove(s2, params)
	verifrt.Assert(err == nil, "no error")
	c := verifrt.Draws()
	verifrt.Assert(b-a == int(2*params.N+5) && c-b == b-a, "one random number for each of V, A, S, T1, T2 and each entry of sL and sR")
	for i := a; i < c; i++ {
		verifrt.Assert(verifrt.DrawBound(i).Cmp(ORDER) == 0, "random numbers are drawn from all exponents")
	}
	for i := a; i < b; i++ {
		d = append(d, verifrt.Draw(i))
		e = append(e, verifrt.Draw(b-a+i))
	}
	return
}

// mfree: the published values that the verification equations leave free; N = 1.
func mfree(p, q *BulletProof) bool {
	return verifrt.All(
		p.InnerProductProof.A.Cmp(q.InnerProductProof.A) == 0, p.InnerProductProof.B.Cmp(q.InnerProductProof.B) == 0,
		vSame(p.V, q.V), vSame(p.S, q.S), vSame(p.T2, q.T2), p.Taux.Cmp(q.Taux) == 0, p.Mu.Cmp(q.Mu) == 0)
}

func mchallenges(p *BulletProof) bool {
	y, z := vHash(p.V, p.A, p.S)
	x, _ := vHash(p.V, p.A, p.S, p.T1, p.T2)
	zero := func(k *big.Int) bool { return new(big.Int).Mod(k, ORDER).Sign() == 0 }
	return !zero(y) && !zero(z) && !zero(x)
}

func mparams(n int64, dl bool) BulletProofSetupParams {
	params, err := Setup(vPow2(n).Int64())
	verifrt.Assert(err == nil, "accepted")
	if dl {
		params.H = mdl("h")
		for i := range params.Gg {
			params.Gg[i] = mdl(fmt.Sprintf("g%d", i))
			params.Hh[i] = mdl(fmt.Sprintf("k%d", i))
		}
	}
	return params
}

// VerifMaskInjective: different draws give different published values. All
// challenges but zero.
func VerifMaskInjective() {
	verifrt.Expect("end")
	n := verifrt.Param("N")
	params := mparams(n, n == 1)
	s := verifrt.Int("s", big.NewInt(0), new(big.Int).Sub(vPow2(n), big.NewInt(1)))
	p, q, d, e := mtwo(s, s, params)
	verifrt.Assume(mchallenges(&p))
	if n == 1 {
		verifrt.Assume(mfree(&p, &q))
	} else {
		verifrt.Assume(verifrt.All(vSame(p.V, q.V), vSame(p.S, q.S), vSame(p.T2, q.T2), p.Taux.Cmp(q.Taux) == 0, p.Mu.Cmp(q.Mu) == 0, vSame(p.Commit, q.Commit)))
	}
	c := make([]bool, len(d))
	for i := range d {
		c[i] = d[i].Cmp(e[i]) == 0
	}
	verifrt.Assert(verifrt.All(c...), "the published values determine the random numbers")
	verifrt.Reach("end")
}

// VerifMaskView: the published values are determined by those that the random
// numbers can set freely, whatever the secret.
func VerifMaskView() {
	verifrt.Expect("proofs")
	params := mparams(1, true)
	s1, s2 := big.NewInt(verifrt.Param("s1")), big.NewInt(verifrt.Param("s2"))
	p, q, _, _ := mtwo(s1, s2, params)
	verifrt.Assume(mchallenges(&p))
	verifrt.Reach("proofs")
	verifrt.Assume(mfree(&p, &q))
	verifrt.Assert(p.Tprime.Cmp(q.Tprime) == 0, "tprime")
	verifrt.Assert(vSame(p.T1, q.T1), "T1")
	verifrt.Assert(vSame(p.A, q.A), "A")
	verifrt.Assert(vSame(p.Commit, q.Commit), "Commit")
	verifrt.Assert(verifrt.Same(p, q), "the proofs are the same")
}

// VerifGenericMask: both halves together; interval [a, a+2), secrets a+s1 and
// a+s2. The halves share one blinding factor.
func VerifGenericMask() {
	verifrt.Expect("proofs")
	MAX_RANGE_END = 2
	ai := verifrt.I64("a", -1<<62, 1<<62)
	params, err := SetupGeneric(ai, ai+2)
	verifrt.Assert(err == nil, "accepted")
	params.BP1, params.BP2 = mparams(1, true), mparams(1, true)
	s1 := new(big.Int).Add(big.NewInt(ai), big.NewInt(verifrt.Param("s1")))
	s2 := new(big.Int).Add(big.NewInt(ai), big.NewInt(verifrt.Param("s2")))
	a, h := verifrt.Draws(), verifrt.Hashes()
	p, err := ProveGeneric(s1, params)
	verifrt.Assert(err == nil, "no error")
	b := verifrt.Draws()
	verifrt.SameHashes(h, verifrt.Hashes())
	q, err := ProveGeneric(s2, params)
	verifrt.Assert(err == nil, "no error")
	c := verifrt.Draws()
	verifrt.Assert(b-a == 13 && c-b == b-a, "one random number for the shared blinding factor and for each of A, S, T1, T2, sL and sR of both halves")
	for i := a; i < c; i++ {
		verifrt.Assert(verifrt.DrawBound(i).Cmp(ORDER) == 0, "random numbers are drawn from all exponents")
	}
	verifrt.Assume(mchallenges(&p.P1) && mchallenges(&p.P2))
	verifrt.Reach("proofs")
	verifrt.Assume(mfree(&p.P1, &q.P1))
	verifrt.Assume(mfree(&p.P2, &q.P2))
	if verifrt.Param("s1") == verifrt.Param("s2") {
		var e []bool
		for i := a; i < b; i++ {
			e = append(e, verifrt.Draw(i).Cmp(verifrt.Draw(b-a+i)) == 0)
		}
		verifrt.Assert(verifrt.All(e...), "the published values determine the random numbers")
	}
	verifrt.Assert(p.P1.Tprime.Cmp(q.P1.Tprime) == 0 && p.P2.Tprime.Cmp(q.P2.Tprime) == 0, "tprime")
	verifrt.Assert(vSame(p.P1.T1, q.P1.T1) && vSame(p.P2.T1, q.P2.T1), "T1")
	verifrt.Assert(vSame(p.P1.A, q.P1.A) && vSame(p.P2.A, q.P2.A), "A")
	verifrt.Assert(vSame(p.P1.Commit, q.P1.Commit) && vSame(p.P2.Commit, q.P2.Commit), "Commit")
	verifrt.Assert(verifrt.Same(p, q), "the proofs are the same")
}
