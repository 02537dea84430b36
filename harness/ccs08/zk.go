package ccs08

import (
	"crypto/sha256"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/byteconversion"
	"github.com/ing-bank/zkrp/verifrt"
)

var vQ = bn256.Order
var vMax = new(big.Int).Sub(bn256.Order, big.NewInt(1))

func vScalar(name string) *big.Int { return verifrt.Int(name, big.NewInt(0), vMax) }

func vIdx(name string, i int64) string { return name + string(rune('0'+i)) }

func vM(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r = new(big.Int).Mod(new(big.Int).Mul(r, x), vQ)
	}
	return r
}

func vNeg(x *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Neg(x), vQ) }

func v2(k *big.Int) *bn256.G2                 { return new(bn256.G2).ScalarBaseMult(k) }
func v2mul(p *bn256.G2, k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarMult(p, k) }
func v2add(ps ...*bn256.G2) *bn256.G2 {
	r := new(bn256.G2)
	r.SetInfinity()
	for _, p := range ps {
		r = new(bn256.G2).Add(r, p)
	}
	return r
}
func v2same(a, b *bn256.G2) bool { return v2add(a, v2mul(b, big.NewInt(-1))).IsZero() }

func vTmul(p *bn256.GT, k *big.Int) *bn256.GT { return new(bn256.GT).ScalarMult(p, k) }
func vTadd(a, b *bn256.GT) *bn256.GT          { return new(bn256.GT).Add(a, b) }
func vTsame(a, b *bn256.GT) bool              { return vTadd(a, vTmul(b, big.NewInt(-1))).IsOne() }

// vT is a GT element.
func vT(k *big.Int) *bn256.GT { return vTmul(util.E, k) }

// vChallenge is the challenge: the hash of all elements sent before it.
func vChallenge(a []*bn256.GT, D ...*bn256.G2) *big.Int {
	h := sha256.New()
	for _, x := range a {
		h.Write([]byte(x.String()))
	}
	for _, x := range D {
		h.Write([]byte(x.String()))
	}
	r, _ := byteconversion.FromByteArray(h.Sum(nil))
	return new(big.Int).Mod(r, vQ)
}

func vPow(u, i int64) *big.Int {
	return new(big.Int).Exp(big.NewInt(u), big.NewInt(i), nil)
}

// ---- set membership -------------------------------------------------------------------

var vSets = [][]int64{{7}, {12, 42, 61, 71}, {0, -5, 9223372036854775807}, {3, 3, 8}}

func vSet() ([]int64, paramsSet) {
	s := vSets[verifrt.Param("set")]
	p, err := SetupSet(s)
	if err != nil {
		vSignable(s)
	}
	verifrt.Assert(err == nil, "the setup succeeds")
	return s, p
}

// vSignable assumes that the key drawn can sign every element. (A setup may fail
// for other keys.)
func vSignable(s []int64) {
	for i := 0; i < verifrt.Draws(); i++ {
		for _, e := range s {
			k := new(big.Int).Add(verifrt.Draw(i), big.NewInt(e))
			verifrt.Assume(k.Mod(k, vQ).Sign() != 0)
		}
	}
}

func vUpTo(u int64) []int64 {
	s := make([]int64, u)
	for i := range s {
		s[i] = int64(i)
	}
	return s
}

func VerifSetComplete() {
	s, p := vSet()
	x := s[verifrt.Param("i")]
	pr, err := ProveSet(x, vScalar("r"), p)
	verifrt.Assert(err == nil, "a member of the set can be proved")
	verifrt.Reach("proved")
	verifrt.Expect("proved,blinded")
	verifrt.Assume(!pr.V.IsZero())
	verifrt.Reach("blinded")
	ok, err := VerifySet(&pr, &p)
	verifrt.Assert(err == nil && ok, "a membership proof for an element of the set verifies")
}

// Whatever the key, the setup either fails or yields usable parameters.
func VerifSetKeys() {
	s := vSets[verifrt.Param("set")]
	p, err := SetupSet(s)
	verifrt.Expect("failed,worked,blinded")
	if err != nil {
		verifrt.Reach("failed")
		vSignable(s)
		verifrt.Assert(false, "the setup only fails for keys that can not sign an element")
		return
	}
	verifrt.Reach("worked")
	pr, err := ProveSet(s[0], vScalar("r"), p)
	verifrt.Assert(err == nil, "a member of the set can be proved")
	verifrt.Assume(!pr.V.IsZero())
	verifrt.Reach("blinded")
	ok, err := VerifySet(&pr, &p)
	verifrt.Assert(err == nil && ok, "a membership proof for an element of the set verifies")
}

func VerifULKeys() {
	p, err := SetupUL(verifrt.Param("u"), verifrt.Param("l"))
	verifrt.Expect("failed,worked,blinded")
	if err != nil {
		verifrt.Reach("failed")
		vSignable(vUpTo(verifrt.Param("u")))
		verifrt.Assert(false, "the setup only fails for keys that can not sign a digit")
		return
	}
	verifrt.Reach("worked")
	pr, err := ProveUL(big.NewInt(1), vScalar("r"), p)
	verifrt.Assert(err == nil, "a member of the interval can be proved")
	verifrt.Assume(!vBlank(&pr))
	verifrt.Reach("blinded")
	ok, err := VerifyUL(&pr, &p)
	verifrt.Assert(err == nil && ok, "the proof verifies")
}

// Elements outside the set get no proof.
func VerifSetExclude() {
	s, p := vSet()
	x := verifrt.I64("x", -9223372036854775808, 9223372036854775807)
	for _, e := range s {
		verifrt.Assume(x != e)
	}
	verifrt.Reach("outside")
	verifrt.Expect("outside")
	pr, err := ProveSet(x, vScalar("r"), p)
	if err != nil {
		return
	}
	ok, _ := VerifySet(&pr, &p)
	verifrt.Assert(!ok, "an element outside the set is not proved")
}

// A proof is accepted exactly when the documented equations hold for the
// challenge hashed from everything the prover committed to.
func VerifSetExact() {
	_, p := vSet()
	pr := proofSet{V: v2(vScalar("V")), D: v2(vScalar("D")), C: v2(vScalar("C")), a: vT(vScalar("a")),
		zsig: vScalar("zsig"), zv: vScalar("zv"), c: vScalar("c"), zr: vScalar("zr")}
	c := vChallenge([]*bn256.GT{pr.a}, pr.D, pr.C, pr.V)
	if verifrt.Param("chal") == 1 {
		pr.c = c
	}
	fs := pr.c.Cmp(c) == 0
	// D = C^c H^zr g^zsig
	e1 := v2same(pr.D, v2add(v2mul(pr.C, pr.c), v2mul(p.H, pr.zr), v2(pr.zsig)))
	// a = e(V,y)^c e(V,g)^-zsig e(g,g)^zv
	e2 := vTsame(pr.a, vTadd(vTadd(vTmul(bn256.Pair(p.kp.Pubk, pr.V), pr.c),
		vTmul(bn256.Pair(util.G1, pr.V), vNeg(pr.zsig))), vTmul(util.E, pr.zv)))
	// any value has the blinded signature at infinity
	e3 := !pr.V.IsZero()
	ok, _ := VerifySet(&pr, &p)
	verifrt.Reach("verified")
	verifrt.Expect("verified")
	verifrt.Assert(!ok || fs, "an accepted proof carries the challenge of its transcript")
	verifrt.Assert(!ok || e1, "an accepted proof opens the commitment")
	verifrt.Assert(!ok || e2, "an accepted proof knows a signature on the committed value")
	verifrt.Assert(!ok || e3, "an accepted proof contains no blinded signature at infinity")
	verifrt.Assert(ok || !fs || !e1 || !e2 || !e3, "a proof satisfying all the equations is accepted")
}

func VerifSetHonest() {
	s, p := vSet()
	r := vScalar("r")
	x := s[verifrt.Param("i")]
	pr, err := ProveSet(x, r, p)
	verifrt.Assert(err == nil, "a member of the set can be proved")
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	c := vChallenge([]*bn256.GT{pr.a}, pr.D, pr.C, pr.V)
	verifrt.Assert(pr.c.Cmp(c) == 0, "the challenge is hashed from everything the prover committed to")
	verifrt.Assert(v2same(pr.C, v2add(v2(big.NewInt(x)), v2mul(p.H, r))), "the proof is about the commitment g^x h^r")
	verifrt.Assert(v2same(pr.D, v2add(v2mul(pr.C, c), v2mul(p.H, pr.zr), v2(pr.zsig))), "the responses open the commitment")
	verifrt.Assert(vTsame(pr.a, vTadd(vTadd(vTmul(bn256.Pair(p.kp.Pubk, pr.V), c),
		vTmul(bn256.Pair(util.G1, pr.V), vNeg(pr.zsig))), vTmul(util.E, pr.zv))), "the responses know the signature")
}

func VerifSetTamper() {
	s, p := vSet()
	pr, _ := ProveSet(s[0], vScalar("r"), p)
	if verifrt.Param("warm") == 1 {
		verifrt.Assume(!pr.V.IsZero())
		ok, _ := VerifySet(&pr, &p)
		verifrt.Assert(ok, "the honest proof is accepted")
	}
	d := verifrt.Int("delta", big.NewInt(1), vMax)
	add := func(x *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Add(x, d), vQ) }
	switch verifrt.Param("field") {
	case 0:
		pr.zr = add(pr.zr)
	case 1:
		pr.zsig = add(pr.zsig)
	case 2:
		pr.zv = add(pr.zv)
	case 3:
		pr.c = add(pr.c)
	case 4: // cancelled in the first equation
		pr.zsig = add(pr.zsig)
		pr.zr = new(big.Int).Mod(new(big.Int).Sub(pr.zr, vM(d, new(big.Int).ModInverse(vHlog, vQ))), vQ)
	}
	ok, _ := VerifySet(&pr, &p)
	verifrt.Reach("checked")
	verifrt.Expect("checked")
	verifrt.Assert(!ok, "an altered membership proof is rejected")
}

// the discrete logarithm of H in this implementation
var vHlog, _ = new(big.Int).SetString("18560948149108576432482904553159745978835170526553990798435819795989606410925", 10)

// A challenge chosen by the prover instead of hashed: a forged proof for a
// value that is not in the set.
func VerifSetForge() {
	_, p := vSet()
	x, r, zr, zs, zv, c := vScalar("x"), vScalar("r"), vScalar("zr"), vScalar("zs"), vScalar("zv"), vScalar("c")
	pr := proofSet{V: v2(vScalar("V")), zr: zr, zsig: zs, zv: zv, c: c}
	pr.C = v2add(v2(x), v2mul(p.H, r))
	pr.D = v2add(v2mul(pr.C, c), v2mul(p.H, zr), v2(zs))
	pr.a = vTadd(vTadd(vTmul(bn256.Pair(p.kp.Pubk, pr.V), c), vTmul(bn256.Pair(util.G1, pr.V), vNeg(zs))), vTmul(util.E, zv))
	h := vChallenge([]*bn256.GT{pr.a}, pr.D, pr.C, pr.V)
	verifrt.Assume(h.Cmp(c) != 0)
	ok, _ := VerifySet(&pr, &p)
	verifrt.Reach("checked")
	verifrt.Expect("checked")
	verifrt.Assert(!ok, "a proof simulated for a chosen challenge is rejected")
}

// ---- [0, u^l) ----------------------------------------------------------------------------

// vBlank: some blinded signature is infinity. Such proofs are not accepted (they
// would satisfy the equations for any value); a prover gets one when the
// blinding exponent it draws is zero.
func vBlank(pr *proofUL) bool {
	var c []bool
	for _, V := range pr.V {
		c = append(c, !V.IsZero())
	}
	return !verifrt.All(c...)
}

func vUL() (u, l int64, p paramsUL) {
	u, l = verifrt.Param("u"), verifrt.Param("l")
	p, err := SetupUL(u, l)
	if err != nil {
		vSignable(vUpTo(u))
	}
	verifrt.Assert(err == nil, "the setup succeeds")
	return
}

func VerifULComplete() {
	u, l, p := vUL()
	top := vPow(u, l)
	x := verifrt.Int("x", big.NewInt(0), top.Sub(top, big.NewInt(1)))
	pr, err := ProveUL(x, vScalar("r"), p)
	verifrt.Assert(err == nil, "a secret in [0, u^l) can be proved")
	verifrt.Reach("proved")
	verifrt.Expect("proved,blinded")
	verifrt.Assume(!vBlank(&pr))
	verifrt.Reach("blinded")
	ok, err := VerifyUL(&pr, &p)
	verifrt.Assert(err == nil && ok, "a proof for a secret in [0, u^l) verifies")
}

func VerifULExclude() {
	u, l, p := vUL()
	x := verifrt.Int("x", vNegBig(vMax), vMax)
	verifrt.Assume(new(big.Int).Div(x, vPow(u, l)).Sign() != 0)
	verifrt.Reach("outside")
	verifrt.Expect("outside")
	pr, err := ProveUL(x, vScalar("r"), p)
	if err != nil {
		return
	}
	verifrt.Assume(pr.c.Sign() != 0)
	ok, _ := VerifyUL(&pr, &p)
	verifrt.Assert(!ok, "a secret outside [0, u^l) is not proved")
}

func vNegBig(x *big.Int) *big.Int { return new(big.Int).Neg(x) }

func vULspec(pr *proofUL, p *paramsUL, u, l int64, c *big.Int) (e1, e2 bool) {
	d := v2add(v2mul(pr.C, c), v2mul(p.H, pr.zr))
	for i := int64(0); i < l; i++ {
		d = v2add(d, v2(vM(pr.zsig[i], vPow(u, i))))
	}
	e1 = v2same(pr.D, d)
	e2 = true
	for i := int64(0); i < l; i++ {
		e := vTsame(pr.a[i], vTadd(vTadd(vTmul(bn256.Pair(p.kp.Pubk, pr.V[i]), c),
			vTmul(bn256.Pair(util.G1, pr.V[i]), vNeg(pr.zsig[i]))), vTmul(util.E, pr.zv[i])))
		e2 = e2 && e
	}
	return
}

func VerifULExact() {
	u, l, p := vUL()
	pr := proofUL{D: v2(vScalar("D")), C: v2(vScalar("C")), c: vScalar("c"), zr: vScalar("zr")}
	for i := int64(0); i < l; i++ {
		pr.V = append(pr.V, v2(vScalar(vIdx("V", i))))
		pr.a = append(pr.a, vT(vScalar(vIdx("a", i))))
		pr.zsig = append(pr.zsig, vScalar(vIdx("zsig", i)))
		pr.zv = append(pr.zv, vScalar(vIdx("zv", i)))
	}
	c := vChallenge(pr.a, append([]*bn256.G2{pr.D, pr.C}, pr.V...)...)
	if verifrt.Param("chal") == 1 {
		pr.c = c
	}
	fs := pr.c.Cmp(c) == 0
	e1, e2 := vULspec(&pr, &p, u, l, pr.c)
	e3 := !vBlank(&pr)
	ok, _ := VerifyUL(&pr, &p)
	verifrt.Reach("verified")
	verifrt.Expect("verified")
	verifrt.Assert(!ok || fs, "an accepted proof carries the challenge of its transcript")
	verifrt.Assert(!ok || e1, "an accepted proof opens the commitment")
	verifrt.Assert(!ok || e2, "an accepted proof knows a signature on every committed digit")
	verifrt.Assert(!ok || e3, "an accepted proof contains no blinded signature at infinity")
	verifrt.Assert(ok || !fs || !e1 || !e2 || !e3, "a proof satisfying all the equations is accepted")
}

func VerifULHonest() {
	u, l, p := vUL()
	top := vPow(u, l)
	x := verifrt.Int("x", big.NewInt(0), top.Sub(top, big.NewInt(1)))
	r := vScalar("r")
	pr, err := ProveUL(x, r, p)
	verifrt.Assert(err == nil, "a secret in [0, u^l) can be proved")
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	c := vChallenge(pr.a, append([]*bn256.G2{pr.D, pr.C}, pr.V...)...)
	verifrt.Assert(pr.c.Cmp(c) == 0, "the challenge is hashed from everything the prover committed to")
	verifrt.Assert(v2same(pr.C, v2add(v2(x), v2mul(p.H, r))), "the proof is about the commitment g^x h^r")
	e1, e2 := vULspec(&pr, &p, u, l, c)
	verifrt.Assert(e1, "the responses open the commitment")
	verifrt.Assert(e2, "the responses know the signatures on the digits")
}

func VerifULTamper() {
	u, l, p := vUL()
	top := vPow(u, l)
	x := verifrt.Int("x", big.NewInt(0), top.Sub(top, big.NewInt(1)))
	pr, _ := ProveUL(x, vScalar("r"), p)
	if verifrt.Param("warm") == 1 {
		for _, e := range pr.V {
			verifrt.Assume(!e.IsZero())
		}
		ok, _ := VerifyUL(&pr, &p)
		verifrt.Assert(ok, "the honest proof is accepted")
	}
	d := verifrt.Int("delta", big.NewInt(1), vMax)
	add := func(x *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Add(x, d), vQ) }
	i := verifrt.Param("i")
	switch verifrt.Param("field") {
	case 0:
		pr.zr = add(pr.zr)
	case 1:
		pr.zsig[i] = add(pr.zsig[i])
	case 2:
		pr.zv[i] = add(pr.zv[i])
	case 3:
		pr.c = add(pr.c)
	case 4: // cancelled in the first equation
		pr.zsig[i] = add(pr.zsig[i])
		pr.zr = new(big.Int).Mod(new(big.Int).Sub(pr.zr, vM(d, vPow(u, i), new(big.Int).ModInverse(vHlog, vQ))), vQ)
	}
	ok, _ := VerifyUL(&pr, &p)
	verifrt.Reach("checked")
	verifrt.Expect("checked")
	verifrt.Assert(!ok, "an altered range proof is rejected")
}

func VerifULForge() {
	u, l, p := vUL()
	c := vScalar("c")
	pr := proofUL{zr: vScalar("zr"), c: c}
	pr.C = v2add(v2(vScalar("x")), v2mul(p.H, vScalar("r")))
	pr.D = v2add(v2mul(pr.C, c), v2mul(p.H, pr.zr))
	for i := int64(0); i < l; i++ {
		pr.V = append(pr.V, v2(vScalar(vIdx("V", i))))
		pr.zsig = append(pr.zsig, vScalar(vIdx("zsig", i)))
		pr.zv = append(pr.zv, vScalar(vIdx("zv", i)))
		pr.D = v2add(pr.D, v2(vM(pr.zsig[i], vPow(u, i))))
		pr.a = append(pr.a, vTadd(vTadd(vTmul(bn256.Pair(p.kp.Pubk, pr.V[i]), c), vTmul(bn256.Pair(util.G1, pr.V[i]), vNeg(pr.zsig[i]))), vTmul(util.E, pr.zv[i])))
	}
	h := vChallenge(pr.a, append([]*bn256.G2{pr.D, pr.C}, pr.V...)...)
	verifrt.Assume(h.Cmp(c) != 0)
	ok, _ := VerifyUL(&pr, &p)
	verifrt.Reach("checked")
	verifrt.Expect("checked")
	verifrt.Assert(!ok, "a proof simulated for a chosen challenge is rejected")
}

// ---- [a, b) --------------------------------------------------------------------------------

// vRange sets up [a, b): with the implementation's own base for fixed ends
// (u = 0), or with digits in base u and any ends the digits can represent.
func vRange() (z *ccs08, a, b *big.Int) {
	z = new(ccs08)
	u, l := verifrt.Param("u"), verifrt.Param("l")
	if u == 0 {
		ai, bi := verifrt.Param("a"), verifrt.Param("b")
		err := z.Setup(ai, bi)
		if err != nil {
			vSignable(vUpTo(57))
		}
		verifrt.Assert(err == nil, "the setup accepts the interval")
		return z, big.NewInt(ai), big.NewInt(bi)
	}
	ai := verifrt.I64("a", -9223372036854775808, 9223372036854775807)
	bi := verifrt.I64("b", -9223372036854775808, 9223372036854775807)
	a, b = big.NewInt(ai), big.NewInt(bi)
	d := new(big.Int).Sub(b, a)
	verifrt.Assume(d.Sign() > 0 && d.Cmp(vPow(u, l)) <= 0)
	p, err := SetupUL(u, l)
	if err != nil {
		vSignable(vUpTo(u))
	}
	verifrt.Assert(err == nil, "the setup succeeds")
	z.p = &params{p: &p, a: ai, b: bi}
	return z, a, b
}

func vSecretIn(a, b *big.Int) *big.Int {
	x := verifrt.Int("x", big.NewInt(-9223372036854775808), big.NewInt(9223372036854775807))
	verifrt.Assume(x.Cmp(a) >= 0 && x.Cmp(b) < 0)
	return x
}

func VerifRangeComplete() {
	z, a, b := vRange()
	z.x = vSecretIn(a, b)
	z.r = vScalar("r")
	err := z.Prove()
	verifrt.Assert(err == nil, "a secret in [a, b) can be proved")
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	verifrt.Assume(!vBlank(&z.proof_out.p1) && !vBlank(&z.proof_out.p2))
	if verifrt.Param("u") != 0 {
		verifrt.Expect("blinded")
		verifrt.Reach("blinded")
	}
	ok, err := z.Verify()
	verifrt.Assert(err == nil && ok, "a proof for a secret in [a, b) verifies")
}

func VerifRangeExclude() {
	z, a, b := vRange()
	lim := new(big.Int).Lsh(big.NewInt(1), 200)
	z.x = verifrt.Int("x", vNegBig(lim), lim)
	if verifrt.Param("side") == 0 {
		verifrt.Assume(z.x.Cmp(a) < 0)
	} else {
		verifrt.Assume(z.x.Cmp(b) >= 0)
	}
	z.r = vScalar("r")
	verifrt.Reach("outside")
	verifrt.Expect("outside")
	ok := false
	// a prover that cannot produce a proof may leave an incomplete one behind
	done := verifrt.Try(func() {
		err := z.Prove()
		if err != nil {
			return
		}
		if z.proof_out.p1.c != nil {
			verifrt.Assume(z.proof_out.p1.c.Sign() != 0)
		}
		if z.proof_out.p2.c != nil {
			verifrt.Assume(z.proof_out.p2.c.Sign() != 0)
		}
		ok, _ = z.Verify()
	})
	verifrt.Assert(!done || !ok, "a secret outside [a, b) is not proved")
}

// Two valid parts are accepted together exactly when they are about the same
// secret and this interval.
func VerifRangeLink() {
	z, a, b := vRange()
	p := z.p.p
	top := vPow(p.u, p.l)
	top.Sub(top, big.NewInt(1))
	x1, x2 := verifrt.Int("x1", big.NewInt(0), top), verifrt.Int("x2", big.NewInt(0), top)
	r1, r2 := vScalar("r1"), vScalar("r2")
	var e1, e2 error
	z.proof_out.p1, e1 = ProveUL(x1, r1, *p)
	z.proof_out.p2, e2 = ProveUL(x2, r2, *p)
	verifrt.Assert(e1 == nil && e2 == nil, "secrets in [0, u^l) can be proved")
	shift := new(big.Int).Add(new(big.Int).Sub(a, b), vPow(p.u, p.l))
	link := v2same(z.proof_out.p1.C, v2add(z.proof_out.p2.C, v2(shift)))
	verifrt.Reach("proved")
	verifrt.Expect("proved,blinded")
	verifrt.Assume(!vBlank(&z.proof_out.p1) && !vBlank(&z.proof_out.p2))
	verifrt.Reach("blinded")
	ok, _ := z.Verify()
	verifrt.Assert(ok == link, "two proofs are accepted together exactly when their commitments differ by the interval's shift")
}

func VerifRangeParts() {
	z, a, b := vRange()
	z.x = vSecretIn(a, b)
	z.r = vScalar("r")
	z.Prove()
	d := verifrt.Int("delta", big.NewInt(1), vMax)
	add := func(x *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Add(x, d), vQ) }
	if verifrt.Param("part") == 0 {
		z.proof_out.p1.zr = add(z.proof_out.p1.zr)
	} else {
		z.proof_out.p2.zr = add(z.proof_out.p2.zr)
	}
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	ok, _ := z.Verify()
	verifrt.Assert(!ok, "a range proof with an invalid part is rejected")
}

// The digits cover the interval, for every interval the setup accepts.
func VerifRangeSetup() {
	a := verifrt.I64("a", math.MinInt64, math.MaxInt64)
	b := verifrt.I64("b", math.MinInt64, math.MaxInt64)
	width := new(big.Int).Sub(big.NewInt(b), big.NewInt(a))
	// wide: the width does not fit in an int64
	verifrt.Assume(width.IsInt64() == (verifrt.Param("wide") == 0))
	z := new(ccs08)
	err := z.Setup(a, b)
	verifrt.Expect("accepted,refused")
	if err != nil {
		verifrt.Reach("refused")
		vSignable(vUpTo(57))
		verifrt.Assert(a > b || b == 1, "an interval is only refused if it is empty or ends in 1")
		return
	}
	verifrt.Reach("accepted")
	verifrt.Assert(a <= b, "an inverted interval is refused")
	verifrt.Assert(z.p.a == a && z.p.b == b, "the parameters name the interval")
	verifrt.Assert(width.Cmp(vPow(z.p.p.u, z.p.p.l)) <= 0, "the digits cover the interval")
}

// ---- inputs are left alone -------------------------------------------------------------------

// vEnc are the bytes of a proof.
func vEnc(c *big.Int, zr *big.Int, zs, zv []*big.Int, V []*bn256.G2, a []*bn256.GT, C, D *bn256.G2) []byte {
	var r []byte
	for _, p := range append([]*bn256.G2{C, D}, V...) {
		r = append(r, p.Marshal()...)
	}
	for _, p := range a {
		r = append(r, p.Marshal()...)
	}
	return r
}

func VerifULPure() {
	u, l, p := vUL()
	top := vPow(u, l)
	x := verifrt.Int("x", big.NewInt(0), top.Sub(top, big.NewInt(1)))
	r := vScalar("r")
	sn := verifrt.Snap(x, r, &p.u, &p.l, p.kp.Privk)
	pk, h := p.kp.Pubk.Marshal(), p.H.Marshal()
	pr, err := ProveUL(x, r, p)
	verifrt.Assert(err == nil, "a secret in [0, u^l) can be proved")
	verifrt.Assert(verifrt.Unchanged(sn), "proving leaves the secret, the randomness and the parameters unchanged")
	verifrt.Assert(string(pk) == string(p.kp.Pubk.Marshal()) && string(h) == string(p.H.Marshal()), "proving leaves the public key and H unchanged")
	pr.zv[0] = new(big.Int).Mod(new(big.Int).Add(pr.zv[0], vScalar("d")), vQ)
	sn = verifrt.Snap(pr.zsig, pr.zv, pr.c, pr.zr)
	enc := vEnc(pr.c, pr.zr, pr.zsig, pr.zv, pr.V, pr.a, pr.C, pr.D)
	ok1, _ := VerifyUL(&pr, &p)
	verifrt.Assert(verifrt.Unchanged(sn), "verifying leaves the responses unchanged")
	verifrt.Assert(string(enc) == string(vEnc(pr.c, pr.zr, pr.zsig, pr.zv, pr.V, pr.a, pr.C, pr.D)), "verifying leaves the group elements unchanged")
	verifrt.Assert(string(pk) == string(p.kp.Pubk.Marshal()) && string(h) == string(p.H.Marshal()), "verifying leaves the public key and H unchanged")
	ok2, _ := VerifyUL(&pr, &p)
	verifrt.Assert(ok1 == ok2, "verifying twice gives the same answer")
	verifrt.Reach("done")
	verifrt.Expect("done")
}

func VerifSetPure() {
	s, p := vSet()
	r := vScalar("r")
	sn := verifrt.Snap(r, p.kp.Privk)
	pk, h := p.kp.Pubk.Marshal(), p.H.Marshal()
	sig := p.signatures[s[0]].Marshal()
	pr, err := ProveSet(s[0], r, p)
	verifrt.Assert(err == nil, "a member can be proved")
	verifrt.Assert(verifrt.Unchanged(sn), "proving leaves the randomness and the keys unchanged")
	verifrt.Assert(string(pk) == string(p.kp.Pubk.Marshal()) && string(h) == string(p.H.Marshal()) && string(sig) == string(p.signatures[s[0]].Marshal()), "proving leaves the parameters unchanged")
	pr.zv = new(big.Int).Mod(new(big.Int).Add(pr.zv, vScalar("d")), vQ)
	sn = verifrt.Snap(pr.zsig, pr.zv, pr.c, pr.zr)
	enc := vEnc(pr.c, pr.zr, nil, nil, []*bn256.G2{pr.V}, []*bn256.GT{pr.a}, pr.C, pr.D)
	ok1, _ := VerifySet(&pr, &p)
	verifrt.Assert(verifrt.Unchanged(sn), "verifying leaves the responses unchanged")
	verifrt.Assert(string(enc) == string(vEnc(pr.c, pr.zr, nil, nil, []*bn256.G2{pr.V}, []*bn256.GT{pr.a}, pr.C, pr.D)), "verifying leaves the group elements unchanged")
	verifrt.Assert(string(pk) == string(p.kp.Pubk.Marshal()) && string(h) == string(p.H.Marshal()), "verifying leaves the parameters unchanged")
	ok2, _ := VerifySet(&pr, &p)
	verifrt.Assert(ok1 == ok2, "verifying twice gives the same answer")
	verifrt.Reach("done")
	verifrt.Expect("done")
}

// VerifHashes: the challenge of a statement is the hash of all its parts, in
// both forms the library offers.
func VerifHashes() {
	verifrt.Expect("end")
	a, b, d, e := vT(vScalar("a")), vT(vScalar("b")), v2(vScalar("d")), v2(vScalar("e"))
	one, err := util.HashSet(a, d)
	verifrt.Assert(err == nil, "the hash of an element of each group")
	verifrt.Assert(new(big.Int).Mod(one, vQ).Cmp(vChallenge([]*bn256.GT{a}, d)) == 0, "all of it is hashed")
	all, err := util.Hash([]*bn256.GT{a, b}, d, e)
	verifrt.Assert(err == nil, "the hash of several elements")
	verifrt.Assert(new(big.Int).Mod(all, vQ).Cmp(vChallenge([]*bn256.GT{a, b}, d, e)) == 0, "all of them are hashed, in order")
	none, err := util.Hash(nil, d)
	verifrt.Assert(err == nil && new(big.Int).Mod(none, vQ).Cmp(vChallenge(nil, d)) == 0, "elements of one group only")
	verifrt.Reach("end")
}

// VerifSetTwice: a second set has nothing to do with the first.
func VerifSetTwice() {
	verifrt.Expect("done")
	s, t := []int64{3, -7, 42}, []int64{42, 1 << 40}
	p, err := SetupSet(s)
	q, err2 := SetupSet(t)
	if err != nil || err2 != nil {
		vSignable(append(append([]int64(nil), s...), t...))
	}
	verifrt.Assert(err == nil && err2 == nil, "the setups succeed")
	in := func(x int64, s []int64) bool {
		for _, e := range s {
			if e == x {
				return true
			}
		}
		return false
	}
	r := vScalar("r")
	for _, x := range []int64{3, -7, 42, 1 << 40, 5} {
		for i, pp := range []paramsSet{p, q} {
			pr, err := ProveSet(x, r, pp)
			verifrt.Assert((err == nil) == in(x, [][]int64{s, t}[i]), "exactly the elements of a set are proved in it")
			if err == nil {
				verifrt.Assume(!pr.V.IsZero())
				ok, _ := VerifySet(&pr, &pp)
				verifrt.Assert(ok, "the proof is accepted")
			}
		}
	}
	verifrt.Reach("done")
}
