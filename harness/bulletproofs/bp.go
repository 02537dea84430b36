package bulletproofs

import (
	"crypto/sha256"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util/byteconversion"
	"github.com/ing-bank/zkrp/verifrt"
)

func vPow2(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// An honest proof about any secret in [0, 2^N) verifies.
func VerifBPComplete() {
	n := verifrt.Param("N")
	params, err := Setup(vPow2(n).Int64())
	verifrt.Assert(err == nil, "Setup accepts a supported range end")
	top := vPow2(n)
	secret := verifrt.Int("secret", big.NewInt(0), top.Sub(top, big.NewInt(1)))
	proof, err := Prove(secret, params)
	verifrt.Assert(err == nil, "Prove succeeds for a secret in the range")
	verifrt.Expect("proved")
	verifrt.Reach("proved")
	ok, err := proof.Verify()
	verifrt.Assert(err == nil, "Verify returns no error for an honest proof")
	verifrt.Assert(ok, "Verify accepts an honest proof for a secret in the range")
}

// ---- the documented verification equations, computed independently -----------------

func vSha(s string) *big.Int {
	h := sha256.New()
	h.Write([]byte(s))
	return new(big.Int).SetBytes(h.Sum(nil))
}

// vHash are the two challenges derived from a list of points.
func vHash(pts ...*p256.P256) (*big.Int, *big.Int) {
	s := ""
	for _, p := range pts {
		s += p.X.String() + p.Y.String()
	}
	y := vSha(s)
	return y, vSha(s + y.String())
}

func vAdd(ps ...*p256.P256) *p256.P256 {
	r := new(p256.P256).SetInfinity()
	for _, p := range ps {
		r = new(p256.P256).Multiply(r, p)
	}
	return r
}

func vMul(p *p256.P256, k *big.Int) *p256.P256 { return new(p256.P256).ScalarMult(p, k) }

func vBase(k *big.Int) *p256.P256 { return new(p256.P256).ScalarBaseMult(k) }

func vSame(a, b *p256.P256) bool {
	return vAdd(a, vMul(b, big.NewInt(-1))).IsZero()
}

func vM(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r = new(big.Int).Mod(new(big.Int).Mul(r, x), ORDER)
	}
	return r
}

func vA(xs ...*big.Int) *big.Int {
	r := big.NewInt(0)
	for _, x := range xs {
		r = new(big.Int).Mod(new(big.Int).Add(r, x), ORDER)
	}
	return r
}

func vNeg(x *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Neg(x), ORDER) }

func vInv(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, ORDER) }

func vPows(x *big.Int, n int64) []*big.Int {
	r := []*big.Int{big.NewInt(1)}
	for i := int64(1); i < n; i++ {
		r = append(r, vM(r[i-1], x))
	}
	return r
}

// vNonzero excludes challenges that are 0 modulo the order.
func vNonzero(xs ...*big.Int) {
	for _, x := range xs {
		verifrt.Assume(new(big.Int).Mod(x, ORDER).Sign() != 0)
	}
}

// vHp are the generators h_i^(y^-i).
func vHp(h []*p256.P256, y *big.Int, n int64) []*p256.P256 {
	yi := vPows(vInv(y), n)
	r := make([]*p256.P256, n)
	for i := range r {
		r[i] = vMul(h[i], yi[i])
	}
	return r
}

// Each challenge is hashed from u, the statement folded so far and the round's messages.
// vIPP: u^(ab) . prod g_i^(a s_i) . prod h_i^(b / s_i) = P . prod L_j^(x_j^2) . R_j^(x_j^-2).
func vIPP(g, h []*p256.P256, u, P *p256.P256, Ls, Rs []*p256.P256, a, b *big.Int) bool {
	n, k := len(g), len(Ls)
	rhs := P
	xs, xi := make([]*big.Int, k), make([]*big.Int, k)
	for j := 0; j < k; j++ {
		x, _ := vHash(u, rhs, Ls[j], Rs[j])
		vNonzero(x)
		xs[j], xi[j] = x, vInv(x)
		rhs = vAdd(rhs, vMul(Ls[j], vM(x, x)), vMul(Rs[j], vM(xi[j], xi[j])))
	}
	lhs := vMul(u, vM(a, b))
	for i := 0; i < n; i++ {
		s, t := big.NewInt(1), big.NewInt(1)
		for j := 0; j < k; j++ {
			if i>>(uint(k-1-j))&1 == 1 {
				s, t = vM(s, xs[j]), vM(t, xi[j])
			} else {
				s, t = vM(s, xi[j]), vM(t, xs[j])
			}
		}
		lhs = vAdd(lhs, vMul(g[i], vM(a, s)), vMul(h[i], vM(b, t)))
	}
	return vSame(lhs, rhs)
}

// vHashIP is the challenge that separates the inner product from the vectors.
func vHashIP(g, h []*p256.P256, P *p256.P256, c *big.Int) *big.Int {
	s := P.String()
	for i := range g {
		s += g[i].String() + h[i].String()
	}
	d := sha256.New()
	d.Write([]byte(s + c.String()))
	r, _ := byteconversion.FromByteArray(d.Sum(nil))
	return r
}

func vSpec(pr *BulletProof) (c65, c67, cip bool) {
	p := pr.Params
	n := p.N
	y, z := vHash(pr.V, pr.A, pr.S)
	x, _ := vHash(pr.V, pr.A, pr.S, pr.T1, pr.T2)
	vNonzero(y, z, x)
	ys, twos := vPows(y, n), vPows(big.NewInt(2), n)
	sy := vA(ys...)
	s2 := vA(twos...)
	z2 := vM(z, z)
	// g^tprime h^taux = V^(z^2) g^delta T1^x T2^(x^2)
	delta := vA(vM(vA(z, vNeg(z2)), sy), vNeg(vM(z2, z, s2)))
	c65 = vSame(vAdd(vBase(pr.Tprime), vMul(p.H, pr.Taux)),
		vAdd(vMul(pr.V, z2), vBase(delta), vMul(pr.T1, x), vMul(pr.T2, vM(x, x))))
	// A S^x g^-z h'^(z y^n + z^2 2^n) = h^mu Commit
	hp := vHp(p.Hh, y, n)
	l := vAdd(pr.A, vMul(pr.S, x))
	for i := int64(0); i < n; i++ {
		l = vAdd(l, vMul(p.Gg[i], vNeg(z)), vMul(hp[i], vA(vM(z, ys[i]), vM(z2, twos[i]))))
	}
	c67 = vSame(l, vAdd(vMul(p.H, pr.Mu), pr.Commit))
	// the inner product argument is about g, h', Commit and tprime
	ip := pr.InnerProductProof
	if len(ip.Ls) != len(ip.Rs) || int64(1)<<uint(len(ip.Ls)) != n {
		return c65, c67, false
	}
	uu, _ := p256.MapToGroup(SEEDU)
	u := vMul(uu, vHashIP(p.Gg[:n], hp, pr.Commit, pr.Tprime))
	cip = vIPP(p.Gg[:n], hp, u, vAdd(pr.Commit, vMul(u, pr.Tprime)), ip.Ls, ip.Rs, ip.A, ip.B)
	return
}

var vMax = new(big.Int).Sub(ORDER, big.NewInt(1))

func vScalar(name string) *big.Int { return verifrt.Int(name, big.NewInt(0), vMax) }

func vPoint(name string) *p256.P256 { return vBase(vScalar(name)) }

// VerifBPExact: whatever the proof, it is accepted exactly when the documented
// equations hold for the challenges hashed from all earlier messages.
func VerifBPExact() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	k := verifrt.Param("rounds")
	pr := BulletProof{V: vPoint("V"), A: vPoint("A"), S: vPoint("S"), T1: vPoint("T1"), T2: vPoint("T2"),
		Taux: vScalar("taux"), Mu: vScalar("mu"), Tprime: vScalar("tprime"), Commit: vPoint("commit"), Params: p}
	if verifrt.Param("gens") == 1 {
		// generators with known relations as well
		pr.Params.H = vPoint("H")
		for i := range p.Gg {
			pr.Params.Gg[i] = vPoint("g" + string(rune('0'+i)))
			pr.Params.Hh[i] = vPoint("h" + string(rune('0'+i)))
		}
	}
	ip := &pr.InnerProductProof
	for j := int64(0); j < k; j++ {
		ip.Ls = append(ip.Ls, vPoint("L"+string(rune('0'+j))))
		ip.Rs = append(ip.Rs, vPoint("R"+string(rune('0'+j))))
	}
	ip.A, ip.B = vScalar("a"), vScalar("b")
	// the fields the verifier must not rely on
	ip.N = n
	ip.U, ip.P = vPoint("U"), vPoint("P")
	ip.Params = InnerProductParams{N: n, Cc: vScalar("cc"), Uu: vPoint("Uu"), H: vPoint("ipH"), P: vPoint("ipP")}
	for i := int64(0); i < n; i++ {
		ip.Params.Gg = append(ip.Params.Gg, vPoint("ipg"+string(rune('0'+i))))
		ip.Params.Hh = append(ip.Params.Hh, vPoint("iph"+string(rune('0'+i))))
	}
	c65, c67, cip := vSpec(&pr)
	ok, _ := pr.Verify()
	verifrt.Reach("verified")
	verifrt.Expect("verified")
	verifrt.Assert(!ok || c65, "an accepted proof satisfies the polynomial identity t(x)")
	verifrt.Assert(!ok || c67, "an accepted proof opens the vector commitment to the committed l(x), r(x)")
	verifrt.Assert(!ok || cip, "an accepted proof proves the inner product of that commitment")
	verifrt.Assert(ok || !c65 || !c67 || !cip, "a proof satisfying all the equations is accepted")
}

// VerifBPHonest: honest proofs satisfy those equations, so the prover's
// challenges too depend on every earlier message.
func VerifBPHonest() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	top := vPow2(n)
	pr, err := Prove(verifrt.Int("secret", big.NewInt(0), top.Sub(top, big.NewInt(1))), p)
	verifrt.Assert(err == nil, "Prove succeeds for a secret in the range")
	c65, c67, cip := vSpec(&pr)
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	verifrt.Assert(c65, "the polynomial identity holds with the challenges hashed from all earlier messages")
	verifrt.Assert(c67, "the vector commitment opens with the challenges hashed from all earlier messages")
	verifrt.Assert(cip, "the inner product argument uses the challenges hashed from its statement and rounds")
	y, z := vHash(pr.V, pr.A, pr.S)
	verifrt.Assert(verifrt.Draws() > 0, "the prover is randomised")
	_ = y
	_ = z
}

// VerifBPExclude: a prover that follows the protocol with a secret outside
// [0, 2^N) never convinces the verifier.
func VerifBPExclude() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	secret := verifrt.Int("secret", vNegBig(vMax), vMax)
	// secret < 0 or secret >= 2^N
	verifrt.Assume(new(big.Int).Div(secret, vPow2(n)).Sign() != 0)
	pr, err := Prove(secret, p)
	if err != nil {
		verifrt.Reach("refused")
		return
	}
	verifrt.Expect("proof")
	verifrt.Reach("proof")
	y, z := vHash(pr.V, pr.A, pr.S)
	x, _ := vHash(pr.V, pr.A, pr.S, pr.T1, pr.T2)
	vNonzero(x, y, z)
	ok, _ := pr.Verify()
	verifrt.Assert(!ok, "a secret outside the range is not proved")
}

func vNegBig(x *big.Int) *big.Int { return new(big.Int).Neg(x) }

// VerifBPTamper: no response of a valid proof can be altered.
func VerifBPTamper() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	top := vPow2(n)
	pr, _ := Prove(verifrt.Int("secret", big.NewInt(0), top.Sub(top, big.NewInt(1))), p)
	d := verifrt.Int("delta", big.NewInt(1), vMax)
	y, z := vHash(pr.V, pr.A, pr.S)
	x, _ := vHash(pr.V, pr.A, pr.S, pr.T1, pr.T2)
	vNonzero(x, y, z)
	if verifrt.Param("warm") == 1 {
		ok, _ := pr.Verify()
		verifrt.Assert(ok, "the honest proof is accepted")
	}
	what := ""
	switch verifrt.Param("field") {
	case 0:
		what = "Taux"
		pr.Taux = vA(pr.Taux, d)
	case 1:
		what = "Mu"
		pr.Mu = vA(pr.Mu, d)
	case 2:
		what = "Tprime"
		pr.Tprime = vA(pr.Tprime, d)
	case 3:
		what = "Commit"
		pr.Commit = vAdd(pr.Commit, vBase(d))
	case 4:
		what = "Commit along g"
		pr.Commit = vAdd(pr.Commit, vMul(p.Gg[0], d))
	case 5:
		what = "Tprime with the commitment V opened differently"
		// shift t and taux together: still not accepted
		pr.Tprime = vA(pr.Tprime, d)
		pr.Taux = vA(pr.Taux, vNeg(d))
	case 6:
		what = "Mu and Commit together"
		// Commit absorbs the change of Mu: the inner product argument must fail
		pr.Mu = vA(pr.Mu, d)
		pr.Commit = vAdd(pr.Commit, vMul(p.H, vNeg(d)))
	case 7:
		what = "the claimed inner product argument's statement"
		// replace the whole inner product argument by one about another commitment
		a := []*big.Int{}
		b := []*big.Int{}
		for i := int64(0); i < n; i++ {
			a = append(a, vScalar("a"+string(rune('0'+i))))
			b = append(b, vScalar("b"+string(rune('0'+i))))
		}
		c, _ := ScalarProduct(a, b)
		ipp, _ := setupInnerProduct(p.H, p.Gg, p.Hh, c, n)
		commit := commitInnerProduct(p.Gg, p.Hh, a, b)
		pr.InnerProductProof, _ = proveInnerProduct(a, b, commit, ipp)
		pr.Taux = vA(pr.Taux, d)
	}
	ok, _ := pr.Verify()
	verifrt.Reach("checked")
	verifrt.Expect("checked")
	verifrt.Assert(!ok, "a valid proof with another "+what+" is rejected")
}

// ---- inner product argument ------------------------------------------------------------

func vVec(name string, n int64) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = vScalar(name + string(rune('0'+i)))
	}
	return r
}

func vDot(a, b []*big.Int) *big.Int {
	r := big.NewInt(0)
	for i := range a {
		r = vA(r, vM(a[i], b[i]))
	}
	return r
}

func VerifIPPComplete() {
	n := verifrt.Param("N")
	a, b := vVec("a", n), vVec("b", n)
	c := vDot(a, b)
	params, err := setupInnerProduct(nil, nil, nil, c, n)
	verifrt.Assert(err == nil, "the setup succeeds")
	commit := commitInnerProduct(params.Gg, params.Hh, a, b)
	spec := new(p256.P256).SetInfinity()
	for i := range a {
		spec = vAdd(spec, vMul(params.Gg[i], a[i]), vMul(params.Hh[i], b[i]))
	}
	verifrt.Assert(vSame(commit, spec), "the commitment is prod g_i^a_i h_i^b_i")
	proof, err := proveInnerProduct(a, b, commit, params)
	verifrt.Assert(err == nil, "the prover succeeds")
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	ok, err := proof.Verify()
	verifrt.Assert(err == nil && ok, "a proof for the true inner product verifies")
}

// A wrong claimed inner product is refused.
func VerifIPPExclude() {
	n := verifrt.Param("N")
	a, b := vVec("a", n), vVec("b", n)
	c := vScalar("c")
	verifrt.Assume(c.Cmp(vDot(a, b)) != 0)
	params, _ := setupInnerProduct(nil, nil, nil, c, n)
	commit := commitInnerProduct(params.Gg, params.Hh, a, b)
	proof, err := proveInnerProduct(a, b, commit, params)
	if err != nil {
		return
	}
	vNonzero(vHashIP(params.Gg, params.Hh, commit, c))
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	ok, _ := proof.Verify()
	verifrt.Assert(!ok, "a wrong inner product is refused")
}

// The verifier decides exactly the documented equation, and refuses proofs
// with the wrong number of rounds.
func VerifIPPExact() {
	n := verifrt.Param("N")
	params, _ := setupInnerProduct(nil, nil, nil, vScalar("c"), n)
	params.P = vPoint("P")
	pr := InnerProductProof{N: n, U: vPoint("U"), A: vScalar("a"), B: vScalar("b"), Params: params}
	for j := int64(0); j < verifrt.Param("rounds"); j++ {
		pr.Ls = append(pr.Ls, vPoint("L"+string(rune('0'+j))))
	}
	for j := int64(0); j < verifrt.Param("rrounds"); j++ {
		pr.Rs = append(pr.Rs, vPoint("R"+string(rune('0'+j))))
	}
	spec := false
	if len(pr.Ls) == len(pr.Rs) && int64(1)<<uint(len(pr.Ls)) == n {
		spec = vIPP(params.Gg, params.Hh, pr.U, params.P, pr.Ls, pr.Rs, pr.A, pr.B)
	}
	ok, _ := pr.Verify()
	verifrt.Reach("verified")
	verifrt.Expect("verified")
	verifrt.Assert(ok == spec, "the verifier decides P = g^a h^b u^ab after folding")
}

// No response of a valid inner product proof can be altered.
func VerifIPPTamper() {
	n := verifrt.Param("N")
	a, b := vVec("a", n), vVec("b", n)
	params, _ := setupInnerProduct(nil, nil, nil, vDot(a, b), n)
	commit := commitInnerProduct(params.Gg, params.Hh, a, b)
	pr, _ := proveInnerProduct(a, b, commit, params)
	d := verifrt.Int("delta", big.NewInt(1), vMax)
	switch verifrt.Param("field") {
	case 0:
		pr.A = vA(pr.A, d)
	case 1:
		pr.B = vA(pr.B, d)
	case 2:
		pr.Params.P = vAdd(pr.Params.P, vBase(d))
	case 3:
		pr.Params.P = vAdd(pr.Params.P, vMul(params.Gg[n-1], d))
	case 4:
		pr.Params.P = vAdd(pr.Params.P, vMul(params.Hh[0], d))
	}
	ok, _ := pr.Verify()
	verifrt.Reach("checked")
	verifrt.Expect("checked")
	verifrt.Assert(!ok, "an altered inner product proof is rejected")
}

// ---- proofs for [A, B) -----------------------------------------------------------------

func vGeneric(n int64) (a, b *big.Int, params *bprp) {
	MAX_RANGE_END = vPow2(n).Int64()
	ai := verifrt.I64("a", math.MinInt64, math.MaxInt64)
	bi := verifrt.I64("b", math.MinInt64, math.MaxInt64)
	a, b = big.NewInt(ai), big.NewInt(bi)
	d := new(big.Int).Sub(b, a)
	verifrt.Assume(d.Sign() > 0 && d.Cmp(vPow2(n)) <= 0)
	params, err := SetupGeneric(ai, bi)
	verifrt.Assert(err == nil, "the setup accepts the interval")
	return
}

func VerifGenericComplete() {
	n := verifrt.Param("N")
	a, b, params := vGeneric(n)
	s := verifrt.Int("secret", big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64))
	verifrt.Assume(s.Cmp(a) >= 0 && s.Cmp(b) < 0)
	pr, err := ProveGeneric(s, params)
	verifrt.Assert(err == nil, "a secret in [a, b) can be proved")
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	ok, err := pr.Verify()
	verifrt.Assert(err == nil && ok, "a proof for a secret in [a, b) verifies")
}

func VerifGenericExclude() {
	n := verifrt.Param("N")
	a, b, params := vGeneric(n)
	s := verifrt.Int("secret", vNegBig(vPow2(200)), vPow2(200))
	if verifrt.Param("side") == 0 {
		verifrt.Assume(s.Cmp(a) < 0)
	} else {
		verifrt.Assume(s.Cmp(b) >= 0)
	}
	pr, err := ProveGeneric(s, params)
	if err != nil {
		return
	}
	for _, p := range []*BulletProof{&pr.P1, &pr.P2} {
		y, z := vHash(p.V, p.A, p.S)
		x, _ := vHash(p.V, p.A, p.S, p.T1, p.T2)
		vNonzero(x, y, z)
	}
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	ok, _ := pr.Verify()
	verifrt.Assert(!ok, "a secret outside [a, b) is not proved")
}

// Two valid proofs are only accepted together when they are about the same
// secret and the interval the proof names.
func VerifGenericLink() {
	n := verifrt.Param("N")
	_, _, params := vGeneric(n)
	top := vPow2(n)
	top.Sub(top, big.NewInt(1))
	s1 := verifrt.Int("s1", big.NewInt(0), top)
	s2 := verifrt.Int("s2", big.NewInt(0), top)
	p1, _ := Prove(s1, params.BP1)
	p2, _ := Prove(s2, params.BP2)
	pr := ProofBPRP{A: params.A, B: params.B, P1: p1, P2: p2}
	// V1 = V2 + (A - B + 2^N) G
	shift := new(big.Int).Sub(big.NewInt(params.A), big.NewInt(params.B))
	shift.Add(shift, vPow2(n))
	link := vSame(p1.V, vAdd(p2.V, vBase(shift)))
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	ok, _ := pr.Verify()
	verifrt.Assert(ok == link, "two proofs are accepted together exactly when their commitments differ by the interval's shift")
}

// An honest proof moved to another interval is rejected.
func VerifGenericMoved() {
	n := verifrt.Param("N")
	a, b, params := vGeneric(n)
	s := verifrt.Int("secret", big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64))
	verifrt.Assume(s.Cmp(a) >= 0 && s.Cmp(b) < 0)
	pr, _ := ProveGeneric(s, params)
	w := verifrt.I64("width", math.MinInt64, math.MaxInt64)
	_ = w
	na := verifrt.I64("a2", math.MinInt64, math.MaxInt64)
	nb := verifrt.I64("b2", math.MinInt64, math.MaxInt64)
	d1 := new(big.Int).Sub(b, a)
	d2 := new(big.Int).Sub(big.NewInt(nb), big.NewInt(na))
	verifrt.Assume(d1.Cmp(d2) != 0)
	pr.A, pr.B = na, nb
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	ok, _ := pr.Verify()
	verifrt.Assert(!ok, "a proof relabelled with an interval of another width is rejected")
}

// Both parts must verify.
func VerifGenericParts() {
	n := verifrt.Param("N")
	a, b, params := vGeneric(n)
	s := verifrt.Int("secret", big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64))
	verifrt.Assume(s.Cmp(a) >= 0 && s.Cmp(b) < 0)
	pr, _ := ProveGeneric(s, params)
	d := verifrt.Int("delta", big.NewInt(1), vMax)
	if verifrt.Param("part") == 0 {
		pr.P1.Mu = vA(pr.P1.Mu, d)
	} else {
		pr.P2.Mu = vA(pr.P2.Mu, d)
	}
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	ok, _ := pr.Verify()
	verifrt.Assert(!ok, "a generic proof with an invalid part is rejected")
}

// ---- verification and proving leave their inputs alone ------------------------------------

func VerifBPPure() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	top := vPow2(n)
	secret := verifrt.Int("secret", big.NewInt(0), top.Sub(top, big.NewInt(1)))
	sn := verifrt.Snap(secret, &p)
	pr, err := Prove(secret, p)
	verifrt.Assert(err == nil, "Prove succeeds")
	verifrt.Assert(verifrt.Unchanged(sn), "Prove leaves the secret and the parameters unchanged")
	// any proof, valid or not
	pr.Mu = vA(pr.Mu, vScalar("dmu"))
	pr.InnerProductProof.A = vA(pr.InnerProductProof.A, vScalar("da"))
	sn = verifrt.Snap(&pr)
	ok1, _ := pr.Verify()
	verifrt.Assert(verifrt.Unchanged(sn), "Verify leaves the proof unchanged")
	ok2, _ := pr.Verify()
	verifrt.Assert(ok1 == ok2, "verifying twice gives the same answer")
	verifrt.Reach("done")
	verifrt.Expect("done")
}

func VerifIPPPure() {
	n := verifrt.Param("N")
	a, b := vVec("a", n), vVec("b", n)
	params, _ := setupInnerProduct(nil, nil, nil, vScalar("c"), n)
	commit := commitInnerProduct(params.Gg, params.Hh, a, b)
	sn := verifrt.Snap(a, b, commit, &params)
	pr, _ := proveInnerProduct(a, b, commit, params)
	verifrt.Assert(verifrt.Unchanged(sn), "proving leaves the vectors, the commitment and the parameters unchanged")
	sn = verifrt.Snap(&pr)
	ok1, _ := pr.Verify()
	verifrt.Assert(verifrt.Unchanged(sn), "verifying leaves the proof unchanged")
	ok2, _ := pr.Verify()
	verifrt.Assert(ok1 == ok2, "verifying twice gives the same answer")
	verifrt.Reach("done")
	verifrt.Expect("done")
}

func VerifGenericPure() {
	n := verifrt.Param("N")
	a, b, params := vGeneric(n)
	s := verifrt.Int("secret", big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64))
	verifrt.Assume(s.Cmp(a) >= 0 && s.Cmp(b) < 0)
	sn := verifrt.Snap(s, params)
	pr, _ := ProveGeneric(s, params)
	verifrt.Assert(verifrt.Unchanged(sn), "proving leaves the secret and the parameters unchanged")
	pr.P2.Mu = vA(pr.P2.Mu, vScalar("dmu"))
	sn = verifrt.Snap(&pr)
	ok1, _ := pr.Verify()
	verifrt.Assert(verifrt.Unchanged(sn), "verifying leaves the proof unchanged")
	ok2, _ := pr.Verify()
	verifrt.Assert(ok1 == ok2, "verifying twice gives the same answer")
	verifrt.Reach("done")
	verifrt.Expect("done")
}

// VerifHashBP: the two challenges are hashed from both points, the second also
// from the first.
func VerifHashBP() {
	verifrt.Expect("end")
	a, s := vPoint("a"), vPoint("s")
	y, z, err := HashBP(a, s)
	wy, wz := vHash(a, s)
	verifrt.Assert(err == nil && y.Cmp(wy) == 0 && z.Cmp(wz) == 0, "both points are hashed")
	verifrt.Reach("end")
}
