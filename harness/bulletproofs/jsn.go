package bulletproofs

import (
	"encoding/json"
	"math"
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/verifrt"
)

// vWire sends v through its JSON form; how: by value, by pointer, indented.
func vWire(v, p, into interface{}) {
	var b []byte
	var err error
	switch verifrt.Param("how") {
	case 0:
		b, err = json.Marshal(v)
	case 1:
		b, err = json.Marshal(p)
	default:
		b, err = json.MarshalIndent(v, "", " ")
	}
	verifrt.Assert(err == nil, "encoding succeeds")
	verifrt.Assert(json.Unmarshal(b, into) == nil, "decoding succeeds")
}

// An honest proof verifies on the other side.
func VerifJSONHonest() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	top := vPow2(n)
	pr, err := Prove(verifrt.Int("secret", big.NewInt(0), top.Sub(top, big.NewInt(1))), p)
	verifrt.Assert(err == nil, "Prove succeeds")
	var dec BulletProof
	vWire(pr, &pr, &dec)
	verifrt.Reach("decoded")
	verifrt.Expect("decoded")
	ok, err := dec.Verify()
	verifrt.Assert(err == nil && ok, "an honest proof verifies after decoding")
	verifrt.Assert(vSame(dec.V, pr.V), "the decoded proof is about the same commitment")
	ok, _ = pr.Verify()
	verifrt.Assert(ok, "encoding leaves the proof valid")
}

// vNumber is a scalar, any number if the parameter wide is 1.
func vNumber(name string) *big.Int {
	if verifrt.Param("wide") == 0 {
		return vScalar(name)
	}
	lim := new(big.Int).Lsh(big.NewInt(1), 300)
	return verifrt.Int(name, new(big.Int).Neg(lim), lim)
}

// Whatever the proof, the decoded one has the same verification result.
func VerifJSONAny() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	k := verifrt.Param("rounds")
	pr := BulletProof{V: vPoint("V"), A: vPoint("A"), S: vPoint("S"), T1: vPoint("T1"), T2: vPoint("T2"),
		Taux: vNumber("taux"), Mu: vNumber("mu"), Tprime: vNumber("tprime"), Commit: vPoint("commit"), Params: p}
	ip := &pr.InnerProductProof
	for j := int64(0); j < k; j++ {
		ip.Ls = append(ip.Ls, vPoint("L"+string(rune('0'+j))))
		ip.Rs = append(ip.Rs, vPoint("R"+string(rune('0'+j))))
	}
	ip.A, ip.B = vNumber("a"), vNumber("b")
	ip.N = n
	ip.U, ip.P = vPoint("U"), vPoint("P")
	ip.Params = InnerProductParams{N: n, Cc: vScalar("cc"), Uu: vPoint("Uu"), H: vPoint("ipH"), P: vPoint("ipP")}
	var dec BulletProof
	vWire(pr, &pr, &dec)
	verifrt.Reach("decoded")
	verifrt.Expect("decoded")
	if verifrt.Param("wide") == 1 {
		ok1, _ := pr.Verify()
		ok2, _ := dec.Verify()
		verifrt.Assert(ok1 == ok2, "the decoded proof is accepted exactly when the original is")
		return
	}
	c65, c67, cip := vSpec(&pr)
	ok, _ := dec.Verify()
	verifrt.Assert(ok == verifrt.All(c65, c67, cip), "the decoded proof is accepted exactly when the encoded one satisfies the equations")
}

// The same for a proof made from an honest one by adding any number to one of
// its scalars.
func VerifJSONAltered() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	top := vPow2(n)
	pr, err := Prove(verifrt.Int("secret", big.NewInt(0), top.Sub(top, big.NewInt(1))), p)
	verifrt.Assert(err == nil, "Prove succeeds")
	lim := new(big.Int).Lsh(big.NewInt(1), 300)
	d := verifrt.Int("delta", new(big.Int).Neg(lim), lim)
	if verifrt.Param("mult") == 1 {
		d = new(big.Int).Mul(ORDER, verifrt.Int("mult", big.NewInt(-9), big.NewInt(9)))
	}
	switch verifrt.Param("field") {
	case 0:
		pr.Taux = new(big.Int).Add(pr.Taux, d)
	case 1:
		pr.Mu = new(big.Int).Add(pr.Mu, d)
	case 2:
		pr.Tprime = new(big.Int).Add(pr.Tprime, d)
	case 3:
		pr.InnerProductProof.A = new(big.Int).Add(pr.InnerProductProof.A, d)
	case 4:
		pr.InnerProductProof.B = new(big.Int).Add(pr.InnerProductProof.B, d)
	}
	var dec BulletProof
	vWire(pr, &pr, &dec)
	ok1, _ := pr.Verify()
	ok2, _ := dec.Verify()
	verifrt.Reach("decoded")
	verifrt.Expect("decoded")
	verifrt.Assert(ok1 == ok2, "the decoded proof is accepted exactly when the original is")
}

// Generic proofs keep their interval.
func VerifJSONGeneric() {
	n := verifrt.Param("N")
	a, b, params := vGeneric(n)
	s := verifrt.Int("secret", big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64))
	verifrt.Assume(s.Cmp(a) >= 0 && s.Cmp(b) < 0)
	pr, err := ProveGeneric(s, params)
	verifrt.Assert(err == nil, "a secret in [a, b) can be proved")
	var dec ProofBPRP
	vWire(pr, &pr, &dec)
	verifrt.Reach("decoded")
	verifrt.Expect("decoded")
	verifrt.Assert(dec.A == params.A && dec.B == params.B, "the interval survives")
	verifrt.Assert(vSame(dec.P1.V, pr.P1.V) && vSame(dec.P2.V, pr.P2.V), "the decoded proof is about the same commitments")
	ok, err := dec.Verify()
	verifrt.Assert(err == nil && ok, "an honest generic proof verifies after decoding")
}

// Parameters can be sent as well: a proof made with the decoded ones verifies
// and has the generators of the original.
func VerifJSONParams() {
	n := verifrt.Param("N")
	p, _ := Setup(vPow2(n).Int64())
	var dec BulletProofSetupParams
	vWire(p, &p, &dec)
	top := vPow2(n)
	pr, err := Prove(verifrt.Int("secret", big.NewInt(0), top.Sub(top, big.NewInt(1))), dec)
	verifrt.Assert(err == nil, "Prove succeeds with decoded parameters")
	verifrt.Reach("proved")
	verifrt.Expect("proved")
	pr.Params = p
	ok, err := pr.Verify()
	verifrt.Assert(err == nil && ok, "a proof made with decoded parameters verifies with the original ones")
}

// A proof of the inner product argument on its own.
func VerifJSONInner() {
	n := verifrt.Param("N")
	a, b := vVec("a", n), vVec("b", n)
	params, _ := setupInnerProduct(nil, nil, nil, vDot(a, b), n)
	commit := commitInnerProduct(params.Gg, params.Hh, a, b)
	pr, err := proveInnerProduct(a, b, commit, params)
	verifrt.Assert(err == nil, "proving succeeds")
	var dec InnerProductProof
	vWire(pr, &pr, &dec)
	verifrt.Reach("decoded")
	verifrt.Expect("decoded")
	ok, err := dec.Verify()
	verifrt.Assert(err == nil && ok, "an honest inner product proof verifies after decoding")
}

// vCoords is a point with arbitrary coordinates.
func vCoords(name string) *p256.P256 {
	lim := new(big.Int).Lsh(big.NewInt(1), 300)
	return &p256.P256{X: verifrt.Int(name+".x", new(big.Int).Neg(lim), lim), Y: verifrt.Int(name+".y", new(big.Int).Neg(lim), lim)}
}

func vSameCoords(a, b *p256.P256) bool {
	return a != nil && b != nil && a.X != nil && b.X != nil && a.Y != nil && b.Y != nil && a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

// Points of the curve or not, all coordinates arrive as they were sent: the
// challenges and equations of the verifier are functions of them.
func VerifJSONCoordinates() {
	lim := new(big.Int).Lsh(big.NewInt(1), 300)
	num := func(name string) *big.Int { return verifrt.Int(name, new(big.Int).Neg(lim), lim) }
	one := func(name string) []*p256.P256 { return []*p256.P256{vCoords(name)} }
	params := BulletProofSetupParams{N: 1, G: vCoords("G"), H: vCoords("H"), Gg: one("Gg"), Hh: one("Hh")}
	ip := InnerProductProof{N: 1, Ls: one("L"), Rs: one("R"), U: vCoords("U"), P: vCoords("P"), Gg: vCoords("g"), Hh: vCoords("h"), A: num("a"), B: num("b"),
		Params: InnerProductParams{N: 1, Cc: num("cc"), Uu: vCoords("Uu"), H: vCoords("ipH"), Gg: one("ipGg"), Hh: one("ipHh"), P: vCoords("ipP")}}
	pr := BulletProof{V: vCoords("V"), A: vCoords("A"), S: vCoords("S"), T1: vCoords("T1"), T2: vCoords("T2"), Taux: num("taux"), Mu: num("mu"),
		Tprime: num("tprime"), InnerProductProof: ip, Commit: vCoords("commit"), Params: params}
	var q BulletProof
	vWire(pr, &pr, &q)
	verifrt.Reach("decoded")
	verifrt.Expect("decoded")
	verifrt.Assert(vSameCoords(pr.V, q.V) && vSameCoords(pr.A, q.A) && vSameCoords(pr.S, q.S) && vSameCoords(pr.T1, q.T1) && vSameCoords(pr.T2, q.T2) && vSameCoords(pr.Commit, q.Commit), "the points are the same")
	cong := func(a, b *big.Int) bool {
		return a != nil && b != nil && new(big.Int).Mod(new(big.Int).Sub(a, b), ORDER).Sign() == 0
	}
	verifrt.Assert(cong(pr.Taux, q.Taux) && cong(pr.Mu, q.Mu), "the scalars are congruent")
	verifrt.Assert(q.Tprime != nil && pr.Tprime.Cmp(q.Tprime) == 0, "the inner product, which is hashed, is the same")
	d := q.InnerProductProof
	verifrt.Assert(len(d.Ls) == 1 && len(d.Rs) == 1 && vSameCoords(ip.Ls[0], d.Ls[0]) && vSameCoords(ip.Rs[0], d.Rs[0]), "the points of the rounds are the same")
	verifrt.Assert(cong(ip.A, d.A) && cong(ip.B, d.B), "the last factors are congruent")
	verifrt.Assert(q.Params.N == 1 && vSameCoords(params.H, q.Params.H) && len(q.Params.Gg) == 1 && vSameCoords(params.Gg[0], q.Params.Gg[0]) && len(q.Params.Hh) == 1 && vSameCoords(params.Hh[0], q.Params.Hh[0]), "the parameters are the same")
}
