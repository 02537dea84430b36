package bbsignatures

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/verifrt"
)

var vQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
var vLim = new(big.Int).Lsh(big.NewInt(1), 300)

func vany(n string) *big.Int { return verifrt.Int(n, new(big.Int).Neg(vLim), vLim) }
func vscalar(n string) *big.Int {
	return verifrt.Int(n, big.NewInt(0), new(big.Int).Sub(vQ, big.NewInt(1)))
}
func v1(k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(k) }
func v2(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(k) }
func vsame1(a, b *bn256.G1) bool {
	return new(bn256.G1).Add(a, new(bn256.G1).Neg(b)).IsZero()
}
func vsame2(a, b *bn256.G2) bool {
	return new(bn256.G2).Add(a, new(bn256.G2).Neg(b)).IsZero()
}

// VerifKeygen: the keys belong together.
func VerifKeygen() {
	verifrt.Expect("end")
	kp, err := Keygen()
	verifrt.Assert(err == nil, "no error")
	verifrt.Assert(verifrt.Draws() == 1 && kp.Privk.Cmp(verifrt.Draw(0)) == 0, "the private key is the number drawn")
	verifrt.Assert(vsame1(kp.Pubk, v1(kp.Privk)), "the public key belongs to the private key")
	verifrt.Reach("end")
}

// VerifSign: any message and key.
func VerifSign() {
	verifrt.Expect("signed,refused")
	m, k := vany("m"), vany("k")
	cm, ck := new(big.Int).Set(m), new(big.Int).Set(k)
	pub := v1(k)
	s := new(big.Int).Add(m, k)
	s.Mod(s, vQ)
	sig, err := Sign(m, k)
	verifrt.Assert(m.Cmp(cm) == 0 && k.Cmp(ck) == 0, "message and key keep their values")
	if s.Sign() == 0 {
		verifrt.Assert(err != nil && sig == nil, "a message that can not be signed is an error")
		verifrt.Reach("refused")
		return
	}
	verifrt.Assert(err == nil, "every other message is signed")
	verifrt.Assert(vsame2(new(bn256.G2).ScalarMult(sig, s), v2(big.NewInt(1))), "the signature is the generator to 1/(m+k)")
	ok, err := verify(sig, m, pub)
	verifrt.Assert(err == nil && ok, "the signature verifies")
	verifrt.Reach("signed")
}

// VerifKeySign: a generated key signs.
func VerifKeySign() {
	verifrt.Expect("end")
	kp, err := Keygen()
	verifrt.Assert(err == nil, "no error")
	m := vany("m")
	s := new(big.Int).Add(m, kp.Privk)
	s.Mod(s, vQ)
	verifrt.Assume(s.Sign() != 0)
	sig, err := Sign(m, kp.Privk)
	verifrt.Assert(err == nil, "the message is signed")
	ok, err := verify(sig, m, kp.Pubk)
	verifrt.Assert(err == nil && ok, "the signature verifies under the public key")
	verifrt.Reach("end")
}

// VerifExact: any signature, message and public key.
func VerifExact() {
	verifrt.Expect("accepted,rejected")
	sg, pk, m := vscalar("sig"), vscalar("pub"), vany("m")
	sig, pub := v2(sg), v1(pk)
	csig, cpub, cm := v2(sg), v1(pk), new(big.Int).Set(m)
	ok, err := verify(sig, m, pub)
	verifrt.Assert(err == nil, "no error")
	e := new(big.Int).Add(m, pk)
	e.Mul(e, sg)
	e.Mod(e, vQ)
	verifrt.Assert(ok == (e.Cmp(big.NewInt(1)) == 0), "a signature is accepted exactly when it is the one of the message")
	verifrt.Assert(vsame2(sig, csig) && vsame1(pub, cpub) && m.Cmp(cm) == 0, "the arguments keep their values")
	if ok {
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("rejected")
	}
}

// VerifAgain: signing and verifying do not depend on earlier calls; the second
// message and key are the same objects with other values.
func VerifAgain() {
	verifrt.Expect("end")
	m, k, m2, k2 := vany("m"), vany("k"), vany("m2"), vany("k2")
	for _, p := range [][]*big.Int{{m, k}, {m2, k2}} {
		s := new(big.Int).Add(p[0], p[1])
		verifrt.Assume(s.Mod(s, vQ).Sign() != 0)
	}
	pub := v1(k)
	sig, err := Sign(m, k)
	verifrt.Assert(err == nil, "the first message is signed")
	ok, _ := verify(sig, m, pub)
	verifrt.Assert(ok, "the first signature verifies")
	s := new(big.Int).Add(m, k)
	d := new(big.Int).Sub(m2, m)
	m.Set(m2)
	ok, _ = verify(sig, m, pub)
	verifrt.Assert(ok == (d.Mod(d, vQ).Sign() == 0), "the first signature is accepted for that message only")
	k.Set(k2)
	sig2, err := Sign(m, k)
	verifrt.Assert(err == nil, "the second message is signed")
	t := new(big.Int).Add(m2, k2)
	verifrt.Assert(vsame2(new(bn256.G2).ScalarMult(sig2, t.Mod(t, vQ)), v2(big.NewInt(1))), "the second signature is for the second message and key")
	verifrt.Assert(vsame2(new(bn256.G2).ScalarMult(sig, s.Mod(s, vQ)), v2(big.NewInt(1))), "the first signature keeps its value")
	verifrt.Reach("end")
}
