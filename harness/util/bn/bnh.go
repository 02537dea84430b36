package bn

import (
	"crypto/sha256"
	"math/big"

	"github.com/ing-bank/zkrp/util/byteconversion"
	"github.com/ing-bank/zkrp/verifrt"
)

var vLim = new(big.Int).Lsh(big.NewInt(1), 600)

func vany(n string) *big.Int { return verifrt.Int(n, new(big.Int).Neg(vLim), vLim) }

var vMods = []string{
	"21888242871839275222246405745257275088548364400416034343698204186575808495617",
	"115792089237316195423570985008687907852837564279074904382605163141518161494337",
	"21888242871839275222246405745257275088696311157297823662689037894645226208583",
	"7", "2", "1",
}

func vmod() *big.Int {
	p, _ := new(big.Int).SetString(vMods[verifrt.Param("mod")], 10)
	return p
}

// VerifRing: sum, difference, product and remainder.
func VerifRing() {
	verifrt.Expect("end")
	x, y := vany("x"), vany("y")
	cx, cy := new(big.Int).Set(x), new(big.Int).Set(y)
	p := vmod()
	cp := new(big.Int).Set(p)
	r := Add(x, y)
	verifrt.Assert(r != x && r != y && r.Cmp(new(big.Int).Add(cx, cy)) == 0, "the sum")
	r = Sub(x, y)
	verifrt.Assert(r != x && r != y && r.Cmp(new(big.Int).Sub(cx, cy)) == 0, "the difference")
	r = Multiply(x, y)
	verifrt.Assert(r != x && r != y && r.Cmp(new(big.Int).Mul(cx, cy)) == 0, "the product")
	r = Mod(x, p)
	verifrt.Assert(r != x && r != p, "a new number is returned")
	verifrt.Assert(r.Sign() >= 0 && r.Cmp(cp) < 0, "the remainder is in [0, modulus)")
	d := new(big.Int).Sub(cx, r)
	verifrt.Assert(d.Mod(d, cp).Sign() == 0, "the remainder is congruent")
	verifrt.Assert(x.Cmp(cx) == 0 && y.Cmp(cy) == 0 && p.Cmp(cp) == 0, "the operands keep their values")
	// the same number twice
	verifrt.Assert(Add(x, x).Cmp(new(big.Int).Lsh(cx, 1)) == 0, "the double")
	verifrt.Assert(Sub(x, x).Sign() == 0, "the difference to itself")
	verifrt.Assert(Multiply(x, x).Cmp(new(big.Int).Mul(cx, cx)) == 0, "the square")
	verifrt.Assert(x.Cmp(cx) == 0, "the operand keeps its value")
	verifrt.Reach("end")
}

// VerifInverse: prime moduli.
func VerifInverse() {
	verifrt.Expect("inverted,none")
	x := vany("x")
	cx := new(big.Int).Set(x)
	p := vmod()
	cp := new(big.Int).Set(p)
	r := ModInverse(x, p)
	verifrt.Assert(x.Cmp(cx) == 0 && p.Cmp(cp) == 0, "the operands keep their values")
	if new(big.Int).Mod(cx, cp).Sign() == 0 {
		verifrt.Assert(r == nil, "zero has no inverse")
		verifrt.Reach("none")
		return
	}
	verifrt.Assert(r != nil && r != x && r != p, "every other number has an inverse")
	verifrt.Assert(r.Sign() >= 0 && r.Cmp(cp) < 0, "the inverse is reduced")
	t := new(big.Int).Mul(cx, r)
	verifrt.Assert(t.Mod(t, cp).Cmp(big.NewInt(1)) == 0, "a number times its inverse is one")
	verifrt.Reach("inverted")
}

// VerifModPow: the exponent has "bits" symbolic bits; neg: it is negative.
func VerifModPow() {
	x := vany("x")
	cx := new(big.Int).Set(x)
	p := vmod()
	cp := new(big.Int).Set(p)
	k := new(big.Int)
	if n := verifrt.Param("bits"); n > 0 {
		k = verifrt.Bits("k", int(n), true)
	}
	neg := verifrt.Param("neg") == 1 && k.Sign() != 0
	want := big.NewInt(1)
	want.Mod(want, cp)
	for i := k.BitLen() - 1; i >= 0; i-- {
		want.Mul(want, want)
		want.Mod(want, cp)
		if k.Bit(i) != 0 {
			want.Mul(want, cx)
			want.Mod(want, cp)
		}
	}
	if neg {
		verifrt.Expect("end,none")
		k.Neg(k)
	} else {
		verifrt.Expect("end")
	}
	ck := new(big.Int).Set(k)
	r := ModPow(x, k, p)
	verifrt.Assert(x.Cmp(cx) == 0 && k.Cmp(ck) == 0 && p.Cmp(cp) == 0, "the operands keep their values")
	if neg && new(big.Int).Mod(cx, cp).Sign() == 0 {
		verifrt.Assert(r == nil, "zero has no inverse")
		verifrt.Reach("none")
		return
	}
	verifrt.Assert(r != nil && r != x && r != k && r != p, "a new number is returned")
	verifrt.Assert(r.Sign() >= 0 && r.Cmp(cp) < 0, "the power is reduced")
	if neg {
		r = new(big.Int).Mul(r, want)
		r.Mod(r, cp)
		verifrt.Assert(r.Cmp(big.NewInt(1)) == 0, "the negative power is the inverse of the positive one")
	} else {
		verifrt.Assert(r.Cmp(want) == 0, "the power")
	}
	verifrt.Reach("end")
}

// VerifHash: the hash of one or two numbers of up to len bytes (nega, negb:
// negative ones) is the hash of their encodings.
func VerifHash() {
	verifrt.Expect("end")
	lim := new(big.Int).Lsh(big.NewInt(1), uint(8*verifrt.Param("len")-1))
	lim.Sub(lim, big.NewInt(1))
	a := verifrt.Int("a", big.NewInt(0), lim)
	b := verifrt.Int("b", big.NewInt(0), lim)
	if verifrt.Param("nega") == 1 {
		a.Sub(big.NewInt(-1), a)
	}
	if verifrt.Param("negb") == 1 {
		b.Sub(big.NewInt(-1), b)
	}
	ca, cb := new(big.Int).Set(a), new(big.Int).Set(b)
	var r *big.Int
	var err error
	d := sha256.New()
	d.Write(byteconversion.ToByteArray(ca))
	if verifrt.Param("two") == 1 {
		r, err = CalculateHash(a, b)
		d.Write(byteconversion.ToByteArray(cb))
	} else {
		r, err = CalculateHash(a, nil)
	}
	want, _ := byteconversion.FromByteArray(d.Sum(nil))
	verifrt.Assert(err == nil && r.Cmp(want) == 0, "the hash is that of the encodings")
	verifrt.Assert(a.Cmp(ca) == 0 && b.Cmp(cb) == 0, "the numbers keep their values")
	verifrt.Reach("end")
}

// VerifAgain: the operations depend on the values of their operands only, not
// on earlier calls; the operands of the second calls are the same objects.
func VerifAgain() {
	verifrt.Expect("end")
	x, y := vany("x"), vany("y")
	x2, y2 := vany("x2"), vany("y2")
	p := vmod()
	k := verifrt.Bits("k", 2, true)
	sum, dif, pro, rem, pow, inv := Add(x, y), Sub(x, y), Multiply(x, y), Mod(x, p), ModPow(x, k, p), ModInverse(x, p)
	sn := verifrt.Snap(sum, dif, pro, rem, pow, inv)
	x.Set(x2)
	y.Set(y2)
	k2 := verifrt.Bits("k2", 2, true)
	k.Set(k2)
	verifrt.Assert(Add(x, y).Cmp(new(big.Int).Add(x2, y2)) == 0, "the second sum")
	verifrt.Assert(Sub(x, y).Cmp(new(big.Int).Sub(x2, y2)) == 0, "the second difference")
	verifrt.Assert(Multiply(x, y).Cmp(new(big.Int).Mul(x2, y2)) == 0, "the second product")
	verifrt.Assert(Mod(x, p).Cmp(new(big.Int).Mod(x2, p)) == 0, "the second remainder")
	w := new(big.Int).Mul(x2, x2)
	if k2.Cmp(big.NewInt(3)) == 0 {
		w.Mul(w, x2)
	}
	verifrt.Assert(ModPow(x, k, p).Cmp(w.Mod(w, p)) == 0, "the second power")
	i := ModInverse(x, p)
	if new(big.Int).Mod(x2, p).Sign() == 0 {
		verifrt.Assert(i == nil, "zero has no inverse, the second time either")
	} else {
		verifrt.Assert(i != nil, "the second number has an inverse")
		t := new(big.Int).Mul(i, x2)
		verifrt.Assert(t.Mod(t, p).Cmp(big.NewInt(1)) == 0, "the second inverse")
	}
	verifrt.Assert(verifrt.Unchanged(sn), "the first results keep their values")
	verifrt.Reach("end")
}
