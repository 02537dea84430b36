package bn256

import (
	"math/big"

	"github.com/ing-bank/zkrp/verifrt"
)

// vcoords are the affine coordinates as encoded.
func (p vany) vcoords() []*big.Int {
	if p.c != nil {
		return []*big.Int{p.c.x, p.c.y}
	}
	return []*big.Int{p.t.x.x, p.t.x.y, p.t.y.x, p.t.y.y}
}

func (p vany) vmarshal() []byte {
	if p.c != nil {
		return (&G1{p.c}).Marshal()
	}
	return (&G2{p.t}).Marshal()
}

// vunmarshal decodes into a new or a used element.
func vunmarshal(m []byte, used bool) (vany, bool) {
	if vcurve() {
		e := new(G1)
		if used {
			e.p = vfresh(true).c
		}
		r, ok := e.Unmarshal(m)
		if !ok {
			return vany{}, false
		}
		verifrt.Assert(r == e, "the receiver is returned")
		return vany{c: r.p}, true
	}
	e := new(G2)
	if used {
		e.p = vfresh(true).t
	}
	r, ok := e.Unmarshal(m)
	if !ok {
		return vany{}, false
	}
	verifrt.Assert(r == e, "the receiver is returned")
	return vany{t: r.p}, true
}

// vdecode splits an encoding.
func vdecode(m []byte, n int) []*big.Int {
	verifrt.Assert(len(m) == 32*n, "the length of the encoding")
	var r []*big.Int
	for i := 0; i < n; i++ {
		r = append(r, new(big.Int).SetBytes(m[32*i:32*i+32]))
	}
	return r
}

func vcurveEq(v vpt) bool {
	return vsq(v.Y).eq(vcube(v.X).add(vcoef().mul(vsq(vcube(v.Z)))))
}

// vtext is what String returns for the canonical affine coordinates.
func (p vany) vtext() string {
	if p.c != nil {
		return (&G1{p.c}).String()
	}
	return (&G2{p.t}).String()
}

// VerifEncode: any finite point of the curve in any representation.
func VerifEncode() {
	verifrt.Expect("end")
	a := vfinite("a")
	v := a.val()
	verifrt.Assume(vcurveEq(v))
	m := a.vmarshal()
	n := 2
	if !vcurve() {
		n = 4
	}
	c := vdecode(m, n)
	x, y := f2{vi0, c[0]}, f2{vi0, c[1]}
	if !vcurve() {
		x, y = f2{c[0], c[1]}, f2{c[2], c[3]}
	}
	for _, z := range c {
		verifrt.Assert(z.Cmp(vP) < 0, "the encoded coordinates are reduced")
	}
	verifrt.Assert(x.mul(vsq(v.Z)).eq(v.X), "the first affine coordinate is encoded")
	verifrt.Assert(y.mul(vcube(v.Z)).eq(v.Y), "the second affine coordinate is encoded")
	w := a.val()
	verifrt.Assert(w.X.mul(vsq(v.Z)).eq(v.X.mul(vsq(w.Z))) && w.Y.mul(vcube(v.Z)).eq(v.Y.mul(vcube(w.Z))), "the point keeps its value")
	verifrt.Assert(!a.infinite(), "the point stays finite")
	for i, z := range a.vmarshal() {
		verifrt.Assert(z == m[i], "encoding again gives the same bytes")
	}
	verifrt.Reach("end")
}

// VerifEncodeShort: an affine point with coordinates of any size, unreduced or
// negative; coordinate "short" may be small, the others have 32 bytes.
func VerifEncodeShort() {
	verifrt.Expect("end")
	a := vnew("a")
	one := vfresh(false)
	if vcurve() {
		one.c.z.SetInt64(1)
		a.c.z.Set(one.c.z)
	} else {
		one.t.z.y.SetInt64(1)
		a.t.z.x.SetInt64(0)
		a.t.z.y.SetInt64(1)
	}
	big248 := new(big.Int).Lsh(vi1, 248)
	var want []*big.Int
	for i, z := range a.vcoords() {
		r := vmod(z)
		if int64(i) != verifrt.Param("short") {
			verifrt.Assume(r.Cmp(big248) >= 0)
		}
		want = append(want, r)
	}
	c := vdecode(a.vmarshal(), len(want))
	for i := range want {
		verifrt.Assert(c[i].Cmp(want[i]) == 0, "the encoding is the big-endian form of the reduced coordinates")
	}
	verifrt.Reach("end")
}

// VerifEncodeInf: infinity in any representation.
func VerifEncodeInf() {
	verifrt.Expect("end")
	a, b := vinfinite("a"), vinfinite("b")
	m, k := a.vmarshal(), b.vmarshal()
	verifrt.Assert(len(m) == len(k), "infinity has one encoding")
	for i := range m {
		verifrt.Assert(m[i] == k[i], "infinity has one encoding")
	}
	for _, used := range []bool{false, true} {
		r, ok := vunmarshal(m, used)
		verifrt.Assert(ok, "the encoding of infinity is accepted")
		verifrt.Assert(r.infinite(), "infinity is decoded as infinity")
	}
	verifrt.Assert(a.infinite(), "infinity stays infinite")
	c, d := vinfinite("c"), vinfinite("d")
	verifrt.Assert(c.vtext() == d.vtext(), "infinity has one string form")
	verifrt.Reach("end")
}

// VerifDecode: any string of the right length.
func VerifDecode() {
	verifrt.Expect("infinity,rejected")
	n := 2
	if !vcurve() {
		n = 4
	}
	m := verifrt.Bytes("m", 32*n)
	cm := append([]byte(nil), m...)
	c := vdecode(m, n)
	r, ok := vunmarshal(m, verifrt.Param("used") == 1)
	for i := range m {
		verifrt.Assert(m[i] == cm[i], "the string keeps its value")
	}
	zero := true
	reduced := true
	for _, z := range c {
		zero = zero && z.Sign() == 0
		reduced = reduced && z.Cmp(vP) < 0
	}
	if vcurve() && c[0].Sign() == 0 && c[1].Cmp(vi1) == 0 {
		zero = true
	}
	if !ok {
		x, y := f2{vi0, c[0]}, f2{vi0, c[1]}
		if !vcurve() {
			x, y = f2{c[0], c[1]}, f2{c[2], c[3]}
		}
		verifrt.Assert(!zero, "infinity is accepted")
		if reduced {
			verifrt.Assert(!vcurveEq(vpt{x, y, f2one}), "reduced coordinates of a point of the curve are accepted")
		}
		verifrt.Reach("rejected")
		return
	}
	if r.infinite() {
		verifrt.Assert(zero, "only the encodings of infinity decode to infinity")
		verifrt.Reach("infinity")
		return
	}
	verifrt.Assert(!zero, "infinity is decoded as such")
	verifrt.Assert(reduced, "unreduced coordinates are rejected")
	v := r.val()
	verifrt.Assert(vcurveEq(v), "points not on the curve are rejected")
	verifrt.Assert(v.Z.eq(f2one), "decoded points are affine")
	for i, z := range r.vcoords() {
		verifrt.Assert(z.Cmp(c[i]) == 0, "the decoded coordinates are the encoded ones")
	}
	if r.c != nil {
		verifrt.Assert(r.c.t.Cmp(vi1) == 0, "t is z^2")
	} else {
		verifrt.Assert(of2(r.t.t).eq(f2one), "t is z^2")
	}
}

// VerifRoundTrip: an affine point of the curve.
func VerifRoundTrip() {
	verifrt.Expect("end")
	a := vnew("a")
	if vcurve() {
		a.c.z.SetInt64(1)
	} else {
		a.t.z.x.SetInt64(0)
		a.t.z.y.SetInt64(1)
	}
	v := a.val()
	verifrt.Assume(vcurveEq(v))
	verifrt.Assume(vnonzero(v.Y))
	m := a.vmarshal()
	for _, used := range []bool{false, true} {
		r, ok := vunmarshal(m, used)
		verifrt.Assert(ok, "the encoding of a point of the curve is accepted")
		w := r.val()
		verifrt.Assert(w.X.eq(v.X), "the decoded point has the same x")
		verifrt.Assert(w.Y.eq(v.Y), "the decoded point has the same y")
		verifrt.Assert(w.Z.eq(f2one), "the decoded point is affine")
		verifrt.Assert(r.vtext() == a.vtext(), "the string form depends on the point only")
	}
	verifrt.Reach("end")
}

// VerifText: the string form of a finite point in any representation is that
// of its affine form.
func VerifText() {
	verifrt.Expect("end")
	a := vfinite("a")
	v := a.val()
	m := vdecode(a.vmarshal(), len(a.vcoords()))
	b := vany{}
	if vcurve() {
		b.c = &curvePoint{m[0], m[1], big.NewInt(1), big.NewInt(1)}
	} else {
		b.t = &twistPoint{&gfP2{m[0], m[1]}, &gfP2{m[2], m[3]}, &gfP2{big.NewInt(0), big.NewInt(1)}, &gfP2{big.NewInt(0), big.NewInt(1)}}
	}
	c := vfinite("a")
	verifrt.Assert(c.vtext() == b.vtext(), "the string form depends on the point only")
	w := c.val()
	verifrt.Assert(w.X.mul(vsq(v.Z)).eq(v.X.mul(vsq(w.Z))) && w.Y.mul(vcube(v.Z)).eq(v.Y.mul(vcube(w.Z))), "the point keeps its value")
	verifrt.Reach("end")
}

// VerifLength: strings of a wrong length.
func VerifLength() {
	verifrt.Expect("end")
	for _, n := range []int{0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 192, 256, 383, 384, 385, 512} {
		m := verifrt.Bytes("m", n)
		if n != 64 {
			_, ok := new(G1).Unmarshal(m)
			verifrt.Assert(!ok, "a string of the wrong length is no point of the first group")
		}
		if n != 128 {
			_, ok := new(G2).Unmarshal(m)
			verifrt.Assert(!ok, "a string of the wrong length is no point of the second group")
		}
		if n != 384 {
			_, ok := new(GT).Unmarshal(m)
			verifrt.Assert(!ok, "a string of the wrong length is no element of the target group")
		}
	}
	verifrt.Reach("end")
}

func vgt(a *gfP12) []*big.Int {
	return []*big.Int{a.x.x.x, a.x.x.y, a.x.y.x, a.x.y.y, a.x.z.x, a.x.z.y, a.y.x.x, a.y.x.y, a.y.y.x, a.y.y.y, a.y.z.x, a.y.z.y}
}

// VerifGTEncode: any element in any representation.
func VerifGTEncode() {
	verifrt.Expect("end")
	a := &GT{ve12("a")}
	big248 := new(big.Int).Lsh(vi1, 248)
	var want []*big.Int
	for i, z := range vgt(a.p) {
		r := vmod(z)
		if s := verifrt.Param("short"); s >= 0 && int64(i) != s {
			verifrt.Assume(r.Cmp(big248) >= 0)
		}
		want = append(want, r)
	}
	m := a.Marshal()
	c := vdecode(m, 12)
	for i := range want {
		verifrt.Assert(c[i].Cmp(want[i]) == 0, "the encoding is the big-endian form of the reduced coordinates")
		verifrt.Assert(vmod(vgt(a.p)[i]).Cmp(want[i]) == 0, "the element keeps its value")
	}
	for used := 0; used <= 1; used++ {
		e := new(GT)
		if used == 1 {
			e.p = newGFp12(nil)
			e.p.SetOne()
		}
		r, ok := e.Unmarshal(m)
		verifrt.Assert(ok && r == e, "the encoding of an element is accepted")
		for i := range want {
			verifrt.Assert(vgt(r.p)[i].Cmp(want[i]) == 0, "the decoded element is the encoded one")
		}
		verifrt.Assert(r.String() == a.String(), "the string form depends on the value only")
	}
	b := &GT{ve12("a")}
	verifrt.Assert(b.String() == a.String(), "the string form depends on the value only")
	verifrt.Reach("end")
}

// VerifGTDecode: any string of the right length.
func VerifGTDecode() {
	verifrt.Expect("end")
	m := verifrt.Bytes("m", 384)
	c := vdecode(m, 12)
	r, ok := new(GT).Unmarshal(m)
	verifrt.Assert(ok, "a string of the right length is accepted")
	for i := range c {
		verifrt.Assert(veq(vgt(r.p)[i], c[i]), "the decoded element is the encoded one")
	}
	verifrt.Reach("end")
}
