package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgP256 = "github.com/ing-bank/zkrp/crypto/p256"
	pkgBn   = "github.com/ing-bank/zkrp/crypto/bn256"
	pkgSecp = "github.com/ethereum/go-ethereum/crypto/secp256k1"
)

// ---- secp256k1 points (struct {X, Y *big.Int}) -------------------------------------

// ptOf interprets affine coordinates (nil for infinity) as an abstract point.
func (it *Interp) ptOf(xv, yv value) *Grp {
	x, y := xv.(*value), yv.(*value)
	if x == nil || y == nil {
		return grpZero("p256")
	}
	tx, ty := it.big(x), it.big(y)
	if tx.grp != nil && ty.grp == tx.grp && tx.name == "PtX" && ty.name == "PtY" {
		return tx.grp
	}
	if tx.op == OConst && ty.op == OConst {
		if tx.k.Sign() == 0 && ty.k.Sign() == 0 {
			return grpZero("p256")
		}
		if tx.k.Cmp(secpX) == 0 && ty.k.Cmp(secpY) == 0 {
			return grpGen("p256", "G")
		}
	}
	if tx.grp != nil && ty.grp != nil && tx.name == "PtX" && ty.name == "PtY" {
		if grpEq(tx.grp, ty.grp) == True {
			return tx.grp
		}
	}
	// (x, P - y) is the inverse of (x, y)
	if n := ty; tx.grp != nil && tx.name == "PtX" {
		if n.op == OMod && n.k.Cmp(secpP) == 0 {
			n = n.args[0]
		}
		if n.op == OLin && len(n.args) == 1 && n.coef[0].Cmp(bm1) == 0 && new(big.Int).Mod(n.k, secpP).Sign() == 0 &&
			n.args[0].grp != nil && n.args[0].name == "PtY" && grpEq(n.args[0].grp, tx.grp) == True {
			return grpMul(tx.grp, K(-1))
		}
	}
	fail("point with unrelated coordinates %s, %s", tx, ty)
	return nil
}

// coords are the affine coordinates of g as fresh big.Ints; infinity is the
// pair the real code produces for it.
func (it *Interp) coords(g *Grp, nilInf bool) (value, value) {
	if grpIsZero(g) == True {
		if nilInf {
			return (*value)(nil), (*value)(nil)
		}
		return it.newBig(K(0)), it.newBig(K(0))
	}
	return it.newBig(coord(g, "X")), it.newBig(coord(g, "Y"))
}

func (it *Interp) p256Get(v value) *Grp {
	p := v.(*value)
	if p == nil {
		panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
	}
	s := (*p).(structure)
	return it.ptOf(s[0], s[1])
}
func (it *Interp) p256Set(v value, g *Grp) value {
	p := v.(*value)
	if p == nil {
		panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
	}
	x, y := it.coords(g, true)
	s := (*p).(structure)
	it.store(it.sub(p, &s[0]), x)
	it.store(it.sub(p, &s[1]), y)
	return p
}

func init() {
	m := map[string]intrinsicFn{}
	modeIntr["p256"] = m
	pre := "(*" + pkgP256 + ".P256)."
	note := func(it *Interp) {
		it.assumed["P256 methods implement the group of order N (checked by C17, C18)"] = true
	}
	m[pre+"IsZero"] = func(it *Interp, fn *ssa.Function, a []value) value {
		note(it)
		return grpIsZero(it.p256Get(a[0]))
	}
	m[pre+"SetInfinity"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.p256Set(a[0], grpZero("p256"))
	}
	m[pre+"Neg"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.p256Set(a[0], grpMul(it.p256Get(a[1]), K(-1)))
	}
	m[pre+"Double"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.p256Set(a[0], grpMul(it.p256Get(a[1]), K(2)))
	}
	m[pre+"ScalarMult"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.p256Set(a[0], grpMul(it.p256Get(a[1]), it.big(a[2])))
	}
	m[pre+"ScalarBaseMult"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.p256Set(a[0], grpMul(grpGen("p256", "G"), it.big(a[1])))
	}
	m[pre+"Multiply"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.p256Set(a[0], grpAdd(it.p256Get(a[1]), it.p256Get(a[2])))
	}
	// Add is documented for distinct points only: equal finite operands give
	// the wrong result in the real code (infinity).
	m[pre+"Add"] = func(it *Interp, fn *ssa.Function, a []value) value {
		x, y := it.p256Get(a[1]), it.p256Get(a[2])
		same := And(grpEq(x, y), Not(grpIsZero(x)))
		return it.p256Set(a[0], mergeGrp(same, grpZero("p256"), grpAdd(x, y)))
	}
	m[pkgP256+".MapToGroup"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			fail("MapToGroup of a symbolic string")
		}
		it.assumed["MapToGroup yields generators without known relations (checked to be on the curve by C19)"] = true
		x, y := it.coords(grpGen("p256", "M:"+s), true)
		return tuple{it.newCell(structure{x, y}), iface{}}
	}
	m["("+"*"+pkgP256+".P256).IsOnCurve"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g := it.p256Get(a[0])
		if grpIsZero(g) == True {
			panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
		}
		return Not(grpIsZero(g))
	}

	// ---- contract of the curve below P256 (library code and MyBitCurve) -------------
	l := map[string]intrinsicFn{}
	modeIntr["p256low"] = l
	scalar := func(it *Interp, bs value) *Term {
		els := termsOf(bs)
		k := fromBytes(els)
		if len(els) > 32 {
			// padded bytes stand for the shortest ones
			if !it.cfg.PadBytes || it.branch(Le(Kb(new(big.Int).Lsh(b1, 256)), k)) {
				panic(targetPanic{msg: "can't handle scalars > 256 bits", where: it.where()})
			}
		}
		return k
	}
	res := func(it *Interp, g *Grp, nilInf bool) value {
		z := grpIsZero(g)
		if z == True || (z != False && it.branch(z)) {
			x, y := it.coords(grpZero("p256"), nilInf)
			return tuple{x, y}
		}
		x, y := it.coords(g, nilInf)
		return tuple{x, y}
	}
	low := func(name string, f intrinsicFn) {
		for _, r := range []string{"(*" + pkgP256 + ".MyBitCurve).", "(*" + pkgSecp + ".BitCurve)."} {
			l[r+name] = f
		}
	}
	low("ScalarMult", func(it *Interp, fn *ssa.Function, a []value) value {
		it.assumed["secp256k1 library scalar multiplication is correct (cgo, outside the repository); nil coordinates for a zero scalar"] = true
		k := scalar(it, a[3])
		// scalars that are not below the order are refused by the library
		if it.branch(Not(And(Lt(k, Kb(secpN)), Lt(K(0), k)))) {
			return tuple{(*value)(nil), (*value)(nil)}
		}
		return res(it, grpMul(it.ptOf(a[1], a[2]), k), true)
	})
	low("ScalarBaseMult", func(it *Interp, fn *ssa.Function, a []value) value {
		k := scalar(it, a[1])
		if it.branch(Not(And(Lt(k, Kb(secpN)), Lt(K(0), k)))) {
			return tuple{(*value)(nil), (*value)(nil)}
		}
		return res(it, grpMul(grpGen("p256", "G"), k), true)
	})
	low("Add", func(it *Interp, fn *ssa.Function, a []value) value {
		it.assumed["MyBitCurve.Add is the chord law on distinct finite points (checked by C17)"] = true
		for _, i := range []int{1, 2, 3, 4} {
			if a[i].(*value) == nil {
				panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
			}
		}
		x, y := it.ptOf(a[1], a[2]), it.ptOf(a[3], a[4])
		// the chord formula needs finite operands
		if z := grpIsZero(x); z != False && it.branch(z) {
			fail("MyBitCurve.Add called with infinity")
		}
		if z := grpIsZero(y); z != False && it.branch(z) {
			fail("MyBitCurve.Add called with infinity")
		}
		if e := grpEq(x, y); e != False && it.branch(e) {
			r := it.newBig(K(0))
			return tuple{r, it.newBig(K(0))}
		}
		return res(it, grpAdd(x, y), false)
	})
	low("Double", func(it *Interp, fn *ssa.Function, a []value) value {
		x := it.ptOf(a[1], a[2])
		return res(it, grpMul(x, K(2)), false)
	})

	// ---- the library's scalar multiplication yields some point -----------------------
	la := map[string]intrinsicFn{}
	modeIntr["p256any"] = la
	somePoint := func(from int) intrinsicFn {
		return func(it *Interp, fn *ssa.Function, a []value) value {
			it.assumed["secp256k1 library scalar multiplication yields a finite point of the curve (cgo, outside the repository)"] = true
			args := []*Term{fromBytes(termsOf(a[len(a)-1]))}
			for _, v := range a[from : len(a)-1] {
				args = append(args, it.big(v))
			}
			top := new(big.Int).Sub(secpP, b1)
			x, y := UF(fmt.Sprintf("ecx%d", len(args)), b0, top, args...), UF(fmt.Sprintf("ecy%d", len(args)), b0, top, args...)
			it.pushPC(Eq(Mod(Sub(Mul(y, y), Add(Mul(Mul(x, x), x), K(7))), secpP), K(0)))
			return tuple{it.newBig(x), it.newBig(y)}
		}
	}
	for _, r := range []string{"(*" + pkgP256 + ".MyBitCurve).", "(*" + pkgSecp + ".BitCurve)."} {
		la[r+"ScalarMult"] = somePoint(1)
		la[r+"ScalarBaseMult"] = somePoint(1)
	}

	// ---- bn256 groups ---------------------------------------------------------------
	b := map[string]intrinsicFn{}
	modeIntr["bn256"] = b
	bnNote := func(it *Interp) {
		it.assumed["bn256 G1, G2, GT are groups of prime order with a bilinear pairing (group laws, scalar multiplication, encodings and pairing steps checked by C20-C24)"] = true
	}
	get := func(it *Interp, v value, kind string) *Grp {
		p := v.(*value)
		if p == nil {
			panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
		}
		q, ok := (*p).(structure)[0].(*value)
		if !ok || q == nil {
			panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
		}
		if g, ok := (*q).(grpv); ok {
			return g.g
		}
		fail("concrete %s element in abstract mode", kind)
		return nil
	}
	set := func(it *Interp, v value, g *Grp) value {
		p := v.(*value)
		if p == nil {
			panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
		}
		s := (*p).(structure)
		q := s[0].(*value)
		if q == nil {
			it.store(it.sub(p, &s[0]), it.newCell(grpv{g}))
			return p
		}
		it.store(q, grpv{g})
		return p
	}
	for kind, T := range map[string]string{"g1": "G1", "g2": "G2", "gt": "GT"} {
		kind, T := kind, T
		pre := "(*" + pkgBn + "." + T + ")."
		n := map[string]int{"g1": 64, "g2": 128, "gt": 384}[kind]
		scal := func(it *Interp, fn *ssa.Function, a []value) value {
			bnNote(it)
			return set(it, a[0], grpMul(get(it, a[1], kind), it.big(a[2])))
		}
		b[pre+"ScalarMult"] = scal
		b[pre+"Exp"] = scal
		b[pre+"ScalarBaseMult"] = func(it *Interp, fn *ssa.Function, a []value) value {
			return set(it, a[0], grpMul(grpGen(kind, kind), it.big(a[1])))
		}
		b[pre+"Add"] = func(it *Interp, fn *ssa.Function, a []value) value {
			return set(it, a[0], grpAdd(get(it, a[1], kind), get(it, a[2], kind)))
		}
		neg := func(it *Interp, fn *ssa.Function, a []value) value {
			return set(it, a[0], grpMul(get(it, a[1], kind), K(-1)))
		}
		b[pre+"Neg"] = neg
		if kind == "gt" {
			b[pre+"Invert"] = neg
		}
		zero := func(it *Interp, fn *ssa.Function, a []value) value {
			return set(it, a[0], grpZero(kind))
		}
		b[pre+"SetInfinity"] = func(it *Interp, fn *ssa.Function, a []value) value {
			p := a[0].(*value)
			s := (*p).(structure)
			it.store(it.sub(p, &s[0]), it.newCell(grpv{grpZero(kind)}))
			return p
		}
		if kind == "g1" {
			b[pre+"SetZero"] = func(it *Interp, fn *ssa.Function, a []value) value {
				get(it, a[0], kind)
				zero(it, fn, a)
				return tuple{}
			}
		}
		if kind == "gt" {
			b[pre+"IsOne"] = func(it *Interp, fn *ssa.Function, a []value) value { return grpIsZero(get(it, a[0], kind)) }
			b[pre+"IsZero"] = func(it *Interp, fn *ssa.Function, a []value) value {
				get(it, a[0], kind)
				return False
			}
		} else {
			b[pre+"IsZero"] = func(it *Interp, fn *ssa.Function, a []value) value { return grpIsZero(get(it, a[0], kind)) }
		}
		b[pre+"Marshal"] = func(it *Interp, fn *ssa.Function, a []value) value {
			g := canon(get(it, a[0], kind))
			els := make([]*Term, n)
			for i := range els {
				els[i] = mk(&Term{op: OUF, name: "chunk:m:" + kind, args: []*Term{K(int64(i))}, grp: g})
			}
			return it.sliceOf(els)
		}
		b[pre+"String"] = func(it *Interp, fn *ssa.Function, a []value) value {
			g := canon(get(it, a[0], kind))
			return &symStr{[]*Term{mk(&Term{op: OUF, name: "chunk:s:" + kind, grp: g})}}
		}
		b[pre+"Unmarshal"] = func(it *Interp, fn *ssa.Function, a []value) value {
			els := termsOf(a[1])
			if len(els) != n {
				return tuple{(*value)(nil), False}
			}
			for i, e := range els {
				if e.op != OUF || e.name != "chunk:m:"+kind || e.grp != els[0].grp || e.args[0].k.Int64() != int64(i) {
					fail("Unmarshal of bytes that are not one marshalled element")
				}
			}
			return tuple{set(it, a[0], els[0].grp), True}
		}
	}
	b[pkgBn+".Pair"] = func(it *Interp, fn *ssa.Function, a []value) value {
		g := grpPair(get(it, a[0], "g1"), get(it, a[1], "g2"))
		return it.newCell(structure{it.newCell(grpv{g})})
	}
	b[pkgBn+".PairingCheck"] = func(it *Interp, fn *ssa.Function, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		acc := grpZero("gt")
		for i := range x {
			acc = grpAdd(acc, grpPair(get(it, x[i], "g1"), get(it, y[i], "g2")))
		}
		return grpIsZero(acc)
	}

	// ---- Jacobian points under the scalar multiplication loops ------------------------
	for _, kt := range [][2]string{{"curve", "curvePoint"}, {"twist", "twistPoint"}} {
		kind, T := kt[0], kt[1]
		c := map[string]intrinsicFn{}
		modeIntr[kind] = c
		pre := "(*" + pkgBn + "." + T + ")."
		// a point is a struct of four pointers; the element is kept in the cell
		// of the first coordinate
		cget := func(it *Interp, v value) *Grp {
			p := v.(*value)
			if p == nil {
				panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
			}
			if g, ok := it.ptShadow(p); ok {
				return g
			}
			if p == it.globalPtr(pkgBn, kind+"Gen") {
				return grpGen(kind, "g")
			}
			fail("unknown %s", T)
			return nil
		}
		cset := func(it *Interp, v value, g *Grp) {
			p := v.(*value)
			if p == nil {
				panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
			}
			s := (*p).(structure)
			it.store(it.sub(p, &s[0]), it.newCell(grpv{g}))
		}
		c[pre+"Set"] = func(it *Interp, fn *ssa.Function, a []value) value {
			cset(it, a[0], cget(it, a[1]))
			return tuple{}
		}
		c[pre+"SetInfinity"] = func(it *Interp, fn *ssa.Function, a []value) value {
			cset(it, a[0], grpZero(kind))
			return tuple{}
		}
		c[pre+"IsInfinity"] = func(it *Interp, fn *ssa.Function, a []value) value {
			return grpIsZero(cget(it, a[0]))
		}
		c[pre+"Add"] = func(it *Interp, fn *ssa.Function, a []value) value {
			it.assumed[T+".Add/Double/Negative are the group law (checked by C21)"] = true
			cset(it, a[0], grpAdd(cget(it, a[1]), cget(it, a[2])))
			return tuple{}
		}
		c[pre+"Double"] = func(it *Interp, fn *ssa.Function, a []value) value {
			cset(it, a[0], grpMul(cget(it, a[1]), K(2)))
			return tuple{}
		}
		c[pre+"Negative"] = func(it *Interp, fn *ssa.Function, a []value) value {
			cset(it, a[0], grpMul(cget(it, a[1]), K(-1)))
			return tuple{}
		}
		modeIntr[kind+"mul"] = map[string]intrinsicFn{
			pre + "Mul": func(it *Interp, fn *ssa.Function, a []value) value {
				it.assumed[T+".Mul computes the multiple (checked by the PtMul harnesses of C22)"] = true
				cset(it, a[0], grpMul(cget(it, a[1]), it.big(a[2])))
				return a[0]
			},
		}
		c[pre+"Put"] = func(it *Interp, fn *ssa.Function, a []value) value { return tuple{} }
		c[pre+"MakeAffine"] = func(it *Interp, fn *ssa.Function, a []value) value { return a[0] }
		// the specification: k times a, and equality of points
		c[pkgBn+".vscale"] = func(it *Interp, fn *ssa.Function, a []value) value {
			s := append(structure{}, a[0].(structure)...)
			for i, p := range s {
				if p.(*value) != nil {
					n := it.newCell(structure{(*value)(nil), (*value)(nil), (*value)(nil), (*value)(nil)})
					cset(it, n, grpMul(cget(it, p), it.big(a[1])))
					s[i] = n
				}
			}
			return s
		}
		c[pkgBn+".vfree"] = func(it *Interp, fn *ssa.Function, a []value) value {
			n := it.newCell(structure{(*value)(nil), (*value)(nil), (*value)(nil), (*value)(nil)})
			cset(it, n, grpGen(kind, "free:"+it.str(a[0])))
			if kind == "curve" {
				return structure{n, (*value)(nil)}
			}
			return structure{(*value)(nil), n}
		}
		suffix := map[string]string{"curve": "C", "twist": "T"}[kind]
		fresh := func(it *Interp, g *Grp) value {
			n := it.newCell(structure{(*value)(nil), (*value)(nil), (*value)(nil), (*value)(nil)})
			cset(it, n, g)
			return n
		}
		c[pkgBn+".vfree"+suffix] = func(it *Interp, fn *ssa.Function, a []value) value {
			return fresh(it, grpGen(kind, "free:"+it.str(a[0])))
		}
		c[pkgBn+".vscale"+suffix] = func(it *Interp, fn *ssa.Function, a []value) value {
			return fresh(it, grpMul(cget(it, a[0]), it.big(a[1])))
		}
		c[pkgBn+".vequal"+suffix] = func(it *Interp, fn *ssa.Function, a []value) value {
			return grpEq(cget(it, a[0]), cget(it, a[1]))
		}
		c[pkgBn+".vequal"] = func(it *Interp, fn *ssa.Function, a []value) value {
			x, y := a[0].(structure), a[1].(structure)
			for i, p := range x {
				if p.(*value) != nil {
					return grpEq(cget(it, p), cget(it, y[i]))
				}
			}
			fail("vequal")
			return nil
		}
	}

	// ---- extension field elements as powers of one element -----------------------------
	for _, kt := range [][2]string{{"f12", "gfP12"}, {"gt12", "gfP12"}, {"f2", "gfP2"}} {
		kind, T := kt[0], kt[1]
		f := map[string]intrinsicFn{}
		modeIntr[kind] = f
		fp := "(*" + pkgBn + "." + T + ")."
		conj := new(big.Int).Exp(bnP, big.NewInt(6), nil)
		if kind == "f2" {
			conj = bnP
		}
		// the element is kept in the cells of both halves, so that a half
		// can be negated (which conjugates)
		fget := func(it *Interp, v value) *Grp {
			p := v.(*value)
			if p == nil {
				panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
			}
			s := (*p).(structure)
			x, ok1 := (*s[0].(*value)).(halfv)
			y, ok2 := (*s[1].(*value)).(halfv)
			if !ok1 || !ok2 || x.g != y.g || x.half != 0 || y.half != 1 || y.neg {
				fail("unknown %s element", T)
			}
			if x.neg {
				return grpMul(x.g, Kb(conj))
			}
			return x.g
		}
		fset := func(it *Interp, v value, g *Grp) value {
			p := v.(*value)
			if p == nil {
				panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
			}
			s := (*p).(structure)
			for i := range s {
				if q := s[i].(*value); q != nil {
					it.store(q, halfv{g, i, false})
				} else {
					it.store(it.sub(p, &s[i]), it.newCell(halfv{g, i, false}))
				}
			}
			return p
		}
		fun := func(name string, k *big.Int) {
			f[fp+name] = func(it *Interp, fn *ssa.Function, a []value) value {
				it.assumed[T+" Mul/Square/Invert/Conjugate/Frobenius are the field operations (checked by C20)"] = true
				return fset(it, a[0], grpMul(fget(it, a[1]), Kb(k)))
			}
		}
		fun("Set", b1)
		fun("Square", big.NewInt(2))
		fun("Invert", bm1)
		fun("Conjugate", conj)
		if kind != "f2" {
			fun("Frobenius", bnP)
			fun("FrobeniusP2", new(big.Int).Mul(bnP, bnP))
			h := "(*" + pkgBn + ".gfP6)."
			half := func(neg bool) intrinsicFn {
				return func(it *Interp, fn *ssa.Function, a []value) value {
					x, ok := (*a[1].(*value)).(halfv)
					if !ok {
						fail("part of an unknown %s element", T)
					}
					x.neg = x.neg != neg
					it.store(a[0].(*value), x)
					return a[0]
				}
			}
			f[h+"Negative"] = half(true)
			f[h+"Set"] = half(false)
		}
		f[fp+"Mul"] = func(it *Interp, fn *ssa.Function, a []value) value {
			return fset(it, a[0], grpAdd(fget(it, a[1]), fget(it, a[2])))
		}
		f[fp+"SetOne"] = func(it *Interp, fn *ssa.Function, a []value) value {
			return fset(it, a[0], grpZero(kind))
		}
		f[fp+"Put"] = func(it *Interp, fn *ssa.Function, a []value) value { return tuple{} }
		f[fp+"Minimal"] = func(it *Interp, fn *ssa.Function, a []value) value { return tuple{} }
		f[fp+"IsOne"] = func(it *Interp, fn *ssa.Function, a []value) value { return grpIsZero(fget(it, a[0])) }
		// the specification: a free element, powers and equality
		name := map[string]string{"f12": "12", "gt12": "12", "f2": "2"}[kind]
		f[pkgBn+".vgen"+name] = func(it *Interp, fn *ssa.Function, a []value) value {
			return fset(it, it.newCell(structure{(*value)(nil), (*value)(nil)}), grpGen(kind, it.str(a[0])))
		}
		f[pkgBn+".vpow"+name] = func(it *Interp, fn *ssa.Function, a []value) value {
			return fset(it, it.newCell(structure{(*value)(nil), (*value)(nil)}), grpMul(fget(it, a[0]), it.big(a[1])))
		}
		f[pkgBn+".vtimes"+name] = func(it *Interp, fn *ssa.Function, a []value) value {
			return fset(it, it.newCell(structure{(*value)(nil), (*value)(nil)}), grpAdd(fget(it, a[0]), fget(it, a[1])))
		}
		f[pkgBn+".vequal"+name] = func(it *Interp, fn *ssa.Function, a []value) value {
			return grpEq(fget(it, a[0]), fget(it, a[1]))
		}
	}

	// ---- the Miller value as an unknown function of the points ---------------------------
	mv := map[string]intrinsicFn{}
	modeIntr["millervalue"] = mv
	mv[pkgBn+".miller"] = func(it *Interp, fn *ssa.Function, a []value) value {
		q, ok1 := it.ptShadow(a[0].(*value))
		p, ok2 := it.ptShadow(a[1].(*value))
		if !ok1 || !ok2 {
			fail("miller of unknown points")
		}
		it.assumed["miller is a function of its two points (its steps are checked by the line function harnesses)"] = true
		g := grpGen("f12", fmt.Sprintf("miller:%d:%d", q.id, p.id))
		n := it.newCell(structure{(*value)(nil), (*value)(nil)})
		s := (*n).(structure)
		for i := range s {
			it.store(it.sub(n, &s[i]), it.newCell(halfv{g, i, false}))
		}
		return n
	}

	// ---- the inverse in GF(p^6) by its defining equation -------------------------------
	v := map[string]intrinsicFn{}
	modeIntr["f6inv"] = v
	v["(*"+pkgBn+".gfP6).Invert"] = func(it *Interp, fn *ssa.Function, a []value) value {
		it.assumed["gfP6.Invert returns the inverse of elements other than zero (checked by C20)"] = true
		cells := func(v value) []value {
			p := v.(*value)
			if p == nil {
				panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
			}
			var r []value
			for _, c := range (*p).(structure) {
				q := c.(*value)
				for _, d := range (*q).(structure) {
					r = append(r, d)
				}
			}
			return r
		}
		var in, args []*Term
		zero := True
		for _, c := range cells(a[1]) {
			t := Mod(it.big(c), bnP)
			in = append(in, t)
			args = append(args, t)
			zero = And(zero, Eq(t, K(0)))
		}
		dst := cells(a[0])
		if zero != False && it.branch(zero) {
			for _, c := range dst {
				it.setBig(c, K(0))
			}
			return a[0]
		}
		out := make([]*Term, 6)
		for i := range out {
			out[i] = UF(fmt.Sprintf("inv6:%d", i), b0, new(big.Int).Sub(bnP, b1), args...)
		}
		for i, c := range gf6mul(in, out) {
			it.pushPC(Eq(c, K(int64(i/5))))
		}
		for i, c := range dst {
			it.setBig(c, out[i])
		}
		return a[0]
	}
}

// gf6mul is the product of two elements {x.i, x.1, y.i, y.1, z.i, z.1}.
func gf6mul(a, b []*Term) []*Term {
	type e2 [2]*Term
	add := func(x, y e2) e2 { return e2{Mod(Add(x[0], y[0]), bnP), Mod(Add(x[1], y[1]), bnP)} }
	mul := func(x, y e2) e2 {
		return e2{Mod(Add(Mul(x[0], y[1]), Mul(x[1], y[0])), bnP), Mod(Sub(Mul(x[1], y[1]), Mul(x[0], y[0])), bnP)}
	}
	xi := e2{K(1), K(9)}
	var c [5]e2
	for k := range c {
		c[k] = e2{K(0), K(0)}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			c[i+j] = add(c[i+j], mul(e2{a[4-2*i], a[5-2*i]}, e2{b[4-2*j], b[5-2*j]}))
		}
	}
	y, z := add(c[1], mul(c[4], xi)), add(c[0], mul(c[3], xi))
	return []*Term{c[2][0], c[2][1], y[0], y[1], z[0], z[1]}
}

// gf6inv evaluates component i of the inverse of a: a^(p^6-2) by the norm.
func gf6inv(i int, a []*big.Int) *big.Int {
	// solve the linear system a*b = 1 by Gaussian elimination over GF(p)
	var m [6][7]*big.Int
	for col := 0; col < 6; col++ {
		b := make([]*Term, 6)
		at := make([]*Term, 6)
		for k := range b {
			b[k] = K(0)
			at[k] = Kb(a[k])
		}
		b[col] = K(1)
		for row, t := range gf6mul(at, b) {
			m[row][col] = t.k
		}
	}
	for row := 0; row < 6; row++ {
		m[row][6] = big.NewInt(int64(row / 5))
	}
	for col := 0; col < 6; col++ {
		p := -1
		for r := col; r < 6; r++ {
			if m[r][col].Sign() != 0 {
				p = r
				break
			}
		}
		if p < 0 {
			return b0
		}
		m[p], m[col] = m[col], m[p]
		inv := new(big.Int).ModInverse(m[col][col], bnP)
		for k := 0; k < 7; k++ {
			t := new(big.Int).Mul(m[col][k], inv)
			m[col][k] = t.Mod(t, bnP)
		}
		for r := 0; r < 6; r++ {
			if r == col || m[r][col].Sign() == 0 {
				continue
			}
			f := m[r][col]
			for k := 0; k < 7; k++ {
				t := new(big.Int).Mul(f, m[col][k])
				t.Sub(m[r][k], t)
				if k == col {
					m[r][k] = new(big.Int)
					continue
				}
				m[r][k] = t.Mod(t, bnP)
			}
		}
	}
	return m[i][6]
}

// halfv is one half of an abstract element of a quadratic extension.
type halfv struct {
	g    *Grp
	half int
	neg  bool
}

// ptShadow reads the abstract element kept in the first field of a struct.
func (it *Interp) ptShadow(p *value) (*Grp, bool) {
	s, ok := (*p).(structure)
	if !ok {
		return nil, false
	}
	q, ok := s[0].(*value)
	if !ok || q == nil {
		return nil, false
	}
	g, ok := (*q).(grpv)
	return g.g, ok
}

// globalPtr is the value of a pointer-typed package variable.
func (it *Interp) globalPtr(pkg, name string) *value {
	for _, p := range it.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g := p.Var(name); g != nil {
				v, _ := (*it.global(g)).(*value)
				return v
			}
		}
	}
	return nil
}
