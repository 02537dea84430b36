package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(it *Interp, fn *ssa.Function, a []value) value

var baseIntr = map[string]intrinsicFn{}
var modeIntr = map[string]map[string]intrinsicFn{}

func (it *Interp) intrinsic(fn *ssa.Function) intrinsicFn {
	if r, ok := it.intrCache[fn]; ok {
		return r
	}
	name := fn.String()
	var r intrinsicFn
	for _, m := range it.cfg.Modes {
		if f, ok := modeIntr[m][name]; ok {
			r = f
		}
	}
	if r == nil {
		r = baseIntr[name]
	}
	if r == nil && strings.HasSuffix(fnPkg(fn), "zkrp/verifrt") && fn.Signature.Recv() == nil {
		r = rtIntr[fn.Name()]
	}
	if r == nil && strings.HasPrefix(name, "(*math/big.Int).") {
		r = bigNative(name)
	}
	it.intrCache[fn] = r
	return r
}

var initPkgs = map[string]bool{"io": true, "bytes": true, "strconv": true, "math": true,
	"math/bits": true, "unicode/utf8": true, "strings": true, "sort": true, "internal/errors": true}

func (it *Interp) initAllowed(path string) bool {
	return strings.HasPrefix(path, "github.com/ing-bank/zkrp") || initPkgs[path]
}

// ---- big.Int helpers -----------------------------------------------------------

func (it *Interp) big(v value) *Term {
	p, ok := v.(*value)
	if !ok {
		fail("big.Int argument is %T", v)
	}
	if p == nil {
		panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
	}
	b, ok := (*p).(bigv)
	if !ok {
		fail("big.Int cell holds %T", *p)
	}
	return b.t
}

func (it *Interp) setBig(v value, t *Term) value {
	p := v.(*value)
	if p == nil {
		panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
	}
	it.store(p, bigv{t})
	return p
}

func (it *Interp) newBig(t *Term) *value { return it.newCell(bigv{t}) }

func (it *Interp) divZero(b *Term) {
	if z := Eq(b, K(0)); z != False {
		if it.branch(z) {
			panic(targetPanic{msg: "division by zero", where: it.where()})
		}
	}
}

func absT(it *Interp, t *Term) *Term {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return t
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return Neg(t)
	}
	if d, ok := it.known(Lt(t, K(0))); ok {
		if d {
			return Neg(t)
		}
		return t
	}
	r := Ite(Lt(t, K(0)), Neg(t), t)
	if r.op == OIte && (r.lo == nil || r.lo.Sign() < 0) {
		r.lo = K(0).k // by its shape
	}
	return r
}

func isPrime(m *big.Int) bool {
	for _, p := range []*big.Int{secpN, secpP, bnP, bnN} {
		if p.Cmp(m) == 0 {
			return true
		}
	}
	return m.Sign() > 0 && m.ProbablyPrime(20)
}

func (it *Interp) powMod(x, y *Term, m *Term) *Term {
	mod := func(t *Term) *Term {
		if m == nil {
			return t
		}
		return ModT(t, m)
	}
	if y.op == OConst {
		if y.k.Sign() < 0 {
			fail("negative exponent in Exp")
		}
		if x.op == OConst && (m == nil || m.op == OConst) {
			var mk *big.Int
			if m != nil {
				mk = m.k
			}
			if y.k.BitLen() > 16 && mk == nil {
				fail("huge power")
			}
			return Kb(new(big.Int).Exp(x.k, y.k, mk))
		}
		if y.k.BitLen() <= 9 && m == nil {
			r := K(1)
			for i := int64(0); i < y.k.Int64(); i++ {
				r = Mul(r, x)
			}
			return r
		}
		if y.k.BitLen() <= 40 {
			r := mod(K(1))
			for i := y.k.BitLen() - 1; i >= 0; i-- {
				r = mod(Mul(r, r))
				if y.k.Bit(i) == 1 {
					r = mod(Mul(r, x))
				}
			}
			return r
		}
	}
	if m == nil {
		if x.op == OConst && x.k.Cmp(big.NewInt(2)) == 0 || y.lo != nil && y.hi != nil {
			e := it.concretize(y, "exponent")
			return it.powMod(x, Kb(e), nil)
		}
		fail("symbolic power")
	}
	if y.lo != nil && y.hi != nil && y.lo.Sign() >= 0 && y.hi.Cmp(big.NewInt(255)) <= 0 {
		return it.powMod(x, Kb(it.concretize(y, "exponent")), m)
	}
	args := []*Term{x, y, m}
	var hi *big.Int
	if m.op == OConst {
		hi = new(big.Int).Sub(m.k, b1)
	}
	return UF("powmod", b0, hi, args...)
}

func (it *Interp) modInverse(g, n *Term) (*Term, bool) {
	if n.op != OConst {
		ok := UB("coprime", g, n)
		if !it.branch(ok) {
			return nil, false
		}
		return UF("inverse", b0, nil, g, n), true
	}
	m := new(big.Int).Abs(n.k)
	if g.op == OConst {
		r := new(big.Int).ModInverse(g.k, m)
		if r == nil {
			return nil, false
		}
		return Kb(r), true
	}
	if !isPrime(m) {
		ok := UB("coprime", g, n)
		if !it.branch(ok) {
			return nil, false
		}
		return UF("inverse", b0, new(big.Int).Sub(m, b1), g, n), true
	}
	if m.Cmp(big.NewInt(256)) < 0 { // a table
		x := Mod(g, m)
		if it.branch(Eq(x, K(0))) {
			return nil, false
		}
		t := K(1)
		for i := int64(2); i < m.Int64(); i++ {
			t = Ite(Eq(x, K(i)), Kb(new(big.Int).ModInverse(big.NewInt(i), m)), t)
		}
		return t, true
	}
	z := Eq(Mod(ringNorm(g, m), m), K(0))
	if d, ok := it.known(z); ok {
		if d {
			return nil, false
		}
	} else if it.cfg.InvNonzero || it.knownNonzero(g, m) {
		it.assumeNonzero(g, m)
	} else if it.branch(z) {
		return nil, false
	} else {
		it.assumeNonzeroQuiet(g, m)
	}
	return Inv(g, m), true
}

func bigMethod(name string, f intrinsicFn) { baseIntr["(*math/big.Int)."+name] = f }

// decOf returns the digits of an opaque or literal decimal string.
func symText(t *Term) value {
	if t.op == OConst {
		return t.k.String()
	}
	return &symStr{[]*Term{mk(&Term{op: OUF, name: "chunk:dec", args: []*Term{t}, grp: t.grp})}}
}

// bytesOf splits t (non-negative) into n big-endian byte terms.
func bytesOf(t *Term, n int) []*Term {
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		r[i] = Mod(Div(t, new(big.Int).Lsh(b1, uint(8*(n-1-i)))), big.NewInt(256))
	}
	if t.op != OConst {
		k := bytesKey(r)
		if _, ok := bytesSrc[k]; !ok {
			bytesSrc[k] = t
		}
	}
	return r
}

// bytesSrc maps the big-endian bytes of a number to the number.
var bytesSrc = map[string]*Term{}

func bytesKey(els []*Term) string {
	var sb strings.Builder
	for _, e := range els {
		fmt.Fprintf(&sb, "%d,", e.id)
	}
	return sb.String()
}

// fromBytes recombines byte terms (big endian), recognising slices of bytesOf.
func fromBytes(els []*Term) *Term {
	for len(els) > 0 && els[0].op == OConst && els[0].k.Sign() == 0 {
		els = els[1:]
	}
	if len(els) == 0 {
		return K(0)
	}
	if t, ok := bytesSrc[bytesKey(els)]; ok {
		return Mod(t, new(big.Int).Lsh(b1, uint(8*len(els))))
	}
	// whole-number recognition: last byte is Mod(t,256), the others Mod(Div(t,..),256)
	last := els[len(els)-1]
	if last.op == OMod && last.k.Cmp(big.NewInt(256)) == 0 {
		t := last.args[0]
		if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil {
			ok := true
			bs := bytesOf(t, len(els))
			for i := range els {
				if els[i] != bs[i] {
					ok = false
				}
			}
			if ok {
				return Mod(t, new(big.Int).Lsh(b1, uint(8*len(els))))
			}
		}
	}
	l := newLin()
	for i, e := range els {
		if isChunk(e) {
			fail("number from opaque bytes")
		}
		l.add(e, new(big.Int).Lsh(b1, uint(8*(len(els)-1-i))))
	}
	return telescope(l.term())
}

func termsOf(v value) []*Term {
	s := v.([]value)
	r := make([]*Term, len(s))
	for i := range s {
		r[i] = s[i].(*Term)
	}
	return r
}
func (it *Interp) sliceOf(els []*Term) []value {
	r := make([]value, len(els))
	for i := range els {
		r[i] = els[i]
	}
	it.markAlloc(r)
	return r
}

// popSrc: the 64-bit numbers whose one bits these terms count.
var popSrc = map[*Term]*Term{}

func init() {
	bin := func(name string, f func(x, y *Term) *Term) {
		bigMethod(name, func(it *Interp, fn *ssa.Function, a []value) value {
			x, y := it.big(a[1]), it.big(a[2])
			return it.setBig(a[0], f(x, y))
		})
	}
	bin("Add", func(x, y *Term) *Term { return Add(x, y) })
	bin("Sub", func(x, y *Term) *Term { return Sub(x, y) })
	bin("Mul", func(x, y *Term) *Term { return Mul(x, y) })
	div := func(name string, f func(it *Interp, x, y *Term) *Term) {
		bigMethod(name, func(it *Interp, fn *ssa.Function, a []value) value {
			x, y := it.big(a[1]), it.big(a[2])
			it.divZero(y)
			return it.setBig(a[0], f(it, x, y))
		})
	}
	div("Mod", func(it *Interp, x, y *Term) *Term { return ModT(x, y) })
	div("Div", func(it *Interp, x, y *Term) *Term { return DivT(x, y) })
	div("Quo", func(it *Interp, x, y *Term) *Term { q, _ := it.truncDiv(x, y); return q })
	div("Rem", func(it *Interp, x, y *Term) *Term { _, r := it.truncDiv(x, y); return r })
	two := func(name string, f func(it *Interp, x, y *Term) (*Term, *Term)) {
		bigMethod(name, func(it *Interp, fn *ssa.Function, a []value) value {
			x, y := it.big(a[1]), it.big(a[2])
			it.divZero(y)
			q, r := f(it, x, y)
			it.setBig(a[0], q)
			it.setBig(a[3], r)
			return tuple{a[0], a[3]}
		})
	}
	two("DivMod", func(it *Interp, x, y *Term) (*Term, *Term) { return DivT(x, y), ModT(x, y) })
	two("QuoRem", func(it *Interp, x, y *Term) (*Term, *Term) { return it.truncDiv(x, y) })
	un := func(name string, f func(it *Interp, x *Term) *Term) {
		bigMethod(name, func(it *Interp, fn *ssa.Function, a []value) value {
			return it.setBig(a[0], f(it, it.big(a[1])))
		})
	}
	un("Neg", func(it *Interp, x *Term) *Term { return Neg(x) })
	un("Abs", absT)
	un("Set", func(it *Interp, x *Term) *Term { return x })
	un("Not", func(it *Interp, x *Term) *Term { return Sub(K(-1), x) })
	bigMethod("SetInt64", func(it *Interp, fn *ssa.Function, a []value) value { return it.setBig(a[0], a[1].(*Term)) })
	bigMethod("SetUint64", func(it *Interp, fn *ssa.Function, a []value) value { return it.setBig(a[0], a[1].(*Term)) })
	baseIntr["math/big.NewInt"] = func(it *Interp, fn *ssa.Function, a []value) value { return it.newBig(a[0].(*Term)) }
	bigMethod("Sign", func(it *Interp, fn *ssa.Function, a []value) value { return Sign(it.big(a[0])) })
	bigMethod("Cmp", func(it *Interp, fn *ssa.Function, a []value) value {
		x, y := it.big(a[0]), it.big(a[1])
		if e := Eq(x, y); e == True {
			return K(0)
		}
		d := Sub(x, y)
		if x.grp != nil || y.grp != nil { // opaque coordinates
			e := Eq(x, y)
			if e == False {
				return Ite(UB("ltcoord", x, y), K(-1), K(1))
			}
			return Ite(e, K(0), Ite(UB("ltcoord", x, y), K(-1), K(1)))
		}
		return Sign(d)
	})
	bigMethod("CmpAbs", func(it *Interp, fn *ssa.Function, a []value) value {
		return Sign(Sub(absT(it, it.big(a[0])), absT(it, it.big(a[1]))))
	})
	bigMethod("Int64", func(it *Interp, fn *ssa.Function, a []value) value {
		return wrap(it.big(a[0]), types.Typ[types.Int64])
	})
	bigMethod("Uint64", func(it *Interp, fn *ssa.Function, a []value) value {
		return wrap(it.big(a[0]), types.Typ[types.Uint64])
	})
	bigMethod("IsInt64", func(it *Interp, fn *ssa.Function, a []value) value {
		lo, hi, _, _, _ := intRange(types.Typ[types.Int64])
		return And(Le(Kb(lo), it.big(a[0])), Le(it.big(a[0]), Kb(hi)))
	})
	bigMethod("IsUint64", func(it *Interp, fn *ssa.Function, a []value) value {
		lo, hi, _, _, _ := intRange(types.Typ[types.Uint64])
		return And(Le(Kb(lo), it.big(a[0])), Le(it.big(a[0]), Kb(hi)))
	})
	bigMethod("Bit", func(it *Interp, fn *ssa.Function, a []value) value {
		i := it.concInt(a[1].(*Term), "bit index")
		if i < 0 {
			panic(targetPanic{msg: "negative bit index", where: it.where()})
		}
		return Mod(Div(it.big(a[0]), new(big.Int).Lsh(b1, uint(i))), big.NewInt(2))
	})
	bigMethod("SetBit", func(it *Interp, fn *ssa.Function, a []value) value {
		x := it.big(a[1])
		i := it.concInt(a[2].(*Term), "bit index")
		w := new(big.Int).Lsh(b1, uint(i))
		old := Mod(Div(x, w), big.NewInt(2))
		return it.setBig(a[0], Add(x, Scale(Sub(a[3].(*Term), old), w)))
	})
	bigMethod("BitLen", func(it *Interp, fn *ssa.Function, a []value) value {
		return K(it.bitLen(it.big(a[0])))
	})
	bigMethod("Bits", func(it *Interp, fn *ssa.Function, a []value) value {
		t := absT(it, it.big(a[0]))
		if it.branch(Eq(t, K(0))) {
			return []value(nil)
		}
		w := new(big.Int).Lsh(b1, 64)
		if it.branch(Lt(t, Kb(w))) {
			return it.sliceOf([]*Term{t})
		}
		n := 4
		if t.hi != nil {
			n = (t.hi.BitLen() + 63) / 64
		}
		var els []*Term
		for i := 0; i < n; i++ {
			els = append(els, Mod(Div(t, new(big.Int).Lsh(b1, uint(64*i))), w))
		}
		return it.sliceOf(els)
	})
	bigMethod("Bytes", func(it *Interp, fn *ssa.Function, a []value) value {
		t := absT(it, it.big(a[0]))
		if it.cfg.PadBytes && t.op != OConst && t.hi != nil {
			return it.sliceOf(bytesOf(t, (t.hi.BitLen()+7)/8))
		}
		n := int(it.byteLen(t))
		bs := bytesOf(t, n)
		if t.op != OConst { // t < 256^n on this path
			if t.hi == nil || (t.hi.BitLen()+7)/8 != n {
				if n > 0 {
					bs[0] = Div(t, new(big.Int).Lsh(b1, uint(8*(n-1))))
					bs[0] = it.clampByte(bs[0])
				}
			}
		}
		return it.sliceOf(bs)
	})
	bigMethod("FillBytes", func(it *Interp, fn *ssa.Function, a []value) value {
		t := absT(it, it.big(a[0]))
		buf := a[1].([]value)
		if it.branch(Lt(t, Kb(new(big.Int).Lsh(b1, uint(8*len(buf)))))) {
			for i, e := range bytesOf(t, len(buf)) {
				it.store(&buf[i], e)
			}
			return buf
		}
		panic(targetPanic{msg: "math/big: buffer too small to fit value", where: it.where()})
	})
	bigMethod("SetBytes", func(it *Interp, fn *ssa.Function, a []value) value {
		return it.setBig(a[0], fromBytes(termsOf(a[1])))
	})
	str := func(it *Interp, fn *ssa.Function, a []value) value {
		p := a[0].(*value)
		if p == nil {
			return "<nil>"
		}
		if len(a) > 1 {
			b := a[1].(*Term)
			if b.op != OConst || b.k.Int64() != 10 {
				t := it.big(p)
				if t.op == OConst && b.op == OConst {
					return t.k.Text(int(b.k.Int64()))
				}
				return &symStr{[]*Term{mk(&Term{op: OUF, name: "chunk:base", args: []*Term{t, b}, grp: t.grp})}}
			}
		}
		return symText(it.big(p))
	}
	bigMethod("String", str)
	bigMethod("Text", str)
	bigMethod("Append", func(it *Interp, fn *ssa.Function, a []value) value {
		s := strEls(str(it, fn, []value{a[0], a[2]}))
		return append(append([]value(nil), a[1].([]value)...), it.sliceOf(s)...)
	})
	bigMethod("SetString", setString)
	bigMethod("Exp", func(it *Interp, fn *ssa.Function, a []value) value {
		x, y := it.big(a[1]), it.big(a[2])
		var m *Term
		if p := a[3].(*value); p != nil {
			m = it.big(p)
			if it.branch(Eq(m, K(0))) {
				m = nil
			}
		}
		if it.branch(Lt(y, K(0))) {
			if m == nil {
				return it.setBig(a[0], K(1))
			}
			inv, ok := it.modInverse(x, m)
			if !ok {
				return (*value)(nil)
			}
			return it.setBig(a[0], it.powMod(inv, Neg(y), m))
		}
		return it.setBig(a[0], it.powMod(x, y, m))
	})
	bigMethod("ModInverse", func(it *Interp, fn *ssa.Function, a []value) value {
		r, ok := it.modInverse(it.big(a[1]), it.big(a[2]))
		if !ok {
			return (*value)(nil)
		}
		return it.setBig(a[0], r)
	})
	bigMethod("ModSqrt", func(it *Interp, fn *ssa.Function, a []value) value {
		x, p := it.big(a[1]), it.big(a[2])
		if p.op != OConst || !isPrime(p.k) {
			fail("ModSqrt with a symbolic modulus")
		}
		if x.op == OConst {
			r := new(big.Int).ModSqrt(x.k, p.k)
			if r == nil {
				return (*value)(nil)
			}
			return it.setBig(a[0], Kb(r))
		}
		if !it.branch(UB("qr", Mod(x, p.k))) {
			return (*value)(nil)
		}
		r := UF("modsqrt", b0, new(big.Int).Sub(p.k, b1), Mod(x, p.k))
		it.pushPC(Eq(Mod(Sub(Mul(r, r), x), p.k), K(0)))
		return it.setBig(a[0], r)
	})
	bigMethod("Lsh", func(it *Interp, fn *ssa.Function, a []value) value {
		n := it.concInt(a[2].(*Term), "shift")
		return it.setBig(a[0], Scale(it.big(a[1]), new(big.Int).Lsh(b1, uint(n))))
	})
	bigMethod("Rsh", func(it *Interp, fn *ssa.Function, a []value) value {
		n := it.concInt(a[2].(*Term), "shift")
		return it.setBig(a[0], Div(it.big(a[1]), new(big.Int).Lsh(b1, uint(n))))
	})
	bit := func(name string, op Op) {
		bigMethod(name, func(it *Interp, fn *ssa.Function, a []value) value {
			x, y := it.big(a[1]), it.big(a[2])
			if x.op == OConst && y.op == OConst {
				z := new(big.Int)
				switch op {
				case OBand:
					z.And(x.k, y.k)
				case OBor:
					z.Or(x.k, y.k)
				default:
					z.Xor(x.k, y.k)
				}
				return it.setBig(a[0], Kb(z))
			}
			if x.lo == nil || y.lo == nil || x.lo.Sign() < 0 || y.lo.Sign() < 0 {
				fail("bitwise operation on possibly negative big.Int")
			}
			return it.setBig(a[0], bitop(op, x, y))
		})
	}
	bit("And", OBand)
	bit("Or", OBor)
	bit("Xor", OBxor)
	bigMethod("Sqrt", func(it *Interp, fn *ssa.Function, a []value) value {
		x := it.big(a[1])
		if x.op != OConst {
			fail("Sqrt")
		}
		return it.setBig(a[0], Kb(new(big.Int).Sqrt(x.k)))
	})
	bigMethod("ProbablyPrime", func(it *Interp, fn *ssa.Function, a []value) value {
		x := it.big(a[0])
		if x.op != OConst {
			fail("ProbablyPrime")
		}
		return Kbool(x.k.ProbablyPrime(20))
	})
	bigMethod("TrailingZeroBits", func(it *Interp, fn *ssa.Function, a []value) value {
		x := it.big(a[0])
		if x.op != OConst {
			fail("TrailingZeroBits")
		}
		return K(int64(x.k.TrailingZeroBits()))
	})

	// ---- randomness, hashing -------------------------------------------------------
	baseIntr["crypto/rand.Int"] = func(it *Interp, fn *ssa.Function, a []value) value {
		m := it.big(a[1])
		if m.op != OConst {
			fail("rand.Int with a symbolic bound")
		}
		if m.k.Sign() <= 0 {
			panic(targetPanic{msg: "crypto/rand: argument to Int is <= 0", where: it.where()})
		}
		if it.noFork > 0 {
			panic(mergeAbort{"draw"})
		}
		if it.cfg.MaxHashes > 0 && len(it.draws) >= it.cfg.MaxHashes {
			it.res.Bounded++ // beyond the bound on the number of attempts
			panic(pathEnd{"draw bound"})
		}
		v := Var(fmt.Sprintf("draw%d", len(it.draws)), b0, new(big.Int).Sub(m.k, b1))
		it.draws = append(it.draws, Draw{v, new(big.Int).Set(m.k)})
		return tuple{it.newBig(v), iface{}}
	}
	baseIntr["crypto/sha256.New"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return iface{types.NewPointer(types.Typ[types.Int]), it.newCell(hashv{})}
	}
	baseIntr["crypto/sha256.Sum256"] = func(it *Interp, fn *ssa.Function, a []value) value {
		d := it.digest(termsOf(a[0]))
		r := make(array, 32)
		for i, e := range bytesOf(d, 32) {
			r[i] = e
		}
		return r
	}

	// ---- strings, buffers ------------------------------------------------------------
	fmtInt := func(it *Interp, fn *ssa.Function, a []value) value {
		t := a[0].(*Term)
		if len(a) > 1 {
			b := a[1].(*Term)
			if b.op != OConst {
				fail("FormatInt with symbolic base")
			}
			if t.op == OConst {
				return t.k.Text(int(b.k.Int64()))
			}
			if b.k.Int64() != 10 {
				return &symStr{[]*Term{UF("chunk:base", nil, nil, t, b)}}
			}
		}
		return symText(t)
	}
	baseIntr["strconv.FormatInt"] = fmtInt
	baseIntr["strconv.FormatUint"] = fmtInt
	baseIntr["strconv.Itoa"] = fmtInt
	baseIntr["bytes.Equal"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return seqEq(termsOf(a[0]), termsOf(a[1]))
	}
	for _, typ := range []string{"*bytes.Buffer", "*strings.Builder"} {
		pre := "(" + typ + ")."
		wr := func(it *Interp, fn *ssa.Function, a []value) value {
			p := a[0].(*value)
			var els []*Term
			switch x := a[1].(type) {
			case string, *symStr:
				els = strEls(x)
			case []value:
				els = termsOf(x)
			}
			old := (*p).(bufv).els
			it.store(p, bufv{append(append([]*Term(nil), old...), els...)})
			return tuple{K(int64(len(els))), iface{}}
		}
		baseIntr[pre+"Write"] = wr
		baseIntr[pre+"WriteString"] = wr
		baseIntr[pre+"WriteByte"] = func(it *Interp, fn *ssa.Function, a []value) value {
			p := a[0].(*value)
			it.store(p, bufv{append(append([]*Term(nil), (*p).(bufv).els...), a[1].(*Term))})
			return iface{}
		}
		baseIntr[pre+"Bytes"] = func(it *Interp, fn *ssa.Function, a []value) value {
			return it.sliceOf((*a[0].(*value)).(bufv).els)
		}
		baseIntr[pre+"String"] = func(it *Interp, fn *ssa.Function, a []value) value {
			return mkStr((*a[0].(*value)).(bufv).els)
		}
		baseIntr[pre+"Len"] = func(it *Interp, fn *ssa.Function, a []value) value {
			return K(int64(len((*a[0].(*value)).(bufv).els)))
		}
		baseIntr[pre+"Reset"] = func(it *Interp, fn *ssa.Function, a []value) value {
			it.store(a[0].(*value), bufv{})
			return tuple{}
		}
		baseIntr[pre+"Grow"] = func(it *Interp, fn *ssa.Function, a []value) value { return tuple{} }
	}
	baseIntr["bytes.NewBuffer"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.newCell(bufv{termsOf(a[0])})
	}
	baseIntr["bytes.NewBufferString"] = func(it *Interp, fn *ssa.Function, a []value) value {
		return it.newCell(bufv{strEls(a[0])})
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		baseIntr[n] = func(it *Interp, fn *ssa.Function, a []value) value { return tuple{K(0), iface{}} }
	}
	fl := func(name string, f func(float64) float64) {
		baseIntr["math."+name] = func(it *Interp, fn *ssa.Function, a []value) value { return it.floatFn(name, f, a[0]) }
	}
	fl("Log", math.Log)
	fl("Log2", math.Log2)
	fl("Log10", math.Log10)
	fl("Floor", math.Floor)
	fl("Ceil", math.Ceil)
	fl("Sqrt", math.Sqrt)
	fl("Abs", math.Abs)
	fl("Round", math.Round)
	fl("Trunc", math.Trunc)
	baseIntr["math.IsNaN"] = func(it *Interp, fn *ssa.Function, a []value) value {
		if _, ok := a[0].(symFloat); ok {
			return False
		}
		return Kbool(math.IsNaN(a[0].(float64)))
	}
	baseIntr["math.IsInf"] = func(it *Interp, fn *ssa.Function, a []value) value {
		if _, ok := a[0].(symFloat); ok {
			return False
		}
		return Kbool(math.IsInf(a[0].(float64), int(it.concInt(a[1].(*Term), "sign"))))
	}
	fl("Exp2", math.Exp2)
	fl("Exp", math.Exp)
	fl("Cbrt", math.Cbrt)
	baseIntr["math.Float64bits"] = func(it *Interp, fn *ssa.Function, a []value) value {
		if _, ok := a[0].(symFloat); ok {
			fail("bits of a symbolic float")
		}
		return Kb(new(big.Int).SetUint64(math.Float64bits(a[0].(float64))))
	}
	baseIntr["math.Float64frombits"] = func(it *Interp, fn *ssa.Function, a []value) value {
		t := a[0].(*Term)
		if t.op != OConst {
			fail("float of symbolic bits")
		}
		return math.Float64frombits(t.k.Uint64())
	}
	baseIntr["math.Frexp"] = func(it *Interp, fn *ssa.Function, a []value) value {
		f, e := it.frexp(a[0])
		return tuple{f, e}
	}
	baseIntr["math.Ilogb"] = func(it *Interp, fn *ssa.Function, a []value) value {
		if x, ok := a[0].(float64); ok {
			return K(int64(math.Ilogb(x)))
		}
		f, e := it.frexp(a[0])
		if f == float64(0) {
			return K(int64(math.Ilogb(0)))
		}
		return Sub(e.(*Term), K(1))
	}
	baseIntr["math.Modf"] = func(it *Interp, fn *ssa.Function, a []value) value {
		i, f := it.floatSplit(a[0])
		return tuple{i, f}
	}
	baseIntr["math.Mod"] = func(it *Interp, fn *ssa.Function, a []value) value {
		if x, ok := a[0].(float64); ok {
			return math.Mod(x, a[1].(float64))
		}
		if y, ok := a[1].(float64); !ok || y != 1 {
			fail("Mod of a symbolic float")
		}
		_, f := it.floatSplit(a[0])
		return f
	}
	baseIntr["math.Pow"] = func(it *Interp, fn *ssa.Function, a []value) value {
		if y, ok := a[1].(symFloat); ok {
			x := a[0].(float64)
			if x <= 0 {
				fail("symbolic power of a number below zero")
			}
			return y.then("Pow", func(v float64) float64 { return math.Pow(x, v) })
		}
		if x, ok := a[0].(symFloat); ok {
			fail("symbolic base of Pow %v", x.id)
		}
		return math.Pow(a[0].(float64), a[1].(float64))
	}
	bitsLen := func(it *Interp, fn *ssa.Function, a []value) value { return K(it.bitLen(a[0].(*Term))) }
	baseIntr["math/bits.Len64"] = bitsLen
	baseIntr["math/bits.Len"] = bitsLen
	baseIntr["math/bits.Len32"] = bitsLen
	popcnt := func(it *Interp, fn *ssa.Function, a []value) value {
		t := a[0].(*Term)
		s := K(0)
		for i := 0; i < 64; i++ {
			s = Add(s, Mod(Div(t, new(big.Int).Lsh(b1, uint(i))), big.NewInt(2)))
		}
		if s.op == OLin && t.op != OConst {
			popSrc[s] = t
		}
		return s
	}
	baseIntr["math/bits.OnesCount64"] = popcnt
	baseIntr["math/bits.OnesCount"] = popcnt
	tz := func(it *Interp, fn *ssa.Function, a []value) value {
		t := a[0].(*Term)
		for i := 0; i < 64; i++ {
			if it.branch(Not(Eq(Mod(Div(t, new(big.Int).Lsh(b1, uint(i))), big.NewInt(2)), K(0)))) {
				return K(int64(i))
			}
		}
		return K(64)
	}
	baseIntr["math/bits.TrailingZeros64"] = tz
	baseIntr["math/bits.TrailingZeros"] = tz

	// contract of the two's complement reader on 32-byte digests (the function
	// itself is checked separately)
	modeIntr["bytesconv"] = map[string]intrinsicFn{
		"github.com/ing-bank/zkrp/util/byteconversion.FromByteArray": func(it *Interp, fn *ssa.Function, a []value) value {
			els := termsOf(a[0])
			if len(els) == 0 {
				return tuple{(*value)(nil), it.mkErr("empty")}
			}
			t := fromBytes(els)
			bits := uint(8 * len(els))
			top := Div(t, new(big.Int).Lsh(b1, bits-1))
			it.assumed["byteconversion.FromByteArray reads two's complement (checked by C25)"] = true
			return tuple{it.newBig(Sub(t, Scale(top, new(big.Int).Lsh(b1, bits)))), iface{}}
		},
	}
}

func (it *Interp) clampByte(t *Term) *Term { return Mod(t, big.NewInt(256)) }

func (it *Interp) byteLen(t *Term) int64 {
	if t.op == OConst {
		return int64((t.k.BitLen() + 7) / 8)
	}
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil {
		a, b := (t.lo.BitLen()+7)/8, (t.hi.BitLen()+7)/8
		if a == b {
			return int64(a)
		}
	}
	max := 64
	if t.hi != nil {
		max = (t.hi.BitLen() + 7) / 8
	}
	min := 0
	if t.lo != nil && t.lo.Sign() > 0 {
		min = (t.lo.BitLen() + 7) / 8
	}
	for n := max; n > min; n-- {
		if it.branch(Le(Kb(new(big.Int).Lsh(b1, uint(8*(n-1)))), t)) {
			if n == 64 && t.hi == nil {
				fail("byte length of an unbounded number")
			}
			return int64(n)
		}
	}
	return int64(min)
}

func (it *Interp) bitLen(t *Term) int64 {
	t = absT(it, t)
	if t.op == OConst {
		return int64(t.k.BitLen())
	}
	if t.hi == nil {
		fail("BitLen of an unbounded number")
	}
	min := 0
	if t.lo != nil && t.lo.Sign() > 0 {
		min = t.lo.BitLen()
	}
	for n := t.hi.BitLen(); n > min; n-- {
		if it.branch(Le(Kb(new(big.Int).Lsh(b1, uint(n-1))), t)) {
			return int64(n)
		}
	}
	return int64(min)
}

func (it *Interp) digest(els []*Term) *Term {
	els = append([]*Term(nil), els...)
	max := new(big.Int).Sub(new(big.Int).Lsh(b1, 256), b1)
	allc := true
	for _, e := range els {
		if e.op != OConst {
			allc = false
		}
	}
	if allc && slices.Contains(it.cfg.Modes, "conchash") {
		buf := make([]byte, len(els))
		for i, e := range els {
			buf[i] = byte(e.k.Int64())
		}
		s := sha256.Sum256(buf)
		return Kb(new(big.Int).SetBytes(s[:]))
	}
	if it.cfg.MaxHashes > 0 && len(it.hashes) >= it.cfg.MaxHashes {
		it.res.Bounded++ // beyond the bound on the number of hash computations
		panic(pathEnd{"hash bound"})
	}
	if len(it.hashReuse) > 0 {
		if it.noFork > 0 {
			panic(mergeAbort{"reused hash"})
		}
		d := it.hashReuse[0].out
		it.hashReuse = it.hashReuse[1:]
		it.hashes = append(it.hashes, &HashEvent{els, d})
		return d
	}
	d := UF("sha256", b0, max, els...)
	for _, h := range it.hashes { // plain bytes, written differently but equal on this path
		if len(h.els) != len(els) || len(els) > 256 {
			continue
		}
		var ne []*Term
		plain := true
		for i, e := range els {
			if isChunk(e) || isChunk(h.els[i]) {
				plain = false
				break
			}
			if e != h.els[i] {
				ne = append(ne, Not(Eq(e, h.els[i])))
			}
		}
		if plain && len(ne) > 0 {
			dbg("equal inputs? %d of %d differ: %s / %s", len(ne), len(els), els[0], h.els[0])
		}
		if plain && len(ne) > 0 && !it.feasible(Or(ne...)) {
			d = h.out
			break
		}
	}
	it.hashes = append(it.hashes, &HashEvent{els, d})
	for _, n := range []*big.Int{secpN, bnN} {
		it.hashTerms[d] = true
		_ = n
	}
	return d
}

func (it *Interp) hashMethod(name string, p *value, a []value) value {
	h := (*p).(hashv)
	switch name {
	case "Write":
		els := termsOf(a[0])
		it.store(p, hashv{append(append([]*Term(nil), h.els...), els...)})
		return tuple{K(int64(len(els))), iface{}}
	case "Sum":
		d := it.digest(h.els)
		out := it.sliceOf(bytesOf(d, 32))
		pre := a[0].([]value)
		if len(pre) == 0 {
			return out
		}
		return append(append([]value(nil), pre...), out...)
	case "Reset":
		it.store(p, hashv{})
		return tuple{}
	case "Size":
		return K(32)
	case "BlockSize":
		return K(64)
	}
	fail("hash method %s", name)
	return nil
}

func (it *Interp) opaqueMethod(o opaquev, name string, a []value, sig *types.Signature) value {
	fail("method %s on %s", name, o.name)
	return nil
}

// setString parses decimal text. Symbolic bytes must be known to be digits
// (with an optional sign in front), otherwise the path forks on it.
func setString(it *Interp, fn *ssa.Function, a []value) value {
	base := it.concInt(a[2].(*Term), "base")
	bad := tuple{(*value)(nil), False}
	if s, ok := a[1].(string); ok {
		z, ok := new(big.Int).SetString(s, int(base))
		if !ok {
			return bad
		}
		it.setBig(a[0], Kb(z))
		return tuple{a[0], True}
	}
	els := strEls(a[1])
	if len(els) == 1 && els[0].op == OUF && els[0].name == "chunk:dec" && base == 10 {
		it.setBig(a[0], els[0].args[0])
		return tuple{a[0], True}
	}
	if base != 10 {
		fail("SetString base %d", base)
	}
	neg := False
	i := 0
	if len(els) > 0 {
		if it.branch(Eq(els[0], K('-'))) {
			neg = True
			i = 1
		} else if it.branch(Eq(els[0], K('+'))) {
			i = 1
		}
	}
	if i == len(els) {
		return bad
	}
	v := K(0)
	for ; i < len(els); i++ {
		e := els[i]
		if isChunk(e) {
			fail("SetString of opaque text")
		}
		if !it.branch(And(Le(K('0'), e), Le(e, K('9')))) {
			return bad
		}
		v = Add(Scale(v, big.NewInt(10)), Sub(e, K('0')))
	}
	if neg == True {
		v = Neg(v)
	}
	it.setBig(a[0], v)
	return tuple{a[0], True}
}

// ---- map lookups with a symbolic key ---------------------------------------------

// mapTemplate covers all entries of a map with integer-like keys by one value:
// entry values must agree up to the key itself.
func (it *Interp) mapTemplate(d *mapData, conds []*Term, k value) (value, *Term, bool) {
	type ent struct {
		key *big.Int
		val value
	}
	var kt *Term
	switch x := k.(type) {
	case *Term:
		kt = x
	case *symStr:
		if len(x.els) == 1 && x.els[0].op == OUF && x.els[0].name == "chunk:dec" {
			kt = x.els[0].args[0]
		}
	}
	if kt == nil || kt.isBool {
		return nil, nil, false
	}
	var es []ent
	for i := range d.keys {
		if conds[i] == False {
			continue
		}
		var kb *big.Int
		switch x := d.keys[i].(type) {
		case *Term:
			if x.op != OConst {
				return nil, nil, false
			}
			kb = x.k
		case string:
			z, ok := new(big.Int).SetString(x, 10)
			if !ok {
				return nil, nil, false
			}
			kb = z
		default:
			return nil, nil, false
		}
		es = append(es, ent{kb, d.vals[i]})
	}
	if len(es) < 3 {
		return nil, nil, false
	}
	sort.Slice(es, func(i, j int) bool { return es[i].key.Cmp(es[j].key) < 0 })
	for i := 1; i < len(es); i++ {
		if new(big.Int).Sub(es[i].key, es[i-1].key).Cmp(b1) != 0 {
			return nil, nil, false
		}
	}
	// template from two entries, checked on all
	var rec func(x, y value, kx, ky *big.Int) (value, bool)
	rec = func(x, y value, kx, ky *big.Int) (value, bool) {
		switch a := x.(type) {
		case *Term:
			b, ok := y.(*Term)
			if !ok {
				return nil, false
			}
			return antiUnify(a, b, kx, ky, kt)
		case bigv:
			b, ok := y.(bigv)
			if !ok {
				return nil, false
			}
			t, ok := antiUnify(a.t, b.t, kx, ky, kt)
			return bigv{t}, ok
		case grpv:
			b, ok := y.(grpv)
			if !ok || a.g.kind != b.g.kind {
				return nil, false
			}
			r := map[string]*Term{}
			for _, g := range append(append([]string{}, a.g.gens...), b.g.gens...) {
				t, ok := antiUnify(a.g.coef(g), b.g.coef(g), kx, ky, kt)
				if !ok {
					return nil, false
				}
				r[g] = t
			}
			return grpv{mkGrp(a.g.kind, r)}, true
		case *value:
			b, ok := y.(*value)
			if !ok || (a == nil) != (b == nil) {
				return nil, false
			}
			if a == b {
				return a, true
			}
			v, ok := rec(*a, *b, kx, ky)
			if !ok {
				return nil, false
			}
			p := new(value)
			*p = v
			return p, true
		case structure:
			b, ok := y.(structure)
			if !ok {
				return nil, false
			}
			r := make(structure, len(a))
			for i := range a {
				v, ok := rec(a[i], b[i], kx, ky)
				if !ok {
					return nil, false
				}
				r[i] = v
			}
			return r, true
		case string:
			b, ok := y.(string)
			return x, ok && a == b
		}
		return nil, false
	}
	tmpl, ok := rec(es[0].val, es[1].val, es[0].key, es[1].key)
	if !ok {
		return nil, nil, false
	}
	for i := 2; i < len(es); i++ {
		t2, ok := rec(es[0].val, es[i].val, es[0].key, es[i].key)
		if !ok || !sameValue(tmpl, t2) {
			return nil, nil, false
		}
	}
	mem := And(Le(Kb(es[0].key), kt), Le(kt, Kb(es[len(es)-1].key)))
	// facts known for every entry hold for the selected one
	type nz struct {
		t *Term
		m *big.Int
	}
	var facts []nz
	var collect func(v value)
	seenT := map[*Term]bool{}
	var ct func(t *Term)
	ct = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		if t.op == OInv {
			facts = append(facts, nz{t.args[0], t.k})
		}
		for _, a := range t.args {
			ct(a)
		}
	}
	collect = func(v value) {
		switch a := v.(type) {
		case *Term:
			ct(a)
		case bigv:
			ct(a.t)
		case grpv:
			for _, c := range a.g.coefs {
				ct(c)
			}
		case *value:
			if a != nil {
				collect(*a)
			}
		case structure:
			for _, x := range a {
				collect(x)
			}
		}
	}
	collect(tmpl)
	mk := func() value {
		for _, f := range facts {
			it.assumeNonzeroQuiet(f.t, f.m)
		}
		return it.freshCopy(tmpl)
	}
	return mk, mem, true
}

// freshCopy: templates are immutable; give the caller its own cells.
func (it *Interp) freshCopy(v value) value {
	switch a := v.(type) {
	case *value:
		if a == nil {
			return a
		}
		return it.newCell(it.freshCopy(*a))
	case structure:
		r := make(structure, len(a))
		for i := range a {
			r[i] = it.freshCopy(a[i])
		}
		return r
	}
	return v
}

func sameValue(x, y value) bool {
	switch a := x.(type) {
	case *value:
		b, ok := y.(*value)
		if !ok || (a == nil) != (b == nil) {
			return false
		}
		return a == b || sameValue(*a, *b)
	case structure:
		b, ok := y.(structure)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameValue(a[i], b[i]) {
				return false
			}
		}
		return true
	case grpv:
		b, ok := y.(grpv)
		return ok && a.g == b.g
	case bigv:
		b, ok := y.(bigv)
		return ok && a.t == b.t
	}
	return x == y
}

// antiUnify finds a term in kt that equals x at kt=kx and y at kt=ky.
func antiUnify(x, y *Term, kx, ky *big.Int, kt *Term) (*Term, bool) {
	if x == y {
		return x, true
	}
	// affine in the key?
	lin := func(t *Term) (*big.Int, *Term) {
		if t.op == OConst {
			return t.k, nil
		}
		if t.op == OLin {
			l := newLin()
			l.add(t, b1)
			k := new(big.Int).Set(l.k)
			l.k = new(big.Int)
			return k, l.term()
		}
		return b0, t
	}
	cx, rx := lin(x)
	cy, ry := lin(y)
	if rx == ry {
		dk := new(big.Int).Sub(ky, kx)
		dc := new(big.Int).Sub(cy, cx)
		q, r := new(big.Int).QuoRem(dc, dk, new(big.Int))
		if r.Sign() != 0 {
			return nil, false
		}
		base := Kb(cx)
		if rx != nil {
			base = Add(rx, base)
		}
		return Add(base, Scale(Sub(kt, Kb(kx)), q)), true
	}
	if x.op == y.op && len(x.args) == len(y.args) && x.name == y.name && x.op != OUF && x.op != OVar && x.op != OLin {
		if (x.k == nil) != (y.k == nil) || x.k != nil && x.k.Cmp(y.k) != 0 {
			return nil, false
		}
		as := make([]*Term, len(x.args))
		for i := range x.args {
			a, ok := antiUnify(x.args[i], y.args[i], kx, ky, kt)
			if !ok {
				return nil, false
			}
			as[i] = a
		}
		return rebuild(x, as), true
	}
	return nil, false
}
