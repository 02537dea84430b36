package main

import (
	"go/token"
	"math"
	"math/big"
)

// symFloat is f(float64(t)) for a symbolic integer t. On [lo, hi] the function
// f is monotone, so comparisons with constants become comparisons of t with
// thresholds found by evaluating f.
type symFloat struct {
	t      *Term
	lo, hi *big.Int
	f      func(float64) float64
	id     string
}

func newSymFloat(it *Interp, t *Term) value {
	lo, hi := t.lo, t.hi
	if lo == nil {
		lo = big.NewInt(math.MinInt64)
	}
	if hi == nil {
		hi = new(big.Int).SetUint64(math.MaxUint64)
	}
	return symFloat{t, lo, hi, func(x float64) float64 { return x }, ""}
}

func (s symFloat) at(v *big.Int) float64 {
	x, _ := new(big.Float).SetInt(v).Float64()
	return s.f(x)
}

func (s symFloat) then(id string, g func(float64) float64) symFloat {
	f := s.f
	s.f = func(x float64) float64 { return g(f(x)) }
	s.id += ";" + id
	return s
}

// positive narrows the integer to at least 1 for functions with a pole at 0.
func (it *Interp) floatFn(name string, g func(float64) float64, x value) value {
	s, ok := x.(symFloat)
	if !ok {
		return g(x.(float64))
	}
	switch name {
	case "Log", "Log2", "Log10", "Sqrt":
		if s.id != "" {
			fail("%s of a derived symbolic float", name)
		}
		if it.branch(Lt(s.t, K(0))) {
			return g(-1)
		}
		if it.branch(Eq(s.t, K(0))) {
			return g(0)
		}
		if s.lo.Sign() <= 0 {
			s.lo = big.NewInt(1)
		}
	case "Abs":
		if it.branch(Lt(s.t, K(0))) {
			if s.id == "" && s.hi.Sign() > 0 {
				s.hi = b0
			}
		} else if s.id == "" && s.lo.Sign() < 0 {
			s.lo = b0
		}
	}
	return s.then(name, g)
}

// first is the least v in [lo, hi] where the monotone predicate p has p(v) ==
// p(hi); everything below has the other value.
func (s symFloat) first(p func(float64) bool) (*big.Int, bool) {
	top := p(s.at(s.hi))
	lo, hi := new(big.Int).Set(s.lo), new(big.Int).Set(s.hi)
	for lo.Cmp(hi) < 0 {
		mid := new(big.Int).Add(lo, hi)
		mid.Rsh(mid, 1)
		if mid.Cmp(hi) >= 0 { // rounding of negatives
			mid.Sub(hi, b1)
		}
		if p(s.at(mid)) == top {
			hi = mid
		} else {
			lo = new(big.Int).Add(mid, b1)
		}
	}
	return lo, top
}

func (s symFloat) pred(p func(float64) bool) *Term {
	v, top := s.first(p)
	if v.Cmp(s.lo) <= 0 {
		return Kbool(top)
	}
	if top {
		return Le(Kb(v), s.t)
	}
	return Lt(s.t, Kb(v))
}

func (s symFloat) cmp(op token.Token, c float64) *Term {
	switch op {
	case token.LSS:
		return s.pred(func(x float64) bool { return x < c })
	case token.LEQ:
		return s.pred(func(x float64) bool { return x <= c })
	case token.GTR:
		return s.pred(func(x float64) bool { return x > c })
	case token.GEQ:
		return s.pred(func(x float64) bool { return x >= c })
	case token.EQL:
		if c != c {
			return False
		}
		return And(s.cmp(token.LEQ, c), s.cmp(token.GEQ, c))
	case token.NEQ:
		return Not(s.cmp(token.EQL, c))
	}
	fail("comparison of floats")
	return nil
}

// toInt is the conversion to an integer, one case per value of the result.
func (s symFloat) toInt() *Term {
	if s.id == "" {
		lim := new(big.Int).Lsh(b1, 53)
		if s.lo.Cmp(new(big.Int).Neg(lim)) >= 0 && s.hi.Cmp(lim) <= 0 {
			return s.t
		}
		fail("conversion of a rounded symbolic float")
	}
	conv := func(v *big.Int) int64 { return int64(s.at(v)) }
	a, b := conv(s.lo), conv(s.hi)
	if d := b - a; d > 300 || d < -300 {
		fail("conversion of a symbolic float with too many values")
	}
	step := int64(1)
	if b < a {
		step = -1
	}
	r := K(a)
	for v := a; v != b; v += step {
		w := v
		c := s.pred(func(x float64) bool {
			if step > 0 {
				return int64(x) > w
			}
			return int64(x) < w
		})
		r = Ite(c, K(v+step), r)
	}
	return r
}

func floatArith(op token.Token, x, y value) value {
	f := func(a, b float64) float64 {
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
		fail("operator on floats")
		return 0
	}
	switch a := x.(type) {
	case symFloat:
		b, ok := y.(float64)
		if !ok {
			fail("arithmetic on two symbolic floats")
		}
		return a.then(op.String(), func(v float64) float64 { return f(v, b) })
	case float64:
		b := y.(symFloat)
		if op == token.QUO && (b.lo.Sign() <= 0 || b.id != "") {
			fail("division by a symbolic float")
		}
		return b.then(op.String(), func(v float64) float64 { return f(a, v) })
	}
	fail("operator on floats")
	return nil
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// stepEnd is the last v in [from, hi] where the function has the value it has
// at from.
func (s symFloat) stepEnd(from *big.Int) *big.Int {
	c := s.at(from)
	lo, hi := new(big.Int).Set(from), new(big.Int).Set(s.hi)
	for lo.Cmp(hi) < 0 {
		mid := new(big.Int).Add(lo, hi)
		mid.Add(mid, b1)
		mid.Rsh(mid, 1)
		if s.at(mid) == c {
			lo = mid
		} else {
			hi = mid.Sub(mid, b1)
		}
	}
	return lo
}

// steps reports whether the function has few values.
func (s symFloat) steps() bool {
	v := s.lo
	for n := 0; n < 300; n++ {
		e := s.stepEnd(v)
		if e.Cmp(s.hi) >= 0 {
			return true
		}
		v = new(big.Int).Add(e, b1)
	}
	return false
}

// floatStep goes on with one of the values of a function that has few.
func (it *Interp) floatStep(s symFloat) float64 {
	v := s.lo
	for {
		e := s.stepEnd(v)
		if e.Cmp(s.hi) >= 0 || it.branch(Le(s.t, Kb(e))) {
			return s.at(v)
		}
		v = new(big.Int).Add(e, b1)
	}
}

// floatSplit is the integral and the fractional part.
func (it *Interp) floatSplit(x value) (value, value) {
	s, ok := x.(symFloat)
	if !ok {
		a, b := math.Modf(x.(float64))
		return a, b
	}
	if s.id == "" {
		return s, float64(0)
	}
	tr := s.then("Trunc", math.Trunc)
	if !tr.steps() {
		fail("parts of a symbolic float with too many values")
	}
	v := it.floatStep(tr)
	return v, s.then("-", func(x float64) float64 { return x - v })
}

// frexp goes on with one binade, where the fraction is monotone.
func (it *Interp) frexp(x value) (value, value) {
	s, ok := x.(symFloat)
	if !ok {
		f, e := math.Frexp(x.(float64))
		return f, K(int64(e))
	}
	if s.id != "" {
		fail("Frexp of a derived symbolic float")
	}
	sign := false
	if s.lo.Sign() < 0 {
		if sign = it.branch(Lt(s.t, K(0))); sign && s.hi.Sign() >= 0 {
			s.hi = big.NewInt(-1)
		} else if !sign {
			s.lo = b0
		}
	}
	if !sign && s.lo.Sign() == 0 {
		if it.branch(Eq(s.t, K(0))) {
			return float64(0), K(0)
		}
		s.lo = b1
	}
	exp := s.then("exp", func(x float64) float64 { _, e := math.Frexp(x); return float64(e) })
	e := int(it.floatStep(exp))
	in := func(v *big.Int) int { _, x := math.Frexp(s.at(v)); return x }
	// the integers of the binade
	near := func(lo, hi *big.Int, p func(*big.Int) bool) *big.Int { // least with p
		lo, hi = new(big.Int).Set(lo), new(big.Int).Set(hi)
		for lo.Cmp(hi) < 0 {
			mid := new(big.Int).Add(lo, hi)
			mid.Rsh(mid, 1)
			if p(mid) {
				hi = mid
			} else {
				lo = mid.Add(mid, b1)
			}
		}
		return lo
	}
	if sign {
		s.lo = near(s.lo, s.hi, func(v *big.Int) bool { return in(v) <= e })
		s.hi = new(big.Int).Neg(near(new(big.Int).Neg(s.hi), new(big.Int).Neg(s.lo), func(v *big.Int) bool { return in(new(big.Int).Neg(v)) >= e }))
	} else {
		top := near(s.lo, s.hi, func(v *big.Int) bool { return in(v) > e || v.Cmp(s.hi) == 0 })
		s.lo = near(s.lo, s.hi, func(v *big.Int) bool { return in(v) >= e })
		if in(top) > e {
			top = new(big.Int).Sub(top, b1)
		}
		s.hi = top
	}
	return s.then("Frexp", func(x float64) float64 { f, _ := math.Frexp(x); return f }), K(int64(e))
}

// symFloatOp handles a binary operator with a symbolic operand.
func (it *Interp) symFloatOp(op token.Token, x, y value) (value, bool) {
	a, okx := x.(symFloat)
	b, oky := y.(symFloat)
	if !okx && !oky {
		return nil, false
	}
	if okx && oky {
		switch {
		case b.steps():
			y, oky = it.floatStep(b), false
		case a.steps():
			x, okx = it.floatStep(a), false
		default:
			fail("operator on two symbolic floats")
		}
	}
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO:
		return floatArith(op, x, y), true
	}
	if okx {
		return a.cmp(op, y.(float64)), true
	}
	return b.cmp(flip(op), x.(float64)), true
}
