package main

import (
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// decodeRune is the first character of a string, one case per length.
func (it *Interp) decodeRune(els []*Term) (*Term, int) {
	var cs []byte
	for _, e := range els {
		if e.op != OConst {
			break
		}
		cs = append(cs, byte(e.k.Int64()))
	}
	if len(cs) == len(els) || utf8.FullRune(cs) {
		r, n := utf8.DecodeRune(cs)
		return K(int64(r)), n
	}
	for i, e := range els {
		if i < 4 && e.op == OUF && strings.HasPrefix(e.name, "chunk:") {
			fail("characters of an opaque string")
		}
	}
	b := els[0]
	if inRange(b, b0, big.NewInt(0x7f)) || it.branch(Lt(b, K(0x80))) {
		return b, 1
	}
	in := func(t *Term, lo, hi int64) bool {
		return it.branch(And(Le(K(lo), t), Le(t, K(hi))))
	}
	cont := func(i int, lo, hi int64) bool { return i < len(els) && in(els[i], lo, hi) }
	sum := func(lead int64, n int) *Term {
		r := Sub(b, K(lead))
		for i := 1; i < n; i++ {
			r = Add(Scale(r, big.NewInt(64)), Sub(els[i], K(0x80)))
		}
		return r
	}
	bad := K(utf8.RuneError)
	switch {
	case in(b, 0xC2, 0xDF):
		if cont(1, 0x80, 0xBF) {
			return sum(0xC0, 2), 2
		}
	case in(b, 0xE0, 0xEF):
		lo, hi := int64(0x80), int64(0xBF)
		if it.branch(Eq(b, K(0xE0))) {
			lo = 0xA0
		} else if it.branch(Eq(b, K(0xED))) {
			hi = 0x9F
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xBF) {
			return sum(0xE0, 3), 3
		}
	case in(b, 0xF0, 0xF4):
		lo, hi := int64(0x80), int64(0xBF)
		if it.branch(Eq(b, K(0xF0))) {
			lo = 0x90
		} else if it.branch(Eq(b, K(0xF4))) {
			hi = 0x8F
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) {
			return sum(0xF0, 4), 4
		}
	}
	return bad, 1
}

// encodeRune is the UTF-8 form of a character.
func (it *Interp) encodeRune(r *Term) []*Term {
	if r.op == OConst {
		c := rune(utf8.RuneError)
		if r.k.IsInt64() && r.k.Int64() >= 0 && r.k.Int64() <= utf8.MaxRune {
			c = rune(r.k.Int64())
		}
		return strEls(string(c))
	}
	if it.branch(And(Le(K(0), r), Lt(r, K(0x80)))) {
		return []*Term{r}
	}
	fail("UTF-8 form of a symbolic character")
	return nil
}

// inTable: the character belongs to the table.
func inTable(r *Term, tab *unicode.RangeTable) *Term {
	res := False
	add := func(lo, hi, stride int64) {
		if stride == 1 {
			res = Or(res, And(Le(K(lo), r), Le(r, K(hi))))
			return
		}
		res = Or(res, And(Le(K(lo), r), Le(r, K(hi)), Eq(Mod(Sub(r, K(lo)), big.NewInt(stride)), K(0))))
	}
	for _, x := range tab.R16 {
		add(int64(x.Lo), int64(x.Hi), int64(x.Stride))
	}
	for _, x := range tab.R32 {
		add(int64(x.Lo), int64(x.Hi), int64(x.Stride))
	}
	return res
}

func init() {
	for name, x := range map[string]struct {
		f    func(rune) bool
		tabs []*unicode.RangeTable
	}{
		"IsDigit":  {unicode.IsDigit, []*unicode.RangeTable{unicode.Nd}},
		"IsNumber": {unicode.IsNumber, []*unicode.RangeTable{unicode.N}},
		"IsSpace":  {unicode.IsSpace, []*unicode.RangeTable{unicode.White_Space}},
		"IsLetter": {unicode.IsLetter, []*unicode.RangeTable{unicode.L}},
		"IsUpper":  {unicode.IsUpper, []*unicode.RangeTable{unicode.Lu}},
		"IsLower":  {unicode.IsLower, []*unicode.RangeTable{unicode.Ll}},
		"IsPunct":  {unicode.IsPunct, []*unicode.RangeTable{unicode.P}},
		"IsSymbol": {unicode.IsSymbol, []*unicode.RangeTable{unicode.S}},
	} {
		x := x
		baseIntr["unicode."+name] = func(it *Interp, fn *ssa.Function, a []value) value {
			t := a[0].(*Term)
			if t.op == OConst {
				return Kbool(x.f(rune(t.k.Int64())))
			}
			r := False
			for _, tab := range x.tabs {
				r = Or(r, inTable(t, tab))
			}
			return r
		}
	}
	baseIntr["unicode/utf8.DecodeRuneInString"] = func(it *Interp, fn *ssa.Function, a []value) value {
		els := strEls(a[0])
		if len(els) == 0 {
			return tuple{K(utf8.RuneError), K(0)}
		}
		r, n := it.decodeRune(els)
		return tuple{r, K(int64(n))}
	}
	baseIntr["unicode/utf8.DecodeRune"] = func(it *Interp, fn *ssa.Function, a []value) value {
		els := termsOf(a[0])
		if len(els) == 0 {
			return tuple{K(utf8.RuneError), K(0)}
		}
		r, n := it.decodeRune(els)
		return tuple{r, K(int64(n))}
	}
}
