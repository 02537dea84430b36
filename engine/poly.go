package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- flat polynomials ----------------------------------------------------------
//
// poly expands a term to a polynomial over GF(p) in its leaves. It is used to
// recognise that two equations of a query are the same one; larger polynomials
// than polyMax monomials are left to the solver.

const polyMax = 3000

type poly map[string]*big.Int // monomial ("id.id.id", sorted) -> coefficient

var polyMemo = map[string]map[*Term]poly{}
var polyTooBig = poly{}

func polyOf(t *Term, p *big.Int) poly {
	key := string(p.Bytes())
	mm := polyMemo[key]
	if mm == nil {
		mm = map[*Term]poly{}
		polyMemo[key] = mm
	}
	return polyRec(t, p, mm)
}

func isTooBig(q poly) bool { return q != nil && len(q) == 1 && q["!"] != nil }

func init() { polyTooBig["!"] = new(big.Int) }

func polyRec(t *Term, p *big.Int, mm map[*Term]poly) poly {
	if r, ok := mm[t]; ok {
		return r
	}
	var r poly
	addTo := func(dst poly, k string, c *big.Int) {
		if o, ok := dst[k]; ok {
			s := new(big.Int).Add(o, c)
			s.Mod(s, p)
			if s.Sign() == 0 {
				delete(dst, k)
			} else {
				dst[k] = s
			}
			return
		}
		s := new(big.Int).Mod(c, p)
		if s.Sign() != 0 {
			dst[k] = s
		}
	}
	switch {
	case t.op == OConst:
		r = poly{}
		addTo(r, "", t.k)
	case t.op == OLin:
		r = poly{}
		addTo(r, "", t.k)
		for i, a := range t.args {
			q := polyRec(a, p, mm)
			if isTooBig(q) {
				r = polyTooBig
				break
			}
			for k, c := range q {
				addTo(r, k, new(big.Int).Mul(c, t.coef[i]))
			}
			if len(r) > polyMax {
				r = polyTooBig
				break
			}
		}
	case t.op == OMul:
		r = poly{"": b1}
		for _, a := range t.args {
			q := polyRec(a, p, mm)
			if isTooBig(q) || len(q)*len(r) > 4*polyMax {
				r = polyTooBig
				break
			}
			n := poly{}
			for k, c := range r {
				for l, d := range q {
					addTo(n, monoMul(k, l), new(big.Int).Mul(c, d))
				}
			}
			r = n
			if len(r) > polyMax {
				r = polyTooBig
				break
			}
		}
	case t.op == OMod && new(big.Int).Mod(t.k, p).Sign() == 0:
		r = polyRec(t.args[0], p, mm)
	default:
		r = poly{strconv.Itoa(int(t.id)): b1}
	}
	mm[t] = r
	return r
}

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	ks := append(strings.Split(a, "."), strings.Split(b, ".")...)
	sort.Strings(ks)
	return strings.Join(ks, ".")
}

// polyKey identifies the equation t = 0 over GF(p); "" if it is too large.
func polyKey(t *Term, p *big.Int) string {
	q := polyOf(t, p)
	if isTooBig(q) {
		return ""
	}
	if len(q) == 0 {
		return "0"
	}
	ks := make([]string, 0, len(q))
	for k := range q {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	inv := new(big.Int).ModInverse(q[ks[0]], p)
	var sb strings.Builder
	for _, k := range ks {
		c := new(big.Int).Mul(q[k], inv)
		c.Mod(c, p)
		sb.WriteString(k)
		sb.WriteByte(':')
		sb.WriteString(c.Text(62))
		sb.WriteByte(' ')
	}
	return sb.String()
}
