package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// ---- queries ------------------------------------------------------------------

type verdict int

const (
	vUnsat verdict = iota
	vSat
	vUnknown
)

func (v verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

type model map[*Term]*big.Int

type solverStats struct {
	queries  int
	unsat    int
	sat      int
	unknown  int
	time     time.Duration
	byLogic  map[string]int
	proved   int // identities proved for canonicalisation
	maxQuery time.Duration
}

var stats = solverStats{byLogic: map[string]int{}}

// globalNonzero holds (term, modulus) pairs assumed to be invertible.
var globalNonzero = map[string]bool{}

// globalNonzeroT holds the same assumptions as formulas.
var globalNonzeroT []*Term

func nzKey(t *Term, m *big.Int) string { return fmt.Sprintf("%d|%s", t.id, m.Text(62)) }

var queryTimeout = 60 * time.Second
var feasTimeout = 8 * time.Second

type qres struct {
	v verdict
	m model
}

var qMemo = map[string]qres{}

// prove decides hyps |= goal.
func prove(hyps []*Term, goal *Term, timeout time.Duration) (verdict, model) {
	v, m := check(append(append([]*Term(nil), hyps...), Not(goal)), timeout)
	return v, m
}

// check decides satisfiability of the conjunction of cs. A sat answer comes
// with a model of the abstraction, which need not be a model of the terms.
func check(cs []*Term, timeout time.Duration) (verdict, model) {
	c := And(cs...)
	if c == False {
		return vUnsat, nil
	}
	if c == True {
		return vSat, model{}
	}
	key := fmt.Sprint(c.id)
	if r, ok := qMemo[key]; ok {
		return r.v, r.m
	}
	full := c
	if len(partialEnc) > 1 {
		full = And(append(encFacts(c), c)...)
	}
	v, m := check1(full, timeout)
	if v != vUnknown {
		qMemo[key] = qres{v, m}
	}
	return v, m
}

func conjuncts(c *Term) []*Term {
	if c.op == OAnd {
		return c.args
	}
	return []*Term{c}
}

// primesIn lists the large moduli occurring in t.
func primesIn(t *Term, seen map[*Term]bool, out map[string]*big.Int) (bits, mods bool) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OMod, OInv:
			if t.k.BitLen() > 80 && isPrime(t.k) {
				out[t.k.Text(62)] = t.k
			}
		case OBand, OBor, OBxor:
			bits = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return
}

func check1(c *Term, timeout time.Duration) (verdict, model) {
	ps := map[string]*big.Int{}
	bits, _ := primesIn(c, map[*Term]bool{}, ps)
	switch {
	case len(ps) > 0:
		var keys []string
		for k := range ps {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var last model
		sawSat := false
		for _, k := range keys {
			v, m := checkFF(c, ps[k], timeout)
			if v == vUnsat {
				return v, nil
			}
			if v == vSat {
				sawSat = true
				last = m
			}
		}
		if !hasNonlinearBig(c) {
			v, m := checkInt(c, timeout)
			if v == vUnsat {
				return v, nil
			}
			if v == vSat {
				return v, m
			}
		}
		if sawSat {
			return vSat, last
		}
		return vUnknown, nil
	case bits:
		v, m := checkBV(c, timeout)
		if v != vUnknown {
			return v, m
		}
		return checkInt(c, timeout)
	}
	return checkInt(c, timeout)
}

// hasNonlinearBig: modular products or inverses, hopeless for integer solvers.
func hasNonlinearBig(c *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OInv {
			return true
		}
		if t.op == OMul {
			n := 0
			for _, a := range t.args {
				if a.hi == nil || a.lo == nil || a.hi.BitLen() > 64 {
					n++
				}
			}
			if n > 1 {
				return true
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(c)
}

// ---- running solvers -----------------------------------------------------------

var dumpDir = os.Getenv("SYMGO_DUMP")
var dumpN = 0

type solverCmd struct {
	bin  string
	args []string
}

// runSolvers races the given solvers on the script; first definite answer wins.
func runSolvers(script string, logic string, cmds []solverCmd, timeout time.Duration) (string, string) {
	stats.queries++
	stats.byLogic[logic]++
	if dumpDir != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", dumpDir, dumpN), []byte(script), 0o644)
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+500*time.Millisecond)
	defer cancel()
	type ans struct{ v, out string }
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c.bin, c.args...)
			cmd.Stdin = strings.NewReader(script)
			var out bytes.Buffer
			cmd.Stdout = &out
			cmd.WaitDelay = time.Second
			cmd.Run()
			s := out.String()
			first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
			rest := ""
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				rest = s[i+1:]
			}
			if first != "sat" && first != "unsat" {
				if os.Getenv("SYMGO_DEBUG") != "" && first != "unknown" && first != "timeout" && first != "" {
					dbg("solver %s: %s", c.bin, first)
				}
				first = "unknown"
			}
			ch <- ans{first, rest}
		}()
	}
	res := ans{"unknown", ""}
	for range cmds {
		a := <-ch
		if a.v != "unknown" {
			res = a
			break
		}
	}
	cancel()
	d := time.Since(t0)
	stats.time += d
	if d > stats.maxQuery {
		stats.maxQuery = d
	}
	switch res.v {
	case "unsat":
		stats.unsat++
	case "sat":
		stats.sat++
	default:
		stats.unknown++
	}
	if d > 2*time.Second {
		dbg("slow %s query #%d: %v %s", logic, dumpN, d, res.v)
	}
	return res.v, res.out
}

// ---- s-expression values ---------------------------------------------------------

func tokenize(s string) []string {
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	return strings.Fields(s)
}

// parseValues reads the (get-value ...) answer ((name value) ...).
func parseValues(out string) map[string]*big.Int {
	toks := tokenize(out)
	res := map[string]*big.Int{}
	pos := 0
	var skip func() []string
	skip = func() []string {
		if pos >= len(toks) {
			return nil
		}
		if toks[pos] != "(" {
			pos++
			return toks[pos-1 : pos]
		}
		st := pos
		d := 0
		for pos < len(toks) {
			if toks[pos] == "(" {
				d++
			} else if toks[pos] == ")" {
				d--
			}
			pos++
			if d == 0 {
				break
			}
		}
		return toks[st:pos]
	}
	num := func(v []string) *big.Int {
		neg := false
		for _, x := range v {
			switch {
			case x == "-":
				neg = true
			case x == "true":
				return b1
			case x == "false":
				return b0
			case strings.HasPrefix(x, "#b"):
				z, _ := new(big.Int).SetString(x[2:], 2)
				return z
			case strings.HasPrefix(x, "#x"):
				z, _ := new(big.Int).SetString(x[2:], 16)
				return z
			case strings.HasPrefix(x, "ff"):
				if z, ok := new(big.Int).SetString(x[2:], 10); ok {
					return z
				}
			case strings.HasPrefix(x, "bv"):
				if z, ok := new(big.Int).SetString(x[2:], 10); ok {
					return z
				}
			default:
				if z, ok := new(big.Int).SetString(x, 10); ok {
					if neg {
						z.Neg(z)
					}
					return z
				}
			}
		}
		return nil
	}
	for pos < len(toks) {
		if toks[pos] == "(" {
			pos++
			continue
		}
		if toks[pos] == ")" {
			pos++
			continue
		}
		name := toks[pos]
		pos++
		if pos >= len(toks) || toks[pos] == ")" {
			continue
		}
		v := skip()
		if z := num(v); z != nil {
			res[name] = z
		}
	}
	return res
}

// ---- finite-field encoding --------------------------------------------------------

type lower struct {
	p     *big.Int // nil: integers
	sb    strings.Builder
	decl  strings.Builder
	facts []string
	memo  map[*Term]string
	bmemo map[*Term]string
	vars  map[*Term]string
	bvs   int // width for bit-vectors
	bad   string
	polys map[string]string // equations by their flat polynomial
}

func newLower(p *big.Int) *lower {
	return &lower{p: p, memo: map[*Term]string{}, bmemo: map[*Term]string{}, vars: map[*Term]string{}, polys: map[string]string{}}
}

func (l *lower) def(name, sort, body string) string {
	fmt.Fprintf(&l.sb, "(define-fun %s () %s %s)\n", name, sort, body)
	return name
}

func (l *lower) ffk(k *big.Int) string {
	return "(as ff" + new(big.Int).Mod(k, l.p).String() + " F)"
}

func (l *lower) freshVar(t *Term) string {
	n := fmt.Sprintf("v%d", t.id)
	fmt.Fprintf(&l.decl, "(declare-const %s F)\n", n)
	l.vars[t] = n
	if in01(t) {
		l.facts = append(l.facts, fmt.Sprintf("(= (ff.mul %s %s) %s)", n, n, n))
	} else if small(t, l.p) && (t.lo.Sign() > 0 || t.hi.Sign() < 0) {
		l.facts = append(l.facts, fmt.Sprintf("(not (= %s (as ff0 F)))", n))
	}
	return n
}

// small: |t| < p by interval.
func small(t *Term, p *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.CmpAbs(p) < 0 && t.hi.CmpAbs(p) < 0
}

func (l *lower) num(t *Term) string {
	if r, ok := l.memo[t]; ok {
		return r
	}
	r := l.num0(t)
	l.memo[t] = r
	if in01(t) && t.op != OConst && l.vars[t] == "" {
		l.facts = append(l.facts, fmt.Sprintf("(= (ff.mul %s %s) %s)", r, r, r))
	}
	return r
}

func (l *lower) num0(t *Term) string {
	name := fmt.Sprintf("t%d", t.id)
	switch t.op {
	case OConst:
		return l.ffk(t.k)
	case OLin:
		var parts []string
		if new(big.Int).Mod(t.k, l.p).Sign() != 0 {
			parts = append(parts, l.ffk(t.k))
		}
		for i, a := range t.args {
			c := new(big.Int).Mod(t.coef[i], l.p)
			switch {
			case c.Sign() == 0:
			case c.Cmp(b1) == 0:
				parts = append(parts, l.num(a))
			default:
				parts = append(parts, fmt.Sprintf("(ff.mul %s %s)", l.ffk(c), l.num(a)))
			}
		}
		switch len(parts) {
		case 0:
			return l.ffk(b0)
		case 1:
			return l.def(name, "F", parts[0])
		}
		return l.def(name, "F", "(ff.add "+strings.Join(parts, " ")+")")
	case OMul:
		parts := make([]string, len(t.args))
		for i, a := range t.args {
			parts[i] = l.num(a)
		}
		return l.def(name, "F", "(ff.mul "+strings.Join(parts, " ")+")")
	case OMod:
		if new(big.Int).Mod(t.k, l.p).Sign() == 0 {
			return l.num(t.args[0])
		}
		q := Div(t.args[0], t.k)
		return l.def(name, "F", fmt.Sprintf("(ff.add %s (ff.mul %s %s))", l.num(t.args[0]), l.ffk(new(big.Int).Neg(t.k)), l.num(q)))
	case OInv:
		if t.k.Cmp(l.p) == 0 {
			a := l.num(t.args[0])
			w := l.freshVar(t)
			one := fmt.Sprintf("(= (ff.mul %s %s) (as ff1 F))", a, w)
			if globalNonzero[nzKey(ringNorm(t.args[0], t.k), t.k)] {
				l.facts = append(l.facts, one)
			} else {
				l.facts = append(l.facts, fmt.Sprintf("(or (and (= %s (as ff0 F)) (= %s (as ff0 F))) %s)", a, w, one))
			}
			return w
		}
	case OIte:
		return l.def(name, "F", fmt.Sprintf("(ite %s %s %s)", l.boolean(t.args[0]), l.num(t.args[1]), l.num(t.args[2])))
	}
	return l.freshVar(t)
}

func (l *lower) boolVar(t *Term) string {
	n := fmt.Sprintf("p%d", t.id)
	fmt.Fprintf(&l.decl, "(declare-const %s Bool)\n", n)
	l.vars[t] = n
	return n
}

func (l *lower) boolean(t *Term) string {
	if r, ok := l.bmemo[t]; ok {
		return r
	}
	var r string
	switch t.op {
	case OBool:
		r = "false"
		if t == True {
			r = "true"
		}
	case OBVar, OUB:
		r = l.boolVar(t)
	case ONot:
		r = "(not " + l.boolean(t.args[0]) + ")"
	case OAnd, OOr:
		parts := make([]string, len(t.args))
		for i, a := range t.args {
			parts[i] = l.boolean(a)
		}
		op := "and"
		if t.op == OOr {
			op = "or"
		}
		r = l.def(fmt.Sprintf("b%d", t.id), "Bool", "("+op+" "+strings.Join(parts, " ")+")")
	case OEq:
		r = l.eq(t)
	case OLt:
		r = l.lt(t)
	default:
		r = l.boolVar(t)
	}
	l.bmemo[t] = r
	return r
}

func (l *lower) eq(t *Term) string {
	d := Sub(t.args[0], t.args[1])
	z := fmt.Sprintf("(= %s (as ff0 F))", l.num(d))
	if t.args[1].op != OConst || t.args[1].k.Sign() != 0 {
		z = fmt.Sprintf("(= %s %s)", l.num(t.args[0]), l.num(t.args[1]))
	}
	if small(d, l.p) {
		if l.p.BitLen() > 80 {
			if key := polyKey(d, l.p); key != "" {
				if o, ok := l.polys[key]; ok {
					return o
				}
				l.polys[key] = z
			}
		}
		return z
	}
	b := l.boolVar(t)
	l.facts = append(l.facts, fmt.Sprintf("(=> %s %s)", b, z))
	return b
}

// lt encodes 0 < d. For d = c - x with x >= 0 this is x div c = 0.
func (l *lower) lt(t *Term) string {
	d := t.args[1]
	try := func(d *Term) (*Term, bool) {
		if d.op == OLin && len(d.args) == 1 && d.coef[0].Cmp(bm1) == 0 && d.k.Sign() > 0 {
			x := d.args[0]
			if x.lo != nil && x.lo.Sign() >= 0 {
				return Div(x, d.k), true
			}
		}
		return nil, false
	}
	if q, ok := try(d); ok && small(q, l.p) {
		return fmt.Sprintf("(= %s (as ff0 F))", l.num(q))
	}
	if q, ok := try(Sub(K(1), d)); ok && small(q, l.p) { // not (0 < 1-d)
		return fmt.Sprintf("(not (= %s (as ff0 F)))", l.num(q))
	}
	// x > 0 for x >= 0
	if d.lo != nil && d.lo.Sign() == 0 && small(d, l.p) {
		return fmt.Sprintf("(not (= %s (as ff0 F)))", l.num(d))
	}
	n := Sub(K(1), d)
	if n.lo != nil && n.lo.Sign() == 0 && small(n, l.p) {
		return fmt.Sprintf("(= %s (as ff0 F))", l.num(n))
	}
	return l.boolVar(t)
}

func checkFF(c *Term, p *big.Int, timeout time.Duration) (verdict, model) {
	l := newLower(p)
	var asserts []string
	for _, f := range divFacts(c) {
		if !small(f.q, p) {
			continue
		}
		if f.eq {
			l.memo[f.q] = l.ffk(f.v)
		} else {
			l.facts = append(l.facts, fmt.Sprintf("(not (= %s %s))", l.num(f.q), l.ffk(f.v)))
		}
	}
	l.digitChains(c)
	for _, x := range conjuncts(c) {
		asserts = append(asserts, l.boolean(x))
	}
	var sb strings.Builder
	sb.WriteString("(set-option :smt.ff.compact_encoding false)\n(set-option :smt.ff.max_terms 1000000)\n(set-option :smt.ff.max_steps 100000000)\n")
	fmt.Fprintf(&sb, "(define-sort F () (_ FiniteField %s))\n", p)
	sb.WriteString(l.decl.String())
	sb.WriteString(l.sb.String())
	for _, f := range l.facts {
		fmt.Fprintf(&sb, "(assert %s)\n", f)
	}
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", a)
	}
	return l.finish(&sb, "QF_FF", []solverCmd{{"z3-new", []string{"-in", fmt.Sprintf("-t:%d", timeout.Milliseconds())}}}, timeout)
}

// digitChains writes the quotients x div k^i of one x through digits, so that
// digits are variables: x div k^i = d_i + k (x div k^(i+1)).
func (l *lower) digitChains(c *Term) {
	groups := map[*Term][]*Term{}
	have := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		q := t
		if t.op == OMod && t.k.BitLen() <= 80 {
			q = Div(t.args[0], t.k)
		}
		if q.op == ODiv && !have[q] && q.k.BitLen() <= 80 {
			have[q] = true
			groups[q.args[0]] = append(groups[q.args[0]], q)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(c)
	var xs []*Term
	for x := range groups {
		xs = append(xs, x)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	for _, x := range xs {
		qs := groups[x]
		sort.Slice(qs, func(i, j int) bool { return qs[i].k.Cmp(qs[j].k) < 0 })
		if len(qs) < 3 {
			continue
		}
		n := len(qs) - 1
		l.num(qs[n])
		step := func(t *Term, lo *big.Int, up *Term) (string, bool) { // t = x div lo
			r, rem := new(big.Int).QuoRem(up.k, lo, new(big.Int))
			if rem.Sign() != 0 {
				return "", false
			}
			d := fmt.Sprintf("d%d_%d", x.id, up.id)
			fmt.Fprintf(&l.decl, "(declare-const %s F)\n", d)
			if r.Cmp(big.NewInt(2)) == 0 {
				l.facts = append(l.facts, fmt.Sprintf("(= (ff.mul %s %s) %s)", d, d, d))
			}
			return fmt.Sprintf("(ff.add %s (ff.mul %s %s))", d, l.ffk(r), l.num(up)), true
		}
		ok := true
		for i := n - 1; i >= 0 && ok; i-- {
			if _, done := l.memo[qs[i]]; done {
				ok = false
				break
			}
			var e string
			if e, ok = step(qs[i], qs[i].k, qs[i+1]); ok {
				l.memo[qs[i]] = l.def(fmt.Sprintf("t%d", qs[i].id), "F", e)
			}
		}
		if !ok {
			continue
		}
		e, _ := step(x, b1, qs[0])
		// x itself is that sum: define a variable by it
		var v *Term
		rest := K(0)
		sgn := b1
		if x.op == OVar {
			v = x
		} else if x.op == OLin {
			for i, a := range x.args {
				if a.op == OVar && l.memo[a] == "" && x.coef[i].CmpAbs(b1) == 0 {
					v, sgn = a, x.coef[i]
					rest = Sub(x, Scale(a, sgn))
					break
				}
			}
		}
		if v == nil || l.memo[v] != "" {
			l.facts = append(l.facts, fmt.Sprintf("(= %s %s)", l.num(x), e))
			continue
		}
		body := fmt.Sprintf("(ff.mul %s (ff.add %s (ff.mul %s %s)))", l.ffk(sgn), e, l.ffk(bm1), l.num(rest))
		l.memo[v] = l.def(fmt.Sprintf("v%d", v.id), "F", body)
		l.vars[v] = l.memo[v]
	}
}

type divFact struct {
	q  *Term
	v  *big.Int
	eq bool
}

// divFacts: quotients by constants that linear integer reasoning over the
// hypotheses decides to be, or not to be, 0, -1 or 1 (the finite field encoding
// keeps quotients opaque).
func divFacts(c *Term) []divFact {
	divs := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		var q *Term
		switch t.op {
		case ODiv:
			q = t
		case OMod:
			if t.k.BitLen() <= 80 {
				q = Div(t.args[0], t.k)
			}
		}
		if q != nil && q.op == ODiv {
			x := q.args[0]
			if o := divs[x]; o == nil || o.k.Cmp(q.k) < 0 {
				divs[x] = q
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(c)
	if len(divs) == 0 {
		return nil
	}
	lin := map[*Term]bool{}
	var linear func(t *Term) bool
	linear = func(t *Term) bool {
		if r, ok := lin[t]; ok {
			return r
		}
		r := true
		switch t.op {
		case OUF, OUB, OInv, OMul, ODivT, OModT, OBand, OBor, OBxor, OBVar:
			r = false
		case OMod:
			r = t.k.BitLen() <= 80
		}
		for _, a := range t.args {
			r = r && linear(a)
		}
		lin[t] = r
		return r
	}
	var hyps []*Term
	for _, x := range conjuncts(c) {
		if linear(x) {
			hyps = append(hyps, x)
		}
	}
	if len(hyps) == 0 {
		return nil
	}
	var out []divFact
	var qs []*Term
	for _, q := range divs {
		if linear(q) {
			qs = append(qs, q)
		}
	}
	sort.Slice(qs, func(i, j int) bool { return qs[i].id < qs[j].id })
	for _, q := range qs {
	values:
		for _, v := range []int64{0, -1, 1} {
			z := Eq(q, K(v))
			if z.op == OBool {
				continue
			}
			if r, _ := check(append(append([]*Term(nil), hyps...), Not(z)), feasTimeout); r == vUnsat {
				out = append(out, divFact{q, big.NewInt(v), true})
				break values
			} else if r, _ := check(append(append([]*Term(nil), hyps...), z), feasTimeout); r == vUnsat {
				out = append(out, divFact{q, big.NewInt(v), false})
			}
		}
	}
	return out
}

func (l *lower) finish(sb *strings.Builder, logic string, cmds []solverCmd, timeout time.Duration) (verdict, model) {
	if l.bad != "" {
		dbg("cannot encode: %s", l.bad)
		return vUnknown, nil
	}
	sb.WriteString("(check-sat)\n")
	var ts []*Term
	for t := range l.vars {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) > 0 {
		sb.WriteString("(get-value (")
		for _, t := range ts {
			sb.WriteString(l.vars[t] + " ")
		}
		sb.WriteString("))\n")
	}
	v, out := runSolvers(sb.String(), logic, cmds, timeout)
	switch v {
	case "unsat":
		return vUnsat, nil
	case "sat":
		m := model{}
		vals := parseValues(out)
		for t, n := range l.vars {
			if z, ok := vals[n]; ok {
				m[t] = z
			}
		}
		return vSat, m
	}
	return vUnknown, nil
}

// ---- integer encoding --------------------------------------------------------------

func intLit(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (l *lower) ivar(t *Term) string {
	n := fmt.Sprintf("v%d", t.id)
	fmt.Fprintf(&l.decl, "(declare-const %s Int)\n", n)
	l.vars[t] = n
	if t.lo != nil {
		l.facts = append(l.facts, fmt.Sprintf("(<= %s %s)", intLit(t.lo), n))
	}
	if t.hi != nil {
		l.facts = append(l.facts, fmt.Sprintf("(<= %s %s)", n, intLit(t.hi)))
	}
	return n
}

func (l *lower) inum(t *Term) string {
	if r, ok := l.memo[t]; ok {
		return r
	}
	name := fmt.Sprintf("t%d", t.id)
	var r string
	switch t.op {
	case OConst:
		r = intLit(t.k)
	case OLin:
		var parts []string
		if t.k.Sign() != 0 {
			parts = append(parts, intLit(t.k))
		}
		for i, a := range t.args {
			if t.coef[i].Cmp(b1) == 0 {
				parts = append(parts, l.inum(a))
			} else {
				parts = append(parts, fmt.Sprintf("(* %s %s)", intLit(t.coef[i]), l.inum(a)))
			}
		}
		if len(parts) == 1 {
			r = l.def(name, "Int", parts[0])
		} else {
			r = l.def(name, "Int", "(+ "+strings.Join(parts, " ")+")")
		}
	case OMul:
		parts := make([]string, len(t.args))
		for i, a := range t.args {
			parts[i] = l.inum(a)
		}
		r = l.def(name, "Int", "(* "+strings.Join(parts, " ")+")")
	case ODiv:
		r = l.def(name, "Int", fmt.Sprintf("(div %s %s)", l.inum(t.args[0]), t.k))
	case OMod:
		r = l.def(name, "Int", fmt.Sprintf("(mod %s %s)", l.inum(t.args[0]), t.k))
	case ODivT:
		r = l.def(name, "Int", fmt.Sprintf("(div %s %s)", l.inum(t.args[0]), l.inum(t.args[1])))
	case OModT:
		r = l.def(name, "Int", fmt.Sprintf("(mod %s %s)", l.inum(t.args[0]), l.inum(t.args[1])))
	case OIte:
		r = l.def(name, "Int", fmt.Sprintf("(ite %s %s %s)", l.ibool(t.args[0]), l.inum(t.args[1]), l.inum(t.args[2])))
	case OSign:
		a := l.inum(t.args[0])
		r = l.def(name, "Int", fmt.Sprintf("(ite (< 0 %s) 1 (ite (= 0 %s) 0 (- 1)))", a, a))
	default:
		r = l.ivar(t)
	}
	l.memo[t] = r
	return r
}

func (l *lower) ibool(t *Term) string {
	if r, ok := l.bmemo[t]; ok {
		return r
	}
	var r string
	switch t.op {
	case OBool:
		r = "false"
		if t == True {
			r = "true"
		}
	case ONot:
		r = "(not " + l.ibool(t.args[0]) + ")"
	case OAnd, OOr:
		parts := make([]string, len(t.args))
		for i, a := range t.args {
			parts[i] = l.ibool(a)
		}
		op := "and"
		if t.op == OOr {
			op = "or"
		}
		r = l.def(fmt.Sprintf("b%d", t.id), "Bool", "("+op+" "+strings.Join(parts, " ")+")")
	case OEq:
		r = fmt.Sprintf("(= %s %s)", l.inum(t.args[0]), l.inum(t.args[1]))
	case OLt:
		r = fmt.Sprintf("(< %s %s)", l.inum(t.args[0]), l.inum(t.args[1]))
	default:
		r = l.boolVar(t)
	}
	l.bmemo[t] = r
	return r
}

func checkInt(c *Term, timeout time.Duration) (verdict, model) {
	l := newLower(nil)
	var asserts []string
	for _, x := range conjuncts(c) {
		asserts = append(asserts, l.ibool(x))
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString(l.decl.String())
	for _, f := range l.facts {
		fmt.Fprintf(&sb, "(assert %s)\n", f)
	}
	sb.WriteString(l.sb.String())
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", a)
	}
	ms := timeout.Milliseconds()
	first := timeout
	if first > 3*time.Second {
		first = 3 * time.Second
	}
	s0 := sb.String()
	v, m := l.finish(&sb, "QF_NIA", []solverCmd{{"z3-new", []string{"-in", fmt.Sprintf("-t:%d", first.Milliseconds())}}}, first)
	if v != vUnknown {
		return v, m
	}
	sb.Reset()
	sb.WriteString("(set-option :produce-models true)\n" + s0)
	return l.finish(&sb, "QF_NIA", []solverCmd{
		{"z3-new", []string{"-in", fmt.Sprintf("-t:%d", ms)}},
		{"z3", []string{"-in", fmt.Sprintf("-t:%d", ms)}},
		{"cvc5", []string{"--lang", "smt2", "--nl-cov", fmt.Sprintf("--tlimit=%d", ms)}},
	}, timeout)
}

// ---- bit-vector encoding -------------------------------------------------------------

func (l *lower) bvk(k *big.Int) string {
	m := new(big.Int).Lsh(b1, uint(l.bvs))
	return fmt.Sprintf("(_ bv%s %d)", new(big.Int).Mod(k, m), l.bvs)
}

func (l *lower) bnum(t *Term) string {
	if r, ok := l.memo[t]; ok {
		return r
	}
	if t.lo == nil || t.hi == nil {
		l.bad = "unbounded term in a bit-vector query"
		return l.bvk(b0)
	}
	sort := fmt.Sprintf("(_ BitVec %d)", l.bvs)
	name := fmt.Sprintf("t%d", t.id)
	pow2 := func(k *big.Int) (int, bool) {
		n := k.BitLen() - 1
		return n, new(big.Int).Lsh(b1, uint(n)).Cmp(k) == 0
	}
	var r string
	switch t.op {
	case OConst:
		r = l.bvk(t.k)
	case OLin:
		parts := []string{l.bvk(t.k)}
		for i, a := range t.args {
			parts = append(parts, fmt.Sprintf("(bvmul %s %s)", l.bvk(t.coef[i]), l.bnum(a)))
		}
		r = l.def(name, sort, "(bvadd "+strings.Join(parts, " ")+")")
	case OMul:
		var parts []string
		for _, a := range t.args {
			parts = append(parts, l.bnum(a))
		}
		r = l.def(name, sort, "(bvmul "+strings.Join(parts, " ")+")")
	case OMod, ODiv:
		n, ok := pow2(t.k)
		a := l.bnum(t.args[0])
		switch {
		case ok && t.op == OMod:
			r = l.def(name, sort, fmt.Sprintf("(bvand %s %s)", a, l.bvk(new(big.Int).Sub(t.k, b1))))
		case ok:
			r = l.def(name, sort, fmt.Sprintf("(bvashr %s %s)", a, l.bvk(big.NewInt(int64(n)))))
		case t.args[0].lo != nil && t.args[0].lo.Sign() >= 0 && t.op == OMod:
			r = l.def(name, sort, fmt.Sprintf("(bvurem %s %s)", a, l.bvk(t.k)))
		case t.args[0].lo != nil && t.args[0].lo.Sign() >= 0:
			r = l.def(name, sort, fmt.Sprintf("(bvudiv %s %s)", a, l.bvk(t.k)))
		default:
			l.bad = "division of a negative in a bit-vector query"
		}
	case OIte:
		r = l.def(name, sort, fmt.Sprintf("(ite %s %s %s)", l.bbool(t.args[0]), l.bnum(t.args[1]), l.bnum(t.args[2])))
	case OBand, OBor, OBxor:
		op := map[Op]string{OBand: "bvand", OBor: "bvor", OBxor: "bvxor"}[t.op]
		r = l.def(name, sort, fmt.Sprintf("(%s %s %s)", op, l.bnum(t.args[0]), l.bnum(t.args[1])))
	case OSign:
		a := l.bnum(t.args[0])
		r = l.def(name, sort, fmt.Sprintf("(ite (bvslt %s %s) %s (ite (= %s %s) %s %s))", l.bvk(b0), a, l.bvk(b1), l.bvk(b0), a, l.bvk(b0), l.bvk(bm1)))
	case OVar, OUF:
		n := fmt.Sprintf("v%d", t.id)
		fmt.Fprintf(&l.decl, "(declare-const %s %s)\n", n, sort)
		l.vars[t] = n
		l.facts = append(l.facts, fmt.Sprintf("(bvsle %s %s)", l.bvk(t.lo), n), fmt.Sprintf("(bvsle %s %s)", n, l.bvk(t.hi)))
		r = n
	default:
		l.bad = "operator in a bit-vector query"
		r = l.bvk(b0)
	}
	l.memo[t] = r
	return r
}

func (l *lower) bbool(t *Term) string {
	if r, ok := l.bmemo[t]; ok {
		return r
	}
	var r string
	switch t.op {
	case OBool:
		r = "false"
		if t == True {
			r = "true"
		}
	case ONot:
		r = "(not " + l.bbool(t.args[0]) + ")"
	case OAnd, OOr:
		parts := make([]string, len(t.args))
		for i, a := range t.args {
			parts[i] = l.bbool(a)
		}
		op := "and"
		if t.op == OOr {
			op = "or"
		}
		r = l.def(fmt.Sprintf("b%d", t.id), "Bool", "("+op+" "+strings.Join(parts, " ")+")")
	case OEq:
		r = fmt.Sprintf("(= %s %s)", l.bnum(t.args[0]), l.bnum(t.args[1]))
	case OLt:
		r = fmt.Sprintf("(bvslt %s %s)", l.bnum(t.args[0]), l.bnum(t.args[1]))
	default:
		r = l.boolVar(t)
	}
	l.bmemo[t] = r
	return r
}

func checkBV(c *Term, timeout time.Duration) (verdict, model) {
	l := newLower(nil)
	w := 8
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !t.isBool {
			if t.lo == nil || t.hi == nil {
				ok = false
				return
			}
			n := maxB(new(big.Int).Abs(t.lo), new(big.Int).Abs(t.hi)).BitLen() + 2
			if n > w {
				w = n
			}
			for i, a := range t.args {
				if t.coef != nil && a.lo != nil && a.hi != nil {
					n := maxB(new(big.Int).Abs(a.lo), new(big.Int).Abs(a.hi)).BitLen() + t.coef[i].BitLen() + 4
					if n > w {
						w = n
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(c)
	if !ok || w > 600 {
		return vUnknown, nil
	}
	l.bvs = w
	var asserts []string
	for _, x := range conjuncts(c) {
		asserts = append(asserts, l.bbool(x))
	}
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	sb.WriteString(l.decl.String())
	for _, f := range l.facts {
		fmt.Fprintf(&sb, "(assert %s)\n", f)
	}
	sb.WriteString(l.sb.String())
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", a)
	}
	ms := timeout.Milliseconds()
	v, m := l.finish(&sb, "QF_BV", []solverCmd{
		{"z3-new", []string{"-in", fmt.Sprintf("-t:%d", ms)}},
	}, timeout)
	if v == vSat { // two's complement values
		half := new(big.Int).Lsh(b1, uint(w-1))
		full := new(big.Int).Lsh(b1, uint(w))
		for t, z := range m {
			if !t.isBool && z.Cmp(half) >= 0 {
				m[t] = new(big.Int).Sub(z, full)
			}
		}
	}
	return v, m
}

// ---- identities ------------------------------------------------------------------------

// proveZero decides t ≡ 0 (mod n) for all values of the variables, under the
// facts that hold for them (0/1 values, invertible denominators).
func proveZero(t *Term, n *big.Int) bool {
	v, _ := check([]*Term{Not(Eq(Mod(t, n), K(0)))}, queryTimeout)
	if v == vUnsat {
		stats.proved++
	}
	if v == vUnknown {
		dbg("identity unknown: %s", t)
	}
	return v == vUnsat
}

// ---- model validation --------------------------------------------------------------------

const mslot = nSlots - 1

// liftModel turns solver values of leaves into an assignment within ranges.
func liftModel(m model, p *big.Int) map[*Term]*big.Int {
	over := map[*Term]*big.Int{}
	for t, v := range m {
		switch t.op {
		case OVar, OBVar, OUF, OUB:
		default:
			continue
		}
		if t.isBool {
			over[t] = v
			continue
		}
		if t.lo != nil && v.Cmp(t.lo) < 0 || t.hi != nil && v.Cmp(t.hi) > 0 {
			if p != nil {
				w := new(big.Int).Sub(v, p)
				if t.lo == nil || w.Cmp(t.lo) >= 0 {
					over[t] = w
					continue
				}
			}
			continue
		}
		over[t] = v
	}
	return over
}

// validate evaluates the conjunction under a candidate assignment.
func validate(cs []*Term, over map[*Term]*big.Int, seed int64) bool {
	resetEval(mslot, seed, over)
	for _, c := range cs {
		if c.eval(mslot).Sign() == 0 {
			return false
		}
	}
	return true
}

// findModel looks for a concrete assignment satisfying all of cs.
func findModel(cs []*Term, m model) (map[*Term]*big.Int, int64, bool) {
	ps := map[string]*big.Int{}
	seen := map[*Term]bool{}
	for _, c := range cs {
		primesIn(c, seen, ps)
	}
	cands := []*big.Int{nil}
	for _, p := range ps {
		cands = append(cands, p)
	}
	for _, p := range cands {
		over := liftModel(m, p)
		for seed := int64(1); seed < 4; seed++ {
			if validate(cs, over, seed) {
				return over, seed, true
			}
		}
	}
	for seed := int64(1); seed < 60; seed++ {
		if validate(cs, nil, seed) {
			return nil, seed, true
		}
	}
	// solve the integer constraints alone, randomise the rest
	var ints []*Term
	for _, c := range cs {
		q := map[string]*big.Int{}
		if bits, _ := primesIn(c, map[*Term]bool{}, q); !bits && len(q) == 0 {
			ints = append(ints, c)
		}
	}
	if len(ints) > 0 && len(ints) < len(cs) {
		extra := []*Term{}
		for k := 0; k < 6; k++ {
			v, im := check(append(append([]*Term(nil), ints...), extra...), feasTimeout)
			if v != vSat {
				break
			}
			over := liftModel(im, nil)
			for seed := int64(1); seed < 8; seed++ {
				if validate(cs, over, seed) {
					return over, seed, true
				}
			}
			var ne []*Term
			for t, z := range over {
				if t.op == OVar {
					ne = append(ne, Not(Eq(t, Kb(z))))
				}
			}
			if len(ne) == 0 {
				break
			}
			sort.Slice(ne, func(i, j int) bool { return ne[i].id < ne[j].id })
			extra = append(extra, ne...)
		}
	}
	// keep small-domain leaves of the model, randomise the rest
	over := map[*Term]*big.Int{}
	for t, v := range liftModel(m, nil) {
		if t.isBool || t.hi != nil && t.lo != nil && new(big.Int).Sub(t.hi, t.lo).BitLen() <= 64 {
			over[t] = v
		}
	}
	for seed := int64(1); seed < 20; seed++ {
		if validate(cs, over, seed) {
			return over, seed, true
		}
	}
	for _, p := range cands {
		if over, seed, ok := loosen(cs, liftModel(m, p)); ok {
			return over, seed, true
		}
	}
	for _, e := range edges(cs) {
		v, em := check(append(append([]*Term(nil), cs...), e), feasTimeout)
		if v != vSat {
			continue
		}
		for _, p := range cands {
			over := liftModel(em, p)
			for seed := int64(1); seed < 4; seed++ {
				if validate(cs, over, seed) {
					return over, seed, true
				}
			}
			if over, seed, ok := loosen(cs, over); ok {
				return over, seed, true
			}
		}
	}
	return nil, 0, false
}

// loosen frees the values of a model of the abstraction one at a time, as long
// as the constraints that it satisfies stay satisfied, until all of them are.
func loosen(cs []*Term, over map[*Term]*big.Int) (map[*Term]*big.Int, int64, bool) {
	limit := time.Now().Add(15 * time.Second)
	ls := leaves(cs)
	nc := len(cs)
	var conds []*Term // conditions inside the constraints: the model fixes the case
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte {
			conds = append(conds, t.args[0])
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, c := range cs {
		rec(c)
	}
	for round := int64(0); round < 8; round++ {
		seed := 1 + round/4
		cs := cs
		if round%4 < 2 {
			cs = append([]*Term(nil), cs...)
			resetEval(mslot, seed, over)
			for _, c := range conds {
				if c.eval(mslot).Sign() == 0 {
					c = Not(c)
				}
				cs = append(cs, c)
			}
		} else if len(conds) == 0 {
			continue
		}
		cur := map[*Term]*big.Int{}
		for t, z := range over {
			cur[t] = z
		}
		resetEval(mslot, seed, cur)
		holds := make([]bool, len(cs))
		for i, c := range cs {
			holds[i] = c.eval(mslot).Sign() != 0
		}
		for k := range ls {
			if time.Now().After(limit) {
				return nil, 0, false
			}
			t := ls[k]
			if round%2 == 1 {
				t = ls[len(ls)-1-k]
			}
			z, ok := cur[t]
			if !ok {
				continue
			}
			delete(cur, t)
			resetEval(mslot, seed, cur)
			all, kept := true, true
			for i, c := range cs {
				h := c.eval(mslot).Sign() != 0
				all = all && (h || i >= nc)
				kept = kept && (h || !holds[i])
			}
			if all {
				return cur, seed, true
			}
			if !kept {
				cur[t] = z
				continue
			}
			for i, c := range cs {
				holds[i] = c.eval(mslot).Sign() != 0
			}
		}
	}
	return nil, 0, false
}

// edges are the equations that put a residue at the edge of a comparison, which
// the field encoding abstracts.
func edges(cs []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || len(out) > 12 {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op != OLt {
			return
		}
		d := Sub(t.args[1], t.args[0])
		if d.op != OLin || len(d.args) != 1 || d.coef[0].CmpAbs(b1) != 0 || d.args[0].op != OMod {
			return
		}
		x := d.args[0]
		e := new(big.Int).Neg(new(big.Int).Mul(d.k, d.coef[0])) // d = 0 there
		vs := []*big.Int{e, new(big.Int).Add(e, d.coef[0]), new(big.Int).Sub(x.k, b1)}
		for _, v := range vs {
			if v.Sign() >= 0 && v.Cmp(x.k) < 0 {
				out = append(out, Eq(x, Kb(v)))
			}
		}
	}
	for _, c := range cs {
		rec(c)
	}
	return out
}
