package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Instance is one harness with fixed parameters.
type Instance struct {
	Name     string   `json:"name"`
	Props    []string `json:"props"`
	Pkg      string   `json:"pkg"`
	File     string   `json:"file"`
	Extra    []string `json:"extra"`
	Func     string   `json:"func"`
	Config   Config   `json:"config"`
	Thorough bool     `json:"thorough"`
	TimeoutS int      `json:"timeout_s"`
	QueryS   int      `json:"query_s"`
	Bounds   string   `json:"bounds"`
	Cost     int      `json:"cost"`
}

func (in *Instance) timeout() int {
	if in.TimeoutS > 0 {
		return in.TimeoutS
	}
	return 600
}

var registry []*Instance

func findInstance(name string) *Instance {
	for _, in := range registry {
		if in.Name == name {
			return in
		}
	}
	return nil
}

// group describes the harnesses of one file.
type group struct {
	pkg, file string
	extra     string
	modes     []string
	inv, pad  bool
	noMerge   bool
	thorough  bool
	timeout   int
	query     int
	cost      int
	maxHashes int
}

// cross lists "k=v" combinations.
func cross(axes ...string) []string {
	r := []string{""}
	for _, a := range axes {
		k, vs, _ := strings.Cut(a, "=")
		var n []string
		for _, p := range r {
			for _, v := range strings.Split(vs, ",") {
				n = append(n, strings.TrimSpace(p+" "+k+"="+v))
			}
		}
		r = n
	}
	return r
}

// add registers a harness for each parameter set ("a=1 b=2"; a leading "!" marks
// the thorough tier, a leading "*" a costly one).
func (g group) add(props, fn, bounds string, sets ...string) {
	if len(sets) == 0 {
		sets = []string{""}
	}
	for _, s := range sets {
		in := &Instance{Props: strings.Fields(props), Pkg: g.pkg, File: g.file, Extra: strings.Fields(g.extra), Func: fn, Bounds: bounds,
			Thorough: g.thorough, TimeoutS: g.timeout, QueryS: g.query, Cost: g.cost}
		for len(s) > 0 && (s[0] == '!' || s[0] == '*') {
			if s[0] == '!' {
				in.Thorough = true
			} else {
				in.Cost += 10
			}
			s = s[1:]
		}
		in.Config = Config{Modes: g.modes, InvNonzero: g.inv, PadBytes: g.pad, NoMerge: g.noMerge, MaxHashes: g.maxHashes, Params: map[string]int64{}}
		var ps []string
		for _, kv := range strings.Fields(s) {
			k, v, _ := strings.Cut(kv, "=")
			n, err := strconv.ParseInt(v, 10, 64)
			if err != nil {
				panic("registry: " + s)
			}
			in.Config.Params[k] = n
			ps = append(ps, k+v)
		}
		in.Name = strings.Join(append([]string{g.file, strings.TrimPrefix(fn, "Verif")}, ps...), "-")
		if len(ps) > 0 {
			in.Bounds = fmt.Sprintf("%s [%s]", bounds, s)
		}
		if o := findInstance(in.Name); o != nil {
			panic("registry: two harnesses named " + in.Name)
		}
		registry = append(registry, in)
	}
}

func seq(format string, lo, hi int) []string {
	var r []string
	for i := lo; i <= hi; i++ {
		r = append(r, fmt.Sprintf(format, i))
	}
	return r
}

func init() {
	registerBulletproofs()
	registerCCS08()
	registerP256()
	registerBn256()
	registerUtil()
	sort.SliceStable(registry, func(i, j int) bool { return registry[i].Cost > registry[j].Cost })
}

func registerBulletproofs() {
	g := group{pkg: "bulletproofs", file: "bp", modes: []string{"p256", "bytesconv"}}
	anyS := "all secrets, blinding factors, random draws and hash outputs; N bits"
	g.add("C01", "VerifBPComplete", anyS, "N=1", "N=2", "N=4", "N=8", "N=16", "*N=32")
	g.add("C08", "VerifBPHonest", anyS, "N=1", "N=2", "N=8", "*N=32")
	g.add("C08", "VerifHashBP", "all points of the subgroup generated by G")
	g.add("C02", "VerifBPExclude", "all integers outside [0,2^N) with |secret| < ORDER, all draws and hash outputs", "N=1", "N=2", "N=8", "*N=32")
	g.add("C03", "VerifBPExact", "all scalars, all points of the subgroup generated by G (discrete logarithms symbolic), all hash outputs; gens=1: generators symbolic too",
		"N=1 rounds=0 gens=1", "N=2 rounds=1 gens=1", "N=2 rounds=1 gens=0", "N=4 rounds=2 gens=1", "N=8 rounds=3 gens=1", "*N=32 rounds=5 gens=0")
	g.add("C03 C08", "VerifBPTamper", "an honest proof with one component replaced by any other value", append(seq("N=2 field=%d warm=0", 0, 7), "N=2 field=2 warm=1", "N=2 field=6 warm=1")...)
	g.add("C04", "VerifIPPComplete", "all vectors of N scalars, all hash outputs", "N=1", "N=2", "N=4", "N=8", "!*N=16")
	g.add("C04", "VerifIPPExclude", "all vectors of N scalars and all wrong inner products", "N=1", "N=2", "N=4")
	g.add("C04", "VerifIPPExact", "all scalars and points; rounds/rrounds: number of L and R values",
		"N=1 rounds=0 rrounds=0", "N=2 rounds=1 rrounds=1", "N=4 rounds=2 rrounds=2", "N=4 rounds=1 rrounds=1", "N=4 rounds=2 rrounds=1", "N=2 rounds=2 rrounds=2", "!N=8 rounds=3 rrounds=3")
	g.add("C04", "VerifIPPTamper", "an honest proof with one component replaced by any other value", seq("N=2 field=%d", 0, 4)...)
	g.add("C05", "VerifGenericComplete", "all interval ends and all secrets inside, range end 2^N", "N=1", "N=4", "*N=32")
	g.add("C05", "VerifGenericExclude", "all secrets below (side 0) or above (side 1) the interval", "N=1 side=0", "N=1 side=1", "N=4 side=0", "N=4 side=1")
	g.add("C06", "VerifGenericLink", "two range proofs for any different secrets combined", "N=1", "N=4")
	g.add("C06", "VerifGenericMoved", "a proof presented for any other interval", "N=1", "N=4")
	g.add("C06", "VerifGenericParts", "either half replaced by an invalid proof", "N=1 part=0", "N=1 part=1")
	g.add("C07", "VerifBPPure", anyS, "N=2", "!N=8")
	g.add("C07", "VerifIPPPure", "all vectors", "N=2", "!N=8")
	g.add("C07", "VerifGenericPure", "all intervals and secrets", "N=1", "!N=4")
	j := g
	j.file, j.extra = "jsn", "bp"
	j.add("C31", "VerifJSONHonest", anyS+"; how: by value, by pointer, indented", cross("N=1,2,8", "how=0,1,2")...)
	j.add("C31", "VerifJSONHonest", anyS, "*N=32 how=0")
	j.add("C31", "VerifJSONAny", "all scalars and points, all hash outputs", "N=1 rounds=0 how=0 wide=0", "N=2 rounds=1 how=0 wide=0", "N=2 rounds=0 how=1 wide=0", "N=4 rounds=2 how=1 wide=0", "N=1 rounds=0 how=0 wide=1", "N=2 rounds=1 how=1 wide=1", "N=4 rounds=2 how=0 wide=1")
	j.add("C31", "VerifJSONAltered", "honest proofs with any number added to one scalar", cross("N=2", "how=0", "field=0,1,2,3,4", "mult=0,1")...)
	j.add("C31", "VerifJSONGeneric", "all intervals and secrets inside", "N=1 how=0", "N=4 how=1", "!N=32 how=0")
	j.add("C31", "VerifJSONParams", anyS, "N=1 how=0", "N=2 how=1", "N=8 how=0")
	jc := j
	jc.modes = nil
	jc.add("C31", "VerifJSONCoordinates", "all scalars and coordinates up to 300 bits, on the curve or not; how: by value, by pointer, indented", "how=0", "how=1", "how=2")
	j.add("C31", "VerifJSONInner", "all vectors", "N=1 how=0", "N=2 how=1", "N=4 how=0")
	m := g
	m.file, m.extra = "mask", "bp"
	m.add("C09", "VerifMaskInjective", "all secrets, all pairs of draws, all nonzero challenges", "N=1", "N=2", "N=4", "N=8")
	m.add("C09", "VerifMaskView", "all pairs of draws, all nonzero challenges, all generators; secrets s1 and s2", "s1=0 s2=0", "s1=0 s2=1", "s1=1 s2=0", "s1=1 s2=1")
	m.add("C09", "VerifGenericMask", "all intervals of width 2, all pairs of draws, all nonzero challenges, all generators; secrets a+s1 and a+s2", "s1=0 s2=0", "s1=0 s2=1", "s1=1 s2=1")
}

func registerCCS08() {
	g := group{pkg: "ccs08", file: "zk", modes: []string{"bn256", "bytesconv"}, inv: true}
	k := g
	k.inv = false
	k.add("C10", "VerifSetKeys", "all signing keys, draws and hash outputs; set number", "set=1", "set=3")
	k.add("C11", "VerifULKeys", "all signing keys, draws and hash outputs", "u=2 l=1")
	all := "all draws and hash outputs, all keys for which the elements can be signed"
	g.add("C10", "VerifSetComplete", all+"; set and element number", "set=0 i=0", "set=1 i=0", "set=1 i=1", "set=1 i=3", "set=2 i=0", "set=2 i=1", "set=2 i=2", "set=3 i=0", "set=3 i=2")
	g.add("C10", "VerifSetTwice", all+"; two sets")
	g.add("C10", "VerifSetExclude", "all int64 that are not in the set", "set=0", "set=1", "set=2", "set=3")
	g.add("C12", "VerifHashes", "all elements of the groups")
	g.add("C12", "VerifSetExact", "all scalars and group elements (discrete logarithms symbolic)", "set=1 chal=0", "set=1 chal=1", "set=0 chal=0")
	g.add("C12", "VerifSetHonest", all, "set=1 i=1", "set=2 i=1")
	g.add("C12", "VerifSetTamper", "an honest proof with one component replaced by any other value", append(seq("set=1 field=%d warm=0", 0, 4), seq("set=1 field=%d warm=1", 0, 4)...)...)
	g.add("C12", "VerifSetForge", "all simulated proofs for a chosen challenge", "set=1")
	g.add("C07", "VerifSetPure", all, "set=1")
	g.add("C11", "VerifULComplete", all+", all secrets in [0,u^l)", "u=2 l=1", "u=2 l=2", "u=3 l=2", "u=10 l=3", "u=57 l=2", "u=2 l=5", "u=57 l=5", "u=57 l=11", "u=3 l=40", "!u=57 l=22")
	g.add("C11", "VerifULExclude", "all integers outside [0,u^l)", "u=2 l=1", "u=2 l=2", "u=3 l=2", "u=57 l=5", "u=57 l=11", "!u=2 l=3", "!u=2 l=4", "!u=2 l=5")
	g.add("C12", "VerifULExact", "all scalars and group elements (discrete logarithms symbolic)", "u=2 l=2 chal=0", "u=2 l=2 chal=1", "u=3 l=3 chal=1")
	g.add("C12", "VerifULHonest", all, "u=2 l=2", "u=3 l=3")
	g.add("C12", "VerifULTamper", "an honest proof with one component replaced by any other value", append(seq("u=2 l=2 i=1 field=%d warm=0", 0, 4), append(seq("u=2 l=2 i=0 field=%d warm=0", 0, 4), seq("u=2 l=2 i=0 field=%d warm=1", 0, 4)...)...)...)
	g.add("C12", "VerifULForge", "all simulated proofs for a chosen challenge", "u=2 l=2")
	g.add("C07", "VerifULPure", all, "u=2 l=2")
	g.add("C13", "VerifRangeComplete", all+", all secrets in [a,b); u=0: interval given, else all intervals of width at most u^l", "u=2 l=2", "u=0 l=0 a=3 b=40", "u=0 l=0 a=-5 b=60", "u=0 l=0 a=347184000 b=599644800", "u=0 l=0 a=-50000000000000000 b=50000000000000000")
	g.add("C13", "VerifRangeExclude", "all secrets below (side 0) or above (side 1) the interval", "u=2 l=2 side=0", "u=2 l=2 side=1", "u=0 l=0 a=3 b=40 side=0", "u=0 l=0 a=3 b=40 side=1")
	g.add("C13", "VerifRangeLink", "parts from proofs for any two different secrets", "u=2 l=2")
	g.add("C13", "VerifRangeParts", "either part invalid", "u=2 l=2 part=0", "u=2 l=2 part=1")
	m := g
	m.file, m.extra = "mask", "zk"
	m.add("C14", "VerifSetMask", all+", all nonzero challenges; elements i and j of the set", "set=1 i=0 j=0", "set=1 i=0 j=1", "set=1 i=1 j=2", "set=1 i=3 j=1", "set=0 i=0 j=0", "set=2 i=0 j=2", "set=3 i=2 j=0")
	m.add("C14", "VerifULMask", all+", all nonzero challenges, all pairs of secrets (two=0: one secret)", "u=2 l=1 two=1", "u=2 l=2 two=0", "u=2 l=2 two=1", "u=3 l=2 two=1", "u=57 l=2 two=0", "u=2 l=3 two=0", "u=2 l=4 two=0")
	m.add("C14", "VerifRangeMask", all+", all nonzero challenges, all intervals [a,a+u^l); secrets a+xa and a+xb", "u=2 l=1 xa=0 xb=0", "u=2 l=1 xa=0 xb=1", "u=2 l=2 xa=1 xb=3")
	g.add("C13", "VerifRangeSetup", "all intervals of int64 limits, those whose width does not fit in an int64 included (wide=1)", "wide=0", "wide=1")
}

func registerP256() {
	c := group{pkg: "crypto/p256", file: "curve"}
	pts := "all finite points (coordinates symbolic in the field)"
	c.add("C17", "VerifAddChord", pts+" with different x; op 0 complete, 1 incomplete addition; alias: receiver fresh, first, second argument, used", cross("op=0,1", "alias=0,1,2,3")...)
	c.add("C17", "VerifAddSame", pts+", equal or the same object", cross("same=0,1", "alias=0,1")...)
	c.add("C17", "VerifAddInverse", pts, cross("op=0,1", "alias=0,1,2,3")...)
	c.add("C17", "VerifAddInfinity", pts+"; the forms of infinity", cross("op=0,1", "alias=0,1,2", "side=0,1,2", "inf=0,1")...)
	c.add("C17", "VerifAddThenReuse", pts, cross("op=0,1", "inf=0,1")...)
	c.add("C17", "VerifDouble", pts, cross("alias=0,1", "inf=0,1")...)
	c.add("C17 C19", "VerifIsZero", "all coordinates", "inf=0", "inf=1")
	c.add("C17 C19", "VerifCurve", "constants")
	c.add("C19", "VerifOnCurve", "all pairs of coordinates below the field prime")
	h := group{pkg: "crypto/p256", file: "curve", modes: []string{"bytesconv", "p256any"}, maxHashes: 6}
	h.add("C19", "VerifMapToGroup", "all strings of the length, all hash outputs, up to 6 attempts", "len=0", "len=1", "len=8")
	h.maxHashes = 48
	h.add("C19", "VerifMapToGroup", "all strings of the length, all hash outputs, up to 48 attempts", "len=5")
	h.maxHashes = 255
	h.add("C19", "VerifMapToGroup", "all strings of the length, all hash outputs, up to 255 attempts", "!*len=3")
	h.maxHashes = 6
	h.add("C19", "VerifMapOther", "all pairs of strings of the lengths, all hash outputs, up to 3 attempts", "len=1 other=2", "!len=2 other=2")
	h.add("C19", "VerifMapTwice", "all strings of the length, all hash outputs, up to 3 attempts", "len=2")

	m := group{pkg: "crypto/p256", file: "mult", modes: []string{"p256low"}}
	ints := "range 0: all scalars below the order, 1: all negative ones and 2: all from the order up, to 320 bits"
	m.add("C18", "VerifBaseMult", ints, "*range=0 alias=0")
	m.pad = true
	m.add("C18", "VerifBaseMult", ints, "range=1 alias=0", "range=1 alias=1", "range=2 alias=0", "range=0 alias=1", "range=2 alias=1")
	m.add("C18", "VerifMult", ints+"; all points (discrete logarithm symbolic)", cross("range=0,1,2", "alias=0,1")...)
	m.add("C18", "VerifMultInfinity", ints, cross("range=0,1,2")...)
	m.add("C18", "VerifLinear", ints, cross("range=0,1,2")...)
	m.add("C17", "VerifNegate", "all points (discrete logarithm symbolic)", cross("alias=0,1,2")...)
}

func registerBn256() {
	f := group{pkg: "crypto/bn256", file: "field"}
	objs := "all elements in any representation (coordinates up to 2^260 in absolute value, negative ones included); receiver fresh, used, either or both arguments; pool absent, empty or with used numbers"
	f.add("C20", "VerifF2", objs, seq("op=%d", 0, 11)...)
	f.add("C20", "VerifF2Inv", objs)
	f.add("C20", "VerifF2Test", objs)
	f.add("C20", "VerifF6", objs, seq("op=%d", 0, 13)...)
	f.add("C20", "VerifF6Inv", objs+"; elements of non-zero norm")
	f.add("C20", "VerifF6Test", objs)
	f.add("C20", "VerifF12", objs, append(seq("op=%d", 0, 6), seq("op=%d", 9, 13)...)...)
	f.add("C20", "VerifF12Test", objs)
	f.add("C20 C24", "VerifConstants", "constants")
	f.modes = []string{"f6inv"}
	f.add("C20", "VerifF12Inv", objs)

	pt := group{pkg: "crypto/bn256", file: "points", extra: "field"}
	pts := "all points, Jacobian coordinates symbolic in the field; receiver fresh, used, either argument"
	pt.add("C21", "VerifPtAdd", pts+"; case: different x, equal, inverse, infinite arguments; api: exported methods", cross("case=0,1,2,3,4,5,6,7", "api=0,1", "twist=0,1")...)
	pt.add("C21", "VerifPtDouble", pts, cross("inf=0,1", "twist=0,1")...)
	pt.add("C21", "VerifPtNegative", pts, cross("inf=0,1", "api=0,1", "twist=0,1")...)
	pt.add("C21", "VerifPtAffine", pts+"; case: z any, one, zero", cross("case=0,1,2", "twist=0,1")...)
	pt.add("C21", "VerifPtOnCurve", "all pairs of coordinates", cross("twist=0,1")...)
	pt.add("C21", "VerifPtSet", pts, cross("twist=0,1")...)
	pt.add("C21", "VerifPtGenerators", "constants", cross("twist=0,1")...)

	pw := group{pkg: "crypto/bn256", file: "powers", extra: "points field"}
	ks := "all scalars of exactly the given number of bits (neg=1: and negative); points abstract"
	for t, m := range []string{"curve", "twist"} {
		pw.modes = []string{m}
		tw := fmt.Sprintf("twist=%d", t)
		rd := pw
		rd.maxHashes = 4
		rd.modes = []string{m, m + "mul"}
		rd.add("C22", "VerifRandom", "all sequences of up to 4 draws", tw)
		pw.add("C22", "VerifPtMul", ks, cross("bits=0,1,2,3,8,64,256", tw)...)
		pw.add("C22", "VerifPtScalarMult", ks, cross("bits=0,1,2,8,64,255,256,257,512", "neg=0,1", "base=0,1", "inf=0", tw)...)
		pw.add("C22", "VerifPtScalarMult", ks, cross("bits=1,256", "neg=0,1", "base=0", "inf=1", tw)...)
	}
	ks = "all exponents of exactly the given number of bits (neg=1: and negative); elements abstract"
	pw.modes = []string{"f12"}
	pw.add("C22", "VerifExp12", ks, cross("bits=0,1,2,8,64,256,512", "neg=0")...)
	pw.modes = []string{"f2"}
	pw.add("C22", "VerifExp2", ks, cross("bits=0,1,2,8,64,256,512", "neg=0")...)
	pw.modes = []string{"gt12"}
	pw.add("C22", "VerifGTExp", ks, cross("op=0,1", "bits=0,1,2,8,64,256,512", "neg=0,1")...)
	pw.add("C22", "VerifGTOps", "all elements of the target group")
	pw.modes = []string{"f12"}
	pw.add("C24", "VerifFinalExp", "all elements")

	cd := group{pkg: "crypto/bn256", file: "codec", extra: "points field"}
	cd.add("C23", "VerifEncodeShort", "all affine points in any representation, one coordinate of any size and the others of 32 bytes", append(cross("twist=0", "short=0,1"), cross("twist=1", "short=0,1,2,3")...)...)
	cd.add("C23", "VerifEncodeInf", "infinity in any representation", cross("twist=0,1")...)
	cd.add("C23", "VerifDecode", "all strings of the right length; receiver new or used", cross("twist=0,1", "used=0,1")...)
	cd.add("C23", "VerifLength", "20 wrong lengths, all contents")
	cd.add("C23", "VerifGTEncode", "all elements in any representation, one coordinate of any size and the others of 32 bytes", cross("short=0,1,2,3,4,5,6,7,8,9,10,11")...)
	cd.add("C23", "VerifGTDecode", "all strings of the right length")
	cd.pad = true
	cd.add("C23", "VerifEncode", "all finite points of the curve, Jacobian coordinates symbolic", cross("twist=0,1")...)
	cd.add("C23", "VerifRoundTrip", "all affine points of the curve in any representation", cross("twist=0,1")...)
	cd.add("C23", "VerifText", "all finite points in any representation", cross("twist=0,1")...)
	cd.add("C23", "VerifGTEncode", "all elements in any representation", "short=-1")

	pr := group{pkg: "crypto/bn256", file: "pairing", extra: "powers points field"}
	pr.add("C24", "VerifLineAdd", "all finite points in Jacobian coordinates, all affine points with another x, all points of the first group", "twist=1")
	pr.add("C24", "VerifLineDouble", "all finite points in Jacobian coordinates, all points of the first group", "twist=1")
	pr.add("C24", "VerifMulLine", "all elements in any representation")
	pr.add("C24", "VerifLoopConstants", "constants")
	pr.modes = []string{"f12", "millerloop"}
	pr.add("C24", "VerifMiller", "all points of the order of the groups (abstract); divisors modulo vertical lines")
	pr.modes = []string{"curve", "twist", "f12", "millervalue"}
	pr.add("C24", "VerifPair", "all pairs of points, infinity included")
	pr.add("C24", "VerifPairAgain", "all pairs of points, one pairing after the other")
	pr.add("C24", "VerifPairingCheck", "all lists of pairs of points, infinity included", "pairs=0", "pairs=1", "pairs=2", "pairs=3")
}

func registerUtil() {
	bb := group{pkg: "crypto/bbsignatures", file: "bb", modes: []string{"bn256"}}
	bb.add("C15", "VerifKeygen", "all draws")
	bb.add("C15", "VerifSign", "all keys and messages up to 2^300 in absolute value")
	bb.add("C15", "VerifKeySign", "all draws, all messages")
	bb.add("C15", "VerifAgain", "all pairs of keys and messages up to 2^300 in absolute value")
	bb.add("C15", "VerifExact", "all messages, all public keys and all candidate signatures of the groups (discrete logarithms symbolic)")

	ut := group{pkg: "util", file: "ut", modes: []string{"p256", "bn256"}}
	num := "all values and blinding factors up to 2^300 in absolute value"
	ut.add("C16", "VerifCommitG1", num+"; second generator any point, infinity with inf=1", "inf=0", "inf=1")
	ut.add("C16", "VerifCommit", num+"; second generator any point")
	ut.add("C16", "VerifCommitG1Add", num)
	ut.add("C16", "VerifCommitAdd", num)
	ut.add("C16", "VerifAgain", "all pairs of scalars and generators, one call after the other")
	ut.add("C28", "VerifDigitsAgain", "all pairs of integers up to 2^300 in absolute value, one after the other", "u=2 l=3", "u=57 l=5")
	ut.add("C28", "VerifDecompose", "all integers up to 2^300 in absolute value; base u, l digits", "u=2 l=0", "u=2 l=1", "u=2 l=4", "u=2 l=32", "u=2 l=63", "u=3 l=5", "u=10 l=8", "u=57 l=5", "u=256 l=8", "u=65536 l=4", "u=9223372036854775807 l=3", "!u=2 l=200", "!u=1000003 l=12")

	v := group{pkg: "bulletproofs", file: "vec", extra: "bp", modes: []string{"p256"}}
	ents := "all entries up to 2^300 in absolute value, n of them; same=1: one vector twice"
	v.add("C30", "VerifVector", ents, append(cross("n=0,1,3,8", "op=0,1,2,3", "same=0"), cross("n=3", "op=0,1,2", "same=1")...)...)
	v.add("C30", "VerifVectorLength", ents, "n=0 m=1", "n=1 m=0", "n=1 m=2", "n=3 m=2")
	v.add("C30", "VerifScalarProduct", ents, "n=0 same=0", "n=1 same=0", "n=4 same=0", "n=3 same=1", "n=32 same=0")
	v.add("C30", "VerifPowers", ents, "n=0", "n=1", "n=2", "n=8", "!n=16")
	v.add("C30", "VerifCopies", ents+"; all int64", "n=0", "n=3")
	v.add("C30", "VerifVectorPoints", ents+"; all points, infinity included", "n=0 same=0", "n=1 same=0", "n=4 same=0", "n=2 same=1")
	v.add("C16", "VerifCommitVectors", ents+"; all generators", "n=1", "n=2", "n=4", "!n=8")
	v.add("C29", "VerifPowerOfTwo", "all int64")
	v.add("C29", "VerifSetup", "all int64")
	v.add("C29", "VerifGenerators", "all relations", cross("N=1,2,4,8,32", "ipp=0,1")...)
	v.modes = []string{"conchash", "bytesconv", "p256low"}
	v.add("C29", "VerifDistinct", "constants", "N=1", "N=2", "N=4", "N=8", "N=16", "N=32")

	n := group{pkg: "util/bn", file: "bnh"}
	ops := "all operands up to 2^600 in absolute value; the moduli of the groups and the fields, 7, 2 and 1"
	n.add("C27", "VerifRing", ops, seq("mod=%d", 0, 5)...)
	n.add("C27", "VerifAgain", "all pairs of operands, one call after the other", "mod=0", "mod=1", "mod=2")
	n.add("C27", "VerifInverse", ops, seq("mod=%d", 0, 4)...)
	n.add("C27", "VerifModPow", ops+"; all exponents of exactly the given number of bits (neg=1: and negative)", append(cross("mod=0,1,2", "bits=0,1,3,5", "neg=0,1"), "mod=5 bits=3 neg=0", "mod=3 bits=3 neg=0", "mod=3 bits=1 neg=1", "!mod=0 bits=8 neg=0", "!mod=1 bits=8 neg=1")...)
	n.add("C27", "VerifHash", "all non-negative integers (nega, negb = 1: all negative ones) of up to len bytes, all hash outputs", append(append(cross("len=1,2,4", "two=0", "nega=0,1", "negb=0"), cross("len=1", "two=1", "nega=0,1", "negb=0,1")...), append(cross("!len=2,3", "two=1", "nega=0,1", "negb=0,1"), cross("!len=16,32", "two=0", "nega=0,1", "negb=0")...)...)...)

	c := group{pkg: "util/byteconversion", file: "conv"}
	c.add("C25", "VerifTo", "all integers whose encoding has up to len bytes", "len=1", "len=2", "len=4", "len=8", "!*len=16", "!*len=33")
	c.add("C25", "VerifAgain", "all pairs of one-byte integers, one after the other")
	c.add("C25", "VerifFrom", "all strings of len bytes", "len=0", "len=1", "len=2", "len=3", "len=4", "len=8", "len=32")
	c.add("C25", "VerifFlip", "all strings of len bytes", "len=0", "len=1", "len=32")
	c.add("C26", "VerifParse", "all strings of len bytes", seq("len=%d", 0, 6)...)
	c.add("C26", "VerifList", "all strings of len bytes", seq("len=%d", 0, 4)...)
	c.add("C26", "VerifText", "all decimal texts with the number of digits, leading zeroes included", cross("digits=1,2,20,40,80", "neg=0,1")...)
}
