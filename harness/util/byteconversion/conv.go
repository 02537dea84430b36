package byteconversion

import (
	"math/big"

	"github.com/ing-bank/zkrp/verifrt"
)

// vvalue is the integer a byte string denotes in two's complement.
func vvalue(b []byte) *big.Int {
	r := new(big.Int)
	for i, x := range b {
		w := int64(x)
		if i == 0 && w >= 128 {
			w -= 256
		}
		r.Mul(r, big.NewInt(256))
		r.Add(r, big.NewInt(w))
	}
	return r
}

// VerifTo: integers of up to len bytes in two's complement.
func VerifTo() {
	verifrt.Expect("end")
	lim := new(big.Int).Lsh(big.NewInt(1), uint(8*verifrt.Param("len")-1))
	x := verifrt.Int("x", new(big.Int).Neg(lim), new(big.Int).Sub(lim, big.NewInt(1)))
	cx := new(big.Int).Set(x)
	b := ToByteArray(x)
	verifrt.Assert(x.Cmp(cx) == 0, "the integer keeps its value")
	verifrt.Assert(len(b) > 0, "the encoding is not empty")
	verifrt.Assert(vvalue(b).Cmp(cx) == 0, "the encoding denotes the integer")
	if n := len(b); n > 1 {
		verifrt.Assert(!(b[0] == 0 && b[1] < 128) && !(b[0] == 255 && b[1] >= 128), "the encoding is minimal")
	}
	r, err := FromByteArray(b)
	verifrt.Assert(err == nil && r.Cmp(cx) == 0, "decoding the encoding yields the integer")
	verifrt.Reach("end")
}

// VerifFrom: all byte strings of a length.
func VerifFrom() {
	verifrt.Expect("end")
	b := verifrt.Bytes("b", int(verifrt.Param("len")))
	cb := append([]byte(nil), b...)
	r, err := FromByteArray(b)
	if len(b) == 0 {
		verifrt.Assert(err != nil && r == nil, "an empty string is an error")
		verifrt.Reach("end")
		return
	}
	verifrt.Assert(err == nil, "no error")
	verifrt.Assert(r.Cmp(vvalue(cb)) == 0, "the string is read in two's complement")
	for i := range b {
		verifrt.Assert(b[i] == cb[i], "the string keeps its value")
	}
	verifrt.Reach("end")
}

// VerifFlip: all bits are inverted.
func VerifFlip() {
	verifrt.Expect("end")
	b := verifrt.Bytes("b", int(verifrt.Param("len")))
	cb := append([]byte(nil), b...)
	f := FlipBytes(b)
	verifrt.Assert(len(f) == len(b), "the same length")
	for i := range f {
		verifrt.Assert(int(f[i])+int(cb[i]) == 255, "every bit is inverted")
		verifrt.Assert(b[i] == cb[i], "the string keeps its value")
	}
	verifrt.Reach("end")
}

// vnumber: the integer a decimal string denotes.
func vnumber(s []byte) (*big.Int, bool) {
	neg := len(s) > 0 && s[0] == '-'
	r := new(big.Int)
	if neg {
		s = s[1:]
		if len(s) == 0 {
			return nil, false
		}
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return nil, false
		}
		r.Mul(r, big.NewInt(10))
		r.Add(r, big.NewInt(int64(c)-'0'))
	}
	if neg {
		r.Neg(r)
	}
	return r, true
}

// VerifParse: all strings of a length.
func VerifParse() {
	n := int(verifrt.Param("len"))
	if n > 0 {
		verifrt.Expect("number,error")
	} else {
		verifrt.Expect("number")
	}
	s := verifrt.Bytes("s", n)
	cs := append([]byte(nil), s...)
	r, err := ConvertToBigInt(s)
	want, ok := vnumber(cs)
	for i := range s {
		verifrt.Assert(s[i] == cs[i], "the string keeps its value")
	}
	if !ok {
		verifrt.Assert(err != nil && r == nil, "other strings are errors")
		verifrt.Reach("error")
		return
	}
	verifrt.Assert(err == nil && r != nil, "decimal numbers are accepted")
	verifrt.Assert(r.Cmp(want) == 0, "the integer denoted")
	verifrt.Reach("number")
}

// VerifList: all strings of a length as comma-separated lists.
func VerifList() {
	n := int(verifrt.Param("len"))
	if n > 0 {
		verifrt.Expect("list,error")
	} else {
		verifrt.Expect("list")
	}
	s := verifrt.Bytes("s", n)
	cs := append([]byte(nil), s...)
	r, err := ParseInput(s)
	var want []*big.Int
	good := true
	start := 0
	for i := 0; i <= len(cs); i++ {
		if i == len(cs) || cs[i] == ',' {
			v, ok := vnumber(cs[start:i])
			if !ok {
				good = false
				break
			}
			want = append(want, v)
			start = i + 1
		}
	}
	if !good {
		verifrt.Assert(err != nil && r == nil, "a list with an item that is no number is an error")
		verifrt.Reach("error")
		return
	}
	verifrt.Assert(err == nil, "a list of numbers is accepted")
	verifrt.Assert(len(r) == len(want), "one number per item")
	for i := range want {
		verifrt.Assert(r[i].Cmp(want[i]) == 0, "the integer denoted by the item")
	}
	verifrt.Reach("list")
}

// VerifText: the decimal text of an integer, as bytes.
func VerifText() {
	verifrt.Expect("end")
	// up to "digits" digits, negative ones included
	n := int(verifrt.Param("digits"))
	var s []byte
	want := new(big.Int)
	if verifrt.Param("neg") == 1 {
		s = append(s, '-')
	}
	for i := 0; i < n; i++ {
		d := verifrt.I64("d"+string(rune('a'+i/26))+string(rune('a'+i%26)), 0, 9)
		s = append(s, byte('0'+d))
		want.Mul(want, big.NewInt(10))
		want.Add(want, big.NewInt(d))
	}
	if verifrt.Param("neg") == 1 {
		want.Neg(want)
	}
	r, err := ConvertToBigInt(s)
	verifrt.Assert(err == nil && r.Cmp(want) == 0, "the digits are read")
	verifrt.Reach("end")
}

func vfrom(b []byte) *big.Int {
	x, err := FromByteArray(b)
	verifrt.Assert(err == nil, "bytes are decoded")
	return x
}

// VerifAgain: conversions do not depend on earlier ones.
func VerifAgain() {
	verifrt.Expect("end")
	lim := big.NewInt(127)
	x := verifrt.Int("x", big.NewInt(0), lim)
	y := verifrt.Int("y", big.NewInt(0), lim)
	a := ToByteArray(x)
	x0 := new(big.Int).Set(x)
	x.Set(y)
	b := ToByteArray(x)
	verifrt.Assert(vfrom(a).Cmp(x0) == 0, "the first encoding stays as it is")
	verifrt.Assert(vfrom(b).Cmp(y) == 0, "the second encoding is that of the second integer")
	m := vfrom(a)
	n := vfrom(b)
	verifrt.Assert(m.Cmp(x0) == 0 && n.Cmp(y) == 0, "both decode")
	copy(a, b)
	verifrt.Assert(vfrom(a).Cmp(y) == 0 && m.Cmp(x0) == 0, "the bytes are read again when they have changed")
	verifrt.Reach("end")
}
