package util

import (
	"bytes"
	"crypto/subtle"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"github.com/ing-bank/zkrp/verifrt"
)

func vEqS(a, b, what string) { verifrt.Assert(a == b, what) }

func VerifModelsBig() {
	a, b := big.NewInt(1000003), big.NewInt(-77)
	z := func() *big.Int { return new(big.Int) }
	is := func(x *big.Int, s string) { verifrt.Assert(x.String() == s, s) }
	is(z().Add(a, b), "999926")
	is(z().Sub(a, b), "1000080")
	is(z().Mul(a, b), "-77000231")
	is(z().Quo(b, big.NewInt(10)), "-7")
	is(z().Rem(b, big.NewInt(10)), "-7")
	is(z().Div(b, big.NewInt(10)), "-8")
	is(z().Mod(b, big.NewInt(10)), "3")
	q, r := z().QuoRem(b, big.NewInt(10), z())
	is(q, "-7")
	is(r, "-7")
	q, m := z().DivMod(b, big.NewInt(10), z())
	is(q, "-8")
	is(m, "3")
	is(z().Neg(a), "-1000003")
	is(z().Abs(b), "77")
	is(z().Not(a), "-1000004")
	is(z().And(a, big.NewInt(255)), "67")
	is(z().Or(a, big.NewInt(255)), "1000191")
	is(z().Xor(a, big.NewInt(255)), "1000124")
	is(z().AndNot(a, big.NewInt(255)), "999936")
	is(z().Lsh(a, 70), z().Mul(a, z().Exp(big.NewInt(2), big.NewInt(70), nil)).String())
	is(z().Rsh(a, 3), "125000")
	is(z().Sqrt(a), "1000")
	is(z().SetBit(a, 0, 0), "1000002")
	is(z().SetBytes([]byte{1, 2, 3}), "66051")
	is(z().Exp(a, big.NewInt(3), big.NewInt(1000)), "27")
	is(z().GCD(nil, nil, big.NewInt(12), big.NewInt(18)), "6")
	is(z().ModInverse(big.NewInt(3), big.NewInt(7)), "5")
	is(z().Set(a), "1000003")
	is(z().SetUint64(7), "7")
	is(z().MulRange(1, 5), "120")
	is(z().Binomial(5, 2), "10")
	verifrt.Assert(a.Cmp(b) > 0 && a.CmpAbs(b) > 0 && b.Sign() < 0 && a.IsInt64() && a.Bit(0) == 1 && a.BitLen() == 20, "queries")
	verifrt.Assert(bytes.Equal(a.Bytes(), []byte{15, 66, 67}), "bytes")
	vEqS(a.Text(16), "f4243", "text")
	vEqS(string(a.Append(nil, 10)), "1000003", "append")
	x, ok := z().SetString("ff", 16)
	verifrt.Assert(ok && x.Int64() == 255, "setstring")
	verifrt.Assert(bytes.Equal(a.FillBytes(make([]byte, 5)), []byte{0, 0, 15, 66, 67}), "fill")
	verifrt.Assert(a.IsUint64() && a.Uint64() == 1000003 && a.TrailingZeroBits() == 0, "u64")
	verifrt.Assert(big.NewInt(101).ProbablyPrime(20), "prime")
	verifrt.Assert(big.Jacobi(big.NewInt(2), big.NewInt(7)) == 1, "jacobi")
	bt, _ := a.MarshalText()
	vEqS(string(bt), "1000003", "mt")
	verifrt.Assert(z().UnmarshalText([]byte("12")) == nil, "ut")
	verifrt.Reach("end")
	verifrt.Expect("end")
}

func VerifModelsBytes() {
	a, b := []byte("abcabc"), []byte("abd")
	verifrt.Assert(bytes.Compare(a, b) == -1 && bytes.Compare(b, a) == 1 && bytes.Compare(a, a) == 0, "compare")
	verifrt.Assert(bytes.Count(a, []byte("b")) == 2, "count")
	verifrt.Assert(bytes.Contains(a, []byte("ca")) && bytes.IndexByte(a, 'c') == 2 && bytes.Index(a, []byte("ca")) == 2, "index")
	verifrt.Assert(bytes.LastIndexByte(a, 'c') == 5, "last")
	verifrt.Assert(len(bytes.Split(a, []byte("b"))) == 3, "split")
	verifrt.Assert(bytes.HasPrefix(a, []byte("ab")) && bytes.HasSuffix(a, []byte("bc")), "prefix")
	vEqS(string(bytes.TrimLeft([]byte("00ab"), "0")), "ab", "triml")
	vEqS(string(bytes.TrimSpace([]byte(" ab "))), "ab", "trims")
	vEqS(string(bytes.Trim([]byte("00ab0"), "0")), "ab", "trim")
	vEqS(string(bytes.Join([][]byte{a, b}, []byte(","))), "abcabc,abd", "join")
	vEqS(string(bytes.Repeat(b, 2)), "abdabd", "repeat")
	verifrt.Assert(subtle.ConstantTimeCompare(a, a) == 1 && subtle.ConstantTimeCompare(a, b) == 0, "ctc")
	verifrt.Assert(subtle.ConstantTimeEq(3, 3) == 1 && subtle.ConstantTimeSelect(1, 5, 6) == 5 && subtle.ConstantTimeByteEq(1, 2) == 0, "cteq")
	var w bytes.Buffer
	w.Write(a)
	w.WriteByte('x')
	w.WriteString("yz")
	fmt.Fprintf(&w, "%d", 12)
	vEqS(w.String(), "abcabcxyz12", "buffer")
	vEqS(hex.EncodeToString([]byte{1, 255}), "01ff", "hex")
	d, err := hex.DecodeString("01ff")
	verifrt.Assert(err == nil && len(d) == 2 && d[1] == 255, "unhex")
	var u [8]byte
	binary.BigEndian.PutUint64(u[:], 0x0102030405060708)
	verifrt.Assert(u[0] == 1 && binary.LittleEndian.Uint64(u[:]) == 0x0807060504030201, "binary")
	u2 := binary.BigEndian.AppendUint32(nil, 7)
	verifrt.Assert(len(u2) == 4 && u2[3] == 7, "append32")
	verifrt.Assert(bits.ReverseBytes64(1) == 1<<56 && bits.Len64(7) == 3 && bits.LeadingZeros64(1) == 63, "bits")
	hi, lo := bits.Mul64(1<<63, 6)
	s, c := bits.Add64(lo, 1, 1)
	verifrt.Assert(hi == 3 && s == 2 && c == 0, "mul64")
	verifrt.Reach("end")
	verifrt.Expect("end")
}

func VerifModelsStrings() {
	s := "a,b,c"
	verifrt.Assert(len(strings.Split(s, ",")) == 3 && strings.Index(s, "b") == 2 && strings.Contains(s, "c"), "split")
	verifrt.Assert(strings.IndexByte(s, 'c') == 4 && strings.Count(s, ",") == 2 && strings.LastIndex(s, ",") == 3, "index")
	vEqS(strings.Join([]string{"x", "y"}, "-"), "x-y", "join")
	vEqS(strings.Repeat("ab", 3), "ababab", "repeat")
	vEqS(strings.TrimSpace(" a "), "a", "trim")
	vEqS(strings.TrimLeft("001", "0"), "1", "triml")
	vEqS(strings.TrimPrefix("abc", "a")+strings.TrimSuffix("abc", "c"), "bcab", "trimp")
	vEqS(strings.ToUpper("abc"), "ABC", "upper")
	vEqS(strings.Replace("aXbX", "X", "-", -1), "a-b-", "replace")
	vEqS(strings.ReplaceAll("aXbX", "X", ""), "ab", "replaceall")
	var sb strings.Builder
	sb.WriteString("q")
	sb.WriteByte('w')
	sb.WriteRune('e')
	vEqS(sb.String(), "qwe", "builder")
	x, y, ok := strings.Cut("k=v", "=")
	verifrt.Assert(ok && x == "k" && y == "v", "cut")
	verifrt.Assert(len(strings.Fields(" a b ")) == 2, "fields")
	verifrt.Assert(strings.EqualFold("Ab", "aB"), "fold")
	n, err := strconv.Atoi("123")
	verifrt.Assert(err == nil && n == 123, "atoi")
	n64, err := strconv.ParseInt("-7f", 16, 64)
	verifrt.Assert(err == nil && n64 == -127, "parse")
	_, err = strconv.ParseInt("zz", 10, 64)
	verifrt.Assert(err != nil, "parseerr")
	vEqS(strconv.FormatInt(-5, 10)+strconv.Itoa(9)+strconv.FormatUint(255, 16), "-59ff", "format")
	vEqS(strconv.Quote("a"), "\"a\"", "quote")
	vEqS(fmt.Sprintf("%d-%s-%v", 3, "x", true), "3-x-true", "sprintf")
	vEqS(fmt.Sprintf("%x|%02x|%5d", 255, 7, 3), "ff|07|    3", "sprintfx")
	vEqS(fmt.Sprint("a", 1), "a1", "sprint")
	vEqS(fmt.Sprint(big.NewInt(12)), "12", "sprintbig")
	verifrt.Reach("end")
	verifrt.Expect("end")
}

type vErr struct{ k int }

func (e *vErr) Error() string { return "v" + strconv.Itoa(e.k) }

func VerifModelsMisc() {
	x := []int{3, 1, 2}
	sort.Ints(x)
	verifrt.Assert(x[0] == 1 && x[2] == 3, "ints")
	y := []string{"b", "a"}
	sort.Strings(y)
	verifrt.Assert(y[0] == "a", "strings")
	sort.Slice(x, func(i, j int) bool { return x[i] > x[j] })
	verifrt.Assert(x[0] == 3, "slice")
	verifrt.Assert(sort.Search(10, func(i int) bool { return i >= 4 }) == 4, "search")
	e := errors.New("a")
	w := fmt.Errorf("w: %w", e)
	verifrt.Assert(errors.Is(w, e) && errors.Unwrap(w) == e, "wrap")
	var ve *vErr
	verifrt.Assert(errors.As(fmt.Errorf("x %w", &vErr{3}), &ve) && ve.k == 3, "as")
	verifrt.Assert(w.Error() == "w: a", "text")
	verifrt.Assert(math.MaxInt64 == 1<<63-1 && math.Floor(2.5) == 2 && math.Ceil(2.5) == 3 && math.Sqrt(9) == 3 && math.Abs(-1) == 1, "math")
	m := map[string]int{"a": 1, "b": 2}
	t := 0
	for k, v := range m {
		t += v + len(k)
	}
	delete(m, "a")
	verifrt.Assert(t == 5 && len(m) == 1, "map")
	f := func() (r int) {
		defer func() {
			if recover() != nil {
				r = 7
			}
		}()
		var p *vErr
		return p.k
	}
	verifrt.Assert(f() == 7, "recover")
	switch v := interface{}(e).(type) {
	case *vErr:
		verifrt.Assert(false, "type")
	case error:
		verifrt.Assert(v.Error() == "a", "type")
	}
	arr := [3]int{1, 2, 3}
	arr2 := arr
	arr2[0] = 9
	verifrt.Assert(arr[0] == 1 && arr != arr2, "arrays")
	s3 := arr[:2:2]
	s3 = append(s3, 8)
	verifrt.Assert(arr[2] == 3 && cap(arr[1:]) == 2, "slices")
	lbl := 0
outer:
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if j == 1 {
				continue outer
			}
			if i == 2 {
				break outer
			}
			lbl++
		}
	}
	verifrt.Assert(lbl == 2, "labels")
	verifrt.Reach("end")
	verifrt.Expect("end")
}
