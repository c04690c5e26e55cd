package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// ---- C27: amounts ----

// reading is one way to read a text as a number: sign, digits before and
// after the decimal separator.
type reading struct {
	neg       bool
	plus      bool
	point     bool
	ints, dec string
	must      bool // must be accepted (by fields that can hold it)
}

func allDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// grouped reads thousands separated by sep: "" and false if s is no such number.
func grouped(s string, sep string) (string, bool) {
	g := strings.Split(s, sep)
	if len(g) < 2 || len(g[0]) == 0 || len(g[0]) > 3 {
		return "", false
	}
	for i, x := range g {
		if !allDigits(x) || i > 0 && len(x) != 3 {
			return "", false
		}
	}
	return strings.Join(g, ""), true
}

// readings lists the acceptable readings of a text, none if it is no number.
// A rejection is acceptable too unless one of them must be accepted.
func readings(s string) []reading {
	var r reading
	if s != "" && (s[0] == '-' || s[0] == '+') {
		r.neg, r.plus = s[0] == '-', s[0] == '+'
		s = s[1:]
	}
	r.point = strings.HasSuffix(s, ".") || strings.HasSuffix(s, ",")
	in := func(ints, dec string, must bool) []reading {
		r.ints, r.dec, r.must = ints, dec, must
		if ints == "" && dec == "" {
			return nil
		}
		return []reading{r}
	}
	// one notation: grouping separator g, decimal separator d
	notation := func(g, d string) (string, string, bool, bool) {
		a, b := s, ""
		if i := strings.Index(s, d); i >= 0 {
			a, b = s[:i], s[i+len(d):]
		}
		if !allDigits(b) || a == "" && b == "" {
			return "", "", false, false
		}
		if allDigits(a) {
			return a, b, true, false
		}
		x, ok := grouped(a, g)
		return x, b, ok, ok
	}
	usI, usD, us, usG := notation(",", ".")
	euI, euD, eu, euG := notation(".", ",")
	zero := len(s) > 0 && s[0] == '0'
	switch {
	case us && !usG: // plain
		return in(usI, usD, true)
	case us && !eu:
		return in(usI, usD, !zero)
	case us && eu:
		// 1,234 is read as US; for 0,123 no reading is unquestionable
		if !zero {
			return in(usI, usD, true)
		}
		x := in(usI, usD, false)
		return append(x, in(euI, euD, false)...)
	case eu:
		// without grouping from a thousand on it is not required
		return in(euI, euD, euG && !zero || !euG && len(euI) <= 3)
	}
	return nil
}

// amountIs compares what a field holds after an attempt with a text.
func amountIs(s string, v, before reflect.Value, err error) string {
	if s == "" {
		if err != nil {
			return fmt.Sprintf("empty text gives the error %v", err)
		}
		if v.Interface() != before.Interface() {
			return fmt.Sprintf("empty text changed the field to %v", v)
		}
		return ""
	}
	rs := readings(s)
	if err != nil {
		if v.Interface() != before.Interface() {
			return fmt.Sprintf("an error, but the field changed to %v", v)
		}
		for _, r := range rs {
			if r.must && holds(r, v) == 1 {
				return fmt.Sprintf("not accepted: %v", err)
			}
		}
		return ""
	}
	if len(rs) == 0 {
		return fmt.Sprintf("is no number, but was read as %v", v)
	}
	for _, r := range rs {
		if holds(r, v) >= 0 && r.is(v) {
			return ""
		}
		if holds(r, v) == -2 {
			return "" // more than the small field can hold: not specified
		}
	}
	return fmt.Sprintf("read as %v", v)
}

// holds tells how a field of the kind of v takes the number: 1 it can, 0 a
// whole number written with decimals or a plus sign (may be refused), -1 it
// is a fraction or too large or negative, -2 beyond a small field.
func holds(r reading, v reflect.Value) int {
	if v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64 {
		f, _ := strconv.ParseFloat(r.text(), 64)
		if f > 1e308 || f < -1e308 {
			return -1
		}
		if v.OverflowFloat(f) {
			return -2
		}
		return 1
	}
	if strings.Trim(r.dec, "0") != "" {
		return -1
	}
	n, _ := new(big.Int).SetString("0"+r.ints, 10)
	if r.neg {
		n.Neg(n)
	}
	res := 1
	if r.dec != "" || r.ints == "" || r.point {
		res = 0
	}
	if v.CanInt() {
		if !n.IsInt64() {
			return -1
		}
		if v.OverflowInt(n.Int64()) {
			return -2
		}
		return res
	}
	if r.neg || r.plus {
		res = 0
	}
	if !n.IsUint64() {
		return -1
	}
	if v.OverflowUint(n.Uint64()) {
		return -2
	}
	return res
}

func (r reading) text() string {
	s := r.ints + "." + r.dec + "0"
	if r.neg {
		s = "-" + s
	}
	if r.ints == "" {
		return strings.Replace(s, ".", "0.", 1)
	}
	return s
}

func (r reading) is(v reflect.Value) bool {
	switch {
	case v.CanInt():
		n, _ := new(big.Int).SetString("0"+r.ints, 10)
		if r.neg {
			n.Neg(n)
		}
		return n.Cmp(big.NewInt(v.Int())) == 0
	case v.CanUint():
		n, _ := new(big.Int).SetString("0"+r.ints, 10)
		return (!r.neg || n.Sign() == 0) && n.Cmp(new(big.Int).SetUint64(v.Uint())) == 0
	}
	f, _ := strconv.ParseFloat(r.text(), 64)
	if v.Kind() == reflect.Float32 {
		g, _ := strconv.ParseFloat(r.text(), 32)
		return v.Float() == float64(float32(f)) || v.Float() == g
	}
	return v.Float() == f
}

type (
	amtInt   int64
	amtFloat float64
	amtEmb   struct {
		Amount   int64   `json:"amount"`
		Rate     float64 `json:"rate"`
		Quantity uint64  `json:"quantity"`
	}
	amtAll struct {
		First  string
		AmtEmb amtEmb `json:"sub"`
		A      int64
		B      float64
		C      uint64
		PA     *int64
		PB     *float64
		PC     *uint64
		LA     []int64
		LB     []float64
		LC     []uint64
		MA     map[string]int64
		MB     map[string]float64
		MC     map[string]uint64
		RA     [2]int64
		RB     [2]float64
		NA     amtInt   `json:"named_a"`
		NB     amtFloat `json:"named_b"`
		DA     int64    `json:"old_a" yunion-deprecated-by:"a"`
		Last   string
	}
)

// amountAt puts a text at each position and reads it back from the field.
func amountAt(t *T, s string) {
	chk := func(pos string, v, before reflect.Value, err error) {
		if x := amountIs(s, v, before, err); x != "" {
			t.Failf("text %q into %s (%s): %s", s, v.Type(), pos, x)
		}
	}
	i7, f7, u7 := int64(77), 77.5, uint64(77)
	befores := []reflect.Value{reflect.ValueOf(i7), reflect.ValueOf(f7), reflect.ValueOf(u7)}
	put := func(pos string, d *V, get func(x *amtAll) reflect.Value, before reflect.Value) {
		a, b, c := i7, f7, u7
		x := &amtAll{AmtEmb: amtEmb{77, 77.5, 77}, A: 77, B: 77.5, C: 77, PA: &a, PB: &b, PC: &c, RA: [2]int64{77, 77}, RB: [2]float64{77.5, 77.5}, NA: 77, NB: 77.5, DA: 77}
		d.M["first"], d.M["last"] = vStr("one"), vStr("end")
		t.Try(func() string { return fmt.Sprintf("text %q at %s", s, pos) }, func() {
			err := d.obj().Unmarshal(x)
			t.Op(1)
			chk(pos, get(x), before, err)
			if x.First != "one" || x.Last != "end" {
				t.Failf("text %q at %s: the other members were not set: %q %q", s, pos, x.First, x.Last)
			}
		})
	}
	for k, n := range []string{"a", "b", "c"} {
		k := k
		put("field", vDict(n, vStr(s)), func(x *amtAll) reflect.Value { return reflect.ValueOf(x).Elem().FieldByName(strings.ToUpper(n)) }, befores[k])
		put("pointer", vDict("p"+n, vStr(s)), func(x *amtAll) reflect.Value {
			return reflect.ValueOf(x).Elem().FieldByName("P" + strings.ToUpper(n)).Elem()
		}, befores[k])
		put("member of a member", vDict("sub", vDict([]string{"amount", "rate", "quantity"}[k], vStr(s))), func(x *amtAll) reflect.Value {
			return reflect.ValueOf(x).Elem().FieldByName("AmtEmb").Field(k)
		}, befores[k])
		zero := reflect.Zero(befores[k].Type())
		if s == "" || len(readings(s)) > 0 {
			put("element", vDict("l"+n, vArr(vStr("1"), vStr(s), vStr("3"))), func(x *amtAll) reflect.Value {
				f := reflect.ValueOf(x).Elem().FieldByName("L" + strings.ToUpper(n))
				if f.Len() < 2 {
					return zero
				}
				return f.Index(1)
			}, zero)
			put("single element", vDict("l"+n, vStr(s)), func(x *amtAll) reflect.Value {
				f := reflect.ValueOf(x).Elem().FieldByName("L" + strings.ToUpper(n))
				if f.Len() < 1 {
					return zero
				}
				return f.Index(0)
			}, zero)
			put("map value", vDict("m"+n, vDict("k", vStr(s))), func(x *amtAll) reflect.Value {
				f := reflect.ValueOf(x).Elem().FieldByName("M" + strings.ToUpper(n))
				if e := f.MapIndex(reflect.ValueOf("k")); e.IsValid() {
					return e
				}
				return zero
			}, zero)
		}
		if k < 2 {
			put("named type", vDict("named_"+n, vStr(s)), func(x *amtAll) reflect.Value {
				f := reflect.ValueOf(x).Elem().FieldByName("N" + strings.ToUpper(n))
				return f.Convert(befores[k].Type())
			}, befores[k])
		}
	}
	put("deprecated field", vDict("old_a", vStr(s)), func(x *amtAll) reflect.Value { return reflect.ValueOf(x.A) }, befores[0])
	put("deprecated field", vDict("old_a", vStr(s)), func(x *amtAll) reflect.Value { return reflect.ValueOf(x.DA) }, befores[0])
	// by key
	x := i7
	err := vDict("k", vStr(s)).obj().Unmarshal(&x, "k")
	chk("by key", reflect.ValueOf(x), befores[0], err)
}

var (
	amtMain = []interface{}{int64(77), uint64(77), 77.5}
	amtRest = []interface{}{int(77), int8(77), int16(77), int32(77), uint(77), uint8(77), uint16(77), uint32(77), float32(77.5)}
)

func amountInto(t *T, s string, kinds []interface{}) {
	o := ju.NewString(s)
	for _, k := range kinds {
		b := reflect.ValueOf(k)
		p := reflect.New(b.Type())
		p.Elem().Set(b)
		t.Try(func() string { return fmt.Sprintf("text %q into %s", s, b.Type()) }, func() {
			err := o.Unmarshal(p.Interface())
			t.Op(1)
			if err != nil {
				t.Outcome("refused")
			} else {
				t.Outcome("read")
			}
			if x := amountIs(s, p.Elem(), b, err); x != "" {
				t.Failf("text %q into %s: %s", s, b.Type(), x)
			}
		})
	}
}

// withGroups writes digits with a separator every three digits.
func withGroups(d, sep string) string {
	var g []string
	for len(d) > 3 {
		g = append([]string{d[len(d)-3:]}, g...)
		d = d[:len(d)-3]
	}
	return strings.Join(append([]string{d}, g...), sep)
}

func init() {
	register(&Check{ID: "C27", Suites: func(quick bool) []Suite {
		n, n2, n3 := 8, 6, 5
		if !quick {
			n, n2, n3 = 9, 7, 6
		}
		alpha := []string{"0", "1", "7", ".", ",", "-", "+"}
		wide := []string{"0", "9", "123", "456", ",", ".", "-", " ", "e", "$"}
		var suites []Suite
		state := func(t *T, s string) {
			t.State(s)
			t.Sample(func() string { return fmt.Sprintf("%q", s) })
		}
		suites = append(suites, wordSuite("words", "into 64-bit integers, unsigned and floats holding a value", alpha, n, func(t *T, s string) {
			state(t, s)
			amountInto(t, s, amtMain)
		}))
		suites = append(suites, wordSuite("words-small", "into every other numeric kind holding a value", alpha, n2, func(t *T, s string) {
			state(t, s)
			amountInto(t, s, amtRest)
		}))
		suites = append(suites, wordSuite("words-groups", "with whole groups of three digits, blanks, exponents and currency signs, into 64-bit integers, unsigned and floats", wide, n2, func(t *T, s string) {
			state(t, s)
			if strings.Contains(s, "e") {
				// an exponent is not part of the notation: only plain floats have it
				var f float64
				err := ju.NewString(s).Unmarshal(&f)
				w, e := strconv.ParseFloat(s, 64)
				t.Op(1)
				if err == nil && (e != nil || w != f) {
					t.Failf("text %q read as %v", s, f)
				}
				amountNone(t, s)
				return
			}
			amountInto(t, s, amtMain)
		}))
		suites = append(suites, wordSuite("positions", "in fields, members of members, pointers, lists, as single element of a list, map values, named types, deprecated fields and by key", alpha, n3, func(t *T, s string) {
			state(t, s)
			amountAt(t, s)
		}))
		maxD := 24
		if !quick {
			maxD = 60
		}
		suites = append(suites, Suite{Name: "lengths", Bound: fmt.Sprintf("numbers of 1-%d digits of 3 digit patterns with 0-8 decimals in plain, US and European spelling with each sign, and each with one separator removed, doubled, exchanged or moved by one", maxD), N: int64(maxD) * 3 * 9, Run: func(t *T, i int64) {
			dec := int(i % 9)
			pat := int(i / 9 % 3)
			nd := int(i/27) + 1
			var sb strings.Builder
			for k := 0; k < nd; k++ {
				switch pat {
				case 0:
					sb.WriteByte("1234567890"[k%10])
				case 1:
					sb.WriteByte('9')
				default:
					if k == 0 {
						sb.WriteByte('1')
					} else {
						sb.WriteByte('0')
					}
				}
			}
			for form := 0; form < 3; form++ {
				s := sb.String()
				point := "."
				switch form {
				case 1:
					s = withGroups(s, ",")
				case 2:
					s, point = withGroups(s, "."), ","
				}
				if dec > 0 {
					s += point + "098765432"[:dec-1]
				}
				for _, sign := range []string{"", "-", "+"} {
					s := sign + s
					state(t, s)
					amountInto(t, s, amtMain)
					if sign == "" {
						amountAt(t, s)
					}
					for k := 0; k < len(s); k++ {
						if s[k] != '.' && s[k] != ',' {
							continue
						}
						other := map[byte]string{'.': ",", ',': "."}[s[k]]
						for _, m := range []string{s[:k] + s[k+1:], s[:k] + s[k:k+1] + s[k:], s[:k] + other + s[k+1:], s[:k] + other + s[k:], s[:k] + " " + s[k+1:]} {
							amountInto(t, m, amtMain)
						}
						if k > 0 {
							amountInto(t, s[:k-1]+s[k:k+1]+s[k-1:k]+s[k+1:], amtMain)
						}
						if k+1 < len(s) {
							amountInto(t, s[:k]+s[k+1:k+2]+s[k:k+1]+s[k+2:], amtMain)
						}
					}
				}
			}
		}})
		fracs := withJumbo(sizeLadder(130), true, 255, 256, 400)
		suites = append(suites, Suite{Name: "decimals", Bound: "numbers of 1 to 16 digits with up to 400 decimals of 3 patterns in plain, US and European spelling with each sign", N: int64(len(fracs)) * 16, Run: func(t *T, i int64) {
			nd, n := int(i%16)+1, fracs[i/16]
			whole := "1234567890123456"[:nd]
			for _, pat := range []string{"1234567890", "0", "9"} {
				f := strings.Repeat(pat, n/len(pat)+1)[:n]
				for form := 0; form < 3; form++ {
					s := []string{whole + ".", withGroups(whole, ",") + ".", withGroups(whole, ".") + ","}[form] + f
					for _, sign := range []string{"", "-", "+"} {
						state(t, sign+s)
						amountInto(t, sign+s, amtMain)
					}
				}
			}
		}})
		ladder := intLadder()
		suites = append(suites, Suite{Name: "integers", Bound: fmt.Sprintf("%d integers at all powers of two and ten and their neighbours up to the limits of 64 bits (and the unsigned ones above), plain, US and European, into every numeric kind and position", len(ladder)+7), N: int64(len(ladder) + 7), Run: func(t *T, i int64) {
			var s string
			if i < int64(len(ladder)) {
				s = strconv.FormatInt(ladder[i], 10)
			} else {
				s = []string{"9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "10000000000000000000", "99999999999999999999"}[i-int64(len(ladder))]
			}
			sign := ""
			if s[0] == '-' {
				sign, s = "-", s[1:]
			}
			for _, x := range []string{s, withGroups(s, ","), withGroups(s, ".")} {
				for _, tail := range []string{"", ".", ",", ".0", ",0", ".5", ",5"} {
					state(t, sign+x+tail)
					amountInto(t, sign+x+tail, amtMain)
					amountInto(t, sign+x+tail, amtRest)
					amountAt(t, sign+x+tail)
				}
			}
		}})
		return suites
	}, Assume: []string{
		"Not required either way: a whole number written with decimals (1.0) or with a plus sign for an unsigned field, groups with a leading zero (0,123), ungrouped thousands with a decimal comma (1234,5): such texts are an error or read as that number, never as another.",
		"A number beyond the range of an 8-32-bit field is not specified.",
	}})
}

// amountNone checks that integers refuse a text.
func amountNone(t *T, s string) {
	for _, k := range amtMain[:2] {
		b := reflect.ValueOf(k)
		p := reflect.New(b.Type())
		p.Elem().Set(b)
		err := ju.NewString(s).Unmarshal(p.Interface())
		if err == nil || p.Elem().Interface() != k {
			t.Failf("text %q into %s: %v, error %v", s, b.Type(), p.Elem(), err)
		}
	}
}
