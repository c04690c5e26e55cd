package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	ju "yunion.io/x/jsonutils"
)

// Kind of a model value.
type Kind byte

const (
	KNull Kind = iota
	KBool
	KInt
	KFloat
	KStr
	KArr
	KDict
)

// V is the reference model of a document: a plain Go tree.
type V struct {
	K Kind
	B bool
	I int64
	F float64
	S string
	A []*V
	M map[string]*V
}

func vNull() *V           { return &V{K: KNull} }
func vBool(b bool) *V     { return &V{K: KBool, B: b} }
func vInt(i int64) *V     { return &V{K: KInt, I: i} }
func vFloat(f float64) *V { return &V{K: KFloat, F: f} }
func vStr(s string) *V    { return &V{K: KStr, S: s} }
func vArr(a ...*V) *V     { return &V{K: KArr, A: a} }
func vDict(kv ...interface{}) *V {
	v := &V{K: KDict, M: map[string]*V{}}
	for i := 0; i+1 < len(kv); i += 2 {
		v.M[kv[i].(string)] = kv[i+1].(*V)
	}
	return v
}

func (v *V) keys() []string {
	ks := make([]string, 0, len(v.M))
	for k := range v.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (v *V) clone() *V {
	c := *v
	if v.K == KArr {
		c.A = make([]*V, len(v.A))
		for i := range v.A {
			c.A[i] = v.A[i].clone()
		}
	}
	if v.K == KDict {
		c.M = map[string]*V{}
		for k, x := range v.M {
			c.M[k] = x.clone()
		}
	}
	return &c
}

func (v *V) size() int {
	n := 1
	for _, x := range v.A {
		n += x.size()
	}
	for _, x := range v.M {
		n += x.size()
	}
	return n
}

// obj builds the real document with the public constructors.
func (v *V) obj() ju.JSONObject {
	switch v.K {
	case KNull:
		return ju.JSONNull
	case KBool:
		return ju.NewBool(v.B)
	case KInt:
		return ju.NewInt(v.I)
	case KFloat:
		return ju.NewFloat64(v.F)
	case KStr:
		return ju.NewString(v.S)
	case KArr:
		a := ju.NewArray()
		for _, x := range v.A {
			a.Add(x.obj())
		}
		return a
	}
	d := ju.NewDict()
	for _, k := range v.keys() {
		d.Set(k, v.M[k].obj())
	}
	return d
}

func fmtFloat(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// text is the canonical compact JSON text of the model (its own encoder).
func (v *V) text() string {
	var sb strings.Builder
	v.write(&sb)
	return sb.String()
}

func (v *V) write(sb *strings.Builder) {
	switch v.K {
	case KNull:
		sb.WriteString("null")
	case KBool:
		sb.WriteString(strconv.FormatBool(v.B))
	case KInt:
		sb.WriteString(strconv.FormatInt(v.I, 10))
	case KFloat:
		sb.WriteString(fmtFloat(v.F))
	case KStr:
		sb.WriteString(stdQuote(v.S))
	case KArr:
		sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			x.write(sb)
		}
		sb.WriteByte(']')
	case KDict:
		sb.WriteByte('{')
		for i, k := range v.keys() {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(stdQuote(k))
			sb.WriteByte(':')
			v.M[k].write(sb)
		}
		sb.WriteByte('}')
	}
}

// stdQuote is a minimal RFC 8259 string encoder.
func stdQuote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case c < 0x20:
			fmt.Fprintf(&sb, "\\u%04X", c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// same compares a value read with the value expected; numbers compare by value whatever their kind.
func same(got, want *V) string { return sameAt(got, want, "$", false) }

// sameStrict also requires integer and float kinds to agree.
func sameStrict(got, want *V) string { return sameAt(got, want, "$", true) }

// numEq compares a number read (got) with the number expected (want). An
// expected integer must be matched exactly; an expected float may come back as
// the integer literal that denotes the same double.
func numEq(got, want *V) bool {
	switch {
	case got.K == KInt && want.K == KInt:
		return got.I == want.I
	case got.K == KFloat && want.K == KFloat:
		return got.F == want.F || (got.F != got.F && want.F != want.F)
	case got.K == KInt:
		return float64(got.I) == want.F
	}
	if got.F != math.Trunc(got.F) || math.Abs(got.F) > 1<<62 {
		return false
	}
	return int64(got.F) == want.I && math.Abs(got.F) <= 1<<53
}

func sameAt(a, b *V, path string, strict bool) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return path + ": one side is missing"
	}
	an, bn := a.K == KInt || a.K == KFloat, b.K == KInt || b.K == KFloat
	if an && bn && !(strict && a.K != b.K) {
		if numEq(a, b) {
			return ""
		}
		return fmt.Sprintf("%s: %s != %s", path, a.text(), b.text())
	}
	if a.K != b.K {
		return fmt.Sprintf("%s: %s != %s", path, brief(a.text()), brief(b.text()))
	}
	switch a.K {
	case KBool:
		if a.B != b.B {
			return fmt.Sprintf("%s: %v != %v", path, a.B, b.B)
		}
	case KStr:
		if a.S != b.S {
			return fmt.Sprintf("%s: %q != %q", path, brief(a.S), brief(b.S))
		}
	case KArr:
		if len(a.A) != len(b.A) {
			return fmt.Sprintf("%s: %d elements != %d elements: %s != %s", path, len(a.A), len(b.A), brief(a.text()), brief(b.text()))
		}
		for i := range a.A {
			if s := sameAt(a.A[i], b.A[i], fmt.Sprintf("%s[%d]", path, i), strict); s != "" {
				return s
			}
		}
	case KDict:
		for _, k := range a.keys() {
			if b.M[k] == nil {
				return fmt.Sprintf("%s: member %q only left", path, brief(k))
			}
			if s := sameAt(a.M[k], b.M[k], path+"."+brief(k), strict); s != "" {
				return s
			}
		}
		for _, k := range b.keys() {
			if a.M[k] == nil {
				return fmt.Sprintf("%s: member %q only right", path, brief(k))
			}
		}
	}
	return ""
}

func brief(s string) string {
	if len(s) > 160 {
		return s[:100] + "..." + s[len(s)-40:]
	}
	return s
}

// observe reads a real document back into a model through its accessors.
func observe(o ju.JSONObject) *V {
	switch x := o.(type) {
	case nil:
		return nil
	case *ju.JSONString:
		s, err := x.GetString()
		if err != nil {
			return vStr("!GetString:" + err.Error())
		}
		return vStr(s)
	case *ju.JSONInt:
		i, err := x.Int()
		if err != nil {
			return vStr("!Int:" + err.Error())
		}
		return vInt(i)
	case *ju.JSONFloat:
		f, err := x.Float()
		if err != nil {
			return vStr("!Float:" + err.Error())
		}
		return vFloat(f)
	case *ju.JSONBool:
		b, err := x.Bool()
		if err != nil {
			return vStr("!Bool:" + err.Error())
		}
		return vBool(b)
	case *ju.JSONArray:
		v := vArr()
		n := x.Length()
		l, err := x.GetArray()
		if err != nil || len(l) != n {
			return vStr(fmt.Sprintf("!GetArray: %d of %d, %v", len(l), n, err))
		}
		v.A = make([]*V, n)
		for i := range l {
			v.A[i] = observe(l[i])
		}
		return v
	case *ju.JSONDict:
		v := vDict()
		m, err := x.GetMap()
		if err != nil || len(m) != x.Length() {
			return vStr(fmt.Sprintf("!GetMap: %d of %d, %v", len(m), x.Length(), err))
		}
		for k, e := range m {
			v.M[k] = observe(e)
		}
		return v
	}
	if o == ju.JSONObject(ju.JSONNull) {
		return vNull()
	}
	if o.String() == "null" {
		return vNull()
	}
	return vStr("!" + o.String())
}

// fromIface turns a plain Go value (as exported by Interface) into a model.
func fromIface(x interface{}) *V {
	switch t := x.(type) {
	case nil:
		return vNull()
	case bool:
		return vBool(t)
	case int64:
		return vInt(t)
	case float64:
		return vFloat(t)
	case string:
		return vStr(t)
	case json.Number:
		return numModel(string(t))
	case []interface{}:
		v := vArr()
		v.A = make([]*V, len(t))
		for i := range t {
			v.A[i] = fromIface(t[i])
		}
		return v
	case map[string]interface{}:
		v := vDict()
		for k := range t {
			v.M[k] = fromIface(t[k])
		}
		return v
	}
	return vStr(fmt.Sprintf("!%T", x))
}

// numModel is the value of a JSON number literal.
func numModel(s string) *V {
	if !strings.ContainsAny(s, ".eE") {
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return vInt(i)
		}
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return vStr("!number " + s)
	}
	return vFloat(f)
}

// stdDecode decodes one standard JSON text with encoding/json.
func stdDecode(text string) (*V, error) {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var x interface{}
	if err := dec.Decode(&x); err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return fromIface(x), nil
}

// stripSpace removes white space outside of strings of a valid JSON text.
func stripSpace(s string) string {
	var b bytes.Buffer
	in := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in {
			b.WriteByte(c)
			if c == '\\' && i+1 < len(s) {
				i++
				b.WriteByte(s[i])
			} else if c == '"' {
				in = false
			}
			continue
		}
		switch c {
		case ' ', '\t', '\n', '\r':
		case '"':
			in = true
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// ---- enumerations ----

// decode writes i in the given mixed radix.
func radix(i int64, base int64, n int) []int {
	d := make([]int, n)
	for k := n - 1; k >= 0; k-- {
		d[k] = int(i % base)
		i /= base
	}
	return d
}

func ipow(b int64, n int) int64 {
	r := int64(1)
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

// stringsUpTo is the number of words of length 0..n over an alphabet of size k.
func wordsUpTo(k int64, n int) int64 {
	t := int64(0)
	for l := 0; l <= n; l++ {
		t += ipow(k, l)
	}
	return t
}

// word returns the i-th word (shorter words first).
func word(i, k int64) []int {
	for l := 0; ; l++ {
		c := ipow(k, l)
		if i < c {
			return radix(i, k, l)
		}
		i -= c
	}
}

// trees enumerates all documents of exactly n nodes with the given leaves
// (besides the empty containers) and member names; memoised.
type treeGen struct {
	leaves []*V
	keys   []string
	memo   map[int][]*V
}

func newTreeGen(leaves []*V, keys []string) *treeGen {
	return &treeGen{leaves: leaves, keys: keys, memo: map[int][]*V{}}
}

func (g *treeGen) exactly(n int) []*V {
	if r, ok := g.memo[n]; ok {
		return r
	}
	var r []*V
	if n == 1 {
		r = append(r, g.leaves...)
		r = append(r, vArr(), vDict())
	} else {
		for _, l := range g.forests(n - 1) {
			r = append(r, vArr(l...))
		}
		r = append(r, g.dicts(n-1, 0, nil)...)
	}
	g.memo[n] = r
	return r
}

func (g *treeGen) forests(n int) [][]*V {
	if n == 0 {
		return [][]*V{nil}
	}
	var r [][]*V
	for first := 1; first <= n; first++ {
		rest := g.forests(n - first)
		for _, f := range g.exactly(first) {
			for _, x := range rest {
				r = append(r, append([]*V{f}, x...))
			}
		}
	}
	return r
}

func (g *treeGen) dicts(n, from int, acc []interface{}) []*V {
	var r []*V
	if n == 0 {
		return []*V{vDict(acc...)}
	}
	for ki := from; ki < len(g.keys); ki++ {
		for first := 1; first <= n; first++ {
			for _, f := range g.exactly(first) {
				r = append(r, g.dicts(n-first, ki+1, append(append([]interface{}{}, acc...), g.keys[ki], f))...)
			}
		}
	}
	return r
}

func (g *treeGen) upTo(n int) []*V {
	var r []*V
	for i := 1; i <= n; i++ {
		r = append(r, g.exactly(i)...)
	}
	return r
}

// ladder documents: one dimension large at a time, around the usual thresholds.
func sizeLadder(max int) []int {
	set := map[int]bool{}
	for i := 0; i <= 70; i++ {
		set[i] = true
	}
	for p := 64; p <= max; p *= 2 {
		for d := -2; d <= 2; d++ {
			set[p+d] = true
		}
	}
	for p := 100; p <= max; p *= 10 {
		for d := -1; d <= 1; d++ {
			set[p+d] = true
		}
	}
	var r []int
	for i := range set {
		if i <= max {
			r = append(r, i)
		}
	}
	sort.Ints(r)
	return r
}

func keyName(i int) string { return "k" + strconv.Itoa(i) }

// withJumbo adds a few sizes far beyond the ladder.
func withJumbo(l []int, yes bool, sizes ...int) []int {
	for _, n := range sizes {
		if yes && (len(l) == 0 || n > l[len(l)-1]) {
			l = append(l, n)
		}
	}
	return l
}

func ladderDocs(maxStr, maxArr, maxDepth int) []*V {
	var r []*V
	for _, n := range withJumbo(sizeLadder(maxStr), maxStr >= 1000, 16385, 65537) {
		r = append(r, vStr(strings.Repeat("x", n)), vArr(vStr(strings.Repeat("ab\"", n/3+1))), vDict(strings.Repeat("k", n), vInt(int64(n))))
		r = append(r, vDict("s", vStr(strings.Repeat("é", n/2)+"\n")))
	}
	for _, n := range withJumbo(sizeLadder(maxArr), maxStr >= 1000, 4097, 10001) {
		a, d, dd, ad := vArr(), vDict(), vDict(), vArr()
		for i := 0; i < n; i++ {
			a.A = append(a.A, vInt(int64(i)))
			d.M[keyName(i)] = vInt(int64(i))
			dd.M[fmt.Sprintf("%05d", (i*7919)%100003)] = vArr(vInt(int64(i)))
			ad.A = append(ad.A, vDict("i", vInt(int64(i)), "s", vStr(keyName(i))))
		}
		r = append(r, a, d, dd, ad, vDict("a", a, "d", d, "z", vArr(d, a)))
	}
	for _, n := range sizeLadder(maxDepth) {
		a, d, m := vInt(1), vInt(1), vInt(1)
		for i := 0; i < n; i++ {
			a = vArr(a)
			d = vDict("k", d)
			if i%2 == 0 {
				m = vDict("a", vNull(), "m", m, "z", vStr("x"))
			} else {
				m = vArr(vInt(1), m, vBool(true))
			}
		}
		r = append(r, a, d, m)
	}
	return r
}

// interesting characters for string content
var hotRunes = []rune{'"', '\\', '/', '\'', 0, 1, 7, '\b', '\t', '\n', 0x0b, '\f', '\r', 0x1b, 0x1f, ' ', '0', 'a', 'u', 'x', 'n', '{', '}', '[', ']', ':', ',', '<', '>', '&', '%', '=', '+', '#', ';', '-', '.', 0x7f, 0x80, 0x85, 0xa0, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}

// hotStrings: all words up to length n over hot runes (n<=2) plus words that other syntaxes treat specially.
func hotStrings(n int) []string {
	var r []string
	k := int64(len(hotRunes))
	for i := int64(0); i < wordsUpTo(k, n); i++ {
		w := word(i, k)
		var sb strings.Builder
		for _, d := range w {
			sb.WriteRune(hotRunes[d])
		}
		r = append(r, sb.String())
	}
	r = append(r, specialWords...)
	return r
}

var specialWords = []string{"null", "NULL", "Null", "none", "None", "true", "True", "TRUE", "false", "False", "yes", "Yes", "no", "No", "NO", "on", "off", "y", "n", "~", "-", "1", "-1", "+1", "0", "00", "01", "1.0", "1e3", "1E3", "0x10", "0o7", "1_000", "1,000", ".5", "5.", "nan", "NaN", ".nan", ".inf", "Infinity", "inf", "<1>", "<0>", "<>", "2006-01-02", "2006-01-02T15:04:05Z", "2006-01-02 15:04:05", "12:30", "1:20:30", "[]", "{}", "[1]", "{a: b}", "- a", "a: b", "a #b", "# c", "&a", "*a", "!a", "|", ">", "? a", "%a", "@a", "`a", "---", "...", "=", " a", "a ", "  ", "a\nb", "a\n", "\na", "a\n\nb", "a\tb", "\t", "a\r\nb", "\u2028", "x: y\n- z", "'a'", "\"a\"", "a'b", "a\"b", "\\", "\\\\", "\\n", "\\u0041", "\\x41", "/", "//", "</script>", "a=b&c=d", "a+b", "a%20b", "%", "ключ", "键", "😀", "é", "e\u0301", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "123456789012345678901234567890", "a.b", "a.0", ".", "..", "a b", "a,b", "a:b", "___jnid", "jnid_", "__proto__", "id", "$ref"}

func intLadder() []int64 {
	set := map[int64]bool{0: true, math.MaxInt64: true, math.MinInt64: true}
	for k := uint(0); k < 63; k++ {
		for d := int64(-2); d <= 2; d++ {
			set[int64(1)<<k+d] = true
			set[-(int64(1)<<k)+d] = true
		}
	}
	p := int64(1)
	for k := 0; k < 19; k++ {
		for d := int64(-1); d <= 1; d++ {
			set[p+d] = true
			set[-p+d] = true
		}
		if k < 18 {
			p *= 10
		}
	}
	for i := int64(-300); i <= 300; i++ {
		set[i] = true
	}
	var r []int64
	for i := range set {
		r = append(r, i)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// floatLadder: every binary exponent with a few mantissas, both signs, and
// short decimals at every decimal exponent.
func floatLadder(full bool) []float64 {
	var r []float64
	mant := []uint64{0, 1, 2, 1 << 51, 1<<52 - 1, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x999999999999a}
	for e := uint64(0); e < 2047; e++ {
		for _, m := range mant {
			f := math.Float64frombits(e<<52 | m)
			r = append(r, f, -f)
		}
	}
	step := 7
	if full {
		step = 1
	}
	for e := -330; e <= 308; e++ {
		for d := 1; d < 100; d += step {
			f, err := strconv.ParseFloat(fmt.Sprintf("%de%d", d, e), 64)
			if err == nil {
				r = append(r, f)
			}
		}
	}
	for i := -2000; i <= 2000; i++ {
		r = append(r, float64(i)/8, float64(i)/100, float64(i)/1000)
	}
	return r
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
