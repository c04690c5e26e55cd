package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// keysSortedOnce walks a standard JSON text and checks that the member names of
// every object come in strictly increasing order.
func keysSortedOnce(text string) string {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	type frame struct {
		dict, key bool
		last      string
		n         int
	}
	var st []frame
	for {
		tok, err := dec.Token()
		if err != nil {
			return ""
		}
		if d, ok := tok.(json.Delim); ok && (d == '}' || d == ']') {
			st = st[:len(st)-1]
			if len(st) > 0 && st[len(st)-1].dict {
				st[len(st)-1].key = true
			}
			continue
		}
		if len(st) > 0 {
			f := &st[len(st)-1]
			if f.dict {
				if f.key {
					k := tok.(string)
					if f.n > 0 && k <= f.last {
						return fmt.Sprintf("member %q after %q", brief(k), brief(f.last))
					}
					f.n++
					f.last, f.key = k, false
					continue
				}
				f.key = true
			}
		}
		if d, ok := tok.(json.Delim); ok {
			if len(st) > 0 && st[len(st)-1].dict {
				st[len(st)-1].key = false
			}
			st = append(st, frame{dict: d == '{', key: d == '{'})
		}
	}
}

func hasNegZero(v *V) bool {
	if v.K == KFloat {
		return v.F == 0 && math.Signbit(v.F)
	}
	for _, x := range v.A {
		if hasNegZero(x) {
			return true
		}
	}
	for _, x := range v.M {
		if hasNegZero(x) {
			return true
		}
	}
	return false
}

func hasIntegralFloat(v *V) bool {
	if v.K == KFloat {
		return v.F == math.Trunc(v.F)
	}
	for _, x := range v.A {
		if hasIntegralFloat(x) {
			return true
		}
	}
	for _, x := range v.M {
		if hasIntegralFloat(x) {
			return true
		}
	}
	return false
}

// lossless is the C03 oracle for one document.
func lossless(t *T, what string, o ju.JSONObject, d *V, deep bool) {
	t.Try(func() string { return "printing " + what }, func() {
		s := o.String()
		t.Op(1)
		got, err := stdDecode(s)
		if err != nil {
			t.Failf("%s prints %q, not valid JSON: %v", what, brief(s), err)
			return
		}
		if x := same(got, d); x != "" {
			t.Failf("%s prints %q: a standard decoder reads another value: %s", what, brief(s), x)
			return
		}
		if x := keysSortedOnce(s); x != "" {
			t.Failf("%s prints %q: %s", what, brief(s), x)
			return
		}
		p, err := ju.ParseString(s)
		t.Op(1)
		if err != nil {
			t.Failf("%s prints %q, which does not parse: %v", what, brief(s), err)
			return
		}
		if x := same(observe(p), d); x != "" {
			t.Failf("%s prints %q, which parses to another value: %s", what, brief(s), x)
			return
		}
		if s2 := p.String(); s2 != s && !hasNegZero(d) {
			t.Failf("%s prints %q, which parses and prints as %q", what, brief(s), brief(s2))
			return
		}
		if deep {
			if !hasIntegralFloat(d) && (!p.Equals(o) || !o.Equals(p)) {
				t.Failf("%s prints %q, which parses to a document that is not equal", what, brief(s))
			}
			if x := same(fromIface(o.Interface()), d); x != "" {
				t.Failf("%s: exported plain value: %s", what, x)
			}
			if s2 := o.String(); s2 != s {
				t.Failf("%s prints %q the second time, %q the first", what, brief(s2), brief(s))
			}
			t.Op(4)
		}
		if len(s) < 400 {
			t.State(s)
		} else {
			t.State(what)
		}
		t.Outcome(fmt.Sprintf("kind %d", d.K))
	})
}

// indented tells what is wrong with the indentation of a pretty text: each
// entry starts a line, the entries of a container line up deeper than its
// brackets, and its brackets line up.
func indented(p string) string {
	type box struct{ at, entry int }
	var stack []box
	named := -1
	for n, l := range strings.Split(p, "\n") {
		c := strings.TrimLeft(l, " ")
		in := len(l) - len(c)
		if c == "" {
			return fmt.Sprintf("line %d is empty", n)
		}
		top := len(stack) - 1
		switch {
		case c[0] == ']' || c[0] == '}':
			if top < 0 || stack[top].at != in {
				return fmt.Sprintf("line %d: the closing bracket is not below the opening one", n)
			}
			stack = stack[:top]
		case named >= 0:
			if in <= named {
				return fmt.Sprintf("line %d: a value is not indented deeper than its name", n)
			}
			named = -1
		case top >= 0:
			if stack[top].entry < 0 {
				stack[top].entry = in
			}
			if in != stack[top].entry || in <= stack[top].at {
				return fmt.Sprintf("line %d: an entry is not indented as its neighbours, deeper than the brackets", n)
			}
		case n > 0 || in > 0:
			return fmt.Sprintf("line %d: indented or outside of brackets", n)
		}
		quoted := false
		for i := 0; i < len(c)-1; i++ {
			switch {
			case c[i] == '"':
				quoted = !quoted
			case quoted && c[i] == '\\':
				i++
			case !quoted && c[i] == ',':
				return fmt.Sprintf("line %d holds two entries", n)
			}
		}
		switch c[len(c)-1] {
		case '[', '{':
			stack = append(stack, box{in, -1})
		case ':':
			named = in
		}
	}
	return ""
}

// pretty is the C04 oracle.
func pretty(t *T, what string, o ju.JSONObject, d *V) {
	t.Try(func() string { return "pretty-printing " + what }, func() {
		s, p := o.String(), o.PrettyString()
		t.Op(2)
		if x := stripSpace(p); x != stripSpace(s) || stripSpace(s) != s {
			t.Failf("%s: pretty text %q without white space is %q, compact text %q", what, brief(p), brief(x), brief(s))
			return
		}
		if x := indented(p); x != "" {
			t.Failf("%s: pretty text %q: %s", what, brief(p), x)
			return
		}
		got, err := stdDecode(p)
		if err != nil {
			t.Failf("%s: pretty text %q is not valid JSON: %v", what, brief(p), err)
			return
		}
		if x := same(got, d); x != "" {
			t.Failf("%s: pretty text %q: a standard decoder reads another value: %s", what, brief(p), x)
			return
		}
		pp, err := ju.ParseString(p)
		t.Op(1)
		if err != nil {
			t.Failf("%s: pretty text %q does not parse: %v", what, brief(p), err)
		} else if pp.String() != s && !hasNegZero(d) {
			t.Failf("%s: pretty text %q parses and prints as %q", what, brief(p), brief(pp.String()))
		}
		if len(p) < 400 {
			t.State(p)
		} else {
			t.State(what)
		}
		t.Outcome(fmt.Sprintf("kind %d", d.K))
	})
}

var printLeaves = []*V{vNull(), vBool(true), vBool(false), vInt(0), vInt(-7), vFloat(0.5), vStr(""), vStr("a"), vStr("\"\\\n\x01 }],:"), vStr("null"), vFloat(1e300), vFloat(2)}

func strContexts(s string) []*V {
	return []*V{vStr(s), vArr(vStr(s), vStr(s+"a")), vDict(s, vInt(1), "z"+s, vStr(s)), vArr(vDict("k", vArr(vStr("a"+s+"b"))))}
}

// printSuites feeds every document of the C03/C04 space to f.
func printSuites(quick bool, f func(t *T, what string, o ju.JSONObject, d *V)) []Suite {
	var suites []Suite
	doc := func(t *T, d *V) { f(t, brief(d.text()), d.obj(), d) }
	n, keys := 5, []string{"a", "b\"", ""}
	lv := printLeaves
	if quick {
		lv = printLeaves[:9]
	}
	docs := newTreeGen(lv, keys).upTo(n)
	suites = append(suites, Suite{Name: "structure", Bound: fmt.Sprintf("all documents of up to %d nodes over %d scalars and %d names", n, len(lv), len(keys)), N: int64(len(docs)), Run: func(t *T, i int64) {
		doc(t, docs[i])
		t.Sample(func() string { return docs[i].text() })
	}})
	sn := 6
	if !quick {
		sn = 7
	}
	shapes := newTreeGen([]*V{vInt(1), vStr("x")}, []string{"a", "b"}).upTo(sn)
	suites = append(suites, Suite{Name: "shapes", Bound: fmt.Sprintf("all documents of up to %d nodes over 2 scalars and 2 names", sn), N: int64(len(shapes)), Run: func(t *T, i int64) { doc(t, shapes[i]) }})
	suites = append(suites, Suite{Name: "code-points", Bound: "every Unicode scalar value as text, element, name and between other characters", N: 0x110000 / 32, Run: func(t *T, i int64) {
		for c := i * 32; c < i*32+32; c++ {
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			s := string(rune(c))
			if c < 0x30000 || !quick {
				for _, d := range strContexts(s) {
					doc(t, d)
				}
			} else {
				doc(t, vArr(vStr(s), vDict("a"+s, vStr("b"+s+"c"))))
			}
		}
	}})
	hn := 3
	hot := hotStrings(hn)
	suites = append(suites, Suite{Name: "hot-strings", Bound: fmt.Sprintf("all strings of up to %d of %d characters that mean something to JSON, YAML, HTML or URLs, and %d special words, in 4 positions", hn, len(hotRunes), len(specialWords)), N: int64(len(hot)), Run: func(t *T, i int64) {
		for _, d := range strContexts(hot[i]) {
			doc(t, d)
		}
	}})
	ints := intLadder()
	suites = append(suites, Suite{Name: "ints", Bound: "powers of 2 and 10 +-2, -300..300, extremes", N: int64(len(ints)), Run: func(t *T, i int64) {
		doc(t, vInt(ints[i]))
		doc(t, vArr(vInt(ints[i]), vDict("i", vInt(ints[i]))))
	}})
	small := int64(2000000)
	if !quick {
		small = 20000000
	}
	suites = append(suites, Suite{Name: "all-small-ints", Bound: fmt.Sprintf("every integer within +-%d", small), N: small / 100, Run: func(t *T, i int64) {
		for k := i * 100; k < i*100+100; k++ {
			f(t, "int", ju.NewArray(ju.NewInt(k), ju.NewInt(-k)), vArr(vInt(k), vInt(-k)))
		}
	}})
	floats := floatLadder(true)
	suites = append(suites, Suite{Name: "floats", Bound: "every binary exponent x 8 mantissas x sign, decimals at every exponent", N: int64(len(floats)), Run: func(t *T, i int64) {
		doc(t, vFloat(floats[i]))
		doc(t, vDict("f", vArr(vFloat(floats[i]))))
	}})
	bits := uint(23)
	if !quick {
		bits = 28
	}
	suites = append(suites, Suite{Name: "float32", Bound: fmt.Sprintf("every float32 whose low %d mantissa bits are zero, as a 32-bit number", 32-bits), N: int64(1) << (bits - 8), Run: func(t *T, i int64) {
		for k := int64(0); k < 256; k++ {
			g := math.Float32frombits(uint32(i*256+k) << (32 - bits))
			if g != g || math.IsInf(float64(g), 0) || uint32(i*256+k)<<(32-bits) == 1<<31 {
				continue
			}
			// a 32-bit number prints as the shortest text that denotes it
			w, _ := strconv.ParseFloat(strconv.FormatFloat(float64(g), 'g', -1, 32), 64)
			if float32(w) != g {
				continue
			}
			t.Try(func() string { return fmt.Sprint("float32 ", g) }, func() {
				o := ju.NewFloat32(g)
				s := o.String()
				t.Op(1)
				p, err := strconv.ParseFloat(s, 32)
				p64, _ := strconv.ParseFloat(s, 64)
				if err != nil || float32(p) != g || p64 != w || !isJSONNumber(s) {
					t.Failf("float32 %g prints %q", g, s)
					return
				}
				x, err := ju.ParseString("[" + s + "]")
				if err != nil || x.String() != "["+s+"]" {
					t.Failf("float32 %g prints %q, which parses to %v, %v", g, s, x, err)
				}
				if k == 0 {
					t.State(s)
					f(t, "float32 in a list "+s, ju.NewArray(o), vArr(numModel(s)))
				}
			})
		}
	}})
	perm := permutations(6)
	names := []string{"a", "b", "B", "", "a\"", "é"}
	suites = append(suites, Suite{Name: "insertion-order", Bound: "all insertion orders of 6 names, each set twice", N: int64(len(perm)), Run: func(t *T, i int64) {
		d, m := ju.NewDict(), vDict()
		for r := 0; r < 2; r++ {
			for p, k := range perm[i] {
				d.Set(names[k], ju.NewInt(int64(p+r)))
				m.M[names[k]] = vInt(int64(p + r))
			}
		}
		f(t, fmt.Sprint("insertion order ", perm[i]), d, m)
	}})
	ms, ma, md := 4100, 520, 600
	if !quick {
		ms, ma, md = 66000, 10100, 1010
	}
	lad := ladderDocs(ms, ma, md)
	suites = append(suites, Suite{Name: "ladders", Bound: fmt.Sprintf("string, name, array, object sizes and depths up to %d/%d/%d around powers of 2 and 10", ms, ma, md), N: int64(len(lad)), Run: func(t *T, i int64) {
		f(t, "large "+brief(lad[i].text()), lad[i].obj(), lad[i])
	}})
	suites = append(suites, Suite{Name: "escape-position", Bound: "each special character at every position of a string of up to 140 characters", N: 140, Run: func(t *T, i int64) {
		for _, e := range []string{"\"", "\\", "\n", "\x01", "\x1f", "\x7f", "é", "😀", "\u2028", "'", "/", "<"} {
			for _, tail := range []int{0, 1, 9} {
				s := strings.Repeat("x", int(i)) + e + strings.Repeat("y", tail)
				doc(t, vArr(vStr(s), vDict(s, vStr(s+s))))
			}
		}
	}})
	return suites
}

func init() {
	register(&Check{ID: "C03", Suites: func(quick bool) []Suite {
		return printSuites(quick, func(t *T, what string, o ju.JSONObject, d *V) {
			lossless(t, what, o, d, !strings.HasPrefix(what, "float32"))
		})
	}})
	register(&Check{ID: "C04", Suites: func(quick bool) []Suite {
		return printSuites(quick, pretty)
	}})
}

// ---- C05 ----

func rejected(t *T, text, why string) {
	t.Try(func() string { return fmt.Sprintf("Parse(%q)", brief(text)) }, func() {
		v, err := ju.ParseString(text)
		t.Op(1)
		if err == nil {
			t.Failf("Parse(%q) (%s) gives %s", brief(text), why, brief(v.String()))
		}
		t.Outcome(why)
	})
}

// relaxed prints a document in one of several uniform spellings.
func restyle(d *V, style int) string {
	var sb strings.Builder
	word := func(s string) string {
		if style == 2 && bareWord(s) {
			return s
		}
		if style == 1 || style == 2 {
			return "'" + strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "'", "\\'"), "\n", "\\n") + "'"
		}
		return stdQuote(s)
	}
	sp := ""
	if style == 3 {
		sp = " "
	}
	if style == 4 {
		sp = "\n\t"
	}
	var w func(v *V)
	w = func(v *V) {
		switch v.K {
		case KArr:
			sb.WriteString("[" + sp)
			for i, x := range v.A {
				if i > 0 {
					sb.WriteString("," + sp)
				}
				w(x)
				sb.WriteString(sp)
			}
			sb.WriteString("]")
		case KDict:
			sb.WriteString("{" + sp)
			for i, k := range v.keys() {
				if i > 0 {
					sb.WriteString("," + sp)
				}
				sb.WriteString(word(k) + sp + ":" + sp)
				w(v.M[k])
				sb.WriteString(sp)
			}
			sb.WriteString("}")
		case KStr:
			sb.WriteString(word(v.S))
		default:
			v.write(&sb)
		}
	}
	w(d)
	return sb.String()
}

func bareWord(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || i > 0 && (c >= '0' && c <= '9' || c == '-' || c == '.' || c == '_')) {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "null", "none", "true", "false", "yes", "no", "nan", "inf", "infinity":
		return false
	}
	return true
}

// tok is one token of a text: the offset and kind (open, close, comma, colon, other).
type tok struct {
	kind     byte
	from, to int
}

func tokens(s string) []tok {
	var r []tok
	for i := 0; i < len(s); {
		c := s[i]
		switch c {
		case ' ', '\n', '\t', '\r':
			i++
		case '{', '}', '[', ']', ',', ':':
			r = append(r, tok{c, i, i + 1})
			i++
		case '"', '\'':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r = append(r, tok{'"', i, j + 1})
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("{}[],: \n\t\r", rune(s[j])) {
				j++
			}
			r = append(r, tok{'w', i, j})
			i = j
		}
	}
	return r
}

func malformed(t *T, s string, cuts bool) {
	if cuts {
		for p := 1; p < len(s); p++ {
			rejected(t, s[:p], "cut")
		}
		for _, w := range []string{" ", "\n", "\t \r\n"} {
			for p := 1; p < len(s); p++ {
				rejected(t, s[:p]+w, "cut with white space behind")
			}
		}
		for p := 1; p < len(s); p++ {
			t.Try(func() string { return fmt.Sprintf("ParseStream(%q,3)", brief("[] "+s[:p])) }, func() {
				v, _, err := ju.ParseStream([]byte("[] "+s[:p]), 3)
				t.Op(1)
				if err == nil {
					t.Failf("ParseStream(%q,3) (cut) gives %s", brief("[] "+s[:p]), brief(v.String()))
				}
			})
		}
	}
	tk := tokens(s)
	for i, k := range tk {
		switch k.kind {
		case '}':
			rejected(t, s[:k.from]+"]"+s[k.to:], "wrong bracket")
			rejected(t, s[:k.from]+" {"+s[k.to:], "open for close")
			if i < len(tk)-1 {
				rejected(t, s[:k.from]+s[k.to:], "bracket removed")
			}
		case ']':
			rejected(t, s[:k.from]+"}"+s[k.to:], "wrong bracket")
			rejected(t, s[:k.from]+" ["+s[k.to:], "open for close")
			if i < len(tk)-1 {
				rejected(t, s[:k.from]+s[k.to:], "bracket removed")
			}
		case ':':
			rejected(t, s[:k.from]+" "+s[k.to:], "no colon")
			rejected(t, s[:k.from]+","+s[k.to:], "comma for colon")
			if tk[i-1].kind == '"' {
				rejected(t, s[:k.from]+s[k.to:], "no colon")
			}
		case ',':
			rejected(t, s[:k.from]+" "+s[k.to:], "no comma")
			rejected(t, s[:k.from]+":"+s[k.to:], "colon for comma")
			if p := tk[i-1].kind; p == '"' || p == '}' || p == ']' {
				rejected(t, s[:k.from]+s[k.to:], "no comma")
			}
		}
	}
	t.State(s)
}

func isContainer(v *V) bool { return v.K == KArr || v.K == KDict }

func containersOnly(in []*V) []*V {
	var r []*V
	for _, v := range in {
		if isContainer(v) {
			r = append(r, v)
		}
	}
	return r
}

func init() {
	register(&Check{ID: "C05", Suites: func(quick bool) []Suite {
		n := 4
		if !quick {
			n = 5
		}
		leaves := []*V{vNull(), vInt(12), vFloat(-2.5e-7), vStr(""), vStr("a"), vStr("é\"\\"), vStr("}]"), vStr("[{,:"), vBool(false)}
		if !quick {
			leaves = leaves[:7]
		}
		docs := containersOnly(newTreeGen(leaves, []string{"a", "}", "b\"é"}).upTo(n))
		sn := 5
		if !quick {
			sn = 7
		}
		shapes := containersOnly(newTreeGen([]*V{vInt(1)}, []string{"a", "b"}).upTo(sn))
		var suites []Suite
		run := func(docs []*V, styles int) func(t *T, i int64) {
			return func(t *T, i int64) {
				for st := 0; st < styles; st++ {
					s := restyle(docs[i], st)
					t.Sample(func() string { return s })
					// the document itself is accepted: otherwise the cuts say nothing
					if v, err := ju.ParseString(s); err != nil {
						t.Failf("Parse(%q) fails: %v", brief(s), err)
					} else if x := same(observe(v), docs[i]); x != "" {
						t.Failf("Parse(%q): %s", brief(s), x)
					}
					malformed(t, s, true)
				}
			}
		}
		suites = append(suites, Suite{Name: "documents", Bound: fmt.Sprintf("every cut, bracket swap, separator removal of all containers of up to %d nodes over %d scalars and 3 names, in 5 spellings", n, len(leaves)), N: int64(len(docs)), Run: run(docs, 5)})
		suites = append(suites, Suite{Name: "shapes", Bound: fmt.Sprintf("the same of all containers of up to %d nodes over 1 scalar and 2 names, in 2 spellings", sn), N: int64(len(shapes)), Run: run(shapes, 2)})
		lad := containersOnly(ladderDocs(300, 70, 130))
		var ladders []*V
		for _, d := range lad {
			if len(d.text()) < 3000 {
				ladders = append(ladders, d)
			}
		}
		suites = append(suites, Suite{Name: "ladders", Bound: "the same of strings, names, arrays, objects and nestings of growing size", N: int64(len(ladders)), Run: run(ladders, 1)})
		// deep nesting cut anywhere
		deep := []int{100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 9999}
		suites = append(suites, Suite{Name: "deep-cuts", Bound: "cuts around the middle and end of nestings up to 9999 deep", N: int64(len(deep)) * 3, Run: func(t *T, i int64) {
			n := deep[i/3]
			o := [][2]string{{"[", "]"}, {"{\"a\":", "}"}, {"[{\"a\":1,\"b\":", "}]"}}[i%3]
			if i%3 == 2 {
				n /= 2
			}
			s := strings.Repeat(o[0], n) + "1" + strings.Repeat(o[1], n)
			mid := len(o[0]) * n
			for _, p := range []int{1, 2, 3, mid - 2, mid - 1, mid, mid + 1, mid + 2, mid + 3, len(s) - 3, len(s) - 2, len(s) - 1} {
				rejected(t, s[:p], "cut")
			}
			if _, err := ju.ParseString(s); err != nil {
				t.Failf("Parse(%q) fails: %v", brief(s), err)
			}
			t.State(fmt.Sprint("deep", n, i%3))
		}})
		// escapes cut in the middle
		atoms := []string{"a", "\\\"", "\\\\", "\\n", "\\u00e9", "\\ud83d\\ude00", "\\x41", "é", "]", "}"}
		nn := 3
		if !quick {
			nn = 4
		}
		suites = append(suites, wordSuite("escape-cuts", "strings over escapes, cut everywhere inside a container", atoms, nn, func(t *T, w string) {
			for _, f := range []string{"[\"%s\"]", "{\"%s\":'%s'}", "[1,{\"a\":\"%s\"}]"} {
				s := strings.ReplaceAll(f, "%s", w)
				if strings.Contains(f, "'") && strings.Contains(w, "'") {
					continue
				}
				for p := 1; p < len(s); p++ {
					rejected(t, s[:p], "cut")
				}
			}
			t.State(w)
		}))
		suites = append(suites, Suite{Name: "escapes", Bound: "every byte that is no hex digit, and every pair of 24 of them and hex digits, at each place of a \\u or \\x escape, alone, behind text and behind a high surrogate, as element, member value and name in both quotes", N: 256, Run: func(t *T, i int64) {
			hex := func(c byte) bool { return strings.IndexByte("0123456789abcdefABCDEF", c) >= 0 }
			some := []byte("09afAFgG@`/: \\\"'xu+-._\x00\x80\n")
			bad := func(esc string) {
				for _, f := range []string{"[\"%\"]", "['%']", "{\"a\":\"x%y\"}", "{\"%\":1}", "[1,{'k%':[\"\"]}]", "[\"\\ud83d%\"]"} {
					rejected(t, strings.Replace(f, "%", esc, 1), "broken escape")
				}
			}
			c := byte(i)
			for n, head := range map[int]string{4: "\\u", 2: "\\x"} {
				for p := 0; p < n; p++ {
					for _, base := range []string{"0041", "e9ab", "FFFF"} {
						b := []byte(base[:n])
						b[p] = c
						if !hex(c) {
							bad(head + string(b))
						}
						for q := p + 1; q < n; q++ {
							for _, d := range some {
								b2 := append([]byte{}, b...)
								b2[q] = d
								if !hex(c) || !hex(d) {
									bad(head + string(b2))
								}
							}
						}
					}
				}
			}
			t.State(fmt.Sprint("escape", i))
		}})
		return suites
	}, Assume: []string{"Bare words may hold any character but white space, comma, colon and close brackets, so 'no comma' is only claimed where white space replaces it or the element before is quoted or closed by a bracket."}})
}

// ---- C06 ----

func caseVariants(w string) []string {
	var r []string
	for m := 0; m < 1<<len(w); m++ {
		b := []byte(w)
		for i := range b {
			if m>>i&1 == 1 {
				b[i] -= 32
			}
		}
		r = append(r, string(b))
	}
	return r
}

func hexAll(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&sb, "\\x%02x", s[i])
	}
	return sb.String()
}

func escFor(s string, q byte) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == q || c == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case c < 0x20:
			fmt.Fprintf(&sb, "\\x%02X", c)
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

func spellString(s string) []string {
	r := []string{stdQuote(s), "'" + escFor(s, '\'') + "'", "\"" + hexAll(s) + "\""}
	if bareWord(s) {
		r = append(r, s)
	}
	return r
}

func spellName(s string) []string {
	r := []string{stdQuote(s), "'" + escFor(s, '\'') + "'"}
	ok := s != ""
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(" \t\r\n:,}]{['\"\\", s[i]) >= 0 {
			ok = false
		}
	}
	if ok {
		r = append(r, s)
	} else {
		r = append(r, "'"+hexAll(s)+"'")
	}
	return r
}

// spellings lists every relaxed text of a document (as combinations of token spellings).
func spellings(v *V, inArray, few bool, out func(string)) {
	switch v.K {
	case KNull:
		l := []string{"null", "None", "NULL", "none"}
		if few {
			l = l[:2]
		}
		for _, s := range l {
			out(s)
		}
		out("")
	case KBool:
		l := []string{"true", "True", "yes", "YES"}
		if !v.B {
			l = []string{"false", "FALSE", "no", "No"}
		}
		if few {
			l = l[1:3]
		}
		for _, s := range l {
			out(s)
		}
	case KStr:
		l := spellString(v.S)
		if few {
			l = l[1:]
		}
		for _, s := range l {
			out(s)
		}
	case KArr:
		var rec func(i int, acc string)
		rec = func(i int, acc string) {
			if i == len(v.A) {
				if i > 0 {
					out("[" + acc + ",]")
					if v.A[i-1].K == KNull && (strings.HasSuffix(acc, ",") || acc == "") {
						return // a missing last element needs the comma behind it
					}
				}
				out("[" + acc + "]")
				return
			}
			spellings(v.A[i], true, few, func(s string) {
				sep := ""
				if i > 0 {
					sep = ","
				}
				rec(i+1, acc+sep+s)
			})
		}
		rec(0, "")
	case KDict:
		ks := v.keys()
		var rec func(i int, acc string)
		rec = func(i int, acc string) {
			if i == len(ks) {
				out("{" + acc + "}")
				if i > 0 {
					out("{" + acc + ",}")
				}
				return
			}
			sep := ""
			if i > 0 {
				sep = ","
			}
			for _, n := range spellName(ks[i]) {
				spellings(v.M[ks[i]], false, few, func(s string) { rec(i+1, acc+sep+n+":"+s) })
			}
		}
		rec(0, "")
	default:
		out(v.text())
	}
}

func relaxed(t *T, text string, d *V) {
	t.Try(func() string { return fmt.Sprintf("Parse(%q)", brief(text)) }, func() {
		v, err := ju.ParseString(text)
		t.Op(1)
		if err != nil {
			t.Failf("Parse(%q) fails: %v; it means %s", brief(text), err, brief(d.text()))
			return
		}
		if x := sameStrict(observe(v), d); x != "" {
			t.Failf("Parse(%q) is not %s: %s", brief(text), brief(d.text()), x)
		}
	})
}

func init() {
	register(&Check{ID: "C06", Suites: func(quick bool) []Suite {
		var suites []Suite
		leaves := []*V{vNull(), vBool(true), vBool(false), vInt(-3), vFloat(2.5), vStr("a"), vStr("it's \"\\"), vStr("true"), vStr("12")}
		keys := []string{"a", "true", "1", "x y"}
		n := 3
		if !quick {
			n = 4
		}
		docs := newTreeGen(leaves, keys).upTo(n)
		run := func(docs []*V, few bool) func(t *T, i int64) {
			return func(t *T, i int64) {
				d := docs[i]
				strict, err := ju.ParseString(d.text())
				if err != nil {
					t.Failf("Parse(%q) fails: %v", d.text(), err)
					return
				}
				spellings(d, false, few, func(s string) {
					if s == "" {
						return
					}
					relaxed(t, s, d)
					if few {
						return
					}
					relaxed(t, " "+strings.NewReplacer(",", " , ", "[", "[ ", "]", " ]").Replace(plainOnly(s))+" ", d)
					v, err := ju.ParseString(s)
					if err == nil && (!v.Equals(strict) || v.String() != strict.String()) {
						t.Failf("Parse(%q) is not equal to Parse(%q)", s, d.text())
					}
					t.Op(2)
				})
				t.State(d.text())
				t.Sample(func() string { return d.text() })
			}
		}
		suites = append(suites, Suite{Name: "spellings", Bound: fmt.Sprintf("every combination of token spellings of all documents of up to %d nodes over %d scalars and %d names", n, len(leaves), len(keys)), N: int64(len(docs)), Run: run(docs, false)})
		n2 := 5
		l2 := []*V{vNull(), vBool(true), vInt(7), vStr("a"), vStr("no")}
		if !quick {
			l2 = append(l2, vBool(false), vFloat(1.5))
		}
		docs2 := newTreeGen(l2, []string{"a", "null"}).upTo(n2)
		suites = append(suites, Suite{Name: "spellings-deep", Bound: fmt.Sprintf("combinations of 2-3 spellings per token of all documents of up to %d nodes over %d scalars and 2 names", n2, len(l2)), N: int64(len(docs2)), Run: run(docs2, true)})
		// letter case of the words
		type kw struct {
			s string
			v *V
		}
		var kws []kw
		for _, p := range []kw{{"true", vBool(true)}, {"yes", vBool(true)}, {"false", vBool(false)}, {"no", vBool(false)}, {"null", vNull()}, {"none", vNull()}} {
			for _, w := range caseVariants(p.s) {
				kws = append(kws, kw{w, p.v})
			}
		}
		suites = append(suites, Suite{Name: "word-case", Bound: "every letter case of true, yes, false, no, null, none in 8 positions, and quoted", N: int64(len(kws)), Run: func(t *T, i int64) {
			w, v := kws[i].s, kws[i].v
			relaxed(t, w, v)
			relaxed(t, " "+w+" ", v)
			relaxed(t, "["+w+"]", vArr(v))
			relaxed(t, "[ "+w+" ]", vArr(v))
			relaxed(t, "["+w+","+w+",]", vArr(v, v))
			relaxed(t, "{a:"+w+"}", vDict("a", v))
			relaxed(t, "{a : "+w+" , b:"+w+"}", vDict("a", v, "b", v))
			relaxed(t, "[{a:"+w+"},"+w+"]", vArr(vDict("a", v), v))
			for _, q := range []string{"\"", "'"} {
				relaxed(t, q+w+q, vStr(w))
				relaxed(t, "["+q+w+q+",{"+q+w+q+":"+q+w+q+"}]", vArr(vStr(w), vDict(w, vStr(w))))
			}
			relaxed(t, "{"+w+":1}", vDict(w, vInt(1)))
			for _, ext := range []string{"x", "_", "1", ".", "-"} {
				relaxed(t, "["+w+ext+",x"+w+"]", vArr(vStr(w+ext), vStr("x"+w)))
			}
			t.State(w)
		}})
		// quoted words stay strings
		suites = append(suites, Suite{Name: "quoted-words", Bound: fmt.Sprintf("%d special words in both quotes and as names", len(specialWords)), N: int64(len(specialWords)), Run: func(t *T, i int64) {
			w := specialWords[i]
			if w == "___jnid_" {
				return
			}
			for _, q := range spellString(w)[:3] {
				relaxed(t, q, vStr(w))
				relaxed(t, "["+q+" , "+q+"]", vArr(vStr(w), vStr(w)))
				relaxed(t, "{"+q+":"+q+"}", vDict(w, vStr(w)))
			}
			for _, q := range spellName(w) {
				relaxed(t, "{"+q+":1,"+q+" : 2}", vDict(w, vInt(2)))
			}
			t.State(w)
		}})
		// all short strings in every quoting
		hn := 3
		hot := hotStrings(hn)
		suites = append(suites, Suite{Name: "quoting", Bound: fmt.Sprintf("all strings of up to %d of %d hot characters, in every spelling, as value and name", hn, len(hotRunes)), N: int64(len(hot)), Run: func(t *T, i int64) {
			s := hot[i]
			if s == "___jnid_" {
				return
			}
			for _, q := range append(spellString(s), "'"+hexAll(s)+"'", "'"+strings.ReplaceAll(escFor(s, '\''), "\"", "\\\"")+"'") {
				relaxed(t, q, vStr(s))
				relaxed(t, "["+q+",{k:"+q+"},"+q+"]", vArr(vStr(s), vDict("k", vStr(s)), vStr(s)))
			}
			for _, q := range spellName(s) {
				relaxed(t, "{"+q+":[1],b: {"+q+" :2} }", func() *V {
					m := vDict(s, vArr(vInt(1)))
					m.M["b"] = vDict(s, vInt(2))
					return m
				}())
			}
			t.State(s)
		}})
		suites = append(suites, Suite{Name: "hex-escapes", Bound: "every \\xHH byte in both letter cases and quotes, alone and between characters", N: 128, Run: func(t *T, i int64) {
			s := string([]byte{byte(i)})
			for _, f := range []string{"\\x%02x", "\\x%02X"} {
				e := fmt.Sprintf(f, i)
				for _, q := range []string{"\"", "'"} {
					relaxed(t, q+e+q, vStr(s))
					relaxed(t, "["+q+"a"+e+e+"b"+q+"]", vArr(vStr("a"+s+s+"b")))
					relaxed(t, "{"+q+e+"1"+q+":"+q+"\\\\"+e+q+"}", vDict(s+"1", vStr("\\"+s)))
				}
			}
		}})
		suites = append(suites, Suite{Name: "code-points", Bound: "every Unicode scalar value in single quotes, in bare words and names", N: 0x110000 / 64, Run: func(t *T, i int64) {
			for c := i * 64; c < i*64+64; c++ {
				if c >= 0xd800 && c < 0xe000 || c < 0x20 {
					continue
				}
				s := string(rune(c))
				if c != '\'' && c != '\\' {
					relaxed(t, "['"+s+"','a"+s+"']", vArr(vStr(s), vStr("a"+s)))
				}
				if c >= 0x80 {
					relaxed(t, "{a"+s+":b"+s+","+s+":"+s+"x}", vDict("a"+s, vStr("b"+s), s, vStr(s+"x")))
				}
			}
		}})
		// bare words of all kinds of characters
		syms := split1("aZ07_-+./@$#%&*!?=<>|~^;e")
		bn := 4
		if !quick {
			bn = 5
		}
		suites = append(suites, wordSuite("bare-words", "bare words over letters, digits and signs that are no numbers and no node references, as elements, values and names", syms, bn, func(t *T, w string) {
			if w == "" {
				return
			}
			if _, err := strconv.ParseFloat(w, 64); err == nil || w[0] == '<' && w[len(w)-1] == '>' {
				return
			}
			relaxed(t, "["+w+"]", vArr(vStr(w)))
			relaxed(t, "{"+w+": "+w+"}", vDict(w, vStr(w)))
			relaxed(t, "{'k':[1 , "+w+" ],"+w+":{\"x\":"+w+",}}", vDict("k", vArr(vInt(1), vStr(w)), w, vDict("x", vStr(w))))
			t.State(w)
		}))
		// missing elements and trailing commas: every comma pattern
		suites = append(suites, Suite{Name: "commas", Bound: "every array text of up to 8 of {1, comma, blank} and every object text of members with missing values", N: wordsUpTo(3, 8), Run: func(t *T, i int64) {
			var sb strings.Builder
			for _, d := range word(i, 3) {
				sb.WriteString([]string{"1", ",", " "}[d])
			}
			body := sb.String()
			parts := strings.Split(body, ",")
			want := vArr()
			obj, om := "", vDict()
			for k, p := range parts {
				p2 := strings.TrimSpace(p)
				if strings.Contains(p2, " ") {
					return // two numbers without a comma
				}
				if k == len(parts)-1 && p2 == "" {
					break
				}
				x := vNull()
				if p2 != "" {
					x = numModel(p2)
				}
				want.A = append(want.A, x)
				obj += fmt.Sprintf("k%d:%s,", k, p)
				om.M[keyName(k)] = x
			}
			relaxed(t, "["+body+"]", want)
			relaxed(t, "{"+obj+"}", om)
			relaxed(t, "{"+strings.TrimSuffix(obj, ",")+"}", om)
			relaxed(t, "{x:["+body+"],}", vDict("x", want))
			t.State(want.text())
		}})
		// every token spelling far into a text, deep and long
		far := withJumbo(sizeLadder(1100), true, 4096, 16384, 32768, 65535, 65536, 65537, 131073)
		deepIn := sizeLadder(140)
		piece := vArr(vNull(), vBool(true), vBool(false), vStr("it's \"\\"), vStr("a"), vDict("true", vStr("no"), "x y", vInt(1)))
		var pieces []string
		spellings(piece, false, true, func(s string) {
			if len(pieces) < 4000 {
				pieces = append(pieces, s)
			}
		})
		step := len(pieces)/48 + 1
		suites = append(suites, Suite{Name: "far", Bound: fmt.Sprintf("48 mixed spellings of one document behind up to %d characters of text, white space and elements, inside up to 140 levels; every spelling of texts of that length", far[len(far)-1]), N: int64(len(far)), Run: func(t *T, i int64) {
			n := far[i]
			f := strings.Repeat("x", n)
			for k := int(i) % step; k < len(pieces); k += step {
				p := pieces[k]
				relaxed(t, "[\""+f+"\","+p+"]", vArr(vStr(f), piece))
				if n > 0 {
					relaxed(t, "['"+f+"', "+p+",]", vArr(vStr(f), piece))
					relaxed(t, "["+f+","+p+", "+p+"]", vArr(vStr(f), piece, piece))
					relaxed(t, "{"+f+":"+p+"}", vDict(f, piece))
				}
				relaxed(t, "["+strings.Repeat(" \n", n/2)+p+strings.Repeat("\t ", n/2)+","+p+"]", vArr(piece, piece))
				if n < 5000 || k%5 == 0 {
					l := make([]*V, n/2+1)
					for j := range l {
						l[j] = vBool(true)
					}
					l[n/2] = piece
					relaxed(t, "["+strings.Repeat("YES,", n/2)+p+",]", vArr(l...))
				}
				if int(i) < len(deepIn) {
					d := piece
					open, end := "", ""
					for j := 0; j < deepIn[i]; j++ {
						if j%2 == 0 {
							open, end, d = "['x',"+open, end+",]", vArr(vStr("x"), d)
						} else {
							open, end, d = "{b:"+open, end+",}", vDict("b", d)
						}
					}
					relaxed(t, open+p+end, d)
				}
			}
			for _, mid := range []string{"\"", "'", "\\", "é", "😀", "\n"} {
				for _, s := range []string{mid + f, f[:n/2] + mid + f[n/2:], f + mid} {
					for _, q := range spellString(s) {
						relaxed(t, "["+q+","+q+"]", vArr(vStr(s), vStr(s)))
					}
					for _, q := range spellName(s) {
						relaxed(t, "{"+q+":1}", vDict(s, vInt(1)))
					}
				}
			}
			t.State(fmt.Sprint(n))
		}})
		return suites
	}})
}

// plainOnly keeps texts whose separators are not inside quotes; otherwise the text is returned with blanks unchanged.
func plainOnly(s string) string {
	if strings.ContainsAny(s, "\"'") {
		// do not touch what may be inside a string: rebuild around the tokens
		var sb strings.Builder
		for _, k := range tokens(s) {
			sb.WriteString(" " + s[k.from:k.to])
		}
		return sb.String()
	}
	return s
}

// ---- C07 ----

func stream(t *T, text string, want []*V) {
	t.Try(func() string { return fmt.Sprintf("ParseJsonStreams(%q)", brief(text)) }, func() {
		got, err := ju.ParseJsonStreams([]byte(text))
		t.Op(1)
		if err != nil {
			t.Failf("ParseJsonStreams(%q) fails: %v", brief(text), err)
			return
		}
		if len(got) != len(want) {
			t.Failf("ParseJsonStreams(%q): %d documents, want %d", brief(text), len(got), len(want))
			return
		}
		for i := range got {
			if x := same(observe(got[i]), want[i]); x != "" {
				t.Failf("ParseJsonStreams(%q): document %d: %s", brief(text), i, x)
			}
		}
	})
}

// chain reads documents one at a time, skipping filler up to the next bracket.
func chain(t *T, text string, want []*V, skip bool) {
	t.Try(func() string { return fmt.Sprintf("ParseStream chain over %q", brief(text)) }, func() {
		off := 0
		b := []byte(text)
		for i := range want {
			if skip {
				for off < len(b) && b[off] != '[' && b[off] != '{' {
					off++
				}
			}
			v, n, err := ju.ParseStream(b, off)
			t.Op(1)
			if err != nil {
				t.Failf("ParseStream(%q,%d) fails: %v", brief(text), off, err)
				return
			}
			if n <= off || n > len(b) {
				t.Failf("ParseStream(%q,%d): end offset %d", brief(text), off, n)
				return
			}
			if x := same(observe(v), want[i]); x != "" {
				t.Failf("ParseStream(%q,%d): document %d: %s", brief(text), off, i, x)
				return
			}
			off = n
		}
		if strings.ContainsAny(text[off:], "{[") {
			t.Failf("ParseStream chain over %q ends at %d with documents left", brief(text), off)
		}
	})
}

// brokenStream: the complete documents before and after a broken piece are delivered.
func brokenStream(t *T, text string, before, after []*V) {
	t.Try(func() string { return fmt.Sprintf("ParseJsonStreams(%q)", brief(text)) }, func() {
		got, err := ju.ParseJsonStreams([]byte(text))
		t.Op(1)
		if len(before)+len(after) == 0 {
			if err == nil && len(got) == 0 {
				t.Failf("ParseJsonStreams(%q): no document and no error", brief(text))
			}
			return
		}
		if err != nil {
			t.Failf("ParseJsonStreams(%q) fails: %v", brief(text), err)
			return
		}
		if len(got) < len(before)+len(after) {
			t.Failf("ParseJsonStreams(%q): %d documents, want at least %d", brief(text), len(got), len(before)+len(after))
			return
		}
		for i := range before {
			if x := same(observe(got[i]), before[i]); x != "" {
				t.Failf("ParseJsonStreams(%q): document %d: %s", brief(text), i, x)
			}
		}
		for i := range after {
			g := got[len(got)-len(after)+i]
			if x := same(observe(g), after[i]); x != "" {
				t.Failf("ParseJsonStreams(%q): document %d behind the broken piece: %s", brief(text), i, x)
			}
		}
	})
}

// openQuote tells whether a text leaves a string open.
func openQuote(s string) bool {
	q := byte(0)
	start := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if q != 0 {
			if c == '\\' {
				i++
			} else if c == q {
				q = 0
				start = false
			}
			continue
		}
		switch c {
		case '"', '\'':
			if start {
				q = c
			}
		case ' ', ',', ':', '[', '{', ']', '}', '\n':
			start = true
		default:
			start = false
		}
	}
	return q != 0
}

func init() {
	register(&Check{ID: "C07", Suites: func(quick bool) []Suite {
		docs := []*V{vDict(), vArr(), vDict("a", vInt(1)), vArr(vInt(1), vArr(vInt(2))), vDict("k", vStr("]}")), vArr(vStr("[{"), vNull()), vDict("o", vDict("p", vArr())), vArr(vDict("x", vStr("\"")), vStr("'"))}
		fill := []string{"", " ", "\n", "x", ",", "\"", "'", "1:2", "\\", "null", "<1>", "é\t", "abc\"def'\\n"}
		var suites []Suite
		seq := func(nd int, docs []*V, fill []string, f func(t *T, text string, want []*V)) Suite {
			ds, fs := ipow(int64(len(docs)), nd), ipow(int64(len(fill)), nd+1)
			return Suite{N: ds * fs / int64(len(fill)), Run: func(t *T, i int64) {
				for last := range fill {
					dd := radix(i%ds, int64(len(docs)), nd)
					ff := radix(i/ds, int64(len(fill)), nd)
					text := ""
					var want []*V
					for k := 0; k < nd; k++ {
						text += fill[ff[k]] + docs[dd[k]].text()
						want = append(want, docs[dd[k]])
					}
					text += fill[last]
					f(t, text, want)
					if last == 0 {
						t.State(text)
						t.Sample(func() string { return text })
					}
				}
			}}
		}
		add := func(name, bound string, s Suite) {
			s.Name, s.Bound = name, bound
			suites = append(suites, s)
		}
		both := func(t *T, text string, want []*V) {
			stream(t, text, want)
			chain(t, text, want, true)
		}
		add("two-documents", "all pairs of 8 documents with 13 fillers before, between and behind", seq(2, docs, fill, both))
		add("one-document", "8 documents with 13 fillers on both sides", seq(1, docs, fill, both))
		f3, d3 := fill[:9], docs
		if !quick {
			f3 = fill
		}
		add("three-documents", fmt.Sprintf("all triples of %d documents with %d fillers", len(d3), len(f3)), seq(3, d3, f3, both))
		nd := 5
		f4 := fill[:3]
		d4 := docs[:4]
		if !quick {
			d4 = docs[:6]
		}
		add("many-documents", fmt.Sprintf("all %d-tuples of %d documents with 3 white spaces, also read purely by end offset", nd, len(d4)), seq(nd, d4, f4, func(t *T, text string, want []*V) {
			stream(t, text, want)
			chain(t, text, want, false)
		}))
		tn := 4
		all := containersOnly(newTreeGen([]*V{vInt(1), vStr("}{"), vStr("a"), vNull()}, []string{"a", "[b"}).upTo(tn))
		suites = append(suites, Suite{Name: "document-variety", Bound: fmt.Sprintf("every container of up to %d nodes followed by every other (quick: every fourth), with and without white space", tn), N: int64(len(all)), Run: func(t *T, i int64) {
			for j := range all {
				if quick && (i+int64(j))%4 != 0 {
					continue
				}
				for _, w := range []string{"", "\n"} {
					text := all[i].text() + w + all[j].text()
					both(t, text, []*V{all[i], all[j]})
				}
			}
			t.State(all[i].text())
		}})
		// filler of every length and content
		fl := []string{"a", " ", "\"", ":", ",", "\\", "'", "1"}
		fn := 5
		if !quick {
			fn = 6
		}
		suites = append(suites, wordSuite("filler", "bracket-free fillers", fl, fn, func(t *T, w string) {
			both(t, w+"{\"a\":[1]}"+w+"[\"x\"]"+w, []*V{vDict("a", vArr(vInt(1))), vArr(vStr("x"))})
			stream(t, w, nil)
		}))
		suites = append(suites, Suite{Name: "filler-bytes", Bound: "every filler byte pair but open brackets", N: 256, Run: func(t *T, i int64) {
			for b := 0; b < 256; b++ {
				if strings.IndexByte("[]{}", byte(i)) >= 0 || strings.IndexByte("[]{}", byte(b)) >= 0 {
					continue
				}
				w := string([]byte{byte(i), byte(b)})
				both(t, w+"[1]"+w+"{}"+w, []*V{vArr(vInt(1)), vDict()})
				stream(t, w, nil)
			}
		}})
		// one broken piece
		var pieces []string
		seen := map[string]bool{}
		pd := []*V{vDict("a", vInt(1)), vArr(vInt(1), vArr(vInt(2))), vDict("k", vStr("x"), "l", vNull()), vArr(vDict("x", vStr("y")), vStr("z")), vDict("o", vDict("p", vArr(vInt(1)))), vArr(vArr(), vDict()), vArr(vBool(true))}
		add1 := func(s string) {
			s = strings.TrimSpace(s)
			if s == "" || seen[s] || openQuote(s) || !strings.ContainsAny(s, "{[") {
				return
			}
			seen[s] = true
			pieces = append(pieces, s)
		}
		for _, d := range pd {
			s := d.text()
			for p := 1; p < len(s); p++ {
				add1(s[:p])
			}
			for _, k := range tokens(s) {
				switch k.kind {
				case ':', ',':
					add1(s[:k.from] + " " + s[k.to:])
				case '}':
					add1(s[:k.from] + "]" + s[k.to:])
				case ']':
					add1(s[:k.from] + "}" + s[k.to:])
				}
			}
		}
		ctxDocs := []*V{vDict("b", vInt(2)), vArr(vInt(3)), vDict(), vArr(vStr("q"), vDict("w", vBool(true)))}
		var ctx [][]*V
		for i := int64(0); i < wordsUpTo(int64(len(ctxDocs)), 2); i++ {
			var l []*V
			for _, d := range word(i, int64(len(ctxDocs))) {
				l = append(l, ctxDocs[d])
			}
			ctx = append(ctx, l)
		}
		ws := []string{" ", "\n", "\n\n\t"}
		suites = append(suites, Suite{Name: "broken-piece", Bound: fmt.Sprintf("%d truncated or malformed pieces set off by white space, with all lists of up to 2 of 4 documents before and behind", len(pieces)), N: int64(len(pieces)) * int64(len(ctx)), Run: func(t *T, i int64) {
			p := pieces[i%int64(len(pieces))]
			before := ctx[i/int64(len(pieces))]
			for _, after := range ctx {
				for _, w := range ws {
					text := ""
					for _, d := range before {
						text += d.text() + w
					}
					text += p + w
					for _, d := range after {
						text += d.text() + w
					}
					brokenStream(t, text, before, after)
				}
			}
			t.State(p)
		}})
		// long broken pieces: behind the break they hold whole documents too, which may or may not be delivered
		var longs []string
		for _, n := range []int{20, 60, 64, 65, 70, 100, 127, 129, 200, 255, 257, 300, 513, 700, 1025, 2100, 4097, 9001} {
			x := strings.Repeat("x", n)
			sp := strings.Repeat(" ", n)
			for _, s := range []string{
				`{"` + x + `":`, `{"` + x + `"`, `{` + x, `{` + x + `:`, `["` + x + `",`, `["` + x + `"`, `[` + x, `[` + x + `,`,
				`{"a":` + sp + `[1]`, `{"a":"` + x + `",`, `[[1],` + sp + `{"b":2}`, `["` + x + `"}`, `{"` + x + `":1]`, `{"` + x + `" 1}`, `["a" "` + x + `"]`,
				`[` + strings.Repeat("1,", n), `{` + strings.Repeat(`"a":1,`, n), strings.Repeat("[", n), strings.Repeat(`{"a":`, n),
				`{"a":[` + strings.Repeat("[],", n) + `]`, `{"a":"\u00zz` + x + `"}`,
			} {
				if strings.Count(s, "[[") < 120 && strings.Count(s, `:{"a":{`) < 60 {
					longs = append(longs, s) // the reader retries at each unclosed bracket: cubic in their number
				}
			}
		}
		suites = append(suites, Suite{Name: "long-broken-piece", Bound: fmt.Sprintf("%d broken pieces of up to 50000 bytes set off by white space, with none or one of 4 documents before and behind", len(longs)), N: int64(len(longs)), Run: func(t *T, i int64) {
			p := longs[i]
			for k, before := range ctx {
				for _, after := range ctx {
					if len(before) > 1 || len(after) > 1 {
						continue
					}
					w := ws[k%len(ws)]
					text := ""
					for _, d := range before {
						text += d.text() + w
					}
					text += p + w
					for _, d := range after {
						text += d.text() + w
					}
					brokenStream(t, text, before, after)
				}
			}
			t.State(p)
		}})
		// long streams
		suites = append(suites, Suite{Name: "long-streams", Bound: "streams of growing numbers and sizes of documents", N: int64(len(sizeLadder(1100))), Run: func(t *T, i int64) {
			n := sizeLadder(1100)[i]
			var sb strings.Builder
			var want []*V
			for k := 0; k < n; k++ {
				d := vDict("i", vInt(int64(k)), "a", vArr(vInt(int64(k))))
				if k%3 == 1 {
					d = vArr(vStr(strings.Repeat("x", k%70)))
				}
				want = append(want, d)
				sb.WriteString(d.text())
				if k%2 == 0 {
					sb.WriteString("\n")
				}
			}
			if n > 0 {
				both(t, sb.String(), want)
				big := vArr(vStr(strings.Repeat("[", n)), vInt(int64(n)))
				both(t, strings.Repeat(" ", n)+big.text()+strings.Repeat("-", n)+big.text(), []*V{big, big})
			}
			t.State(fmt.Sprint(n))
		}})
		return suites
	}, Assume: []string{"Bare words may contain open brackets, so a broken piece is only claimed to be harmless when white space sets it off and it leaves no string open."}})
}
