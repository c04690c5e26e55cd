package main

import (
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
)

func alphaWord(w []int, alpha []string) string {
	var sb strings.Builder
	for _, d := range w {
		sb.WriteString(alpha[d])
	}
	return sb.String()
}

func split1(s string) []string {
	var r []string
	for i := 0; i < len(s); i++ {
		r = append(r, s[i:i+1])
	}
	return r
}

// wordSuite enumerates all words of up to n letters; one case covers all words
// sharing a prefix, so that cases are not too small.
func wordSuite(name, bound string, alpha []string, n int, f func(t *T, s string)) Suite {
	k := int64(len(alpha))
	return Suite{Name: name, Bound: fmt.Sprintf("%s: all words of up to %d of %d tokens", bound, n, len(alpha)), N: wordsUpTo(k, n-1),
		Run: func(t *T, i int64) {
			p := alphaWord(word(i, k), alpha)
			if i == 0 {
				f(t, "")
			}
			for _, a := range alpha {
				f(t, p+a)
			}
		}}
}

// total checks that every JSON entry point returns a value or an error.
func totalJSON(t *T, s string, offsets, heavy bool) {
	t.Try(func() string { return fmt.Sprintf("Parse(%q)", brief(s)) }, func() {
		v, err := ju.Parse([]byte(s))
		t.Op(1)
		if (v == nil) == (err == nil) {
			t.Failf("Parse(%q): value %v and error %v", brief(s), v, err)
			return
		}
		if err != nil {
			t.Outcome("parse error")
			if heavy && err.Error() == "" {
				t.Failf("Parse(%q): empty error text", brief(s))
			}
			return
		}
		t.Outcome("parsed")
		txt := v.String()
		if txt == "" {
			t.Failf("Parse(%q) printed as empty text", brief(s))
		}
		t.State(txt)
		t.Op(1)
		if heavy {
			v.PrettyString()
			v.Interface()
			v.YAMLString()
			v.QueryString()
			t.Op(4)
		}
	})
	if offsets {
		for o := 0; o <= len(s)+1; o++ {
			t.Try(func() string { return fmt.Sprintf("ParseStream(%q, %d)", brief(s), o) }, func() {
				v, no, err := ju.ParseStream([]byte(s), o)
				t.Op(1)
				if (v == nil) == (err == nil) {
					t.Failf("ParseStream(%q, %d): value %v and error %v", brief(s), o, v, err)
				}
				if err == nil && (no < o || no > len(s)) {
					t.Failf("ParseStream(%q, %d): end offset %d", brief(s), o, no)
				}
			})
		}
	}
	t.Try(func() string { return fmt.Sprintf("ParseJsonStreams(%q)", brief(s)) }, func() {
		v, err := ju.ParseJsonStreams([]byte(s))
		t.Op(1)
		if (v == nil) == (err == nil) {
			t.Failf("ParseJsonStreams(%q): value %v and error %v", brief(s), v, err)
		}
		for _, x := range v {
			if x == nil {
				t.Failf("ParseJsonStreams(%q): nil document", brief(s))
			}
		}
	})
}

func totalQuery(t *T, s string) {
	t.Try(func() string { return fmt.Sprintf("ParseQueryString(%q)", brief(s)) }, func() {
		v, err := ju.ParseQueryString(s)
		t.Op(1)
		if (v == nil) == (err == nil) {
			t.Failf("ParseQueryString(%q): value %v and error %v", brief(s), v, err)
			return
		}
		if err == nil {
			t.State("q" + v.String())
			t.Outcome("query parsed")
		} else {
			t.Outcome("query error")
		}
	})
}

func totalYAML(t *T, s string) {
	t.Try(func() string { return fmt.Sprintf("ParseYAML(%q)", brief(s)) }, func() {
		v, err := ju.ParseYAML(s)
		t.Op(1)
		if (v == nil) == (err == nil) {
			t.Failf("ParseYAML(%q): value %v and error %v", brief(s), v, err)
			return
		}
		if err == nil {
			t.State("y" + v.String())
			t.Outcome("yaml parsed")
		} else {
			t.Outcome("yaml error")
		}
	})
}

var seedDocs = []string{
	`{"a":1,"b":[true,null,"x\ny\u00e9\ud83d\ude00"],"c":{"d":-1.5e3,'e':<1>}}`,
	`[{"___jnid_":1,"n":<1>},[[]],{},"\x41\/",yes,NONE,]`,
	`{a:b,c:[d,'e',],f:{g:}}`,
	` [ 1 , 2.5 , "three" , { "four" : [ ] } ] `,
	`{"___jnid_":2,"p":{"___jnid_":1,"q":<2>,"r":<1>,"s":<3>}}`,
}

func init() {
	register(&Check{ID: "C01", Suites: func(quick bool) []Suite {
		bytesAlpha := split1("{}[],:\"'\\ux<>-1a_e. \n")
		tokens := []string{"{", "}", "[", "]", ",", ":", "\"a\"", "'b'", "c", "1", "-", "<1>", "<", ">", "\"___jnid_\":", "___jnid_:2", "\\", "\"\\u12", "\"\\ud83d\\u", " ", "null", "\"", "\\x4"}
		qa := []string{"a", "b", ".", "0", "1", "=", "&", "%", "+", "[", "2", "-1", "%2e"}
		ya := []string{"a", ":", "-", " ", "\n", "[", "]", "{", "}", "&", "*", "!", "|", ">", "#", "'", "\"", "0", "~", "?", ",", "\t", "<<", "%"}
		nb, nt, nq, ny := 5, 4, 5, 3
		if !quick {
			nb, nt, nq, ny = 6, 6, 7, 4
		}
		offs := 4
		var suites []Suite
		suites = append(suites, wordSuite("json-bytes", "JSON texts over the bytes the reader branches on, every start offset up to 4 bytes", bytesAlpha, nb, func(t *T, s string) {
			totalJSON(t, s, len(s) <= offs, len(s) <= 3)
		}))
		suites = append(suites, wordSuite("json-tokens", "JSON texts over whole and broken tokens", tokens, nt, func(t *T, s string) {
			totalJSON(t, s, len(s) <= 10, false)
		}))
		suites = append(suites, wordSuite("query-tokens", "query strings", qa, nq, totalQuery))
		suites = append(suites, wordSuite("yaml-tokens", "YAML texts", ya, ny, totalYAML))
		// every byte and byte pair in every context
		ctx := []string{"%s", "[%s", "[%s]", "{%s", "{%s:1}", "{\"a\"%s", "{\"a\":%s", "{\"a\":%s}", "\"%s", "\"%s\"", "'%s'", "\"\\%s", "\"\\%s\"", "\"\\u%s", "\"\\u00%s\"", "\"\\x%s\"", "<%s>", "[<%s>]", "[1%s2]", "{\"___jnid_\":%s}", "{\"a\":1%s}", "{\"a\":1,%s", "[[1]%s", "[{}%s]", "\"\\ud83d\\u%s\"", "1%s", "-%s", "t%sue"}
		suites = append(suites, Suite{Name: "json-bytepairs", Bound: "every byte pair in 28 syntactic contexts", N: 256 * int64(len(ctx)), Run: func(t *T, i int64) {
			c := ctx[i/256]
			x := string([]byte{byte(i % 256)})
			totalJSON(t, strings.Replace(c, "%s", x, 1), true, true)
			for b := 0; b < 256; b++ {
				totalJSON(t, strings.Replace(c, "%s", x+string([]byte{byte(b)}), 1), false, false)
			}
		}})
		suites = append(suites, Suite{Name: "yaml-query-bytepairs", Bound: "every byte pair in query and YAML contexts", N: 256, Run: func(t *T, i int64) {
			for b := 0; b < 256; b++ {
				x := string([]byte{byte(i), byte(b)})
				totalQuery(t, x)
				totalQuery(t, "a="+x+"&b."+x+"=1")
				totalYAML(t, x)
				if b < 128 {
					totalYAML(t, "a: "+x+"\n")
				}
			}
		}})
		// all single-byte edits, deletions, truncations and repetitions of sample documents
		type mut struct {
			d   int
			pos int
		}
		var muts []mut
		for d := range seedDocs {
			for p := 0; p <= len(seedDocs[d]); p++ {
				muts = append(muts, mut{d, p})
			}
		}
		suites = append(suites, Suite{Name: "json-mutations", Bound: "every cut, deletion, single byte replacement and insertion, and every pair of hot-byte replacements, of 5 documents", N: int64(len(muts)), Run: func(t *T, i int64) {
			m := muts[i]
			s := seedDocs[m.d]
			totalJSON(t, s[:m.pos], true, true)
			totalJSON(t, s[m.pos:], false, true)
			for b := 0; b < 256; b++ {
				x := string([]byte{byte(b)})
				totalJSON(t, s[:m.pos]+x+s[m.pos:], false, false)
				if m.pos < len(s) {
					totalJSON(t, s[:m.pos]+x+s[m.pos+1:], false, false)
				}
			}
			hot := "{}[],:\"'\\<"
			for q := m.pos; q < len(s); q++ {
				totalJSON(t, s[:m.pos]+s[q:], false, false)
				if quick && (q-m.pos)%3 != 0 {
					continue
				}
				for _, a := range hot {
					for _, b := range hot {
						if m.pos < len(s) && q > m.pos {
							totalJSON(t, s[:m.pos]+string(a)+s[m.pos+1:q]+string(b)+s[q+1:], false, false)
						}
					}
				}
			}
		}})
		// depth and size ladders
		type big struct {
			name string
			f    func() (string, string)
		}
		var bigs []big
		openers := [][2]string{{"[", "]"}, {"{a:", "}"}, {"{\"a\":[", "]}"}, {"[[],", "]"}, {"[{\"b\":", "}]"}, {"{\"a\":1,b:", "}"}, {"{", "}"}, {"[1,", "]"}, {"\"", ""}, {"\\", ""}, {"<", ">"}, {",", ""}, {"}", ""}, {"{\"___jnid_\":1,a:", "}"}}
		depths := []int{1, 2, 10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 9999, 10000, 10001, 20000, 65536, 100000, 300000, 3000000}
		for _, d := range depths {
			for k, o := range openers {
				d, o := d, o
				if quick && (d == 20000 || d == 65536 || d == 100000 || d == 300000) && k != int(d/1000)%8 {
					continue
				}
				bigs = append(bigs, big{fmt.Sprintf("%s x %d", o[0], d), func() (string, string) { return strings.Repeat(o[0], d), "json" }})
				bigs = append(bigs, big{fmt.Sprintf("%s 1 %s x %d", o[0], o[1], d), func() (string, string) {
					return strings.Repeat(o[0], d) + "1" + strings.Repeat(o[1], d), "json"
				}})
			}
		}
		for _, d := range depths[:len(depths)-2] {
			d := d
			for _, f := range []string{"[%s]", "{a:%s}"} {
				f := f
				bigs = append(bigs,
					big{"string", func() (string, string) {
						return fmt.Sprintf(f, "\""+strings.Repeat("x", d)+"\""), "json"
					}},
					big{"escapes", func() (string, string) {
						return fmt.Sprintf(f, "\""+strings.Repeat("\\u0041\\n\\x41", d)+"\""), "json"
					}},
					big{"number", func() (string, string) { return fmt.Sprintf(f, strings.Repeat("9", d)), "json" }},
					big{"fraction", func() (string, string) { return fmt.Sprintf(f, "0."+strings.Repeat("3", d)), "json" }},
					big{"exponent", func() (string, string) { return fmt.Sprintf(f, "1e"+strings.Repeat("9", d)), "json" }},
					big{"word", func() (string, string) { return fmt.Sprintf(f, strings.Repeat("w", d)), "json" }},
					big{"spaces", func() (string, string) { return fmt.Sprintf(f, strings.Repeat(" \n", d)+"1"), "json" }},
					big{"elements", func() (string, string) { return fmt.Sprintf(f, "["+strings.Repeat("1,", d)+"1]"), "json" }},
					big{"refs", func() (string, string) { return fmt.Sprintf(f, "["+strings.Repeat("<1>,", d)+"1]"), "json" }},
					big{"dupkeys", func() (string, string) { return fmt.Sprintf(f, "{"+strings.Repeat("k:1,", d)+"}"), "json" }},
				)
			}
			if d <= 4096 {
				bigs = append(bigs,
					big{"yaml seq", func() (string, string) { return strings.Repeat("- ", d) + "a", "yaml" }},
					big{"yaml flow", func() (string, string) { return strings.Repeat("[", d) + strings.Repeat("]", d), "yaml" }},
					big{"yaml indent", func() (string, string) {
						var sb strings.Builder
						for i := 0; i < d && i < 300; i++ {
							sb.WriteString(strings.Repeat(" ", i) + "a:\n")
						}
						return sb.String(), "yaml"
					}},
				)
			}
			bigs = append(bigs,
				big{"query index", func() (string, string) { return fmt.Sprintf("a.%d=1", d), "query" }},
				big{"query repeat", func() (string, string) { return strings.Repeat("a=1&", d), "query" }},
				big{"query long", func() (string, string) { return strings.Repeat("a", d) + "=" + strings.Repeat("b", d), "query" }},
			)
			if d <= 1025 {
				bigs = append(bigs,
					big{"query deep", func() (string, string) { return strings.Repeat("a.", d) + "b=1", "query" }},
					big{"query deep index", func() (string, string) { return "a" + strings.Repeat(".0", d) + "=1&a.0.1=2", "query" }},
				)
			}
		}
		bigs = append(bigs, big{"query huge index", func() (string, string) {
			return "a.9223372036854775807=1&a.9223372036854775808=2&a.-9223372036854775808=3", "query"
		}},
			big{"query huge index in array", func() (string, string) { return "a.0=1&a.9223372036854775807=1", "query" }},
			big{"yaml alias bomb", func() (string, string) {
				s := "a0: &a0 [x,x,x,x,x,x,x,x,x]\n"
				for i := 1; i < 12; i++ {
					s += fmt.Sprintf("a%d: &a%d [%s]\n", i, i, strings.TrimSuffix(strings.Repeat(fmt.Sprintf("*a%d,", i-1), 9), ","))
				}
				return s, "yaml"
			}},
			big{"yaml self alias", func() (string, string) { return "&a [*a]", "yaml" }},
			big{"yaml merge", func() (string, string) { return "a: &a {x: 1}\nb:\n  <<: *a\n  y: 2\n", "yaml" }},
		)
		unclosed := []string{"[", `{"a":`, `[{"b":`, `{"a":[1,`, "{", "[ "}
		suites = append(suites, Suite{Name: "unclosed", Bound: "runs of 1000 unclosed brackets of 6 kinds read as a stream: an error, or the document before them, and no more than 150 MB kept with it", N: int64(len(unclosed)) * 2, Run: func(t *T, i int64) {
			pre := i >= int64(len(unclosed))
			u := unclosed[i%int64(len(unclosed))]
			s := strings.Repeat(u, 1000/strings.Count(strings.ReplaceAll(u, "{", "["), "["))
			if pre {
				s = "[7] " + s
			}
			t.Try(func() string { return fmt.Sprintf("ParseJsonStreams(%q)", brief(s)) }, func() {
				var a, b runtime.MemStats
				runtime.GC()
				runtime.ReadMemStats(&a)
				v, err := ju.ParseJsonStreams([]byte(s))
				runtime.GC()
				runtime.ReadMemStats(&b)
				t.Op(1)
				if (err == nil) != pre || pre && len(v) < 1 {
					t.Failf("ParseJsonStreams(%q): %d documents, error %v", brief(s), len(v), err != nil)
				}
				if b.HeapAlloc > a.HeapAlloc+150<<20 {
					t.Failf("ParseJsonStreams(%q): an error of %d MB for a text of %d bytes: a text ten times as long exhausts the memory", brief(s), (b.HeapAlloc-a.HeapAlloc)>>20, len(s))
				}
				runtime.KeepAlive(err)
			})
			t.State(u)
		}})
		suites = append(suites, Suite{Name: "ladders", Bound: "nesting and token sizes up to 3,000,000", N: int64(len(bigs)), Run: func(t *T, i int64) {
			s, kind := bigs[i].f()
			what := bigs[i].name
			t.Sample(func() string { return what + ": " + brief(s) })
			switch kind {
			case "json":
				t.Try(func() string { return fmt.Sprintf("Parse(%s: %s)", what, brief(s)) }, func() {
					v, err := ju.ParseString(s)
					t.Op(1)
					if (v == nil) == (err == nil) {
						t.Failf("Parse(%s): value and error", what)
					}
					if err == nil {
						t.Outcome("big parsed")
						txt := v.String()
						t.State(txt)
						t.Op(1)
						if len(s) < 30000 && strings.Count(s, "[")+strings.Count(s, "{") < 1000 {
							v.PrettyString()
							v.Interface()
						}
					} else {
						t.Outcome("big rejected")
					}
				})
				if len(s) <= 300 || len(s) <= 30000 && len(s) > 4*strings.Count(s, "[")+4*strings.Count(s, "{") {
					// unclosed openers make the stream reader retry at each: cubic in their number
					t.Try(func() string { return fmt.Sprintf("ParseJsonStreams(%s: %s)", what, brief(s)) }, func() {
						v, err := ju.ParseJsonStreams([]byte(s))
						t.Op(1)
						if (v == nil) == (err == nil) {
							t.Failf("ParseJsonStreams(%s): value and error", what)
						}
					})
				}
			case "yaml":
				totalYAML(t, s)
			case "query":
				totalQuery(t, s)
			}
		}})
		return suites
	}, Assume: []string{"Termination is judged by a 60 s limit per group of cases that normally take milliseconds, confirmed by re-running the case alone five times.", "A worker may use 256 MB of stack and 8 GB of address space."}})
}

// ---- C02 ----

// agreeStd compares the reading of a standard text with encoding/json.
func agreeStd(t *T, text string) {
	want, err := stdDecode(text)
	if err != nil {
		t.Failf("harness: %q is not standard JSON: %v", brief(text), err)
		return
	}
	agree(t, text, want)
}

func agree(t *T, text string, want *V) {
	t.Try(func() string { return fmt.Sprintf("Parse(%q)", brief(text)) }, func() {
		got, err := ju.ParseString(text)
		t.Op(1)
		if err != nil {
			t.Failf("Parse(%q) fails: %v", brief(text), err)
			return
		}
		ov := observe(got)
		t.Op(1)
		if d := same(ov, want); d != "" {
			t.Failf("Parse(%q): %s", brief(text), d)
			return
		}
		if len(text) < 300 {
			if d := same(fromIface(got.Interface()), want); d != "" {
				t.Failf("Parse(%q).Interface(): %s", brief(text), d)
			}
			t.Op(1)
			t.State(want.text())
		} else {
			t.State(text)
		}
		t.Outcome(fmt.Sprintf("kind %d", want.K))
	})
}

func isJSONNumber(s string) bool {
	// -? (0|[1-9][0-9]*) (. [0-9]+)? ([eE] [+-]? [0-9]+)?
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	d := func() int {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i - j
	}
	st := i
	n := d()
	if n == 0 || (n > 1 && s[st] == '0') {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		if d() == 0 {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if d() == 0 {
			return false
		}
	}
	return i == len(s)
}

func finiteNumber(s string) bool {
	f, err := strconv.ParseFloat(s, 64)
	return err == nil && !math.IsInf(f, 0)
}

// spaced prints a model with white space chosen per gap by ws.
func spaced(v *V, ws func() string) string {
	var sb strings.Builder
	var w func(v *V)
	w = func(v *V) {
		switch v.K {
		case KArr:
			sb.WriteString("[" + ws())
			for i, x := range v.A {
				if i > 0 {
					sb.WriteString("," + ws())
				}
				w(x)
				sb.WriteString(ws())
			}
			sb.WriteString("]")
		case KDict:
			sb.WriteString("{" + ws())
			for i, k := range v.keys() {
				if i > 0 {
					sb.WriteString("," + ws())
				}
				sb.WriteString(stdQuote(k) + ws() + ":" + ws())
				w(v.M[k])
				sb.WriteString(ws())
			}
			sb.WriteString("}")
		default:
			v.write(&sb)
		}
	}
	w(v)
	return sb.String()
}

func init() {
	register(&Check{ID: "C02", Suites: func(quick bool) []Suite {
		var suites []Suite
		// 1. structure
		leaves := []*V{vNull(), vBool(true), vBool(false), vInt(0), vInt(-12), vFloat(1.5), vFloat(-2e-7), vStr(""), vStr("a"), vStr("q\"\\\n}]<1>"), vStr("null"), vStr("'12'")}
		n := 5
		if quick {
			leaves = leaves[:9]
		}
		docs := newTreeGen(leaves, []string{"a", "b c", "\"\\", ""}).upTo(n)
		spaces := []string{"", " ", "\n", "\t", "\r\n  "}
		suites = append(suites, Suite{Name: "structure", Bound: fmt.Sprintf("all documents of up to %d nodes over %d scalars and 4 names, compact and with 4 uniform white spaces", n, len(leaves)), N: int64(len(docs)), Run: func(t *T, i int64) {
			d := docs[i]
			for _, w := range spaces {
				txt := spaced(d, func() string { return w })
				agree(t, txt, d)
				agree(t, w+txt+w, d)
			}
			t.Sample(func() string { return d.text() })
		}})
		// 2. white space: every assignment of 3 spaces to every gap of small docs
		wdocs := []*V{vArr(), vDict(), vArr(vInt(1)), vArr(vInt(1), vStr("a")), vDict("k", vInt(-1)), vDict("a", vNull(), "b", vBool(true)), vArr(vArr(), vDict()), vDict("a", vArr(vFloat(1.5)))}
		ws3 := []string{"", " ", "\n\t\r"}
		type wcase struct {
			d *V
			n int64
		}
		var wc []wcase
		total := int64(0)
		for _, d := range wdocs {
			gaps := 0
			spaced(d, func() string { gaps++; return "" })
			wc = append(wc, wcase{d, ipow(3, gaps)})
			total += ipow(3, gaps)
		}
		suites = append(suites, Suite{Name: "white-space", Bound: "every assignment of none, blank or newline+tab+CR to every gap of 8 documents", N: total, Run: func(t *T, i int64) {
			for _, w := range wc {
				if i < w.n {
					x := i
					agree(t, spaced(w.d, func() string { s := ws3[x%3]; x /= 3; return s }), w.d)
					return
				}
				i -= w.n
			}
		}})
		// 3. numbers
		na := split1("-019.eE+5")
		nn := 8
		if !quick {
			nn = 9
		}
		suites = append(suites, wordSuite("numbers", "every number literal", na, nn, func(t *T, s string) {
			if !isJSONNumber(s) || !finiteNumber(s) {
				return
			}
			want := numModel(s)
			agree(t, s, want)
			agree(t, "["+s+"]", vArr(want))
			agree(t, "{\"n\":"+s+",\"m\":"+s+"}", vDict("n", want, "m", want))
		}))
		ints := intLadder()
		floats := floatLadder(true)
		suites = append(suites, Suite{Name: "int-ladder", Bound: "powers of 2 and 10 +-2, -300..300", N: int64(len(ints)), Run: func(t *T, i int64) {
			s := strconv.FormatInt(ints[i], 10)
			agree(t, s, vInt(ints[i]))
			agree(t, "["+s+","+s+"]", vArr(vInt(ints[i]), vInt(ints[i])))
			for _, suf := range []string{"0", "00", ".0", "e0", "E+1", "e-1", "e2", ".5", "999999999999999999999"} {
				if isJSONNumber(s+suf) && finiteNumber(s+suf) {
					agree(t, "["+s+suf+"]", vArr(numModel(s+suf)))
				}
			}
		}})
		suites = append(suites, Suite{Name: "float-ladder", Bound: "every binary exponent x 8 mantissas, decimals at every exponent, in f, e and shortest notation", N: int64(len(floats)), Run: func(t *T, i int64) {
			for _, f := range []byte{'e', 'f', 'g'} {
				s := strconv.FormatFloat(floats[i], f, -1, 64)
				if !isJSONNumber(s) {
					continue
				}
				agree(t, "["+s+"]", vArr(numModel(s)))
				if f == 'e' {
					agree(t, strings.ToUpper(s), numModel(s))
				}
			}
		}})
		// 4. strings
		suites = append(suites, Suite{Name: "code-points", Bound: "every Unicode scalar value raw; every \\uXXXX code unit alone and between others", N: 0x110000 / 64, Run: func(t *T, i int64) {
			for c := i * 64; c < i*64+64; c++ {
				if c >= 0xd800 && c < 0xe000 {
					continue
				}
				if c >= 0x20 && c != '"' && c != '\\' {
					s := string(rune(c))
					agree(t, "\""+s+"\"", vStr(s))
					if c < 0x3000 || c%61 == 0 {
						agree(t, "[\"a"+s+"b\\n"+s+"\"]", vArr(vStr("a"+s+"b\n"+s)))
						agree(t, "{\""+s+"\":\""+s+"\"}", vDict(s, vStr(s)))
					}
				}
			}
		}})
		suites = append(suites, Suite{Name: "u-escapes", Bound: "all 65536 \\uXXXX units in 5 contexts, lower and upper case hex", N: 65536, Run: func(t *T, i int64) {
			lo, up := fmt.Sprintf("\\u%04x", i), fmt.Sprintf("\\u%04X", i)
			for _, s := range []string{"\"" + lo + "\"", "\"a" + up + "b\"", "[\"" + lo + up + "\"]", "{\"" + up + "\":1}", "\"\\\\" + lo + "\\n\""} {
				agreeStd(t, s)
			}
		}})
		hi := []int{0xd7ff, 0xd800, 0xd801, 0xd83c, 0xd83d, 0xdbfe, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x41}
		suites = append(suites, Suite{Name: "surrogates", Bound: "all 1024 high x 1024 low surrogate escapes, all pairs of 11 boundary units with 5 separators", N: 1024, Run: func(t *T, i int64) {
			h := 0xd800 + int(i)
			for l := 0xdc00; l < 0xe000; l++ {
				r := rune((h-0xd800)<<10|(l-0xdc00)) + 0x10000
				agree(t, fmt.Sprintf("[\"\\u%04x\\u%04X\"]", h, l), vArr(vStr(string(r))))
			}
			if i < int64(len(hi)) {
				for _, b := range hi {
					for _, sep := range []string{"", "x", "\\n", "\\u0041", "\\\\"} {
						for _, tail := range []string{"", "z", "\\ude00", "\\ud83d\\ude00", "\\ud83d"} {
							agreeStd(t, fmt.Sprintf("\"\\u%04x%s\\u%04x%s\"", hi[i], sep, b, tail))
						}
					}
				}
			}
		}})
		atoms := []string{"a", " ", "é", "😀", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u001f", "\\u00e9", "\\ud83d\\ude00", "\\ud83d", "'", "{", "}", "[", "]", ",", ":", "<1>", "\x7f", "\u2028", "u0041", "x41"}
		an := 4
		if !quick {
			an = 5
		}
		suites = append(suites, wordSuite("string-atoms", "strings over plain characters and escapes, as value, element and name", atoms, an, func(t *T, s string) {
			agreeStd(t, "\""+s+"\"")
			agreeStd(t, "[1,\""+s+"\",{\""+s+"\":2,\"z"+s+"\":\""+s+"\"}]")
		}))
		// 5. duplicates and member order
		kk := []string{"a", "b", "c", "A"}
		suites = append(suites, Suite{Name: "members", Bound: "every sequence of up to 5 members over 4 names (duplicates included)", N: wordsUpTo(4, 5), Run: func(t *T, i int64) {
			w := word(i, 4)
			var sb strings.Builder
			m := vDict()
			for p, d := range w {
				if p > 0 {
					sb.WriteByte(',')
				}
				fmt.Fprintf(&sb, "%q:%d", kk[d], p)
				m.M[kk[d]] = vInt(int64(p))
			}
			agree(t, "{"+sb.String()+"}", m)
			agree(t, "[{"+sb.String()+"},{"+sb.String()+"}]", vArr(m, m))
		}})
		levels := sizeLadder(140)
		suites = append(suites, Suite{Name: "members-deep", Bound: "every sequence of up to 4 members over 2 names with values of 4 kinds, inside up to 140 levels of lists, objects and both, and behind up to 70000 characters", N: wordsUpTo(8, 4), Run: func(t *T, i int64) {
			w := word(i, 8)
			if len(w) == 4 && (w[0] > 3 || w[1] > 3) {
				return
			}
			var sb strings.Builder
			m := vDict()
			for p, d := range w {
				if p > 0 {
					sb.WriteByte(',')
				}
				v := []*V{vInt(int64(p)), vDict("a", vInt(int64(p)), keyName(p), vStr("x")), vArr(vInt(int64(p))), vNull()}[d/2]
				fmt.Fprintf(&sb, "%q:%s", kk[d%2], v.text())
				m.M[kk[d%2]] = v
			}
			body := "{" + sb.String() + "}"
			ls := levels
			if len(w) > 2 {
				ls = []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33}
			}
			for _, n := range ls {
				for way := 0; way < 3; way++ {
					open, end, d := "", "", m
					for k := 0; k < n; k++ {
						if way == 0 || way == 2 && k%2 == 0 {
							open, end, d = "["+open, end+"]", vArr(d)
						} else {
							open, end, d = "{\"a\":"+open, end+"}", vDict("a", d)
						}
					}
					agree(t, open+body+end, d)
				}
			}
			if len(w) < 4 {
				for _, n := range []int{255, 4096, 32768, 65536, 70000} {
					f := strings.Repeat("x", n)
					agree(t, "[\""+f+"\","+body+","+strings.Repeat(" ", n)+body+"]", vArr(vStr(f), m, m))
				}
			}
		}})
		perm := permutations(7)
		suites = append(suites, Suite{Name: "member-order", Bound: "all permutations of 7 members", N: int64(len(perm)), Run: func(t *T, i int64) {
			var sb strings.Builder
			m := vDict()
			for p, d := range perm[i] {
				if p > 0 {
					sb.WriteByte(',')
				}
				fmt.Fprintf(&sb, "\"k%d\":%d", d, d)
				m.M[keyName(d)] = vInt(int64(d))
			}
			agree(t, "{"+sb.String()+"}", m)
		}})
		// 6. offsets: the document found at an offset
		odocs := newTreeGen([]*V{vNull(), vInt(7), vStr("x\"]"), vBool(true)}, []string{"k"}).upTo(4)
		pre := []string{"", " ", "x", "[1", "\"", "{\"a\":", "\n\n", "é"}
		post := []string{"", " ", ",", "]", "}", "x", "[", "{}", "\"", "\n[]", "1", ":"}
		suites = append(suites, Suite{Name: "offsets", Bound: "all documents of up to 4 nodes read at an offset behind 8 prefixes and before 12 suffixes", N: int64(len(odocs)), Run: func(t *T, i int64) {
			d := odocs[i]
			txt := d.text()
			for _, p := range pre {
				for _, q := range post {
					if d.K == KInt && q != "" && strings.ContainsAny(q[:1], "x1[{\"") || (d.K == KNull || d.K == KBool) && q != "" && strings.ContainsAny(q[:1], "x1[{\"") {
						continue // would be a longer bare word
					}
					t.Try(func() string { return fmt.Sprintf("ParseStream(%q,%d)", p+txt+q, len(p)) }, func() {
						v, no, err := ju.ParseStream([]byte(p+txt+q), len(p))
						t.Op(1)
						if err != nil {
							t.Failf("ParseStream(%q,%d): %v", p+txt+q, len(p), err)
							return
						}
						if no != len(p)+len(txt) {
							t.Failf("ParseStream(%q,%d): end offset %d, want %d", p+txt+q, len(p), no, len(p)+len(txt))
						}
						if s := same(observe(v), d); s != "" {
							t.Failf("ParseStream(%q,%d): %s", p+txt+q, len(p), s)
						}
					})
				}
			}
		}})
		// 7. size ladders
		ms, ma, md := 5000, 1100, 600
		if !quick {
			ms, ma, md = 70000, 20000, 5000
		}
		lad := ladderDocs(ms, ma, md)
		suites = append(suites, Suite{Name: "ladders", Bound: fmt.Sprintf("string, name, array, object sizes and depths up to %d/%d/%d around powers of 2 and 10", ms, ma, md), N: int64(len(lad)), Run: func(t *T, i int64) {
			agree(t, lad[i].text(), lad[i])
			agree(t, spaced(lad[i], func() string { return " " }), lad[i])
		}})
		// far nesting, and many containers next to each other
		deep := withJumbo(sizeLadder(8200), true, 8999, 9000, 9001, 9500, 9990, 9998, 9999, 10000)
		suites = append(suites, Suite{Name: "deep", Bound: fmt.Sprintf("lists, objects and both in turn nested to each of %d depths up to 10000, alone and after up to 20000 other (empty, filled or nested) lists and objects", len(deep)), N: int64(len(deep)) * 6, Run: func(t *T, k int64) {
			n := deep[k/6]
			if n == 0 {
				return
			}
			var s string
			switch k % 6 {
			case 0:
				s = strings.Repeat("[", n) + strings.Repeat("]", n)
			case 1:
				s = strings.Repeat(`{"a":`, n-1) + "{}" + strings.Repeat("}", n-1)
			case 2:
				s = strings.Repeat(`[{"a":`, n/2) + "1" + strings.Repeat("}]", n/2)
			case 3:
				s = "[" + strings.Repeat("[],{},", n) + "[[]]]"
			case 4:
				s = "[" + strings.Repeat(`[1],{"a":1},`, n) + "[{}]]"
			case 5:
				s = "[" + strings.Repeat(`[[{}],{"a":[]}],`, n) + "[[[{}]]]]"
			}
			desc := func() string { return fmt.Sprintf("%s (%d deep or wide)", brief(s), n) }
			t.State(fmt.Sprint("deep ", k))
			t.Try(desc, func() {
				v, err := ju.ParseString(s)
				t.Op(1)
				if err != nil {
					t.Failf("%s does not parse: %v", desc(), err)
				} else if g := v.String(); g != s {
					t.Failf("%s parsed is %s", desc(), brief(g))
				}
			})
		}})
		// unaligned escapes at every distance
		places := withJumbo(sizeLadder(1100), true, 2047, 2048, 4095, 4096, 4097, 8191, 16383, 16384, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 131071, 200000)
		for p := 71; p < 140; p++ {
			places = append(places, p)
		}
		suites = append(suites, Suite{Name: "escape-position", Bound: "each escape at every position of a string of up to 140 characters and around powers of 2 and 10 up to 200000, once and twice", N: int64(len(places)), Run: func(t *T, k int64) {
			i := places[k]
			far := strings.Repeat("x", i)
			for _, e := range []string{"\\u0041", "\\ud83d", "\\/", "\\r", "\\b", "\\f", "\\t", "'", "😀", "\\u2028"} {
				agreeStd(t, "[\""+far+e+"\",\""+e+far+e+"\",{\""+far+e+"\":\""+e+"\"}]")
			}
			for _, e := range []string{"\\\"", "\\\\", "\\n", "\\u00e9", "\\ud83d\\ude00", "é"} {
				for _, tail := range []int{0, 1, 2, 7} {
					agreeStd(t, "[\""+far+e+strings.Repeat("y", tail)+"\",1]")
				}
			}
		}})
		return suites
	}})
}

func permutations(n int) [][]int {
	var r [][]int
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			r = append(r, append([]int{}, a...))
			return
		}
		for i := k; i < n; i++ {
			a[k], a[i] = a[i], a[k]
			rec(k + 1)
			a[k], a[i] = a[i], a[k]
		}
	}
	rec(0)
	return r
}
