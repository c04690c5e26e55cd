package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	yaml2 "gopkg.in/yaml.v2"
	ju "yunion.io/x/jsonutils"
)

// ---- C19: YAML ----

// yFromIface is the model of what a plain YAML reader gives.
func yFromIface(x interface{}) *V {
	switch t := x.(type) {
	case nil:
		return vNull()
	case bool:
		return vBool(t)
	case int:
		return vInt(int64(t))
	case int64:
		return vInt(t)
	case uint64:
		if t <= math.MaxInt64 {
			return vInt(int64(t))
		}
		return vFloat(float64(t))
	case float64:
		return vFloat(t)
	case string:
		return vStr(t)
	case time.Time:
		return vStr("!time " + t.String())
	case []interface{}:
		v := vArr()
		for i := range t {
			v.A = append(v.A, yFromIface(t[i]))
		}
		return v
	case map[interface{}]interface{}:
		v := vDict()
		for k := range t {
			if s, ok := k.(string); ok {
				v.M[s] = yFromIface(t[k])
			} else {
				v.M[fmt.Sprintf("!key %T %v", k, k)] = yFromIface(t[k])
			}
		}
		return v
	}
	return vStr(fmt.Sprintf("!%T", x))
}

// yTrip writes a document as YAML and reads it twice.
func yTrip(t *T, v *V) {
	t.Try(func() string { return "YAML of " + brief(v.text()) }, func() {
		y := v.obj().YAMLString()
		t.Op(2)
		t.State(y)
		t.Sample(func() string { return v.text() + " -> " + y })
		o, err := ju.ParseYAML(y)
		if err != nil {
			t.Failf("%s as YAML %q: %v", brief(v.text()), brief(y), err)
			return
		}
		if s := same(observe(o), v); s != "" {
			t.Failf("%s as YAML %q is read as %s: %s", brief(v.text()), brief(y), brief(o.String()), s)
			return
		}
		var x interface{}
		if err := yaml2.Unmarshal([]byte(y), &x); err != nil {
			t.Failf("%s as YAML %q for a YAML reader: %v", brief(v.text()), brief(y), err)
			return
		}
		if s := same(yFromIface(x), v); s != "" {
			t.Failf("%s as YAML %q for a YAML reader: %s", brief(v.text()), brief(y), s)
		}
	})
}

// yStr places a text at all kinds of positions.
func yStr(t *T, s string, all bool) {
	yTrip(t, vStr(s))
	yTrip(t, vDict("k", vStr(s)))
	if !all {
		return
	}
	yTrip(t, vArr(vStr(s), vArr(vStr(s)), vDict("k", vDict("k", vStr(s)))))
	yKey(t, s)
}

func yKey(t *T, s string) {
	if s == "___jnid_" || s == "<<" || len(vStr(s).obj().String()) > 1000 {
		// "<<" and long names have their own suites
		return
	}
	yTrip(t, vDict(s, vStr(s)))
	yTrip(t, vArr(vDict("a", vDict(s, vArr(vInt(1))), s, vNull(), "z", vDict())))
}

// ---- an emitter of the other styles ----

// yStyles tells how many styles a node has; inFlow: only flow styles.
const (
	yBlock = iota
	yFlow
)
const (
	yPlain = iota
	yDouble
	ySingle
	yLiteral
	yFolded
)

type yEmit struct {
	style  []int // by node in preorder
	next   int
	indent int  // spaces per level
	listIn bool // list items below a member are indented
	eol    string
	note   bool // comments
	ok     bool
}

func yPlainOK(s string) bool {
	switch s {
	case "x", "a b", "é", "a-b", "a#b":
		return true
	}
	return false
}

func (e *yEmit) scalar(v *V, ind int, flow bool, st int) string {
	switch v.K {
	case KStr:
		switch st {
		case yPlain:
			if !yPlainOK(v.S) {
				e.ok = false
			}
			return v.S
		case yDouble:
			return stdQuote(v.S)
		case ySingle:
			if strings.ContainsAny(v.S, "\n\t\r") {
				e.ok = false
			}
			return "'" + strings.ReplaceAll(v.S, "'", "''") + "'"
		default:
			if flow || v.S == "" || v.S[0] == ' ' || v.S[0] == '\n' || strings.ContainsAny(v.S, "\t\r") || strings.HasSuffix(v.S, " ") {
				e.ok = false
				return ""
			}
			lines := strings.Split(v.S, "\n")
			head := "|"
			sep := e.eol
			if st == yFolded {
				head = ">"
				if strings.Contains(v.S, "\n ") {
					e.ok = false
				}
				sep = e.eol + e.eol
			}
			chomp := "-"
			if strings.HasSuffix(v.S, "\n") {
				chomp = ""
				lines = lines[:len(lines)-1]
				if strings.HasSuffix(v.S, "\n\n") {
					e.ok = false
				}
			}
			pad := strings.Repeat(" ", ind)
			if ind == 0 {
				pad = " "
			}
			r := head + chomp
			for i, l := range lines {
				if l == "" {
					e.ok = false
				}
				if i == 0 {
					r += e.eol
				} else {
					r += sep
				}
				r += pad + l
			}
			return r
		}
	}
	if st != 0 {
		e.ok = false
	}
	return v.text()
}

func (e *yEmit) key(s string) string {
	if yPlainOK(s) {
		return s
	}
	if len(s)%2 == 0 && !strings.ContainsAny(s, "\n\t\r") {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	return stdQuote(s)
}

// flow writes a node in flow style.
func (e *yEmit) flow(v *V) string {
	st := e.style[e.next]
	e.next++
	switch v.K {
	case KArr:
		if st != yFlow {
			e.ok = false
		}
		var l []string
		for _, x := range v.A {
			l = append(l, e.flow(x))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case KDict:
		if st != yFlow {
			e.ok = false
		}
		var l []string
		for _, k := range v.keys() {
			l = append(l, e.key(k)+": "+e.flow(v.M[k]))
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
	return e.scalar(v, 0, true, st)
}

// node writes a node that may go on in further lines indented by ind; lead is
// what separates it from a name or dash before it.
func (e *yEmit) node(v *V, ind int, lead string) string {
	if v.K != KArr && v.K != KDict {
		st := e.style[e.next]
		e.next++
		return lead + e.scalar(v, ind, false, st) + e.eol
	}
	if e.style[e.next] == yFlow {
		return lead + e.flow(v) + e.eol
	}
	e.next++
	if len(v.A)+len(v.M) == 0 {
		e.ok = false
		return ""
	}
	var sb strings.Builder
	pad := strings.Repeat(" ", ind)
	note := func(i int) {
		if e.note {
			fmt.Fprintf(&sb, "%s# note %d: - [%s%s", pad, i, e.eol, e.eol)
		}
	}
	if v.K == KArr {
		for i, x := range v.A {
			if i > 0 || lead == "" {
				note(i)
			}
			if i == 0 && lead != "" {
				sb.WriteString(e.eol)
			}
			sb.WriteString(pad + "-")
			if x.K == KDict || x.K == KArr {
				sb.WriteString(e.item(x, ind))
			} else {
				sb.WriteString(e.node(x, ind+e.indent, " "))
			}
		}
		return sb.String()
	}
	for i, k := range v.keys() {
		if i == 0 && lead != "" {
			sb.WriteString(e.eol)
		}
		note(i)
		sb.WriteString(pad + e.key(k) + ":")
		x := v.M[k]
		in := ind + e.indent
		if x.K == KArr && !e.listIn {
			in = ind
		}
		sb.WriteString(e.node(x, in, " "))
	}
	return sb.String()
}

// item writes a container behind a dash at indentation ind: its first line
// follows the dash.
func (e *yEmit) item(x *V, ind int) string {
	in := ind + e.indent
	if e.indent < 2 {
		// no room behind the dash
		return e.node(x, in, " ")
	}
	note := e.note
	e.note = false
	s := e.node(x, in, "")
	e.note = note
	if !e.ok {
		return ""
	}
	if strings.HasPrefix(s, "[") || strings.HasPrefix(s, "{") {
		return " " + s
	}
	// replace the indentation of the first line by the room behind the dash
	return s[ind+1:]
}

func yRadixes(v *V, r []int) []int {
	switch v.K {
	case KStr:
		return append(r, 5)
	case KArr:
		r = append(r, 2)
		for _, x := range v.A {
			r = yRadixes(x, r)
		}
		return r
	case KDict:
		r = append(r, 2)
		for _, k := range v.keys() {
			r = yRadixes(v.M[k], r)
		}
		return r
	}
	return append(r, 1)
}

// yAllStyles reads one document in every combination of styles of its nodes.
func yAllStyles(t *T, v *V, quick bool) {
	rad := yRadixes(v, nil)
	style := make([]int, len(rad))
	for {
		for deco := 0; deco < 16; deco++ {
			e := &yEmit{style: style, indent: []int{2, 4, 3, 1}[deco&3], listIn: deco>>2&1 == 1, eol: "\n", note: deco>>3&1 == 1, ok: true}
			if quick && deco != 0 && deco != 5 && deco != 10 && deco != 15 {
				continue
			}
			text := e.node(v, 0, "")
			if !e.ok {
				if deco == 0 {
					break
				}
				continue
			}
			for k := 0; k < 4; k++ {
				y := text
				switch k {
				case 1:
					y = "---\n" + text
				case 2:
					y = "# head\n---\n" + text + "...\n"
				case 3:
					if strings.Contains(text, "\"") && strings.Contains(text, "\\") {
						continue
					}
					y = strings.ReplaceAll(text, "\n", "\r\n")
				}
				if quick && k > 0 && deco != 5 {
					continue
				}
				t.State(y)
				t.Sample(func() string { return y })
				t.Try(func() string { return fmt.Sprintf("YAML text %q", y) }, func() {
					o, err := ju.ParseYAML(y)
					t.Op(1)
					if err != nil {
						t.Failf("%s in YAML style %q: %v", brief(v.text()), y, err)
						return
					}
					if s := same(observe(o), v); s != "" {
						t.Failf("%s in YAML style %q is read as %s: %s", brief(v.text()), y, brief(o.String()), s)
					}
				})
			}
		}
		i := len(style) - 1
		for ; i >= 0; i-- {
			style[i]++
			if style[i] < rad[i] {
				break
			}
			style[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func init() {
	register(&Check{ID: "C19", Suites: func(quick bool) []Suite {
		var suites []Suite
		n := 5
		g := newTreeGen([]*V{vNull(), vBool(true), vInt(-7), vFloat(0.25), vStr("x"), vStr("1"), vStr("a\n b")}, []string{"a", "1"})
		if quick {
			g = newTreeGen([]*V{vNull(), vFloat(0.25), vStr("true"), vStr("a\n b")}, []string{"a", "1"})
		}
		trees := g.upTo(n)
		suites = append(suites, Suite{Name: "trees", Bound: fmt.Sprintf("all documents of up to %d nodes over %d leaves and 2 names", n, len(g.leaves)), N: int64(len(trees)), Run: func(t *T, i int64) {
			yTrip(t, trees[i])
		}})
		hot := hotStrings(2)
		suites = append(suites, Suite{Name: "hot-strings", Bound: fmt.Sprintf("all texts of up to 2 of %d special characters and %d special words in 5 positions, also as names", len(hotRunes), len(specialWords)), N: int64(len(hot)), Run: func(t *T, i int64) {
			yStr(t, hot[i], true)
			if i >= int64(len(hot)-len(specialWords)) {
				for _, w := range specialWords {
					yStr(t, hot[i]+w, false)
					yStr(t, hot[i]+" "+w, false)
					yStr(t, hot[i]+"\n"+w, false)
				}
			}
		}})
		chars := 0x11000
		if !quick {
			chars = 0x110000
		}
		suites = append(suites, Suite{Name: "characters", Bound: fmt.Sprintf("every character below U+%04X alone, between letters, at the start and at the end of a line, and as a name; the limits of each plane", chars), N: int64(chars/256) + 17, Run: func(t *T, i int64) {
			for k := 0; k < 256; k++ {
				c := int(i)*256 + k
				if i >= int64(chars/256) {
					c = int(i-int64(chars/256))*0x10000 + (k+0xff80)&0xffff
				}
				if c >= 0xd800 && c < 0xe000 || c > 0x10ffff {
					continue
				}
				s := string(rune(c))
				for _, w := range []string{s, "a" + s + "b", s + s, " " + s, s + " ", s + "\n" + s, "1" + s, s + "1"} {
					yStr(t, w, false)
				}
				yKey(t, s)
				yKey(t, "a"+s+" ")
			}
		}})
		alpha := []string{":", " ", "#", "-", "'", "\"", "\n", "a", "1", "\t", "{", "[", ",", "&", "*", "!", "|", ">", "%", "@", "`", "?", "~", ".", "\\", "=", "<", "}", "]", "/"}
		suites = append(suites, wordSuite("syntax", "texts of YAML syntax", alpha, 4, func(t *T, s string) {
			yStr(t, s, !quick || len(s) < 4)
		}))
		nl := 6
		if !quick {
			nl = 7
		}
		suites = append(suites, wordSuite("numberlike", "texts that look like numbers, dates or times", []string{"0", "1", "9", "-", ":", ".", "e", "+", "_", "x", "T"}, nl, func(t *T, s string) {
			yStr(t, s, false)
			if len(s) < 4 {
				yKey(t, s)
			}
		}))
		ll := 10
		if !quick {
			ll = 12
		}
		suites = append(suites, wordSuite("lines", "texts of lines", []string{"a", " ", "\n"}, ll, func(t *T, s string) {
			yStr(t, s, len(s) < 8)
		}))
		suites = append(suites, wordSuite("words", "words for booleans and null in all cases", []string{"y", "Y", "n", "N", "e", "E", "s", "S", "o", "O", "f", "~"}, 4, func(t *T, s string) {
			yStr(t, s, false)
			yKey(t, s)
		}))
		ints, floats := intLadder(), floatLadder(!quick)
		suites = append(suites, Suite{Name: "numbers", Bound: fmt.Sprintf("%d integers and %d floats, as numbers and as texts", len(ints), len(floats)), N: int64(len(ints)+len(floats))/64 + 1, Run: func(t *T, i int64) {
			for k := i * 64; k < i*64+64 && k < int64(len(ints)+len(floats)); k++ {
				v := vFloat(0)
				if k < int64(len(ints)) {
					v = vInt(ints[k])
				} else {
					v = vFloat(floats[k-int64(len(ints))])
				}
				yTrip(t, v)
				yTrip(t, vDict("k", vArr(v, vStr(v.text()))))
				if v.K == KInt {
					yTrip(t, vDict(strconv.FormatInt(v.I, 10), v))
				}
			}
		}})
		sizes := withJumbo(sizeLadder(2100), true, 4097, 16385)
		if !quick {
			sizes = sizeLadder(70000)
		}
		suites = append(suites, Suite{Name: "long", Bound: fmt.Sprintf("texts, names, lists, objects and nestings of %d sizes up to %d", len(sizes), sizes[len(sizes)-1]), N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			for _, unit := range []string{"x", "x ", "é", "word another ", "a\n", "a: ", "1", "\"", "\\", "  ", "ab\n  c", "- ", "\n"} {
				s := strings.Repeat(unit, n/len(unit)+1)[:]
				yStr(t, s, false)
				yTrip(t, vDict("k", vArr(vDict("z", vStr(s+"."), "y", vStr("."+s)))))
				if n <= 1000 {
					yKey(t, s)
				}
			}
			if n <= 2100 {
				a, d, deep := vArr(), vDict(), vStr("x")
				for k := 0; k < n; k++ {
					a.A = append(a.A, vInt(int64(k)))
					d.M[keyName(k)] = vStr("v")
				}
				yTrip(t, a)
				yTrip(t, d)
				if n <= 300 {
					for k := 0; k < n; k++ {
						if k%2 == 0 {
							deep = vDict("n", deep)
						} else {
							deep = vArr(vInt(1), deep)
						}
					}
					yTrip(t, deep)
				}
			}
		}})
		suites = append(suites, Suite{Name: "odd-names", Bound: "the name << and names of 1100, 2000 and 5000 letters", N: 4, Run: func(t *T, i int64) {
			s, what := "<<", "the name <<"
			if i > 0 {
				n := []int{0, 1100, 2000, 5000}[i]
				s, what = strings.Repeat("n", n), fmt.Sprintf("a name of %d letters", n)
			}
			v := vDict(s, vInt(1))
			t.State(s)
			t.Try(func() string { return what }, func() {
				y := v.obj().YAMLString()
				o, err := ju.ParseYAML(y)
				t.Op(2)
				if err != nil {
					t.Failf("%s cannot be read back: %v", what, err)
				} else if d := same(observe(o), v); d != "" {
					t.Failf("%s is lost: the YAML text is %q", what, brief(y))
				}
			})
		}})
		sg := newTreeGen([]*V{vNull(), vInt(3), vStr("x"), vStr("a b"), vStr("1"), vStr("a\nb"), vStr("it's"), vStr(": #")}, []string{"x", "a b", "1", "true"})
		sn := 4
		if !quick {
			sn = 5
			sg = newTreeGen([]*V{vBool(true), vFloat(1.5), vStr("x"), vStr("null"), vStr("a\nb\n"), vStr("\"q\" \\ 'p'")}, []string{"x", "2006-01-02"})
		}
		strees := sg.upTo(sn)
		suites = append(suites, Suite{Name: "styles", Bound: fmt.Sprintf("all documents of up to %d nodes over %d leaves and %d names x all combinations of block, flow, plain, double, single, literal and folded styles of the nodes x indentations, comments, document marks and line ends", sn, len(sg.leaves), len(sg.keys)), N: int64(len(strees)), Run: func(t *T, i int64) {
			yAllStyles(t, strees[i], quick)
		}})
		return suites
	}, Assume: []string{
		"Texts are valid UTF-8; names are not longer than 1000 bytes of JSON text and not << (known findings, suite odd-names).",
		"The second reader is gopkg.in/yaml.v2.",
	}})
}
