package main

import (
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// ---- C18: query strings ----

// qsParam is one decoded parameter.
type qsParam struct{ k, v string }

func qsText(ps []qsParam) string {
	l := make([]string, len(ps))
	for i, p := range ps {
		l[i] = url.QueryEscape(p.k) + "=" + url.QueryEscape(p.v)
	}
	return strings.Join(l, "&")
}

// qsTrie is the model: what a set of parameters says.
type qsTrie struct {
	vals []string
	sub  map[string]*qsTrie
}

// qsIndex tells the canonical form of a list index.
func qsIndex(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil && n >= 0 && strconv.Itoa(n) == s
}

// qsModel gives the document that the parameters say, nil if they contradict
// each other: a parameter that is also a container, a list with names or gaps.
func qsModel(ps []qsParam) *V {
	root := &qsTrie{sub: map[string]*qsTrie{}}
	for _, p := range ps {
		n := root
		for _, s := range strings.Split(p.k, ".") {
			if n.sub == nil {
				n.sub = map[string]*qsTrie{}
			}
			if n.sub[s] == nil {
				n.sub[s] = &qsTrie{}
			}
			n = n.sub[s]
		}
		n.vals = append(n.vals, p.v)
	}
	return root.doc(true)
}

func (n *qsTrie) doc(top bool) *V {
	if len(n.vals) > 0 {
		if len(n.sub) > 0 {
			return nil
		}
		if len(n.vals) == 1 {
			return vStr(n.vals[0])
		}
		r := vArr()
		for _, v := range n.vals {
			r.A = append(r.A, vStr(v))
		}
		return r
	}
	if n.sub["0"] != nil && !top {
		r := vArr()
		for i := 0; i < len(n.sub); i++ {
			s := n.sub[strconv.Itoa(i)]
			if s == nil {
				return nil
			}
			d := s.doc(false)
			if d == nil {
				return nil
			}
			r.A = append(r.A, d)
		}
		return r
	}
	r := vDict()
	for k, s := range n.sub {
		d := s.doc(false)
		if d == nil {
			return nil
		}
		r.M[k] = d
	}
	return r
}

// qsParse compares the parsed query with the model.
func qsParse(t *T, text string, ps []qsParam) {
	t.Try(func() string { return fmt.Sprintf("query %q", text) }, func() {
		o, err := ju.ParseQueryString(text)
		t.Op(1)
		want := qsModel(ps)
		if want == nil {
			t.Outcome("contradiction")
			if err != nil {
				return
			}
			// then nothing is lost, whatever the order
			left := map[string]int{}
			for _, p := range ps {
				left[p.v]++
			}
			got := observe(o)
			qsLeaves(got, func(s string) { left[s]-- })
			for v, n := range left {
				if n != 0 {
					t.Failf("query %q is read as %s, the value %q is lost or added", text, o, v)
					return
				}
			}
			sorted := append([]qsParam{}, ps...)
			sort.SliceStable(sorted, func(a, b int) bool { return sorted[a].k < sorted[b].k })
			o2, err2 := ju.ParseQueryString(qsText(sorted))
			if err2 != nil || sameStrict(observe(o2), got) != "" {
				t.Failf("query %q is read as %s, in another order as %v, %v", text, o, o2, err2)
			}
			return
		}
		if err != nil {
			t.Failf("query %q: %v instead of %s", text, err, brief(want.text()))
			return
		}
		t.Outcome("document")
		if s := sameStrict(observe(o), want); s != "" {
			t.Failf("query %q is read as %s instead of %s: %s", text, brief(o.String()), brief(want.text()), s)
		}
	})
}

func qsLeaves(v *V, f func(string)) {
	switch v.K {
	case KArr:
		for _, x := range v.A {
			qsLeaves(x, f)
		}
	case KDict:
		for _, x := range v.M {
			qsLeaves(x, f)
		}
	case KStr:
		f(v.S)
	default:
		f("?" + v.text())
	}
}

// qsLeafText turns every leaf into text the way the query says it.
func qsLeafText(v *V) *V {
	switch v.K {
	case KArr:
		r := vArr()
		for _, x := range v.A {
			r.A = append(r.A, qsLeafText(x))
		}
		return r
	case KDict:
		r := vDict()
		for k, x := range v.M {
			r.M[k] = qsLeafText(x)
		}
		return r
	case KStr:
		return v
	case KBool:
		return vStr(strconv.FormatBool(v.B))
	case KInt:
		return vStr(strconv.FormatInt(v.I, 10))
	}
	return v
}

// qsSame compares text leaves; a float leaf must be a text of the same number.
func qsSame(got, want *V, path string) string {
	if want.K == KFloat {
		if got.K != KStr {
			return fmt.Sprintf("%s is not text", path)
		}
		f, err := strconv.ParseFloat(got.S, 64)
		if err != nil || f != want.F {
			return fmt.Sprintf("%s is %q", path, got.S)
		}
		return ""
	}
	if got.K != want.K || len(got.A) != len(want.A) || len(got.M) != len(want.M) || got.S != want.S {
		return fmt.Sprintf("%s is %s instead of %s", path, brief(got.text()), brief(want.text()))
	}
	for i := range want.A {
		if s := qsSame(got.A[i], want.A[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
			return s
		}
	}
	for k := range want.M {
		if got.M[k] == nil {
			return fmt.Sprintf("%s.%s is missing", path, k)
		}
		if s := qsSame(got.M[k], want.M[k], path+"."+k); s != "" {
			return s
		}
	}
	return ""
}

// qsTrip writes an object and reads it again, in the given orders of parameters.
func qsTrip(t *T, v *V, perms int) {
	t.Try(func() string { return "query of " + brief(v.text()) }, func() {
		text := v.obj().QueryString()
		want := qsLeafText(v)
		t.State(text)
		t.Op(2)
		check := func(q string) bool {
			o, err := ju.ParseQueryString(q)
			t.Op(1)
			if err != nil {
				t.Failf("%s as query %q: %v", brief(v.text()), brief(q), err)
				return false
			}
			if s := qsSame(observe(o), want, "$"); s != "" {
				t.Failf("%s as query %q is read as %s: %s", brief(v.text()), brief(q), brief(o.String()), s)
				return false
			}
			return true
		}
		if !check(text) {
			return
		}
		parts := strings.Split(text, "&")
		if len(parts) < 2 {
			return
		}
		if len(parts) <= perms {
			permute(parts, func(p []string) bool { return check(strings.Join(p, "&")) })
			return
		}
		// rotations and reversals of a long one
		step := 1
		if len(parts) > 40 {
			step = len(parts) / 13
		}
		for r := 0; r < len(parts); r += step {
			q := append(append([]string{}, parts[r:]...), parts[:r]...)
			if !check(strings.Join(q, "&")) {
				return
			}
			for a, b := 0, len(q)-1; a < b; a, b = a+1, b-1 {
				q[a], q[b] = q[b], q[a]
			}
			if !check(strings.Join(q, "&")) {
				return
			}
		}
		sort.Strings(parts)
		check(strings.Join(parts, "&"))
	})
}

// permute calls f with every permutation until it returns false.
func permute(l []string, f func([]string) bool) {
	l = append([]string{}, l...)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == len(l) {
			return f(l)
		}
		for i := k; i < len(l); i++ {
			l[k], l[i] = l[i], l[k]
			if !rec(k + 1) {
				return false
			}
			l[k], l[i] = l[i], l[k]
		}
		return true
	}
	rec(0)
}

// qsFull tells whether a document has only non-empty containers inside and
// an object at the top.
func qsFull(v *V, top bool) bool {
	switch v.K {
	case KArr:
		if top || len(v.A) == 0 {
			return false
		}
		for _, x := range v.A {
			if !qsFull(x, false) {
				return false
			}
		}
	case KDict:
		if len(v.M) == 0 && !top {
			return false
		}
		for _, x := range v.M {
			if !qsFull(x, false) {
				return false
			}
		}
	}
	return !top || v.K == KDict
}

func qsNameOK(s string) bool {
	_, idx := qsIndex(s)
	return s != "" && !idx && !strings.Contains(s, ".")
}

func init() {
	register(&Check{ID: "C18", Suites: func(quick bool) []Suite {
		var suites []Suite
		// trees over few leaves and names
		n := 8
		tl, tn := []*V{vStr("v"), vInt(3)}, []string{"a", "b &"}
		g := newTreeGen(tl, tn)
		g.exactly(n - 2)
		var trees []*V
		for k := 1; k <= n; k++ {
			if k > n-2 {
				break
			}
			for _, v := range g.exactly(k) {
				if qsFull(v, true) {
					trees = append(trees, v)
				}
			}
		}
		for _, k := range []int{n - 1, n} {
			for _, v := range g.dicts(k-1, 0, nil) {
				if qsFull(v, true) {
					trees = append(trees, v)
				}
			}
		}
		suites = append(suites, Suite{Name: "trees", Bound: fmt.Sprintf("all objects of up to %d nodes over %d leaves and %d names x all orders of up to 5 parameters, rotations and reversals of more", n, len(tl), len(tn)), N: int64(len(trees)), Run: func(t *T, i int64) {
			t.Sample(func() string { return trees[i].text() + " -> " + trees[i].obj().QueryString() })
			qsTrip(t, trees[i], 5)
		}})
		// wide leaves
		leaves := []*V{vBool(true), vBool(false), vInt(0), vInt(-1), vFloat(0.5), vFloat(-1.25e10), vStr("x"), vStr("é&=+ %"), vStr("0"), vStr("true"), vStr("."), vStr("a.0=1&a.1=2")}
		names := []string{"a", "A", "é", "01", "a=b&c"}
		g2 := newTreeGen(leaves, names)
		var trees2 []*V
		top := 4
		if !quick {
			top = 5
		}
		for k := 1; k <= top; k++ {
			for _, v := range g2.dicts(k-1, 0, nil) {
				if qsFull(v, true) {
					trees2 = append(trees2, v)
				}
			}
		}
		suites = append(suites, Suite{Name: "leaves", Bound: fmt.Sprintf("all objects of up to %d nodes over %d leaves and %d names x all orders of parameters", top, len(leaves), len(names)), N: int64(len(trees2)), Run: func(t *T, i int64) {
			qsTrip(t, trees2[i], 5)
		}})
		// characters
		words := hotStrings(2)
		suites = append(suites, Suite{Name: "texts", Bound: "every text of up to 2 special characters, every special word, as value, as name, as element and below a name", N: int64(len(words)), Run: func(t *T, i int64) {
			w := words[i]
			if w == "" {
				return
			}
			qsTrip(t, vDict("k", vStr(w)), 3)
			qsTrip(t, vDict("k", vArr(vStr(w), vDict("z", vStr(w), "y", vStr("q")))), 3)
			if qsNameOK(w) {
				qsTrip(t, vDict(w, vStr("v"), "k", vInt(1)), 3)
				qsTrip(t, vDict("k", vDict(w, vArr(vStr(w), vStr("x")))), 3)
				qsTrip(t, vDict(w, vDict(w, vDict(w, vStr(w)))), 3)
			}
		}})
		chars := 0x11000
		if !quick {
			chars = 0x110000
		}
		suites = append(suites, Suite{Name: "characters", Bound: fmt.Sprintf("every character below U+%04X and every byte in values and names", chars), N: int64(chars/256 + 1), Run: func(t *T, i int64) {
			for k := 0; k < 256; k++ {
				w := string(rune(int(i)*256 + k))
				if int(i) == chars/256 {
					w = string([]byte{byte(k)})
				} else if c := int(i)*256 + k; c >= 0xd800 && c < 0xe000 {
					continue
				}
				qsTrip(t, vDict("k", vStr(w)), 2)
				qsTrip(t, vDict("k", vStr("a"+w+"b")), 2)
				if qsNameOK(w) {
					qsTrip(t, vDict(w, vStr("v")), 2)
				}
				if qsNameOK("a" + w) {
					qsTrip(t, vDict("a"+w, vDict(w+"b", vStr(w+w))), 2)
				}
			}
		}})
		ints := intLadder()
		floats := floatLadder(!quick)
		suites = append(suites, Suite{Name: "numbers", Bound: fmt.Sprintf("%d integers and %d floats", len(ints), len(floats)), N: int64(len(ints)+len(floats))/64 + 1, Run: func(t *T, i int64) {
			for k := i * 64; k < i*64+64 && k < int64(len(ints)+len(floats)); k++ {
				if k < int64(len(ints)) {
					qsTrip(t, vDict("k", vArr(vInt(ints[k]))), 2)
				} else {
					qsTrip(t, vDict("k", vDict("f", vFloat(floats[k-int64(len(ints))]))), 2)
				}
			}
		}})
		// long and deep
		sizes := 260
		if !quick {
			sizes = 1100
		}
		jumbo := []int{500, 1001, 2500}
		suites = append(suites, Suite{Name: "long", Bound: fmt.Sprintf("lists of 1-%d elements and of up to 2500, of objects, of lists, nested to that depth, in rotated and reversed orders of parameters", sizes), N: int64(sizes + len(jumbo)), Run: func(t *T, i int64) {
			n := int(i) + 1
			if n > sizes {
				n = jumbo[n-sizes-1]
			}
			a, b, c, d, deep := vArr(), vArr(), vArr(), vDict(), vStr("x")
			for k := 0; k < n; k++ {
				a.A = append(a.A, vStr(fmt.Sprint("v", k)))
				b.A = append(b.A, vDict("p", vInt(int64(k)), "q", vStr("z")))
				c.A = append(c.A, vArr(vInt(int64(k)), vStr("w")))
				d.M[keyName(k)] = vInt(int64(k))
				if k%2 == 0 {
					deep = vDict("n", deep)
				} else {
					deep = vArr(vStr("first"), deep)
				}
			}
			qsTrip(t, vDict("l", a, "m", vStr("x")), 4)
			qsTrip(t, vDict("l", b), 3)
			qsTrip(t, vDict("l", vDict("l", c)), 3)
			qsTrip(t, d, 3)
			if n <= 130 {
				qsTrip(t, vDict("d", deep), 3)
			}
		}})
		// numbers as names, many values
		var nums []string
		for _, x := range ints {
			nums = append(nums, fmt.Sprint(x))
			if x >= 0 {
				nums = append(nums, "0"+fmt.Sprint(x), "+"+fmt.Sprint(x), fmt.Sprint(x)+"0000000000000000000")
			}
		}
		suites = append(suites, Suite{Name: "numeric-names", Bound: fmt.Sprintf("%d integers, also signed, zero-padded and out of range, as names at two levels, next to each other and to words", len(nums)), N: int64(len(nums)), Run: func(t *T, i int64) {
			n := nums[i]
			for _, m := range []string{nums[(i+1)%int64(len(nums))], nums[(i+4)%int64(len(nums))], nums[(i*7+3)%int64(len(nums))], n + "x", "x" + n, "-" + n, "a"} {
				for _, f := range []string{"%s", "k.%s", "k.0.%s", "%s.k", "%s.0"} {
					for _, z := range []string{"", "zz"} {
						ps := []qsParam{{fmt.Sprintf(f, n), "1"}, {fmt.Sprintf(f, m), "2"}}
						if z != "" {
							ps = append(ps, qsParam{fmt.Sprintf(f, z), "3"})
						}
						qsParse(t, qsText(ps), ps)
						ps[0], ps[1] = ps[1], ps[0]
						qsParse(t, qsText(ps), ps)
					}
				}
			}
			t.State(n)
		}})
		many := withJumbo(sizeLadder(1100), true, 4097, 10001, 33001)
		suites = append(suites, Suite{Name: "many-values", Bound: "one name given up to 33001 times, alone, between others, below a name and in a list; lists of up to 33001 elements, plain and with two names each", N: int64(len(many)), Run: func(t *T, i int64) {
			n := many[i]
			for way := 0; way < 6; way++ {
				var ps []qsParam
				for k := 0; k < n; k++ {
					v := fmt.Sprint("v", k)
					switch way {
					case 0:
						ps = append(ps, qsParam{"a", v})
					case 1:
						ps = append(ps, qsParam{"a", v}, qsParam{"b" + fmt.Sprint(k%7), v})
					case 2:
						ps = append(ps, qsParam{"a.b.c", v})
					case 3:
						ps = append(ps, qsParam{"a.1", v}, qsParam{"a.0", v})
					case 4:
						ps = append(ps, qsParam{fmt.Sprintf("l.%d", k*7919%n), v})
					case 5:
						ps = append(ps, qsParam{fmt.Sprintf("l.%d.p", n-1-k), v}, qsParam{fmt.Sprintf("l.%d.q.0", n-1-k), v})
					}
				}
				if way == 4 && n%7919 == 0 {
					continue
				}
				qsParse(t, qsText(ps), ps)
			}
		}})
		// sequences of parameters against the model
		keys := []string{"a", "b", "a.b", "a.0", "a.1", "a.2", "a.0.0", "a.0.b", "a.0.1", "a.b.0", "a.b.c", "0", "0.0", "a.01", "a.10", "a.", ""}
		vals := []string{"x", "y", ""}
		per := int64(len(keys) * len(vals))
		length := 4
		seq := func(t *T, i int64, per int64, keys, vals []string) {
			var ps []qsParam
			for _, x := range word(i, per) {
				ps = append(ps, qsParam{keys[x%len(keys)], vals[x/len(keys)]})
			}
			text := qsText(ps)
			t.State(text)
			qsParse(t, text, ps)
		}
		suites = append(suites, Suite{Name: "parameters", Bound: fmt.Sprintf("all sequences of up to %d parameters over %d keys and %d values, against the model", length, len(keys), len(vals)), N: wordsUpTo(per, length), Run: func(t *T, i int64) {
			seq(t, i, per, keys, vals)
		}})
		keys2 := []string{"a", "a.0", "a.1", "a.2", "a.0.0", "a.0.1", "a.b", "b", "b.0"}
		length2 := 6
		if !quick {
			length2 = 8
		}
		suites = append(suites, Suite{Name: "more-parameters", Bound: fmt.Sprintf("all sequences of up to %d parameters over %d keys", length2, len(keys2)), N: wordsUpTo(int64(len(keys2)), length2), Run: func(t *T, i int64) {
			var ps []qsParam
			for k, x := range word(i, int64(len(keys2))) {
				ps = append(ps, qsParam{keys2[x], fmt.Sprint("v", k)})
			}
			text := qsText(ps)
			t.State(text)
			qsParse(t, text, ps)
		}})
		// raw text, decoded by the standard library
		alpha := []string{"a", ".", "0", "1", "&", "=", "%", "+", "2", "6", ";", "é", "#"}
		rl := 6
		if !quick {
			rl = 7
		}
		suites = append(suites, Suite{Name: "raw", Bound: fmt.Sprintf("all texts of up to %d of %d characters, decoded by net/url and then against the model", rl, len(alpha)), N: wordsUpTo(int64(len(alpha)), rl), Run: func(t *T, i int64) {
			var sb strings.Builder
			for _, x := range word(i, int64(len(alpha))) {
				sb.WriteString(alpha[x])
			}
			text := sb.String()
			m, err := url.ParseQuery(text)
			t.State(text)
			if err != nil {
				t.Try(func() string { return fmt.Sprintf("query %q", text) }, func() {
					o, e := ju.ParseQueryString(text)
					t.Op(1)
					t.Outcome("not decodable")
					if e == nil {
						t.Failf("query %q (%v) is read as %s", text, err, o)
					}
				})
				return
			}
			var ps []qsParam
			for k, l := range m {
				for _, v := range l {
					ps = append(ps, qsParam{k, v})
				}
			}
			qsParse(t, text, ps)
		}})
		return suites
	}, Assume: []string{
		"net/url decodes the percent-encoding (Go standard library).",
		"A parameter that is also a container, and a list with a gap or with a name among its indexes, contradict each other: an error is expected, or a result that holds every value whatever the order; otherwise exactly the document that the parameters say.",
	}})
}
