package main

import (
	"bytes"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// ---- C11 ----

// built makes the same document along different ways.
func built(d *V, way int) ju.JSONObject {
	switch way {
	case 1: // parsed
		o, err := ju.ParseString(spaced(d, func() string { return " " }))
		if err != nil {
			panic(err)
		}
		return o
	case 2: // inserted in reverse, overwritten and thinned out
		switch d.K {
		case KDict:
			x := ju.NewDict()
			x.Set("\xffzz", ju.JSONNull)
			ks := d.keys()
			for i := len(ks) - 1; i >= 0; i-- {
				x.Set(ks[i], ju.NewString("old"))
			}
			for _, k := range ks {
				x.Set(k, built(d.M[k], 2))
			}
			x.Remove("\xffzz")
			return x
		case KArr:
			x := ju.NewArray()
			for range d.A {
				x.Add(ju.JSONNull)
			}
			for i, e := range d.A {
				x.SetAt(i, built(e, 2))
			}
			return x
		}
		return d.obj()
	case 3:
		return ju.DeepCopy(d.obj())
	case 4: // merged from one-member objects
		switch d.K {
		case KDict:
			x := ju.NewDict()
			for _, k := range d.keys() {
				y := ju.NewDict()
				y.Set(k, built(d.M[k], 4))
				x.UpdateDefault(y)
			}
			return x
		case KArr:
			var l []ju.JSONObject
			for _, e := range d.A {
				l = append(l, built(e, 4))
			}
			return ju.NewArray(l...)
		}
		return d.obj()
	}
	return d.obj()
}

func equalPair(t *T, a, b *V, ao, bo ju.JSONObject, how string) {
	want := sameStrict(a, b) == ""
	t.Op(2)
	if g := ao.Equals(bo); g != want {
		t.Failf("%s Equals %s (%s) is %v", brief(a.text()), brief(b.text()), how, g)
	}
	if g := bo.Equals(ao); g != want {
		t.Failf("%s Equals %s (%s, swapped) is %v", brief(b.text()), brief(a.text()), how, g)
	}
}

func diffIs(t *T, a, b *V, ao, bo *ju.JSONDict) {
	t.Try(func() string { return "Diff(" + brief(a.text()) + "," + brief(b.text()) + ")" }, func() {
		as, bs := ao.String(), bo.String()
		p, q, r, s := ju.Diff(ao, bo)
		t.Op(1)
		w := [4]*V{vDict(), vDict(), vDict(), vDict()}
		for k, v := range a.M {
			switch {
			case b.M[k] == nil:
				w[0].M[k] = v
			case sameStrict(v, b.M[k]) == "":
				w[2].M[k] = v
			default:
				w[1].M[k] = vArr(v, b.M[k])
			}
		}
		for k, v := range b.M {
			if a.M[k] == nil {
				w[3].M[k] = v
			}
		}
		for i, g := range []*ju.JSONDict{p, q, r, s} {
			if x := sameStrict(observe(g), w[i]); x != "" {
				t.Failf("Diff(%s,%s): %s: %s", brief(a.text()), brief(b.text()), []string{"only in the first", "in both but different", "in both and equal", "only in the second"}[i], x)
			} else if x := keysSortedOnce(g.String()); x != "" {
				t.Failf("Diff(%s,%s): part %d: %s", brief(a.text()), brief(b.text()), i, x)
			}
		}
		if ao.String() != as || bo.String() != bs {
			t.Failf("Diff(%s,%s) changes its inputs to %s, %s", brief(as), brief(bs), brief(ao.String()), brief(bo.String()))
		}
	})
}

func init() {
	register(&Check{ID: "C11", Suites: func(quick bool) []Suite {
		var suites []Suite
		leaves := []*V{vNull(), vBool(true), vBool(false), vInt(0), vInt(1), vFloat(1), vFloat(0.5), vStr(""), vStr("1"), vStr("true"), vStr("null")}
		docs := newTreeGen(leaves, []string{"a", "b", "A"}).upTo(3)
		objs := make([]ju.JSONObject, len(docs))
		for i := range docs {
			objs[i] = docs[i].obj()
		}
		suites = append(suites, Suite{Name: "pairs", Bound: fmt.Sprintf("all ordered pairs of the %d documents of up to 3 nodes over 11 scalars and 3 names", len(docs)), N: int64(len(docs)), Run: func(t *T, i int64) {
			for j := range docs {
				equalPair(t, docs[i], docs[j], objs[i], objs[j], "built alike")
			}
			t.State(docs[i].text())
			t.Sample(func() string { return docs[i].text() })
		}})
		n := 5
		if !quick {
			n = 6
		}
		shapes := newTreeGen([]*V{vInt(1), vStr("1")}, []string{"a", "b"}).upTo(n)
		sobj := make([]ju.JSONObject, len(shapes))
		for i := range shapes {
			sobj[i] = shapes[i].obj()
		}
		// compare each shape with all shapes of the same and of adjacent size near it in the enumeration
		sh := newTreeGen([]*V{vInt(1), vStr("1")}, []string{"a", "b"}).upTo(4)
		so := make([]ju.JSONObject, len(sh))
		for i := range sh {
			so[i] = sh[i].obj()
		}
		suites = append(suites, Suite{Name: "shape-pairs", Bound: fmt.Sprintf("all ordered pairs of the %d documents of up to 4 nodes over 2 scalars and 2 names, second built in reverse", len(sh)), N: int64(len(sh)), Run: func(t *T, i int64) {
			bo := built(sh[i], 2)
			for j := range sh {
				equalPair(t, sh[i], sh[j], bo, so[j], "one built in reverse")
			}
		}})
		suites = append(suites, Suite{Name: "one-change", Bound: fmt.Sprintf("every document of up to %d nodes against itself and against itself with one node replaced, removed or added anywhere, in all pairs of 5 ways to build", n), N: int64(len(shapes)), Run: func(t *T, i int64) {
			d := shapes[i]
			var os [5]ju.JSONObject
			for w := range os {
				os[w] = built(d, w)
			}
			for w := range os {
				for v := range os {
					equalPair(t, d, d, os[w], os[v], fmt.Sprint("built ", w, v))
				}
			}
			for _, m := range mutants(d) {
				for w := 0; w < 5; w += 2 {
					equalPair(t, d, m, os[w], built(m, (w+2)%5), "one change")
				}
			}
			t.State(d.text())
		}})
		hot := hotStrings(1)
		suites = append(suites, Suite{Name: "strings", Bound: "all ordered pairs of hot strings as texts and as names", N: int64(len(hot)), Run: func(t *T, i int64) {
			for j := range hot {
				a, b := vStr(hot[i]), vStr(hot[j])
				equalPair(t, a, b, a.obj(), b.obj(), "texts")
				a, b = vDict(hot[i], vInt(1)), vDict(hot[j], vInt(1))
				equalPair(t, a, b, a.obj(), b.obj(), "names")
			}
		}})
		long := withJumbo(sizeLadder(1100), true, 4097, 65537)
		suites = append(suites, Suite{Name: "long-strings", Bound: "texts and names of up to 65537 characters that differ at one position (all positions up to 70, then 33 of them), in letter case at one position, or in length by one", N: int64(len(long)), Run: func(t *T, i int64) {
			n := long[i]
			if n == 0 {
				return
			}
			var at []int
			for p := 0; p < n; p++ {
				if n <= 70 || p < 8 || p >= n-8 || p%(n/16+1) == 0 {
					at = append(at, p)
				}
			}
			base := strings.Repeat("s", n)
			l := []string{base, base + "s", base[1:]}
			for _, p := range at {
				for _, c := range []string{"t", "S", "\x00"} {
					l = append(l, base[:p]+c+base[p+1:])
				}
			}
			for k, x := range l {
				for _, y := range []string{base, l[(k+3)%len(l)]} {
					a, b := vStr(x), vStr(y)
					equalPair(t, a, b, a.obj(), b.obj(), "texts")
					if k%3 == 0 {
						a, b = vArr(vInt(1), vDict("k", vStr(x))), vArr(vInt(1), vDict("k", vStr(y)))
						equalPair(t, a, b, a.obj(), b.obj(), "texts inside")
					}
					a, b = vDict(x, vInt(1), "a", vNull()), vDict(y, vInt(1), "a", vNull())
					equalPair(t, a, b, a.obj(), b.obj(), "names")
				}
			}
		}})
		nums := []*V{}
		for _, x := range intLadder() {
			nums = append(nums, vInt(x))
		}
		fl := floatLadder(false)
		for i := 0; i < len(fl); i += 97 {
			nums = append(nums, vFloat(fl[i]))
		}
		no := make([]ju.JSONObject, len(nums))
		for i := range nums {
			no[i] = nums[i].obj()
		}
		suites = append(suites, Suite{Name: "numbers", Bound: fmt.Sprintf("all ordered pairs of %d numbers", len(nums)), N: int64(len(nums)), Run: func(t *T, i int64) {
			for j := range nums {
				equalPair(t, nums[i], nums[j], no[i], no[j], "numbers")
			}
		}})
		// diffs
		vals := []*V{nil, vInt(1), vStr("1"), vFloat(1), vNull(), vArr(vInt(1)), vArr(vInt(2)), vDict("x", vInt(1)), vDict("x", vInt(1), "y", vNull())}
		names := []string{"a", "b", "ba"}
		var ds []*V
		for i := int64(0); i < ipow(int64(len(vals)), 3); i++ {
			m := vDict()
			for k, x := range radix(i, int64(len(vals)), 3) {
				if vals[x] != nil {
					m.M[names[k]] = vals[x]
				}
			}
			ds = append(ds, m)
		}
		dob := make([]*ju.JSONDict, len(ds))
		for i := range ds {
			dob[i] = ds[i].obj().(*ju.JSONDict)
		}
		suites = append(suites, Suite{Name: "diffs", Bound: fmt.Sprintf("all ordered pairs of the %d objects giving 3 names one of 8 values or none", len(ds)), N: int64(len(ds)), Run: func(t *T, i int64) {
			for j := range ds {
				diffIs(t, ds[i], ds[j], dob[i], dob[j])
			}
			t.State("diff" + ds[i].text())
		}})
		bits := 7
		if !quick {
			bits = 8
		}
		suites = append(suites, Suite{Name: "diff-patterns", Bound: fmt.Sprintf("%d names, each absent, left, right, equal or different: all patterns", bits), N: ipow(5, bits), Run: func(t *T, i int64) {
			a, b := vDict(), vDict()
			for k, x := range radix(i, 5, bits) {
				n := string(rune('a' + k))
				if x == 1 || x >= 3 {
					a.M[n] = vInt(int64(k))
				}
				if x == 2 || x == 3 {
					b.M[n] = vInt(int64(k))
				}
				if x == 4 {
					b.M[n] = vStr("other")
				}
			}
			diffIs(t, a, b, built(a, 0).(*ju.JSONDict), built(b, 2).(*ju.JSONDict))
			equalPair(t, a, b, built(a, 2), built(b, 0), "patterns")
		}})
		sizes := withJumbo(sizeLadder(2100), true, 4097, 10001)
		suites = append(suites, Suite{Name: "sizes", Bound: "objects and lists of up to 10001 entries: equal, one entry changed at either end or in the middle, and diffs of 4 overlaps", N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			a, l := vDict(), vArr()
			for k := 0; k < n; k++ {
				a.M[fmt.Sprintf("%05d", k)] = vInt(int64(k))
				l.A = append(l.A, vInt(int64(k)))
			}
			equalPair(t, a, a, built(a, 0), built(a, 2), "large")
			equalPair(t, l, l, built(l, 0), built(l, 1), "large")
			for _, k := range []int{0, n / 2, n - 1} {
				if n == 0 || k < 0 {
					continue
				}
				b, m := a.clone(), l.clone()
				b.M[fmt.Sprintf("%05d", k)] = vStr("x")
				m.A[k] = vStr("x")
				equalPair(t, a, b, built(a, 0), built(b, 0), "large, one differs")
				equalPair(t, l, m, built(l, 0), built(m, 0), "large, one differs")
				c := shallow(a)
				delete(c.M, fmt.Sprintf("%05d", k))
				equalPair(t, a, c, built(a, 0), built(c, 0), "large, one missing")
				c.M[fmt.Sprintf("%05dx", k)] = vInt(int64(k))
				equalPair(t, a, c, built(a, 0), built(c, 0), "large, one renamed")
				diffIs(t, a, c, built(a, 0).(*ju.JSONDict), built(c, 0).(*ju.JSONDict))
			}
			for step := 2; step <= 5; step++ {
				b := vDict()
				for k := 0; k < n+3; k += step {
					b.M[fmt.Sprintf("%05d", k)] = vInt(int64(k / 2 * 2))
				}
				diffIs(t, a, b, built(a, 0).(*ju.JSONDict), built(b, 0).(*ju.JSONDict))
				diffIs(t, b, a, built(b, 0).(*ju.JSONDict), built(a, 0).(*ju.JSONDict))
			}
			t.State(fmt.Sprint(n))
		}})
		lad := ladderDocs(1100, 70, 400)
		suites = append(suites, Suite{Name: "ladders", Bound: "sizes and depths up to 1100/70/400: equal to themselves built differently, not to their innermost change", N: int64(len(lad)), Run: func(t *T, i int64) {
			d := lad[i]
			equalPair(t, d, d, built(d, 0), built(d, 2), "large")
			ps := containerPaths(d)
			if len(ps) == 0 {
				return
			}
			m := d.clone()
			in := walkV(m, ps[len(ps)-1])
			if in.K == KArr {
				in.A = append(in.A, vNull())
			} else {
				in.M["~"] = vNull()
			}
			equalPair(t, d, m, built(d, 0), built(m, 0), "large, innermost changed")
		}})
		return suites
	}, Assume: []string{"Documents without references; NaN excluded."}})
}

// mutants lists all documents that differ from d at exactly one node.
func mutants(d *V) []*V {
	var r []*V
	n := d.size()
	for k := 0; k < n; k++ {
		for _, v := range []*V{vNull(), vStr("other"), vInt(2), vArr(), vDict()} {
			m, c := d.clone(), k
			var rep func(p **V) bool
			rep = func(p **V) bool {
				if c == 0 {
					c--
					if sameStrict(*p, v) == "" {
						return false
					}
					*p = v
					return true
				}
				c--
				x := *p
				for i := range x.A {
					if c < 0 {
						break
					}
					if rep(&x.A[i]) {
						return true
					}
				}
				for _, kk := range x.keys() {
					if c < 0 {
						break
					}
					e := x.M[kk]
					if rep(&e) {
						x.M[kk] = e
						return true
					}
				}
				return false
			}
			if rep(&m) {
				r = append(r, m)
			}
		}
	}
	for _, p := range containerPaths(d) {
		m := d.clone()
		in := walkV(m, p)
		if in.K == KArr {
			in.A = append(in.A, vNull())
			r = append(r, m)
			if len(in.A) > 1 {
				m = d.clone()
				in = walkV(m, p)
				in.A = in.A[1:]
				r = append(r, m)
				m = d.clone()
				in = walkV(m, p)
				in.A[0], in.A[len(in.A)-1] = in.A[len(in.A)-1], in.A[0]
				r = append(r, m)
			}
		} else {
			in.M["zz"] = vNull()
			r = append(r, m)
			if ks := walkV(d, p).keys(); len(ks) > 0 {
				m = d.clone()
				in = walkV(m, p)
				in.M["zz"] = in.M[ks[0]]
				delete(in.M, ks[0])
				r = append(r, m)
				m = d.clone()
				delete(walkV(m, p).M, ks[len(ks)-1])
				r = append(r, m)
			}
		}
	}
	return r
}

// ---- C12 ----

// lookups returns the possible results of a lookup; nil stands for an error.
func lookups(v *V, path []string, fold bool) []*V {
	if len(path) == 0 {
		return []*V{v}
	}
	if v.K != KDict {
		return []*V{nil}
	}
	var ks []string
	if fold {
		ks = foldMatches(v, path[0])
	} else if v.M[path[0]] != nil {
		ks = []string{path[0]}
	}
	if len(ks) == 0 {
		return []*V{nil}
	}
	var r []*V
	for _, k := range ks {
		r = append(r, lookups(v.M[k], path[1:], fold)...)
	}
	return r
}

// typed reads of a value; ok is false for an error
func readInt(v *V) (int64, bool) {
	switch v.K {
	case KInt:
		return v.I, true
	case KStr:
		i, err := strconv.ParseInt(v.S, 10, 64)
		return i, err == nil
	}
	return 0, false
}

func readFloat(v *V) (float64, bool) {
	switch v.K {
	case KInt:
		return float64(v.I), true
	case KFloat:
		return v.F, true
	case KStr:
		f, err := strconv.ParseFloat(v.S, 64)
		return f, err == nil
	}
	return 0, false
}

func readBool(v *V) (bool, bool) {
	switch v.K {
	case KBool:
		return v.B, true
	case KStr:
		switch strings.ToLower(v.S) {
		case "true", "on", "yes", "1":
			return true, true
		case "false", "off", "no", "0":
			return false, true
		}
	}
	return false, false
}

func typedReads(t *T, what string, o ju.JSONObject, path []string, v *V) {
	// v is nil when the lookup must fail
	i, ie := o.Int(path...)
	f, fe := o.Float(path...)
	b, be := o.Bool(path...)
	s, se := o.GetString(path...)
	l, le := o.GetArray(path...)
	m, me := o.GetMap(path...)
	_, te := o.GetTime(path...)
	e0, ee := o.GetAt(0, path...)
	t.Op(8)
	if v == nil {
		for k, e := range []error{ie, fe, be, se, le, me, te, ee} {
			if e == nil {
				t.Failf("%s: %s gives no error", what, []string{"Int", "Float", "Bool", "GetString", "GetArray", "GetMap", "GetTime", "GetAt"}[k])
			}
		}
		return
	}
	if w, ok := readInt(v); ok != (ie == nil) || ok && i != w {
		t.Failf("%s: Int gives %d, %v", what, i, ie)
	}
	if w, ok := readFloat(v); ok != (fe == nil) || ok && f != w && (f == f || w == w) {
		t.Failf("%s: Float gives %g, %v", what, f, fe)
	}
	if w, ok := readBool(v); ok != (be == nil) || ok && b != w {
		t.Failf("%s: Bool gives %v, %v", what, b, be)
	}
	if se != nil {
		t.Failf("%s: GetString: %v", what, se)
	} else if v.K == KStr {
		if s != v.S {
			t.Failf("%s: GetString gives %q", what, s)
		}
	} else if x := textIs(s, v); x != "" {
		t.Failf("%s: GetString gives %s", what, x)
	}
	switch v.K {
	case KDict, KNull:
		if le == nil {
			t.Failf("%s: GetArray gives %d elements", what, len(l))
		}
	case KArr:
		g := vArr()
		for _, x := range l {
			g.A = append(g.A, observe(x))
		}
		if x := same(g, v); le != nil || x != "" {
			t.Failf("%s: GetArray gives %s, %v", what, x, le)
		}
	default:
		if le != nil || len(l) != 1 || same(observe(l[0]), v) != "" {
			t.Failf("%s: GetArray gives %v, %v", what, l, le)
		}
	}
	if v.K == KDict {
		g := vDict()
		for k, x := range m {
			g.M[k] = observe(x)
		}
		if x := same(g, v); me != nil || x != "" {
			t.Failf("%s: GetMap gives %s, %v", what, x, me)
		}
	} else if me == nil {
		t.Failf("%s: GetMap gives %d members", what, len(m))
	}
	if v.K == KArr {
		if len(v.A) > 0 && (ee != nil || same(observe(e0), v.A[0]) != "") || len(v.A) == 0 && ee == nil {
			t.Failf("%s: GetAt(0) gives %v, %v", what, e0, ee)
		}
		n := len(v.A)
		for _, k := range []int{-n - 1, -n, -1, 1, n - 1, n} {
			x, err := o.GetAt(k, path...)
			j := k
			if j < 0 {
				j += n
			}
			if (err == nil) != (j >= 0 && j < n) || err == nil && same(observe(x), v.A[j]) != "" {
				t.Failf("%s: GetAt(%d) gives %v, %v", what, k, x, err)
			}
		}
	} else if ee == nil {
		t.Failf("%s: GetAt(0) gives %s", what, e0)
	}
	if v.K != KStr && te == nil {
		t.Failf("%s: GetTime gives a time", what)
	}
}

func lookupIs(t *T, o ju.JSONObject, d *V, path []string) {
	what := func() string { return fmt.Sprintf("%q of %s", path, brief(d.text())) }
	want := lookups(d, path, false)[0]
	if len(path) == 0 && d.K != KDict {
		want = nil
		if _, err := o.Get(path...); err == nil {
			return // an empty path on something that is no object: nothing is promised
		}
	}
	g, err := o.Get(path...)
	t.Op(2)
	if (err == nil) != (want != nil) || (err == nil) != (g != nil) {
		t.Failf("Get %s gives %v, %v", what(), g, err)
		return
	}
	if err == nil {
		if x := sameStrict(observe(g), want); x != "" {
			t.Failf("Get %s: %s", what(), x)
		}
	}
	if o.Contains(path...) != (want != nil) {
		t.Failf("Contains %s is %v", what(), !(want != nil))
	}
	if len(path) > 0 || d.K == KDict {
		typedReads(t, what(), o, path, want)
		if g != nil {
			typedReads(t, what()+" (looked up first)", g, nil, want)
		}
	}
	poss := lookups(d, path, true)
	g, err = o.GetIgnoreCases(path...)
	c := o.ContainsIgnoreCases(path...)
	if c != (err == nil) {
		t.Failf("ContainsIgnoreCases %s is %v, GetIgnoreCases: %v", what(), c, err)
	}
	if len(path) == 0 && d.K != KDict {
		return
	}
	ok := false
	for _, p := range poss {
		if p == nil {
			ok = ok || err != nil
		} else {
			ok = ok || err == nil && g != nil && sameStrict(observe(g), p) == ""
		}
	}
	if !ok {
		t.Failf("GetIgnoreCases %s gives %v, %v", what(), g, err)
	}
}

func init() {
	register(&Check{ID: "C12", Suites: func(quick bool) []Suite {
		var suites []Suite
		n := 4
		plen := 3
		if !quick {
			n = 5
		}
		leaves := []*V{vNull(), vBool(true), vInt(7), vFloat(2.5), vStr("12"), vStr("yes"), vStr("")}
		docs := newTreeGen(leaves, []string{"a", "A", "b", ""}).upTo(n)
		pn := []string{"a", "A", "b", "B", "", "0"}
		suites = append(suites, Suite{Name: "paths", Bound: fmt.Sprintf("all documents of up to %d nodes over 7 scalars and 4 names x all paths of up to %d of 6 names, all reads", n, plen), N: int64(len(docs)), Run: func(t *T, i int64) {
			o := docs[i].obj()
			t.Try(func() string { return "reading " + docs[i].text() }, func() {
				for k := int64(0); k < wordsUpTo(int64(len(pn)), plen); k++ {
					var path []string
					for _, x := range word(k, int64(len(pn))) {
						path = append(path, pn[x])
					}
					if len(path) == 3 && docs[i].size() < 3 && k%7 != 0 {
						continue
					}
					lookupIs(t, o, docs[i], path)
				}
			})
			t.State(docs[i].text())
			t.Sample(func() string { return docs[i].text() })
		}})
		cv := caseVariants("ab")
		cv = append(cv, "é", "É", "k", "\u212a", "K", "ß", "σ", "ς", "Σ")
		suites = append(suites, Suite{Name: "letter-case", Bound: fmt.Sprintf("all objects with 3 of %d names that differ by letter case, at two levels, looked up by each name", len(cv)), N: ipow(int64(len(cv)), 3), Run: func(t *T, i int64) {
			w := radix(i, int64(len(cv)), 3)
			in := vDict(cv[w[1]], vInt(2), cv[w[2]], vInt(3))
			d := vDict(cv[w[0]], vInt(1), cv[w[1]], in, cv[w[2]], vDict(cv[w[0]], vStr("x")))
			o := d.obj()
			t.Try(func() string { return "reading " + d.text() }, func() {
				for a := range cv {
					lookupIs(t, o, d, []string{cv[a]})
					for b := range cv {
						if b%3 == int(i)%3 {
							lookupIs(t, o, d, []string{cv[a], cv[b]})
						}
					}
				}
			})
			t.State(d.text())
		}})
		na := split1("019-+.eExX_aAnNiIfFtTrRuU \t")
		wl := 4
		if !quick {
			wl = 5
		}
		suites = append(suites, wordSuite("texts", "texts read as number, boolean and text", na, wl, func(t *T, s string) {
			d := vDict("k", vStr(s))
			lookupIs(t, d.obj(), d, []string{"k"})
		}))
		bools := []string{"true", "on", "yes", "1", "false", "off", "no", "0", "y", "n", "t", "f", "2", "null", "none"}
		var bw []string
		for _, b := range bools {
			for _, v := range caseVariants(b) {
				for _, x := range []string{"", " ", "\n", "x", "0"} {
					bw = append(bw, v+x, x+v)
				}
			}
		}
		bw = append(bw, hotStrings(1)...)
		bw = append(bw, "2021-03-04T05:06:07Z", "2021-03-04 05:06:07", "2021-03-04", "20210304050607", "2021-03-04T05:06:07.891234Z", "1614834367", "{\"l\":1}", "[1]", "12", "-1.5e3")
		suites = append(suites, Suite{Name: "words", Bound: fmt.Sprintf("%d boolean words in every letter case with additions before and behind, special words and times, read in place and with a path that goes on beyond the text", len(bw)), N: int64(len(bw)), Run: func(t *T, i int64) {
			d := vDict("k", vArr(vStr(bw[i])), "l", vStr(bw[i]))
			o := d.obj()
			lookupIs(t, o, d, []string{"l"})
			lookupIs(t, o, d, []string{"k"})
			typedReads(t, fmt.Sprintf("text %q", bw[i]), ju.NewString(bw[i]), nil, vStr(bw[i]))
			// a path beyond a text, whatever the text says
			lookupIs(t, o, d, []string{"l", "l"})
			lookupIs(t, ju.NewString(bw[i]), vStr(bw[i]), []string{"l"})
			lookupIs(t, o, d, []string{"k", "0"})
		}})
		ints, floats := intLadder(), floatLadder(false)
		suites = append(suites, Suite{Name: "numbers", Bound: "integer and float ladders, as numbers and as texts, and texts just out of range", N: int64(len(ints) + len(floats)), Run: func(t *T, i int64) {
			var l []*V
			if i < int64(len(ints)) {
				s := strconv.FormatInt(ints[i], 10)
				l = []*V{vInt(ints[i]), vStr(s), vStr(s + "0"), vStr(s + ".0"), vStr("+" + s), vStr(" " + s), vStr(s + " "), vStr("00" + s)}
			} else {
				f := floats[i-int64(len(ints))]
				l = []*V{vFloat(f), vStr(fmtFloat(f)), vStr(strconv.FormatFloat(f, 'e', -1, 64)), vStr(fmtFloat(f) + "x")}
			}
			for _, v := range l {
				d := vDict("k", v)
				o := d.obj()
				t.Try(func() string { return "reading " + d.text() }, func() {
					typedReads(t, d.text(), o, []string{"k"}, v)
					typedReads(t, v.text(), v.obj(), nil, v)
				})
			}
		}})
		// long texts of numbers
		digits := sizeLadder(420)
		suites = append(suites, Suite{Name: "long-numbers", Bound: "numbers of up to 420 digits before and behind the point, as texts and in lists of texts", N: int64(len(digits)), Run: func(t *T, i int64) {
			n := digits[i]
			z := strings.Repeat("0", n)
			for _, s := range []string{z + "7", "-" + z + "12.5", "3" + z, "2" + z + ".25", "0." + z + "5", "1." + z, "1." + strings.Repeat("3", n), "9" + strings.Repeat("9", n), "5e" + z + "2", "4" + z + "e-" + strconv.Itoa(n), "true" + z, z + "true", strings.Repeat(" ", n) + "1", "1" + strings.Repeat(" ", n)} {
				v := vStr(s)
				d := vDict("k", v, "l", vArr(v))
				o := d.obj()
				t.State(s)
				t.Try(func() string { return "reading " + brief(d.text()) }, func() {
					typedReads(t, brief(d.text()), o, []string{"k"}, v)
					typedReads(t, brief(v.text()), v.obj(), nil, v)
					lookupIs(t, o, d, []string{"l"})
				})
			}
		}})
		// long paths
		sizes := sizeLadder(520)
		suites = append(suites, Suite{Name: "deep", Bound: "paths of up to 520 names, complete, one short, one too long, one name wrong anywhere", N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			if n == 0 {
				return
			}
			for _, leaf := range []*V{vInt(5), vStr("yes"), vArr(vInt(1), vNull()), vDict("z", vNull())} {
				d := leaf
				var path []string
				for k := 0; k < n; k++ {
					d = vDict(keyName(n-1-k), d, "o", vInt(1))
					path = append(path, keyName(k))
				}
				o := d.obj()
				lookupIs(t, o, d, path)
				lookupIs(t, o, d, path[:n-1])
				lookupIs(t, o, d, append(append([]string{}, path...), "z"))
				for _, k := range []int{0, n / 2, n - 1} {
					p := append([]string{}, path...)
					p[k] = "x"
					lookupIs(t, o, d, p)
					p[k] = "o"
					lookupIs(t, o, d, p)
					p[k] = strings.ToUpper(path[k])
					lookupIs(t, o, d, p)
				}
			}
			a := vArr()
			for k := 0; k < n; k++ {
				a.A = append(a.A, vInt(int64(k)))
			}
			d := vDict("l", a, "m", vDict("l", a))
			lookupIs(t, d.obj(), d, []string{"l"})
			lookupIs(t, d.obj(), d, []string{"m", "l"})
			t.State(fmt.Sprint(n))
		}})
		return suites
	}, Assume: []string{"An empty path applied to something that is not an object is not a lookup of a name; nothing is required of it.", "Where several members match ignoring case and none exactly, any of them may be found."}})
}

// ---- C25 ----

// textEq tells whether g is the text of v: the text itself, or the JSON text of a value.
func textEq(g string, v *V) bool {
	if v == nil {
		return g == ""
	}
	if v.K == KStr {
		return g == v.S
	}
	return textIs(g, v) == ""
}

func textsEq(g []string, w []*V) bool {
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if !textEq(g[i], w[i]) {
			return false
		}
	}
	return true
}

func numbered(v *V) []*V {
	var r []*V
	for i := 0; v.M[strconv.Itoa(i)] != nil; i++ {
		r = append(r, v.M[strconv.Itoa(i)])
	}
	return r
}

func helperReads(t *T, o ju.JSONObject, d *V, keys []string) {
	for _, k := range keys {
		v := d.M[k]
		g, err := ju.GetStringArray(o, k)
		q := ju.GetQueryStringArray(o, k)
		t.Op(4)
		var want, wantq []*V
		ok := false
		if v != nil {
			switch v.K {
			case KArr:
				want, wantq, ok = v.A, v.A, true
			case KStr:
				want, wantq, ok = []*V{v}, []*V{v}, true
			case KInt, KFloat, KBool:
				want, ok = []*V{v}, true
			case KDict:
				wantq = numbered(v)
			}
		}
		if ok != (err == nil) || !textsEq(g, want) {
			t.Failf("GetStringArray(%s, %q) = %q, %v", brief(d.text()), k, g, err)
		}
		if !textsEq(q, wantq) {
			t.Failf("GetQueryStringArray(%s, %q) = %q, want %s", brief(d.text()), k, q, vArr(wantq...).text())
		}
		for _, def := range []bool{true, false} {
			w := def
			if v != nil {
				x := v.text()
				if v.K == KStr {
					x = v.S
				}
				switch strings.ToLower(strings.TrimSpace(x)) {
				case "1", "true", "on", "yes":
					w = true
				default:
					w = false
				}
			}
			if g := ju.QueryBoolean(o, k, def); g != w {
				t.Failf("QueryBoolean(%s, %q, %v) = %v", brief(d.text()), k, def, g)
			}
		}
		if v != nil && v.K == KArr {
			x, _ := o.Get(k)
			if a, ok := x.(*ju.JSONArray); !ok || !textsEq(a.GetStringArray(), want) {
				t.Failf("GetStringArray of %q in %s: %v", k, brief(d.text()), x)
			}
			l, _ := o.GetArray(k)
			if g := ju.JSONArray2StringArray(l); !textsEq(g, want) {
				t.Failf("JSONArray2StringArray of %q in %s: %q", k, brief(d.text()), g)
			}
		}
		if v != nil {
			if g := ju.GetAnyString(o, []string{"--", k}); !textEq(g, v) {
				t.Failf("GetAnyString(%s, [-- %s]) = %q", brief(d.text()), k, g)
			}
		}
	}
}

func namedReads(t *T, o ju.JSONObject, d *V, names []string) {
	wk := ""
	var wv *V
	for _, k := range names {
		if v := d.M[k]; v != nil && !(v.K == KStr && v.S == "") {
			wv, wk = v, k
			break
		}
	}
	g, gk := ju.GetAnyString2(o, names)
	t.Op(3)
	if !textEq(g, wv) || gk != wk {
		t.Failf("GetAnyString2(%s, %q) = %q, %q", brief(d.text()), names, g, gk)
	}
	if g := ju.GetAnyString(o, names); !textEq(g, wv) {
		t.Failf("GetAnyString(%s, %q) = %q", brief(d.text()), names, g)
	}
	bad, null := "", false
	missing := false
	for _, k := range names {
		if v := d.M[k]; v == nil || v.K == KNull {
			bad, null, missing = k, v != nil, true
			break
		}
	}
	err := ju.CheckRequiredFields(o, names)
	if missing != (err != nil) {
		t.Failf("CheckRequiredFields(%s, %q) = %v", brief(d.text()), names, err)
	} else if missing {
		w, n := error(ju.ErrMissingInputField), error(ju.ErrNilInputField)
		if null {
			w, n = n, w
		}
		_ = n
		if !strings.Contains(err.Error(), bad) || !errors.Is(err, w) && !strings.Contains(err.Error(), w.Error()) {
			t.Failf("CheckRequiredFields(%s, %q) = %v, which does not say that %q is %v", brief(d.text()), names, err, bad, w)
		}
	}
}

func init() {
	register(&Check{ID: "C25", Suites: func(quick bool) []Suite {
		var suites []Suite
		shapes := []*V{nil, vNull(), vStr(""), vStr("x"), vStr(" YES "), vStr("off"), vInt(0), vInt(1), vFloat(1.5), vBool(true), vBool(false), vArr(), vArr(vStr("a"), vNull(), vInt(1), vArr(vStr("n")), vDict("k", vFloat(0.5)), vStr("")), vDict(), vDict("0", vStr("p"), "1", vInt(2), "3", vStr("z")), vDict("1", vStr("q"), "00", vStr("r")), vDict("0", vNull(), "1", vDict("0", vStr("s"))), vDict("0", vStr("t"), "1", vStr(""), "2", vStr("u"), "k", vStr("v"))}
		if !quick {
			shapes = append(shapes, vStr("0"), vStr("true"), vStr("null"), vArr(vArr()), vArr(vNull()))
		}
		k := int64(len(shapes))
		names := []string{"f", "g", "h"}
		ask := []string{"f", "g", "h", "zz"}
		suites = append(suites, Suite{Name: "shapes", Bound: fmt.Sprintf("three fields, each of %d shapes (absent, null, scalars of each type, lists, numbered objects) x all lists of up to 3 of 4 names", k), N: k * k * k, Run: func(t *T, i int64) {
			d := vDict()
			for p, x := range radix(i, k, 3) {
				if shapes[x] != nil {
					d.M[names[p]] = shapes[x]
				}
			}
			o := d.obj()
			t.Try(func() string { return "helpers on " + d.text() }, func() {
				helperReads(t, o, d, ask)
				for w := int64(0); w < wordsUpTo(4, 3); w++ {
					var l []string
					for _, x := range word(w, 4) {
						l = append(l, ask[x])
					}
					namedReads(t, o, d, l)
				}
			})
			t.State(d.text())
			t.Sample(func() string { return d.text() })
		}})
		// numbered prefix fields
		ps := []*V{nil, vNull(), vStr("v"), vDict("k", vInt(1)), vArr(), vInt(0), vStr("")}
		pk := int64(len(ps))
		suites = append(suites, Suite{Name: "prefix", Bound: "numbered fields f.0 to f.4, each of 7 shapes, with other prefixes around", N: ipow(pk, 5), Run: func(t *T, i int64) {
			d := vDict("f", vStr("no"), "f.", vStr("no"), "f.00", vStr("no"), "f.01", vStr("no"), "ff.0", vStr("o"), ".0", vStr("e"), "f.0.0", vStr("n"), "f.-1", vStr("no"), "F.0", vStr("no"))
			for p, x := range radix(i, pk, 5) {
				if ps[x] != nil {
					d.M[fmt.Sprintf("f.%d", p)] = ps[x]
				}
			}
			o := d.obj()
			for _, pre := range []string{"f", "ff", "", "f.0", "g"} {
				w := vArr()
				for n := 0; ; n++ {
					v := d.M[fmt.Sprintf("%s.%d", pre, n)]
					if v == nil || v.K == KNull {
						break
					}
					w.A = append(w.A, v)
				}
				g := vArr()
				for _, x := range ju.GetArrayOfPrefix(o, pre) {
					g.A = append(g.A, observe(x))
				}
				t.Op(1)
				if x := same(g, w); x != "" {
					t.Failf("GetArrayOfPrefix(%s, %q): %s", d.text(), pre, x)
				}
			}
			t.State(d.text())
		}})
		sizes := withJumbo(sizeLadder(1030), true, 2500, 10001)
		suites = append(suites, Suite{Name: "sizes", Bound: "numbered fields, numbered objects and lists of up to 10001 entries, complete or with one entry missing", N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			for _, miss := range []int{-1, 0, n / 2, n - 1, 9, 10, 11} {
				d, nd, l := vDict(), vDict(), vArr()
				first := n
				for p := 0; p < n; p++ {
					l.A = append(l.A, vStr(keyName(p)))
					if p == miss {
						first = p
						continue
					}
					d.M[fmt.Sprintf("f.%d", p)] = vInt(int64(p))
					nd.M[strconv.Itoa(p)] = vStr(keyName(p))
				}
				d.M["n"], d.M["l"] = nd, l
				o := d.obj()
				g := ju.GetArrayOfPrefix(o, "f")
				bad := len(g) != first
				for p, x := range g {
					v, err := x.Int()
					bad = bad || err != nil || v != int64(p)
				}
				if bad {
					t.Failf("%d numbered fields without %d: GetArrayOfPrefix gives %d", n, miss, len(g))
				}
				helperReads(t, o, d, []string{"n", "l"})
				// required fields and the first of many names
				if n > 2500 {
					continue
				}
				var names []string
				for p := 0; p < n; p++ {
					names = append(names, fmt.Sprintf("f.%d", p))
				}
				if miss >= 0 && miss < n {
					namedReads(t, o, d, names)
					d.M[fmt.Sprintf("f.%d", miss)] = vNull()
				}
				namedReads(t, d.obj(), d, names)
				namedReads(t, d.obj(), d, append([]string{"x", "l"}, names...))
				e := vDict("z", vNull())
				for p := 0; p < n; p++ {
					e.M[fmt.Sprintf("f.%d", p)] = vStr("")
				}
				e.M["w"] = vStr("x")
				namedReads(t, e.obj(), e, append(names, "w"))
				namedReads(t, e.obj(), e, append(names, "z"))
			}
			t.State(fmt.Sprint(n))
		}})
		// queries: the flags and lists come from a parsed query string
		hot := hotStrings(1)
		suites = append(suites, Suite{Name: "hot-names", Bound: "each special text as field name and value; helpers on no document and on documents that are no objects", N: int64(len(hot)), Run: func(t *T, i int64) {
			h := hot[i]
			d := vDict(h, vStr(h), h+"x", vArr(vStr(h), vDict("a", vStr(h))), h+".0", vStr(h))
			o := d.obj()
			t.Try(func() string { return "helpers on " + d.text() }, func() {
				helperReads(t, o, d, []string{h, h + "x", "x" + h})
				namedReads(t, o, d, []string{h + "?", h})
				namedReads(t, o, d, []string{h, h + "x", h + ".0", "x" + h})
				if a := ju.GetArrayOfPrefix(o, h); len(a) != 1 || same(observe(a[0]), vStr(h)) != "" {
					t.Failf("GetArrayOfPrefix(%s, %q) gives %v", d.text(), h, a)
				}
				for _, x := range []ju.JSONObject{nil, ju.JSONNull, ju.NewString(h), ju.NewArray(o), ju.NewInt(1), ju.JSONTrue, ju.NewFloat64(1)} {
					if q := ju.GetQueryStringArray(x, h); len(q) != 0 {
						t.Failf("GetQueryStringArray(%v, %q) = %q", x, h, q)
					}
					if !ju.QueryBoolean(x, h, true) || ju.QueryBoolean(x, h, false) {
						t.Failf("QueryBoolean(%v, %q) is not the default", x, h)
					}
					if a := ju.GetArrayOfPrefix(x, h); len(a) != 0 {
						t.Failf("GetArrayOfPrefix(%v, %q) = %v", x, h, a)
					}
					if v, k := ju.GetAnyString2(x, []string{h}); v != "" || k != "" || ju.GetAnyString(x, []string{h}) != "" {
						t.Failf("GetAnyString2(%v, %q) = %q, %q", x, h, v, k)
					}
					if x != nil {
						if err := ju.CheckRequiredFields(x, []string{h}); err == nil {
							t.Failf("CheckRequiredFields(%v, %q) reports nothing", x, h)
						}
						if _, err := ju.GetStringArray(x, h); err == nil {
							t.Failf("GetStringArray(%v, %q) reports nothing", x, h)
						}
					}
				}
			})
			t.State(h)
		}})
		vals := []string{"", "a", "0", "1", "TRUE", "no", "x y"}
		suites = append(suites, Suite{Name: "queries", Bound: "parsed query strings with up to 3 values for each of two names", N: ipow(int64(wordsUpTo(int64(len(vals)), 3)), 2), Run: func(t *T, i int64) {
			n := wordsUpTo(int64(len(vals)), 3)
			var parts []string
			d := vDict()
			for p, w := range []int64{i / n, i % n} {
				name := names[p]
				var l []*V
				for _, x := range word(w, int64(len(vals))) {
					l = append(l, vStr(vals[x]))
					parts = append(parts, name+"="+strings.ReplaceAll(vals[x], " ", "+"))
				}
				if len(l) == 1 {
					d.M[name] = l[0]
				} else if len(l) > 1 {
					d.M[name] = vArr(l...)
				}
			}
			o, err := ju.ParseQueryString(strings.Join(parts, "&"))
			if err != nil {
				t.Failf("ParseQueryString(%q): %v", strings.Join(parts, "&"), err)
				return
			}
			helperReads(t, o, d, []string{"f", "g", "h"})
			namedReads(t, o, d, []string{"f", "g"})
		}})
		return suites
	}, Assume: []string{"The text of a null field is null, so the flag is false and the first-non-empty read finds the word null; this is what the reads of the interface give."}})
}

// ---- C28 ----

var reErr = regexp.MustCompile(`(?s)JSON error (.*) at (\d+): (.*)\.\.\.$`)

// reportIs checks one report against the text; it returns the position.
func reportIs(t *T, what string, text []byte, msg string, pos int) int {
	m := reErr.FindStringSubmatch(msg)
	if m == nil {
		t.Failf("%s: no report in %q", what, brief(msg))
		return -1
	}
	// the message itself may contain anything, so anchor on the last position that fits
	p, err := strconv.Atoi(m[2])
	if err != nil {
		t.Failf("%s: %q", what, brief(msg))
		return -1
	}
	if pos >= 0 && p != pos {
		t.Failf("%s: reports position %d, want %d", what, p, pos)
		return p
	}
	if len(text) == 0 {
		if p != 0 || m[3] != "" {
			t.Failf("%s: empty text reported as %q", what, msg)
		}
		return p
	}
	if p < 0 || p >= len(text) {
		t.Failf("%s: position %d is outside of the %d bytes", what, p, len(text))
		return p
	}
	want := excerpt(text, p)
	if m[3] != want {
		t.Failf("%s: excerpt %q at %d, want %q", what, m[3], p, want)
	}
	return p
}

func excerpt(text []byte, p int) string {
	a, b := p-10, p+10
	if a < 0 {
		a = 0
	}
	if b > len(text) {
		b = len(text)
	}
	return string(text[a:p]) + "^" + string(text[p:b])
}

func init() {
	register(&Check{ID: "C28", Suites: func(quick bool) []Suite {
		var suites []Suite
		max := 64
		if !quick {
			max = 200
		}
		fills := []func(n int) []byte{
			func(n int) []byte {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte('A' + i%57)
				}
				return b
			},
			func(n int) []byte {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i*37 + 11)
				}
				return b
			},
			func(n int) []byte { return bytes.Repeat([]byte("^"), n) },
			func(n int) []byte { return bytes.Repeat([]byte("%d\n é"), n)[:n] },
			func(n int) []byte { return bytes.Repeat([]byte("..."), n)[:n] },
			func(n int) []byte { return make([]byte, n) },
		}
		msgs := []string{"Truncated", "", "%s %d%%"}
		one := func(t *T, text []byte, pos int, msg string) {
			t.Try(func() string { return fmt.Sprintf("NewJSONError(%d bytes, %d, %q)", len(text), pos, msg) }, func() {
				keep := append([]byte{}, text...)
				e := ju.NewJSONError(text, pos, msg)
				t.Op(1)
				if e == nil {
					t.Failf("NewJSONError(%d bytes, %d) is nil", len(text), pos)
					return
				}
				p := pos
				if p < 0 {
					p = 0
				}
				if p > len(text)-1 {
					p = len(text) - 1
				}
				if len(text) == 0 {
					p = 0
				}
				s := e.Error()
				want := fmt.Sprintf("JSON error %s at %d: %s...", msg, p, excerpt(text, p))
				if len(text) == 0 {
					want = fmt.Sprintf("JSON error %s at 0: ...", msg)
				}
				if s != want {
					t.Failf("NewJSONError(%d bytes, %d, %q) says %q, want %q", len(text), pos, msg, s, want)
				}
				if !bytes.Equal(keep, text) {
					t.Failf("NewJSONError(%q, %d) changes the text", keep, pos)
				}
				// the text may be reused by the caller
				for i := range text {
					text[i] = '#'
				}
				if e.Error() != want {
					t.Failf("NewJSONError(%d bytes, %d): the report changes with the text", len(keep), pos)
				}
				copy(text, keep)
			})
		}
		suites = append(suites, Suite{Name: "reports", Bound: fmt.Sprintf("texts of 0 to %d bytes in %d fillings x all positions from -%d to twice the length x 3 messages", max, len(fills), 25), N: int64(max+1) * int64(len(fills)), Run: func(t *T, i int64) {
			n := int(i) / len(fills)
			text := fills[int(i)%len(fills)](n)
			for p := -25; p <= 2*n+25; p++ {
				for _, m := range msgs {
					one(t, text, p, m)
				}
			}
			t.State(string(text))
			t.Sample(func() string { return fmt.Sprintf("%q, positions -25..%d", text, 2*n+25) })
		}})
		big := []int{1000, 65535, 65536, 65537, 1 << 20}
		suites = append(suites, Suite{Name: "large", Bound: "texts up to 1 MB, positions within 25 of both ends and the middle, and the extreme integers", N: int64(len(big)), Run: func(t *T, i int64) {
			n := big[i]
			text := fills[1](n)
			for d := -25; d <= 25; d++ {
				for _, p := range []int{d, n/2 + d, n + d, 65536 + d} {
					if d%5 == 0 || n <= 1000 {
						one(t, text, p, "m")
					}
				}
			}
			for _, p := range []int{-1 << 63, -1 << 31, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1<<63 - 1} {
				one(t, text, p, "m")
				one(t, nil, p, "m")
			}
		}})
		// errors of the parser
		perr := func(t *T, s string) (int, bool) {
			var err error
			if !t.Try(func() string { return fmt.Sprintf("Parse(%q)", brief(s)) }, func() {
				_, err = ju.ParseString(s)
				t.Op(1)
			}) || err == nil {
				return 0, false
			}
			t.Outcome("rejected")
			return reportIs(t, fmt.Sprintf("Parse(%q)", brief(s)), []byte(s), err.Error(), -1), true
		}
		// the report moves with the text
		both := func(t *T, s string) {
			p, ok := perr(t, s)
			if !ok {
				return
			}
			if s == "" || s[0] != '[' && s[0] != '{' {
				return
			}
			for _, pre := range []string{" ", "\n\t  ", "[1,", "{\"kk\":", "[[],"} {
				q, ok := perr(t, pre+s)
				if !ok {
					t.Failf("Parse(%q) fails but Parse(%q) does not", s, pre+s)
				} else if q >= 0 && p >= 0 && q != p+len(pre) {
					t.Failf("Parse(%q) reports position %d, Parse(%q) position %d", s, p, pre+s, q)
				}
			}
			for _, pre := range []string{"x", "{} ", "é[["} {
				_, _, err := ju.ParseStream([]byte(pre+s), len(pre))
				t.Op(1)
				if err == nil {
					t.Failf("Parse(%q) fails but ParseStream(%q,%d) does not", s, pre+s, len(pre))
				} else if q := reportIs(t, fmt.Sprintf("ParseStream(%q,%d)", brief(pre+s), len(pre)), []byte(pre+s), err.Error(), -1); q >= 0 && p >= 0 && q != p+len(pre) {
					t.Failf("Parse(%q) reports position %d, ParseStream(%q,%d) position %d", s, p, pre+s, len(pre), q)
				}
			}
			t.State(s)
		}
		alpha := split1("{}[]:,\"'\\u1a x\n")
		wl := 5
		if !quick {
			wl = 6
		}
		suites = append(suites, wordSuite("parse-errors", "texts; each rejected one again behind white space, inside other documents and at an offset", alpha, wl, both))
		leaves := []*V{vNull(), vInt(12), vStr("a"), vStr("é\"\\")}
		dn := 4
		if !quick {
			dn = 5
		}
		docs := containersOnly(newTreeGen(leaves, []string{"a", "b\"é"}).upTo(dn))
		suites = append(suites, Suite{Name: "cut-documents", Bound: fmt.Sprintf("every proper prefix of every document of up to %d nodes", dn), N: int64(len(docs)), Run: func(t *T, i int64) {
			s := docs[i].text()
			for p := 1; p < len(s); p++ {
				both(t, s[:p])
			}
		}})
		suites = append(suites, Suite{Name: "offending-byte", Bound: fmt.Sprintf("every document of up to %d nodes, spaced, with one colon, comma or closing bracket replaced by a wrong one: the report points at the wrong byte", dn), N: int64(len(docs)), Run: func(t *T, i int64) {
			s := spaced(docs[i], func() string { return " " })
			last := byte('[')
			for _, k := range tokens(s) {
				before := last
				last = k.kind
				if before == '{' || before == '[' {
					// nothing has been read yet: what follows is read as a name or word first
					continue
				}
				for _, w := range map[byte]string{'}': "]:", ']': "}:", ',': ":", ':': ",}]"}[k.kind] {
					x := s[:k.from] + string(w) + s[k.to:]
					if p, ok := perr(t, x); !ok {
						t.Failf("Parse(%q) succeeds", x)
					} else if p >= 0 && p != k.from {
						// a value may be missing before the wrong byte: then it is read as an empty word first
						if !(p == k.from+1 || p > k.from && strings.TrimSpace(x[k.from+1:p]) == "") {
							t.Failf("Parse(%q) reports position %d, the wrong byte is at %d", x, p, k.from)
						}
					}
				}
			}
		}})
		esc := []string{"\\u", "\\u1", "\\u12", "\\u123", "\\u12g4", "\\ug234", "\\x", "\\x4", "\\xg1", "\\x4g", "\\u00e", "\\u 123"}
		sort.Strings(esc)
		suites = append(suites, Suite{Name: "escapes", Bound: fmt.Sprintf("%d broken escapes at every position of a text of up to 60 characters, in three kinds of documents", len(esc)), N: int64(len(esc)) * 61, Run: func(t *T, i int64) {
			e, n := esc[i%int64(len(esc))], int(i)/len(esc)
			for _, q := range []string{"\"", "'"} {
				for _, tail := range []string{"", q, "y" + q, strings.Repeat("y", 30) + q} {
					s := q + strings.Repeat("x", n) + e + tail
					perr(t, s)
					both(t, "["+s+"]")
					both(t, "{"+s+":1}")
					both(t, "{\"a\":"+s+",\"b\":2}")
				}
			}
		}})
		depth := []int{9999, 10000, 10001, 10002, 12000}
		suites = append(suites, Suite{Name: "too-deep", Bound: "nesting around the limit", N: int64(len(depth)), Run: func(t *T, i int64) {
			perr(t, strings.Repeat("[", depth[i]))
			perr(t, strings.Repeat("{\"a\":", depth[i]))
			perr(t, strings.Repeat("[", depth[i])+strings.Repeat("]", depth[i]))
		}})
		return suites
	}})
}
