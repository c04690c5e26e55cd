package main

import (
	"fmt"
	"sort"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// ---- histories ----

// histSuite enumerates every sequence of up to n of the k operations; run
// replays one from scratch.
func histSuite(name, bound string, k int64, n int, run func(t *T, w []int, every bool)) []Suite {
	b := fmt.Sprintf("%s: all sequences of up to %%d of %d operations, replayed from the start, %%s", bound, k)
	return []Suite{
		{Name: name, Bound: fmt.Sprintf(b, n, "everything read at the end"), N: wordsUpTo(k, n), Run: func(t *T, i int64) { run(t, word(i, k), false) }},
		{Name: name + "-read-all", Bound: fmt.Sprintf(b, n-1, "everything read after each step"), N: wordsUpTo(k, n-1), Run: func(t *T, i int64) { run(t, word(i, k), true) }},
	}
}

func strsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// foldMatches lists the members that match a name ignoring case.
func foldMatches(m *V, k string) []string {
	if m.M[k] != nil {
		return []string{k}
	}
	var r []string
	for _, x := range m.keys() {
		if strings.EqualFold(x, k) {
			r = append(r, x)
		}
	}
	return r
}

// textIs compares a printed text with the model, whichever way strings are escaped.
func textIs(s string, m *V) string {
	if s == m.text() {
		return ""
	}
	got, err := stdDecode(s)
	if err != nil {
		return fmt.Sprintf("text %s: %v", brief(s), err)
	}
	if x := same(got, m); x != "" {
		return fmt.Sprintf("text %s, want %s: %s", brief(s), brief(m.text()), x)
	}
	if x := keysSortedOnce(s); x != "" {
		return fmt.Sprintf("text %s: %s", brief(s), x)
	}
	return ""
}

// dictIs compares every read of an object with the model; it returns the first difference.
func dictIs(t *T, d *ju.JSONDict, m *V, names []string) string {
	ks := d.SortedKeys()
	if !strsEq(ks, m.keys()) {
		return fmt.Sprintf("names %q, want %q", ks, m.keys())
	}
	if d.Length() != len(m.M) || d.Size() != len(m.M) {
		return fmt.Sprintf("length %d, size %d, want %d", d.Length(), d.Size(), len(m.M))
	}
	if d.IsZero() != (len(m.M) == 0) {
		return fmt.Sprintf("IsZero %v with %d members", d.IsZero(), len(m.M))
	}
	if x := textIs(d.String(), m); x != "" {
		return x
	}
	for _, k := range names {
		want := m.M[k]
		if d.Contains(k) != (want != nil) {
			return fmt.Sprintf("Contains(%q) = %v", k, d.Contains(k))
		}
		v, err := d.Get(k)
		if (err == nil) != (want != nil) {
			return fmt.Sprintf("Get(%q): %v, want %v", k, err, want)
		}
		if want != nil {
			if x := same(observe(v), want); x != "" {
				return fmt.Sprintf("Get(%q): %s", k, x)
			}
		}
		fm := foldMatches(m, k)
		if d.ContainsIgnoreCases(k) != (len(fm) > 0) {
			return fmt.Sprintf("ContainsIgnoreCases(%q) = %v", k, d.ContainsIgnoreCases(k))
		}
		v, err = d.GetIgnoreCases(k)
		if (err == nil) != (len(fm) > 0) {
			return fmt.Sprintf("GetIgnoreCases(%q): %v", k, err)
		}
		if len(fm) > 0 {
			ok := false
			for _, f := range fm {
				ok = ok || same(observe(v), m.M[f]) == ""
			}
			if !ok {
				return fmt.Sprintf("GetIgnoreCases(%q) = %s", k, v)
			}
		}
	}
	if x := same(observe(d), m); x != "" {
		return "GetMap: " + x
	}
	mv := vDict()
	for k, v := range d.Value() {
		mv.M[k] = observe(v)
	}
	if x := same(mv, m); x != "" {
		return "Value: " + x
	}
	if o := m.obj(); !d.Equals(o) || !o.Equals(d) {
		return "not Equal to a fresh object with the same members"
	}
	if x := same(fromIface(d.Interface()), m); x != "" {
		return "Interface: " + x
	}
	t.Op(8 + 4*len(names))
	return ""
}

// addPath is the model of Add.
func addPath(m *V, v *V, path []string) bool {
	for i, k := range path {
		if i == len(path)-1 {
			m.M[k] = v
			return true
		}
		n := m.M[k]
		if n == nil || n.K == KNull {
			n = vDict()
			m.M[k] = n
		}
		if n.K != KDict {
			return false
		}
		m = n
	}
	return true
}

type dictWorld struct {
	d *ju.JSONDict
	m *V
	n int64 // makes values distinct
	// objects that took part in a merge or a copy, as they were: they own
	// their top level, whatever happens to d
	others []heldDict
}

type heldDict struct {
	what string
	d    *ju.JSONDict
	m    *V
}

// hold remembers an object; m is its top level (containers by kind only).
func (w *dictWorld) hold(what string, d *ju.JSONDict, m *V) {
	top := vDict()
	for k, v := range m.M {
		top.M[k] = v
	}
	w.others = append(w.others, heldDict{what, d, top})
}

func (w *dictWorld) held() string {
	for _, h := range w.others {
		keys := h.d.SortedKeys()
		if len(keys) != len(h.m.M) {
			return fmt.Sprintf("the object of %s has the names %q afterwards", h.what, keys)
		}
		for _, k := range keys {
			v, err := h.d.Get(k)
			x := h.m.M[k]
			if x == nil || err != nil {
				return fmt.Sprintf("the object of %s has the names %q afterwards", h.what, keys)
			}
			g := observe(v)
			if g.K != x.K || x.K < KArr && same(g, x) != "" {
				return fmt.Sprintf("the object of %s has %q: %s afterwards", h.what, k, g.text())
			}
		}
	}
	return ""
}

func (w *dictWorld) val() *V { w.n++; return vInt(w.n) }

type dictOp struct {
	name string
	f    func(w *dictWorld) string
}

func setOp(k string, v *V) dictOp {
	return dictOp{fmt.Sprintf("Set(%q,%v)", k, textOr(v)), func(w *dictWorld) string {
		x := v
		if x == nil {
			x = w.val()
		}
		w.d.Set(k, x.obj())
		w.m.M[k] = x.clone()
		return ""
	}}
}

func textOr(v *V) string {
	if v == nil {
		return "#"
	}
	return v.text()
}

func addOp(v *V, path ...string) dictOp {
	return dictOp{fmt.Sprintf("Add(%s,%q)", textOr(v), path), func(w *dictWorld) string {
		x := v
		if x == nil {
			x = w.val()
		}
		err := w.d.Add(x.obj(), path...)
		if ok := addPath(w.m, x.clone(), path); ok != (err == nil) {
			return fmt.Sprintf("Add(%q) returns %v", path, err)
		}
		return ""
	}}
}

func dictOps(names []string, full bool) []dictOp {
	var ops []dictOp
	for _, k := range names {
		ops = append(ops, setOp(k, nil))
	}
	ops = append(ops, setOp(names[0], vNull()), setOp(names[1], vDict("a", vInt(1))), setOp("", vBool(true)))
	ops = append(ops,
		addOp(nil, names[0]), addOp(nil, names[0], names[1]), addOp(nil, names[1], names[0]), addOp(vNull(), names[1], names[1]), addOp(nil, names[0], names[1], names[0]), addOp(nil))
	for _, k := range names {
		k := k
		ops = append(ops, dictOp{fmt.Sprintf("Remove(%q)", k), func(w *dictWorld) string {
			_, ex := w.m.M[k]
			delete(w.m.M, k)
			if r := w.d.Remove(k); r != ex {
				return fmt.Sprintf("Remove(%q) returns %v", k, r)
			}
			return ""
		}})
	}
	for _, k := range []string{names[0], strings.ToUpper(names[1]), "zz"} {
		k := k
		ops = append(ops, dictOp{fmt.Sprintf("RemoveIgnoreCase(%q)", k), func(w *dictWorld) string {
			ex := false
			for _, x := range w.m.keys() {
				if strings.EqualFold(x, k) {
					delete(w.m.M, x)
					ex = true
				}
			}
			if r := w.d.RemoveIgnoreCase(k); r != ex {
				return fmt.Sprintf("RemoveIgnoreCase(%q) returns %v", k, r)
			}
			return ""
		}})
	}
	others := []*V{vDict(), vDict(names[0], vInt(-1), names[1], vNull()), vDict(names[1], vDict("x", vInt(-2)), strings.ToUpper(names[0]), vInt(-3), "~", vInt(-4))}
	for _, o := range others {
		o := o
		ops = append(ops, dictOp{"Update(" + o.text() + ")", func(w *dictWorld) string {
			x := o.obj().(*ju.JSONDict)
			w.d.Update(x)
			w.hold("Update", x, o)
			for k, v := range o.M {
				w.m.M[k] = v.clone()
			}
			return ""
		}}, dictOp{"UpdateDefault(" + o.text() + ")", func(w *dictWorld) string {
			x := o.obj().(*ju.JSONDict)
			w.d.UpdateDefault(x)
			w.hold("UpdateDefault", x, o)
			for k, v := range o.M {
				if w.m.M[k] == nil {
					w.m.M[k] = v.clone()
				}
			}
			return ""
		}})
	}
	ops = append(ops, dictOp{"Update([])", func(w *dictWorld) string {
		w.d.Update(ju.NewArray(ju.NewInt(1)))
		w.d.UpdateDefault(ju.JSONNull)
		w.d.Update(ju.NewString("x"))
		return ""
	}})
	keep := func(m *V, in bool, l []string) *V {
		r := vDict()
		for k, v := range m.M {
			has := false
			for _, x := range l {
				has = has || x == k
			}
			if has == in {
				r.M[k] = v
			}
		}
		return r
	}
	for _, l := range [][]string{{}, {names[0]}, {names[1], "", names[0], "zz"}} {
		l := l
		ops = append(ops, dictOp{fmt.Sprintf("d=CopyExcludes(%q)", l), func(w *dictWorld) string {
			old, om := w.d, w.m
			w.d, w.m = old.CopyExcludes(l...), keep(om, false, l)
			w.hold("CopyExcludes", old, om)
			if x := same(observe(old), om); x != "" {
				return "CopyExcludes changed the original: " + x
			}
			return ""
		}}, dictOp{fmt.Sprintf("d=CopyIncludes(%q)", l), func(w *dictWorld) string {
			old, om := w.d, w.m
			w.d, w.m = old.CopyIncludes(l...), keep(om, true, l)
			w.hold("CopyIncludes", old, om)
			if x := same(observe(old), om); x != "" {
				return "CopyIncludes changed the original: " + x
			}
			return ""
		}})
	}
	ops = append(ops, dictOp{"d=Copy()", func(w *dictWorld) string {
		w.hold("Copy", w.d, w.m)
		w.d = w.d.Copy()
		return ""
	}},
		dictOp{"d=Copy(name)", func(w *dictWorld) string {
			w.hold("Copy", w.d, w.m)
			w.d, w.m = w.d.Copy(names[0]), keep(w.m, false, names[:1])
			return ""
		}},
		dictOp{"d=Parse(String())", func(w *dictWorld) string {
			o, err := ju.ParseString(w.d.String())
			if err != nil {
				return err.Error()
			}
			w.d = o.(*ju.JSONDict)
			return ""
		}})
	return ops
}

func opNames(w []int, name func(int) string) string {
	var l []string
	for _, x := range w {
		l = append(l, name(x))
	}
	return strings.Join(l, "; ")
}

func init() {
	register(&Check{ID: "C08", Suites: func(quick bool) []Suite {
		var suites []Suite
		starts := []func() *dictWorld{
			func() *dictWorld { return &dictWorld{d: ju.NewDict(), m: vDict()} },
			func() *dictWorld {
				m := vDict("a", vInt(100), "b", vDict("a", vNull()), "c", vStr("x"))
				o, err := ju.ParseString(m.text())
				if err != nil {
					panic(err)
				}
				return &dictWorld{d: o.(*ju.JSONDict), m: m}
			},
			func() *dictWorld { return &dictWorld{d: &ju.JSONDict{}, m: vDict()} },
		}
		names := []string{"a", "b", "A"}
		probe := []string{"a", "b", "A", "B", "", "c", "C", "zz", "~", "X"}
		ops := dictOps(names, true)
		n := 4
		for s := range starts {
			s := s
			d := n
			if s == 2 {
				d = 3 // an object that never was given its table
			}
			if !quick {
				d++
			}
			suites = append(suites, histSuite([]string{"edits", "edits-parsed", "edits-zero-value"}[s], []string{"an empty object", "a parsed object", "the zero object"}[s], int64(len(ops)), d, func(t *T, w []int, every bool) {
				x := starts[s]()
				desc := func() string { return opNames(w, func(i int) string { return ops[i].name }) }
				t.Try(desc, func() {
					for k, o := range w {
						if e := ops[o].f(x); e != "" {
							t.Failf("after %s: %s", desc(), e)
							return
						}
						t.Op(1)
						if every || k == len(w)-1 {
							if e := dictIs(t, x.d, x.m, probe); e != "" {
								t.Failf("after %s (step %d): %s", desc(), k, e)
								return
							}
							if e := x.held(); e != "" {
								t.Failf("after %s (step %d): %s", desc(), k, e)
								return
							}
						}
					}
				})
				t.State(x.m.text())
				if len(w) == 3 {
					t.Sample(desc)
				}
			})...)
		}
		// long histories of sets and removals over more names: every order
		perm := permutations(6)
		suites = append(suites, Suite{Name: "orders", Bound: "all orders of inserting 6 names x all 64 subsets removed in that order and its reverse", N: int64(len(perm)), Run: func(t *T, i int64) {
			kk := []string{"", "a", "aa", "b", "Z", "é"}
			for sub := 0; sub < 64; sub++ {
				x := &dictWorld{d: ju.NewDict(), m: vDict()}
				for _, p := range perm[i] {
					setOp(kk[p], nil).f(x)
				}
				for q := range perm[i] {
					p := perm[i][q]
					if sub%2 == 1 {
						p = perm[i][len(perm[i])-1-q]
					}
					if sub>>p&1 == 1 {
						if !x.d.Remove(kk[p]) {
							t.Failf("order %v: Remove(%q) finds nothing", perm[i], kk[p])
						}
						delete(x.m.M, kk[p])
					}
				}
				if e := dictIs(t, x.d, x.m, kk); e != "" {
					t.Failf("order %v, removed %b: %s", perm[i], sub, e)
				}
				t.State(x.m.text())
			}
		}})
		// long lists of names to copy or to leave out
		suites = append(suites, Suite{Name: "name-lists", Bound: "copies of objects of up to 70 members with every second, third, the first or the last half, all and all but one of the names, in order, in reverse, doubled and with other names between, included and excluded", N: 71, Run: func(t *T, i int64) {
			n := int(i)
			x := &dictWorld{d: ju.NewDict(), m: vDict()}
			for k := 0; k < n; k++ {
				setOp(keyName(k), nil).f(x)
			}
			ks := x.m.keys()
			for sel := 0; sel < 8; sel++ {
				for way := 0; way < 4; way++ {
					var l []string
					in := vDict()
					for k := range ks {
						p := k
						if way == 1 {
							p = n - 1 - k
						}
						if [...]bool{p%2 == 0, p%2 == 1, p%3 == 0, p < n/2, p >= n/2, true, p != n/2, p == n-1}[sel] {
							l = append(l, ks[p])
							in.M[ks[p]] = x.m.M[ks[p]]
							if way == 2 {
								l = append(l, ks[p])
							}
							if way == 3 {
								l = append(l, "none"+ks[p], ks[p]+"x", strings.ToUpper(ks[p]))
							}
						}
					}
					out := vDict()
					for _, k := range ks {
						if in.M[k] == nil {
							out.M[k] = x.m.M[k]
						}
					}
					t.Try(func() string { return fmt.Sprintf("copies of %d members by %d names", n, len(l)) }, func() {
						for w, c := range []*ju.JSONDict{x.d.CopyIncludes(l...), x.d.CopyExcludes(l...), x.d.Copy(l...)} {
							t.Op(1)
							want := out
							if w == 0 {
								want = in
							}
							if s := same(observe(c), want); s != "" {
								t.Failf("copy of %d members with %q %s: %s", n, l, []string{"included", "excluded", "left out"}[w], s)
							}
						}
					})
				}
			}
			t.State(fmt.Sprint("lists ", n))
		}})
		// every pair of names
		hot := append(hotStrings(1), caseVariants("ab")...)
		hot = append(hot, "k", "K", "\u212a", "ß", "ẞ", "σ", "ς", "Σ", "é", "É", "ab\x00")
		sort.Strings(hot)
		var names2 []string
		for i := range hot {
			if i == 0 || hot[i] != hot[i-1] {
				names2 = append(names2, hot[i])
			}
		}
		suites = append(suites, Suite{Name: "name-pairs", Bound: fmt.Sprintf("all ordered pairs of %d names: set, look up, remove, ignoring case too", len(names2)), N: int64(len(names2)), Run: func(t *T, i int64) {
			for _, b := range names2 {
				a := names2[i]
				x := &dictWorld{d: ju.NewDict(), m: vDict()}
				setOp(a, nil).f(x)
				setOp(b, nil).f(x)
				if e := dictIs(t, x.d, x.m, []string{a, b, strings.ToUpper(a), strings.ToLower(b)}); e != "" {
					t.Failf("names %q, %q: %s", a, b, e)
				}
				y := x.d.CopyExcludes(a)
				if y.Contains(a) || y.Length() != len(x.m.M)-1 {
					t.Failf("names %q, %q: CopyExcludes(%q) = %s", a, b, a, y)
				}
				y = x.d.CopyIncludes(b)
				if !y.Contains(b) || y.Length() != 1 {
					t.Failf("names %q, %q: CopyIncludes(%q) = %s", a, b, b, y)
				}
				y = x.d.Copy()
				y.RemoveIgnoreCase(a)
				for _, k := range y.SortedKeys() {
					if strings.EqualFold(k, a) {
						t.Failf("names %q, %q: RemoveIgnoreCase(%q) leaves %q", a, b, a, k)
					}
				}
				if !strings.EqualFold(a, b) && !y.Contains(b) {
					t.Failf("names %q, %q: RemoveIgnoreCase(%q) removes %q", a, b, a, b)
				}
				x.d.Remove(a)
				delete(x.m.M, a)
				if e := dictIs(t, x.d, x.m, []string{a, b}); e != "" {
					t.Failf("names %q, %q, first removed: %s", a, b, e)
				}
				t.State(a + "\xff" + b)
			}
		}})
		// every subset of the spellings of one name
		spell := append(caseVariants("abc"), "é", "É", "ab", "abcd")
		suites = append(suites, Suite{Name: "spellings", Bound: fmt.Sprintf("all 2^%d subsets of %d names, 8 of them spellings of one name, removed ignoring case by each spelling", len(spell), len(spell)), N: 1 << len(spell), Run: func(t *T, i int64) {
			for _, k := range spell {
				x := &dictWorld{d: ju.NewDict(), m: vDict()}
				for b, n := range spell {
					if i>>b&1 == 1 {
						setOp(n, nil).f(x)
					}
				}
				some := false
				for n := range x.m.M {
					if strings.EqualFold(n, k) {
						some = true
						delete(x.m.M, n)
					}
				}
				if got := x.d.RemoveIgnoreCase(k); got != some {
					t.Failf("names %b of %q: RemoveIgnoreCase(%q) = %v", i, spell, k, got)
				}
				if e := dictIs(t, x.d, x.m, spell); e != "" {
					t.Failf("names %b of %q, RemoveIgnoreCase(%q): %s", i, spell, k, e)
				}
			}
			t.State(fmt.Sprint(i))
		}})
		// sizes
		max := 1100
		if !quick {
			max = 10100
		}
		sizes := withJumbo(sizeLadder(max), quick, 4097, 10001)
		suites = append(suites, Suite{Name: "sizes", Bound: fmt.Sprintf("objects of up to %d members built in 4 orders, then merged, thinned out and refilled", sizes[len(sizes)-1]), N: int64(len(sizes)) * 4, Run: func(t *T, i int64) {
			n := sizes[i/4]
			x := &dictWorld{d: ju.NewDict(), m: vDict()}
			ord := func(k int) int {
				switch i % 4 {
				case 0:
					return k
				case 1:
					return n - 1 - k
				case 2:
					return (k * 7919) % n // 7919 is prime and not among the sizes
				}
				return k ^ 1
			}
			for k := 0; k < n; k++ {
				setOp(fmt.Sprintf("%04d", ord(k)), nil).f(x)
			}
			probe := []string{"0000", "0001", fmt.Sprintf("%04d", n-1), fmt.Sprintf("%04d", n/2), fmt.Sprintf("%04d", n), "", "~"}
			chk := func(what string) {
				if e := dictIs(t, x.d, x.m, probe); e != "" {
					t.Failf("%d members in order %d, %s: %s", n, i%4, what, e)
				}
			}
			chk("built")
			o, om := ju.NewDict(), vDict()
			for k := 0; k < n; k += 3 {
				kk := fmt.Sprintf("%04d", k*2)
				o.Set(kk, ju.NewString("o"))
				om.M[kk] = vStr("o")
			}
			y := x.d.Copy()
			ym := x.m.clone()
			y.Update(o)
			for k, v := range om.M {
				ym.M[k] = v
			}
			if e := dictIs(t, y, ym, probe); e != "" {
				t.Failf("%d members, Update: %s", n, e)
			}
			y = x.d.Copy()
			ym = x.m.clone()
			y.UpdateDefault(o)
			for k, v := range om.M {
				if ym.M[k] == nil {
					ym.M[k] = v
				}
			}
			if e := dictIs(t, y, ym, probe); e != "" {
				t.Failf("%d members, UpdateDefault: %s", n, e)
			}
			for k := 0; k < n; k++ {
				if k%3 != int(i%3) {
					kk := fmt.Sprintf("%04d", ord(k))
					_, ex := x.m.M[kk]
					if x.d.Remove(kk) != ex {
						t.Failf("%d members: Remove(%q)", n, kk)
					}
					delete(x.m.M, kk)
				}
			}
			chk("thinned out")
			for k := 0; k < n; k += 2 {
				setOp(fmt.Sprintf("%04d", ord(k)), nil).f(x)
			}
			chk("refilled")
			t.State(fmt.Sprint(n, i%4))
		}})
		// paths
		pn := []string{"a", "b", ""}
		pdocs := newTreeGen([]*V{vInt(1), vNull(), vArr(vInt(1)), vStr("s")}, []string{"a", "b"}).upTo(4)
		suites = append(suites, Suite{Name: "deep-paths", Bound: "adding along paths of up to 12 names to chains of objects of up to 12 levels that end in nothing, null, a text, a number, a list or an object, with and without members around", N: 13 * 6 * 2, Run: func(t *T, i int64) {
			depth, end, more := int(i%13), int(i/13%6), i/78 == 1
			m := []*V{nil, vNull(), vStr("x"), vInt(7), vArr(vDict("a", vInt(1))), vDict("z", vInt(1))}[end]
			for k := depth - 1; k >= 0; k-- {
				d := vDict()
				if m != nil {
					d.M[fmt.Sprint("n", k)] = m
				}
				if more {
					d.M["a"] = vInt(int64(k))
					d.M["z"] = vDict("q", vNull())
				}
				m = d
			}
			if m == nil || m.K != KDict {
				return
			}
			for n := 1; n <= 12; n++ {
				for stray := -1; stray < n; stray++ {
					var path []string
					for k := 0; k < n; k++ {
						p := fmt.Sprint("n", k)
						if k == stray {
							p = []string{"z", "a", "other"}[(n+k)%3]
						}
						path = append(path, p)
					}
					x := &dictWorld{d: m.obj().(*ju.JSONDict), m: m.clone()}
					if e := addOp(vStr("new"), path...).f(x); e != "" {
						t.Failf("%s: %s", m.text(), e)
					}
					t.Op(1)
					if e := same(observe(x.d), x.m); e != "" {
						t.Failf("Add(%q) to %s: %s", path, m.text(), e)
					}
					t.State(x.m.text())
				}
			}
		}})
		var pd []*V
		for _, d := range pdocs {
			if d.K == KDict {
				pd = append(pd, d)
			}
		}
		suites = append(suites, Suite{Name: "paths", Bound: "adding along every path of up to 4 of 3 names to every object of up to 4 nodes", N: int64(len(pd)), Run: func(t *T, i int64) {
			for k := int64(0); k < wordsUpTo(3, 4); k++ {
				var path []string
				for _, d := range word(k, 3) {
					path = append(path, pn[d])
				}
				x := &dictWorld{d: pd[i].obj().(*ju.JSONDict), m: pd[i].clone()}
				if e := addOp(nil, path...).f(x); e != "" {
					t.Failf("%s: %s", pd[i].text(), e)
				}
				if e := dictIs(t, x.d, x.m, pn); e != "" {
					t.Failf("Add(%q) to %s: %s", path, pd[i].text(), e)
				}
				if len(path) > 0 {
					if v, err := x.d.Get(path...); err == nil {
						mm := x.m
						for _, p := range path {
							mm = mm.M[p]
						}
						if e := same(observe(v), mm); e != "" {
							t.Failf("Get(%q) after Add to %s: %s", path, pd[i].text(), e)
						}
					}
				}
				t.State(x.m.text())
			}
		}})
		return suites
	}})
}

// ---- C09 ----

type arrWorld struct {
	a *ju.JSONArray
	m *V
	n int64
}

func arrIs(t *T, a *ju.JSONArray, m *V) string {
	n := len(m.A)
	if a.Length() != n || a.Size() != n {
		return fmt.Sprintf("length %d, size %d, want %d", a.Length(), a.Size(), n)
	}
	if a.IsZero() != (n == 0) {
		return fmt.Sprintf("IsZero %v with %d elements", a.IsZero(), n)
	}
	if x := textIs(a.String(), m); x != "" {
		return x
	}
	at := func(i int) string {
		v, err := a.GetAt(i)
		j := i
		if j < 0 {
			j += n
		}
		if (err == nil) != (j >= 0 && j < n) {
			return fmt.Sprintf("GetAt(%d) of %d: %v", i, n, err)
		}
		if err == nil {
			if x := same(observe(v), m.A[j]); x != "" {
				return fmt.Sprintf("GetAt(%d): %s", i, x)
			}
		} else if v != nil {
			return fmt.Sprintf("GetAt(%d): value and error", i)
		}
		return ""
	}
	if n <= 80 {
		for i := -n - 2; i <= n+2; i++ {
			if e := at(i); e != "" {
				return e
			}
		}
	} else {
		for _, i := range []int{0, 1, n / 2, n - 2, n - 1, n, n + 1, -1, -2, -n / 2, 1 - n, -n, -n - 1} {
			if e := at(i); e != "" {
				return e
			}
		}
	}
	for _, i := range []int{1 << 31, -1 << 31, 1<<63 - 1, -1 << 63} {
		if e := at(i); e != "" {
			return e
		}
	}
	if x := same(observe(a), m); x != "" {
		return "GetArray: " + x
	}
	mv := vArr()
	for _, v := range a.Value() {
		mv.A = append(mv.A, observe(v))
	}
	if x := same(mv, m); x != "" {
		return "Value: " + x
	}
	if o := m.obj(); !a.Equals(o) || !o.Equals(a) {
		return "not Equal to a fresh list with the same elements"
	}
	if x := same(fromIface(a.Interface()), m); x != "" {
		return "Interface: " + x
	}
	var want []string
	for _, v := range m.A {
		if v.K == KStr {
			want = append(want, v.S)
		} else {
			want = append(want, v.text())
		}
	}
	if g := a.GetStringArray(); !strsEq(g, want) {
		return fmt.Sprintf("GetStringArray %q, want %q", g, want)
	}
	l, _ := a.GetArray()
	if g := ju.JSONArray2StringArray(l); !strsEq(g, want) {
		return fmt.Sprintf("JSONArray2StringArray %q, want %q", g, want)
	}
	t.Op(12 + 2*n)
	return ""
}

type arrOp struct {
	name string
	f    func(w *arrWorld) string
}

func arrOps() []arrOp {
	fresh := func(w *arrWorld) *V { w.n++; return vInt(w.n) }
	var ops []arrOp
	add := func(name string, f func(w *arrWorld) string) { ops = append(ops, arrOp{name, f}) }
	add("Add(#)", func(w *arrWorld) string {
		v := fresh(w)
		w.a.Add(v.obj())
		w.m.A = append(w.m.A, v)
		return ""
	})
	add("Add(#,#)", func(w *arrWorld) string {
		v, u := fresh(w), fresh(w)
		w.a.Add(v.obj(), u.obj())
		w.m.A = append(w.m.A, v, u)
		return ""
	})
	add("Add()", func(w *arrWorld) string { w.a.Add(); return "" })
	for _, v := range []*V{vNull(), vStr("s\""), vArr(vInt(1), vStr("x")), vDict("k", vArr())} {
		v := v
		add("Add("+v.text()+")", func(w *arrWorld) string {
			w.a.Add(v.obj())
			w.m.A = append(w.m.A, v)
			return ""
		})
	}
	for _, i := range []int{0, 1, -1, -2} {
		i := i
		add(fmt.Sprintf("SetAt(%d from %s)", i, map[bool]string{true: "front", false: "back"}[i >= 0]), func(w *arrWorld) string {
			j := i
			if j < 0 {
				j += len(w.m.A)
			}
			if j < 0 || j >= len(w.m.A) {
				return ""
			}
			v := fresh(w)
			w.a.SetAt(j, v.obj())
			w.m.A[j] = v
			return ""
		})
	}
	add("a=Copy()", func(w *arrWorld) string { w.a = w.a.Copy(); return "" })
	add("a=NewArray(GetArray()...)", func(w *arrWorld) string {
		l, err := w.a.GetArray()
		if err != nil {
			return err.Error()
		}
		w.a = ju.NewArray(l...)
		return ""
	})
	add("Add(own elements)", func(w *arrWorld) string {
		if len(w.m.A) > 12 {
			return ""
		}
		l, _ := w.a.GetArray()
		w.a.Add(l...)
		w.m.A = append(w.m.A, w.m.A...)
		return ""
	})
	add("a=Parse(String())", func(w *arrWorld) string {
		o, err := ju.ParseString(w.a.String())
		if err != nil {
			return err.Error()
		}
		w.a = o.(*ju.JSONArray)
		return ""
	})
	return ops
}

func init() {
	register(&Check{ID: "C09", Suites: func(quick bool) []Suite {
		var suites []Suite
		ops := arrOps()
		starts := []struct {
			name string
			f    func() *arrWorld
		}{
			{"empty", func() *arrWorld { return &arrWorld{a: ju.NewArray(), m: vArr()} }},
			{"two", func() *arrWorld {
				return &arrWorld{a: ju.NewArray(ju.NewString("p"), ju.JSONNull), m: vArr(vStr("p"), vNull())}
			}},
			{"texts", func() *arrWorld {
				return &arrWorld{a: ju.NewStringArray([]string{"a", "", "1"}), m: vArr(vStr("a"), vStr(""), vStr("1"))}
			}},
			{"parsed", func() *arrWorld {
				o, err := ju.ParseString("[1,[],\"x\"]")
				if err != nil {
					panic(err)
				}
				return &arrWorld{a: o.(*ju.JSONArray), m: vArr(vInt(1), vArr(), vStr("x"))}
			}},
			{"zero-value", func() *arrWorld { return &arrWorld{a: &ju.JSONArray{}, m: vArr()} }},
		}
		for _, s := range starts {
			s := s
			n := 5
			if s.name == "texts" || s.name == "zero-value" {
				n = 4
			}
			if !quick {
				n++
			}
			suites = append(suites, histSuite("edits-"+s.name, "a list ("+s.name+")", int64(len(ops)), n, func(t *T, w []int, every bool) {
				desc := func() string { return s.name + ": " + opNames(w, func(i int) string { return ops[i].name }) }
				t.Try(desc, func() {
					x := s.f()
					x.m = x.m.clone()
					x.n = 100
					for k, o := range w {
						if e := ops[o].f(x); e != "" {
							t.Failf("after %s: %s", desc(), e)
							return
						}
						t.Op(1)
						if every || k == len(w)-1 {
							if e := arrIs(t, x.a, x.m); e != "" {
								t.Failf("after %s (step %d): %s", desc(), k, e)
								return
							}
						}
					}
					t.State(x.m.text())
				})
				if len(w) == 3 {
					t.Sample(desc)
				}
			})...)
		}
		max := 2100
		if !quick {
			max = 10100
		}
		sizes := withJumbo(sizeLadder(max), quick, 4097, 10001)
		suites = append(suites, Suite{Name: "sizes", Bound: fmt.Sprintf("lists of up to %d elements grown one by one, in bulk and parsed, then edited at both ends and copied", sizes[len(sizes)-1]), N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			m := vArr()
			a := ju.NewArray()
			var l []ju.JSONObject
			var ss []string
			for k := 0; k < n; k++ {
				v := vStr(keyName(k))
				m.A = append(m.A, v)
				a.Add(v.obj())
				l = append(l, v.obj())
				ss = append(ss, v.S)
			}
			b := ju.NewArray(l...)
			c := ju.NewStringArray(ss)
			d := ju.NewArray()
			d.Add(l...)
			for k, x := range []*ju.JSONArray{a, b, c, d, a.Copy()} {
				if e := arrIs(t, x, m); e != "" {
					t.Failf("%d elements, way %d: %s", n, k, e)
				}
				if n > 0 {
					m2 := m.clone()
					for _, j := range []int{0, n / 2, n - 1} {
						x.SetAt(j, ju.NewInt(int64(j)))
						m2.A[j] = vInt(int64(j))
					}
					x.Add(ju.JSONTrue)
					m2.A = append(m2.A, vBool(true))
					if e := arrIs(t, x, m2); e != "" {
						t.Failf("%d elements, way %d, edited: %s", n, k, e)
					}
				}
			}
			t.State(fmt.Sprint(n))
		}})
		return suites
	}, Assume: []string{"Replacing an element outside the list is not an operation of the list (it panics like a Go slice)."}})
}
