package main

import (
	"fmt"

	ju "yunion.io/x/jsonutils"
)

// ---- C10 ----

// step of a path: a member name or an index
type pstep struct {
	key string
	idx int
	arr bool
}

func (p pstep) String() string {
	if p.arr {
		return fmt.Sprintf("[%d]", p.idx)
	}
	return fmt.Sprintf(".%s", p.key)
}

func containerPaths(v *V) [][]pstep {
	var r [][]pstep
	var walk func(v *V, p []pstep)
	walk = func(v *V, p []pstep) {
		switch v.K {
		case KArr:
			r = append(r, append([]pstep{}, p...))
			for i, x := range v.A {
				walk(x, append(append([]pstep{}, p...), pstep{idx: i, arr: true}))
			}
		case KDict:
			r = append(r, append([]pstep{}, p...))
			for _, k := range v.keys() {
				walk(v.M[k], append(append([]pstep{}, p...), pstep{key: k}))
			}
		}
	}
	walk(v, nil)
	return r
}

func walkObj(o ju.JSONObject, p []pstep) ju.JSONObject {
	for _, s := range p {
		var err error
		if s.arr {
			o, err = o.GetAt(s.idx)
		} else {
			o, err = o.Get(s.key)
		}
		if err != nil {
			panic(err)
		}
	}
	return o
}

func walkV(v *V, p []pstep) *V {
	for _, s := range p {
		if s.arr {
			v = v.A[s.idx]
		} else {
			v = v.M[s.key]
		}
	}
	return v
}

// editNode applies edit number e to a container; it reports whether there is such an edit.
func editNode(o ju.JSONObject, m *V, e int) (string, bool) {
	mark := vStr("EDIT")
	if m.K == KDict {
		d := o.(*ju.JSONDict)
		ks := m.keys()
		switch e {
		case 0:
			d.Set("new", mark.obj())
			m.M["new"] = mark
			return "Set(new)", true
		case 1, 2, 3:
			if len(ks) == 0 {
				return "", false
			}
			k := ks[0]
			if e == 2 {
				k = ks[len(ks)-1]
			}
			if e == 3 {
				d.Remove(k)
				delete(m.M, k)
				return "Remove", true
			}
			d.Set(k, mark.obj())
			m.M[k] = mark
			return "Set(existing)", true
		case 4:
			d.Update(vDict("", mark, "u", mark).obj())
			m.M[""], m.M["u"] = mark, mark
			return "Update", true
		case 5:
			d.Add(mark.obj(), "p", "q")
			if addPath(m, mark, []string{"p", "q"}) {
				return "Add(p,q)", true
			}
		}
		return "", false
	}
	a := o.(*ju.JSONArray)
	switch e {
	case 0:
		a.Add(mark.obj())
		m.A = append(m.A, mark)
		return "Add", true
	case 1, 2:
		if len(m.A) == 0 {
			return "", false
		}
		i := 0
		if e == 2 {
			i = len(m.A) - 1
		}
		a.SetAt(i, mark.obj())
		m.A[i] = mark
		return "SetAt", true
	case 3:
		a.Add(mark.obj(), vArr(mark).obj())
		m.A = append(m.A, mark, vArr(mark))
		return "Add(2)", true
	}
	return "", false
}

type deepCopier interface{ DeepCopy() interface{} }

func copyIs(t *T, o ju.JSONObject, m *V, way int) (ju.JSONObject, bool) {
	s := o.String()
	var c ju.JSONObject
	if way == 1 {
		x, ok := o.(deepCopier)
		if !ok {
			return nil, false
		}
		c, ok = x.DeepCopy().(ju.JSONObject)
		if !ok {
			t.Failf("%s: DeepCopy() is no document", brief(s))
			return nil, false
		}
	} else {
		c = ju.DeepCopy(o)
	}
	t.Op(4)
	if c == nil {
		t.Failf("the deep copy of %s is nil", brief(s))
		return nil, false
	}
	if x := same(observe(c), m); x != "" {
		t.Failf("the deep copy of %s: %s", brief(s), x)
	}
	if c.String() != s || c.PrettyString() != o.PrettyString() {
		t.Failf("the deep copy of %s prints %s", brief(s), brief(c.String()))
	}
	if !c.Equals(o) || !o.Equals(c) {
		t.Failf("the deep copy of %s is not equal to it", brief(s))
	}
	if fmt.Sprintf("%T", c) != fmt.Sprintf("%T", o) {
		t.Failf("the deep copy of %s is a %T", brief(s), c)
	}
	return c, true
}

func deepCopyEdits(t *T, d *V, edits int) {
	t.Try(func() string { return "copying " + brief(d.text()) }, func() {
		paths := containerPaths(d)
		for way := 0; way < 2; way++ {
			o := d.obj()
			if _, ok := copyIs(t, o, d, way); !ok {
				continue
			}
			for _, p := range paths {
				for e := 0; e < edits; e++ {
					for side := 0; side < 2; side++ {
						o := d.obj()
						var c ju.JSONObject
						if way == 1 {
							c = o.(deepCopier).DeepCopy().(ju.JSONObject)
						} else {
							c = ju.DeepCopy(o)
						}
						mo, mc := d.clone(), d.clone()
						var name string
						var ok bool
						if side == 0 {
							name, ok = editNode(walkObj(c, p), walkV(mc, p), e)
						} else {
							name, ok = editNode(walkObj(o, p), walkV(mo, p), e)
						}
						if !ok {
							continue
						}
						t.Op(3)
						if x := same(observe(o), mo); x != "" {
							t.Failf("%s, %s at %v of the %s: the original: %s", brief(d.text()), name, p, []string{"copy", "original"}[side], x)
						}
						if x := same(observe(c), mc); x != "" {
							t.Failf("%s, %s at %v of the %s: the copy: %s", brief(d.text()), name, p, []string{"copy", "original"}[side], x)
						}
					}
				}
			}
		}
		if len(d.text()) < 300 {
			t.State(d.text())
		}
	})
}

type handles struct {
	o [3]ju.JSONObject
	m [3]*V
	n int64
}

type hOp struct {
	name string
	f    func(h *handles) string
}

func deepOps() []hOp {
	var ops []hOp
	nm := "xyz"
	add := func(n string, f func(h *handles) string) { ops = append(ops, hOp{n, f}) }
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			i, j := i, j
			if i == j {
				continue
			}
			add(fmt.Sprintf("%c=DeepCopy(%c)", nm[i], nm[j]), func(h *handles) string {
				h.o[i], h.m[i] = ju.DeepCopy(h.o[j]), h.m[j].clone()
				return ""
			})
		}
	}
	for i := 0; i < 3; i++ {
		i := i
		add(fmt.Sprintf("%c={w:%c.DeepCopy()}", nm[i], nm[i]), func(h *handles) string {
			if h.m[i].size() > 60 {
				return ""
			}
			d := ju.NewDict()
			d.Set("w", h.o[i].(deepCopier).DeepCopy().(ju.JSONObject))
			d.Set("d", ju.NewDict())
			d.Set("a", ju.NewArray())
			h.o[i], h.m[i] = d, vDict("w", h.m[i].clone(), "d", vDict(), "a", vArr())
			return ""
		})
		edit := func(n string, p []pstep, e int) {
			add(fmt.Sprintf("%c%v:%s", nm[i], p, n), func(h *handles) string {
				o, m := h.o[i], h.m[i]
				for _, s := range p {
					if s.arr && (m.K != KArr || len(m.A) <= s.idx) || !s.arr && (m.K != KDict || m.M[s.key] == nil) {
						return ""
					}
					var err error
					if s.arr {
						o, err = o.GetAt(s.idx)
						m = m.A[s.idx]
					} else {
						o, err = o.Get(s.key)
						m = m.M[s.key]
					}
					if err != nil {
						return err.Error()
					}
				}
				if !isContainer(m) {
					return ""
				}
				h.n++
				v := vInt(h.n)
				if m.K == KArr {
					if e == 2 && len(m.A) > 0 {
						o.(*ju.JSONArray).SetAt(0, v.obj())
						m.A[0] = v
					} else {
						o.(*ju.JSONArray).Add(v.obj())
						m.A = append(m.A, v)
					}
					return ""
				}
				switch e {
				case 0:
					o.(*ju.JSONDict).Set("e", v.obj())
					m.M["e"] = v
				case 1:
					o.(*ju.JSONDict).Remove("a")
					delete(m.M, "a")
				case 2:
					o.(*ju.JSONDict).Update(vDict("u", v, "d", vDict("x", v)).obj())
					m.M["u"], m.M["d"] = v, vDict("x", v)
				}
				return ""
			})
		}
		edit("set", nil, 0)
		edit("remove", nil, 1)
		edit("update", nil, 2)
		edit("set", []pstep{{key: "d"}}, 0)
		edit("add", []pstep{{key: "a"}}, 0)
		edit("setat", []pstep{{key: "a"}}, 2)
		edit("set", []pstep{{key: "a"}, {arr: true}}, 0)
	}
	return ops
}

// shallow handles: objects with scalar members, lists and maps handed out
type shWorld struct {
	d  [3]*ju.JSONDict
	m  [3]*V
	a  [2]*ju.JSONArray
	am [2]*V
	// collections handed out earlier, with what they held
	maps  []map[string]ju.JSONObject
	mapsM []*V
	ls    [][]ju.JSONObject
	lsM   []*V
	ss    [][]string
	ssM   [][]string
	n     int64
}

func (w *shWorld) val() *V { w.n++; return vInt(w.n) }

func (w *shWorld) check() string {
	for i := range w.d {
		if x := same(observe(w.d[i]), w.m[i]); x != "" {
			return fmt.Sprintf("object d%d: %s", i, x)
		}
		if w.d[i].String() != w.m[i].text() {
			return fmt.Sprintf("object d%d prints %s, want %s", i, w.d[i], w.m[i].text())
		}
	}
	for i := range w.a {
		if x := same(observe(w.a[i]), w.am[i]); x != "" {
			return fmt.Sprintf("list a%d: %s", i, x)
		}
	}
	for i := range w.maps {
		m := vDict()
		for k, v := range w.maps[i] {
			m.M[k] = observe(v)
		}
		if x := same(m, w.mapsM[i]); x != "" {
			return fmt.Sprintf("map %d handed out earlier: %s", i, x)
		}
	}
	for i := range w.ls {
		l := vArr()
		for _, v := range w.ls[i] {
			l.A = append(l.A, observe(v))
		}
		if x := same(l, w.lsM[i]); x != "" {
			return fmt.Sprintf("list %d handed out earlier: %s", i, x)
		}
	}
	for i := range w.ss {
		if !strsEq(w.ss[i], w.ssM[i]) {
			return fmt.Sprintf("names %d handed out earlier: %q", i, w.ss[i])
		}
	}
	return ""
}

type shOp struct {
	name string
	f    func(w *shWorld)
}

func shallow(m *V) *V {
	r := &V{K: m.K}
	if m.K == KDict {
		r.M = map[string]*V{}
		for k, v := range m.M {
			r.M[k] = v
		}
	} else {
		r.A = append([]*V{}, m.A...)
	}
	return r
}

func shallowOps() []shOp {
	var ops []shOp
	add := func(n string, f func(w *shWorld)) { ops = append(ops, shOp{n, f}) }
	for i := 0; i < 3; i++ {
		i := i
		for _, k := range []string{"a", "c", "z"} {
			k := k
			add(fmt.Sprintf("d%d.Set(%s)", i, k), func(w *shWorld) {
				v := w.val()
				w.d[i].Set(k, v.obj())
				w.m[i].M[k] = v
			})
		}
		add(fmt.Sprintf("d%d.Remove(a)", i), func(w *shWorld) {
			w.d[i].Remove("a")
			delete(w.m[i].M, "a")
		})
		add(fmt.Sprintf("d%d.RemoveIgnoreCase(B)", i), func(w *shWorld) {
			w.d[i].RemoveIgnoreCase("B")
			delete(w.m[i].M, "b")
		})
		for j := 0; j < 3; j++ {
			j := j
			if i == j {
				continue
			}
			add(fmt.Sprintf("d%d=d%d.Copy()", i, j), func(w *shWorld) { w.d[i], w.m[i] = w.d[j].Copy(), shallow(w.m[j]) })
			add(fmt.Sprintf("d%d=d%d.CopyExcludes(c)", i, j), func(w *shWorld) {
				w.d[i], w.m[i] = w.d[j].CopyExcludes("c"), shallow(w.m[j])
				delete(w.m[i].M, "c")
			})
			add(fmt.Sprintf("d%d=d%d.CopyIncludes(a,b)", i, j), func(w *shWorld) {
				w.d[i] = w.d[j].CopyIncludes("a", "b")
				m := vDict()
				for _, k := range []string{"a", "b"} {
					if v := w.m[j].M[k]; v != nil {
						m.M[k] = v
					}
				}
				w.m[i] = m
			})
			add(fmt.Sprintf("d%d.Update(d%d)", i, j), func(w *shWorld) {
				w.d[i].Update(w.d[j])
				for k, v := range w.m[j].M {
					w.m[i].M[k] = v
				}
			})
			add(fmt.Sprintf("d%d.UpdateDefault(d%d)", i, j), func(w *shWorld) {
				w.d[i].UpdateDefault(w.d[j])
				for k, v := range w.m[j].M {
					if w.m[i].M[k] == nil {
						w.m[i].M[k] = v
					}
				}
			})
		}
		if i < 2 {
			add(fmt.Sprintf("d2=part %d of Diff(d0,d1)", i), func(w *shWorld) {
				x, _, both, y := ju.Diff(w.d[0], w.d[1])
				m := vDict()
				if i == 0 {
					for k, v := range w.m[0].M {
						if w.m[1].M[k] == nil {
							m.M[k] = v
						}
					}
					// the parts are edited, too
					y.Set("q", ju.NewInt(1))
					y.Remove("a")
					both.Set("q", ju.NewInt(1))
					both.Remove("b")
					w.d[2], w.m[2] = x, m
				} else {
					for k, v := range w.m[1].M {
						if w.m[0].M[k] == nil {
							m.M[k] = v
						}
					}
					x.Set("a", ju.NewInt(1))
					x.Remove("c")
					w.d[2], w.m[2] = y, m
				}
			})
		}
		add(fmt.Sprintf("GetMap of d%d, edited", i), func(w *shWorld) {
			m, err := w.d[i].GetMap()
			if err != nil {
				panic(err)
			}
			v := w.val()
			mm := shallow(w.m[i])
			delete(m, "a")
			delete(mm.M, "a")
			m["m"], mm.M["m"] = v.obj(), v
			m["c"], mm.M["c"] = v.obj(), v
			w.maps, w.mapsM = append(w.maps, m), append(w.mapsM, mm)
		})
		add(fmt.Sprintf("Value and SortedKeys of d%d, edited", i), func(w *shWorld) {
			m := w.d[i].Value()
			v := w.val()
			mm := shallow(w.m[i])
			delete(m, "b")
			delete(mm.M, "b")
			m["n"], mm.M["n"] = v.obj(), v
			w.maps, w.mapsM = append(w.maps, m), append(w.mapsM, mm)
			ks := w.d[i].SortedKeys()
			for k := range ks {
				ks[k] = "changed"
			}
			ks = append(ks, "more")
			w.ss, w.ssM = append(w.ss, ks), append(w.ssM, append([]string{}, ks...))
			ks = w.d[i].SortedKeys()
			w.ss, w.ssM = append(w.ss, ks), append(w.ssM, w.m[i].keys())
		})
	}
	for i := 0; i < 2; i++ {
		i, j := i, 1-i
		add(fmt.Sprintf("a%d.Add", i), func(w *shWorld) {
			v := w.val()
			w.a[i].Add(v.obj())
			w.am[i].A = append(w.am[i].A, v)
		})
		add(fmt.Sprintf("a%d.SetAt(0)", i), func(w *shWorld) {
			if len(w.am[i].A) > 0 {
				v := w.val()
				w.a[i].SetAt(0, v.obj())
				w.am[i].A[0] = v
			}
		})
		add(fmt.Sprintf("a%d.SetAt(last)", i), func(w *shWorld) {
			if n := len(w.am[i].A); n > 0 {
				v := w.val()
				w.a[i].SetAt(n-1, v.obj())
				w.am[i].A[n-1] = v
			}
		})
		add(fmt.Sprintf("a%d=a%d.Copy()", i, j), func(w *shWorld) { w.a[i], w.am[i] = w.a[j].Copy(), shallow(w.am[j]) })
		add(fmt.Sprintf("a%d=NewArray(list of a%d)", i, j), func(w *shWorld) {
			l, err := w.a[j].GetArray()
			if err != nil {
				panic(err)
			}
			w.a[i], w.am[i] = ju.NewArray(l...), shallow(w.am[j])
			w.ls, w.lsM = append(w.ls, l), append(w.lsM, shallow(w.am[j]))
		})
		add(fmt.Sprintf("a%d.Add(list of a%d)", i, j), func(w *shWorld) {
			if len(w.am[i].A) > 40 {
				return
			}
			l := w.a[j].Value()
			w.a[i].Add(l...)
			w.am[i].A = append(w.am[i].A, w.am[j].A...)
			w.ls, w.lsM = append(w.ls, l), append(w.lsM, shallow(w.am[j]))
		})
		add(fmt.Sprintf("list of a%d, edited", i), func(w *shWorld) {
			l, err := w.a[i].GetArray()
			if err != nil {
				panic(err)
			}
			m := shallow(w.am[i])
			v := w.val()
			if len(l) > 0 {
				l[0], m.A[0] = v.obj(), v
			}
			l, m.A = append(l, v.obj()), append(m.A, v)
			w.ls, w.lsM = append(w.ls, l), append(w.lsM, m)
		})
		add(fmt.Sprintf("Value and texts of a%d, edited", i), func(w *shWorld) {
			l := w.a[i].Value()
			m := shallow(w.am[i])
			v := w.val()
			if n := len(l); n > 0 {
				l[n-1], m.A[n-1] = v.obj(), v
			}
			w.ls, w.lsM = append(w.ls, l), append(w.lsM, m)
			s := w.a[i].GetStringArray()
			for k := range s {
				s[k] = "changed"
			}
			w.ss, w.ssM = append(w.ss, s), append(w.ssM, append([]string{}, s...))
		})
	}
	add("list in d0 member, read by path and edited", func(w *shWorld) {
		d := ju.NewDict()
		d.Set("l", w.a[0])
		d.Set("m", w.d[0])
		l, err := d.GetArray("l")
		if err != nil {
			panic(err)
		}
		m, err := d.GetMap("m")
		if err != nil {
			panic(err)
		}
		v := w.val()
		lm, mm := shallow(w.am[0]), shallow(w.m[0])
		if len(l) > 0 {
			l[0], lm.A[0] = v.obj(), v
		}
		m["a"], mm.M["a"] = v.obj(), v
		delete(m, "b")
		delete(mm.M, "b")
		w.ls, w.lsM = append(w.ls, l), append(w.lsM, lm)
		w.maps, w.mapsM = append(w.maps, m), append(w.mapsM, mm)
	})
	add("plain value of a0 and d0, edited", func(w *shWorld) {
		x := w.d[0].Interface().(map[string]interface{})
		delete(x, "a")
		x["i"] = 1
		y := w.a[0].Interface().([]interface{})
		for k := range y {
			y[k] = nil
		}
	})
	return ops
}

func init() {
	register(&Check{ID: "C10", Suites: func(quick bool) []Suite {
		var suites []Suite
		n := 4
		if !quick {
			n = 5
		}
		docs := newTreeGen([]*V{vNull(), vInt(3), vFloat(0.25), vStr("s\"\n"), vBool(true)}, []string{"a", "b", ""}).upTo(n)
		shapes := newTreeGen([]*V{vInt(1)}, []string{"a", "b"}).upTo(n + 2)
		suites = append(suites,
			Suite{Name: "edit-either-side", Bound: fmt.Sprintf("all documents of up to %d nodes, 2 ways to copy, each container x up to 6 edits on either side", n), N: int64(len(docs)), Run: func(t *T, i int64) {
				deepCopyEdits(t, docs[i], 6)
				t.Sample(func() string { return docs[i].text() })
			}},
			Suite{Name: "edit-either-side-shapes", Bound: fmt.Sprintf("all shapes of up to %d nodes, each container x 4 edits on either side", n+2), N: int64(len(shapes)), Run: func(t *T, i int64) { deepCopyEdits(t, shapes[i], 4) }})
		lad := ladderDocs(2100, 300, 400)
		suites = append(suites, Suite{Name: "ladders", Bound: "sizes up to 2100/300/400", N: int64(len(lad)), Run: func(t *T, i int64) {
			for way := 0; way < 2; way++ {
				o := lad[i].obj()
				c, ok := copyIs(t, o, lad[i], way)
				if !ok || !isContainer(lad[i]) {
					continue
				}
				ps := containerPaths(lad[i])
				for _, k := range []int{0, len(ps) / 2, len(ps) - 1} {
					mc := lad[i].clone()
					c := ju.DeepCopy(c)
					editNode(walkObj(c, ps[k]), walkV(mc, ps[k]), 0)
					if x := same(observe(o), lad[i]); x != "" {
						t.Failf("large %s, copy edited at %d steps: the original: %s", brief(lad[i].text()), len(ps[k]), x)
					}
					if x := same(observe(c), mc); x != "" {
						t.Failf("large %s, edited: the copy: %s", brief(lad[i].text()), x)
					}
				}
			}
		}})
		hot := hotStrings(2)
		suites = append(suites, Suite{Name: "scalars", Bound: "hot strings, integer and float ladders, as scalar and member", N: int64(len(hot)), Run: func(t *T, i int64) {
			for _, d := range []*V{vStr(hot[i]), vDict(hot[i], vStr(hot[i]))} {
				for way := 0; way < 2; way++ {
					copyIs(t, d.obj(), d, way)
				}
			}
		}})
		ints, floats := intLadder(), floatLadder(false)
		suites = append(suites, Suite{Name: "numbers", Bound: "integer and float ladders, 32-bit floats too", N: int64(len(ints) + len(floats)), Run: func(t *T, i int64) {
			var d *V
			if i < int64(len(ints)) {
				d = vInt(ints[i])
			} else {
				d = vFloat(floats[i-int64(len(ints))])
				f := float32(d.F)
				if float64(f) == d.F {
					for way := 0; way < 2; way++ {
						copyIs(t, ju.NewFloat32(f), d, way)
					}
				}
			}
			for way := 0; way < 2; way++ {
				copyIs(t, d.obj(), d, way)
				copyIs(t, vArr(d).obj(), vArr(d), way)
			}
		}})
		// histories of copies and edits
		ops := deepOps()
		hd := 4
		if !quick {
			hd = 5
		}
		start := vDict("a", vArr(vDict("a", vInt(-1)), vInt(-2)), "d", vDict("a", vArr(vInt(-3))), "s", vStr("t"))
		suites = append(suites, histSuite("deep-histories", "deep copies between three documents and edits at every level", int64(len(ops)), hd, func(t *T, w []int, every bool) {
			desc := func() string { return opNames(w, func(i int) string { return ops[i].name }) }
			t.Try(desc, func() {
				h := &handles{}
				for k := range h.o {
					h.o[k], h.m[k] = start.obj(), start.clone()
				}
				h.n = 10
				for k, x := range w {
					if e := ops[x].f(h); e != "" {
						t.Failf("after %s: %s", desc(), e)
						return
					}
					t.Op(1)
					if every || k == len(w)-1 {
						for j := range h.o {
							if x := same(observe(h.o[j]), h.m[j]); x != "" {
								t.Failf("after %s (step %d): %c: %s", desc(), k, "xyz"[j], x)
								return
							}
						}
					}
				}
				t.State(h.m[0].text() + h.m[1].text() + h.m[2].text())
			})
			if len(w) == 3 {
				t.Sample(desc)
			}
		})...)
		sops := shallowOps()
		sd := 3
		if !quick {
			sd = 4
		}
		suites = append(suites, histSuite("shallow-histories", "copies, merges, diffs and handed-out collections of three objects and two lists, each then edited at its top level", int64(len(sops)), sd, func(t *T, w []int, every bool) {
			desc := func() string { return opNames(w, func(i int) string { return sops[i].name }) }
			t.Try(desc, func() {
				x := &shWorld{n: 10}
				for k := range x.d {
					x.m[k] = vDict("a", vInt(1), "b", vInt(int64(k)))
				}
				x.m[0].M["c"] = vInt(5)
				x.m[1].M["d"] = vInt(6)
				for k := range x.d {
					x.d[k] = x.m[k].obj().(*ju.JSONDict)
				}
				for k := range x.a {
					x.am[k] = vArr(vInt(int64(k)), vStr("t"), vInt(7))
					x.a[k] = x.am[k].obj().(*ju.JSONArray)
				}
				for k, o := range w {
					sops[o].f(x)
					t.Op(1)
					if every || k == len(w)-1 {
						if e := x.check(); e != "" {
							t.Failf("after %s (step %d): %s", desc(), k, e)
							return
						}
					}
				}
				t.State(x.m[0].text() + x.m[1].text() + x.m[2].text() + x.am[0].text() + x.am[1].text())
			})
			if len(w) == 2 {
				t.Sample(desc)
			}
		})...)
		// capacity: copies taken at every size, then both grown
		sizes := sizeLadder(260)
		suites = append(suites, Suite{Name: "grow-both", Bound: "objects and lists of every size up to 70 and around powers of 2 up to 260: six kinds of copies, then 3 additions on either side alternately", N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			for way := 0; way < 6; way++ {
				d, m := ju.NewDict(), vDict()
				a, am := ju.NewArray(), vArr()
				for k := 0; k < n; k++ {
					v := vInt(int64(k))
					d.Set(fmt.Sprintf("%04d", k*2), v.obj())
					m.M[fmt.Sprintf("%04d", k*2)] = v
					a.Add(v.obj())
					am.A = append(am.A, v)
				}
				var c *ju.JSONDict
				var b *ju.JSONArray
				cm, bm := shallow(m), shallow(am)
				switch way {
				case 0:
					c, b = d.Copy(), a.Copy()
				case 1:
					c = ju.NewDict()
					c.Update(d)
					l, _ := a.GetArray()
					b = ju.NewArray(l...)
				case 2:
					c = ju.NewDict()
					c.UpdateDefault(d)
					b = ju.NewArray()
					b.Add(a.Value()...)
				case 3:
					c, b = ju.DeepCopy(d).(*ju.JSONDict), ju.DeepCopy(a).(*ju.JSONArray)
				case 4:
					c, _, _, _ = ju.Diff(d, ju.NewDict())
					b = a.Copy()
				case 5:
					_, _, c, _ = ju.Diff(d, ju.DeepCopy(d).(*ju.JSONDict))
					b = a.Copy()
				}
				for s := 0; s < 6; s++ {
					v := vInt(int64(1000 + s))
					k := []string{"0001", "zzz", "0000", "", "0003", "zz"}[s]
					dd, mm, aa, aam := d, m, a, am
					if s%2 == 0 {
						dd, mm, aa, aam = c, cm, b, bm
					}
					dd.Set(k, v.obj())
					mm.M[k] = v
					aa.Add(v.obj())
					aam.A = append(aam.A, v)
					if s == 3 && n > 0 {
						aa.SetAt(n-1, v.obj())
						aam.A[n-1] = v
						dd.Remove("0000")
						delete(mm.M, "0000")
					}
				}
				for _, x := range []string{same(observe(d), m), same(observe(c), cm), same(observe(a), am), same(observe(b), bm)} {
					if x != "" {
						t.Failf("%d entries, copy %d, both grown: %s", n, way, x)
					}
				}
				t.Op(20)
			}
		}})
		return suites
	}, Assume: []string{"Entries of shallow copies are shared by design, so only whole entries are added, replaced and removed there.", "Putting one document into two others shares it by design; only copies are inserted."}})
}

// ---- C26 ----

type roTarget struct {
	name string
	p    func() interface{}
}

type roStruct struct {
	A  ju.JSONObject
	B  *ju.JSONBool
	I  *ju.JSONInt
	S  *ju.JSONString
	F  *ju.JSONFloat
	L  []ju.JSONObject
	M  map[string]ju.JSONObject
	D  *ju.JSONDict
	Ar *ju.JSONArray
	DV ju.JSONDict
	AV ju.JSONArray
	BV ju.JSONBool
	IV ju.JSONInt
	SV ju.JSONString
	P  *roStruct
}

type roPlain struct {
	A interface{}
	B bool
	I *int
	S *string
	F float64
	L []interface{}
	M map[string]string
	D struct{ X, Y int }
	P *roPlain
}

func roTargets() []roTarget {
	return []roTarget{
		{"*JSONDict", func() interface{} { return new(*ju.JSONDict) }},
		{"JSONDict", func() interface{} { return new(ju.JSONDict) }},
		{"*JSONArray", func() interface{} { return new(*ju.JSONArray) }},
		{"JSONArray", func() interface{} { return new(ju.JSONArray) }},
		{"JSONObject", func() interface{} { return new(ju.JSONObject) }},
		{"*JSONString", func() interface{} { return new(*ju.JSONString) }},
		{"JSONString", func() interface{} { return new(ju.JSONString) }},
		{"*JSONInt", func() interface{} { return new(*ju.JSONInt) }},
		{"JSONInt", func() interface{} { return new(ju.JSONInt) }},
		{"*JSONBool", func() interface{} { return new(*ju.JSONBool) }},
		{"JSONBool", func() interface{} { return new(ju.JSONBool) }},
		{"*JSONFloat", func() interface{} { return new(*ju.JSONFloat) }},
		{"JSONFloat", func() interface{} { return new(ju.JSONFloat) }},
		{"map[string]JSONObject", func() interface{} { return new(map[string]ju.JSONObject) }},
		{"map[string]*JSONBool", func() interface{} { return new(map[string]*ju.JSONBool) }},
		{"[]JSONObject", func() interface{} { return new([]ju.JSONObject) }},
		{"[]*JSONBool", func() interface{} { return new([]*ju.JSONBool) }},
		{"[]*JSONDict", func() interface{} { return new([]*ju.JSONDict) }},
		{"[]JSONDict", func() interface{} { return new([]ju.JSONDict) }},
		{"[2]JSONObject", func() interface{} { return new([2]ju.JSONObject) }},
		{"interface{}", func() interface{} { return new(interface{}) }},
		{"[]interface{}", func() interface{} { return new([]interface{}) }},
		{"map[string]interface{}", func() interface{} { return new(map[string]interface{}) }},
		{"map[string]map[string]JSONObject", func() interface{} { return new(map[string]map[string]ju.JSONObject) }},
		{"[][]JSONObject", func() interface{} { return new([][]ju.JSONObject) }},
		{"*roStruct", func() interface{} { return new(roStruct) }},
		{"roPlain", func() interface{} { return new(roPlain) }},
		{"string", func() interface{} { return new(string) }},
		{"[]string", func() interface{} { return new([]string) }},
		{"*bool", func() interface{} { return new(*bool) }},
		{"int", func() interface{} { return new(int) }},
	}
}

var roDocTexts = []string{
	`{"a":{"x":1,"y":"s"},"b":true,"d":{"x":[1,{"q":null}]},"f":1.5,"i":7,"l":[true,{"z":1},null,"t"],"m":{"k":"v"},"p":{"b":false,"i":1},"s":"txt","ar":[1,2],"dv":{"n":1},"av":[true],"bv":true,"iv":5,"sv":"w"}`,
	`{"a":[1],"b":false,"d":{"w":2},"f":2.5,"i":9,"l":[false,null],"m":{"k":"w","k2":"u"},"p":{"b":true,"s":"deep"},"s":"other","ar":[],"dv":{"o":2},"av":[false,null],"bv":false,"iv":6,"sv":""}`,
	`[true,{"a":1,"b":[2]},"s",1.5,null,[false]]`,
	`[{"k":false},true]`,
	`true`, `false`, `null`, `12`, `"yes"`, `2.25`,
}

type roWorld struct {
	docs  []ju.JSONObject
	texts []string
	tgt   []interface{}
	more  []ju.JSONObject // documents obtained on the way
	moreT []string
}

func (w *roWorld) keep(o ju.JSONObject) {
	if o != nil {
		w.more = append(w.more, o)
		w.moreT = append(w.moreT, o.String())
	}
}

func (w *roWorld) check() string {
	for i, d := range w.docs {
		if s := d.String(); s != w.texts[i] {
			return fmt.Sprintf("document %d is now %s, was %s", i, brief(s), brief(w.texts[i]))
		}
	}
	for i, d := range w.more {
		if s := d.String(); s != w.moreT[i] {
			return fmt.Sprintf("document %s obtained earlier is now %s", brief(w.moreT[i]), brief(s))
		}
	}
	if s := ju.JSONTrue.String(); s != "true" {
		return "JSONTrue is now " + s
	}
	if s := ju.JSONFalse.String(); s != "false" {
		return "JSONFalse is now " + s
	}
	if s := ju.JSONNull.String(); s != "null" {
		return "JSONNull is now " + s
	}
	if b, _ := ju.JSONTrue.Bool(); !b {
		return "JSONTrue reads false"
	}
	if b, _ := ju.JSONFalse.Bool(); b {
		return "JSONFalse reads true"
	}
	if ju.NewBool(true).String() != "true" || ju.NewBool(false).String() != "false" {
		return "NewBool is wrong"
	}
	return ""
}

func newRoWorld(quickDocs int) *roWorld {
	w := &roWorld{}
	for _, s := range roDocTexts[:quickDocs] {
		o, err := ju.ParseString(s)
		if err != nil {
			panic(err)
		}
		w.docs = append(w.docs, o)
		w.texts = append(w.texts, o.String())
	}
	// documents that use the shared constants
	d := ju.NewDict()
	d.Set("a", ju.JSONTrue)
	d.Set("b", ju.JSONFalse)
	d.Set("l", ju.NewArray(ju.JSONNull, ju.JSONTrue, ju.NewBool(false), ju.NewInt(3)))
	d.Set("d", ju.JSONNull)
	d.Set("bv", ju.JSONTrue)
	d.Set("p", ju.JSONNull)
	w.docs, w.texts = append(w.docs, d), append(w.texts, d.String())
	for _, t := range roTargets() {
		w.tgt = append(w.tgt, t.p())
	}
	return w
}

type roOp struct {
	name string
	f    func(w *roWorld)
}

// readAll performs every read the interface offers.
func readAll(o ju.JSONObject, w *roWorld) {
	o.String()
	o.PrettyString()
	o.YAMLString()
	o.QueryString()
	o.IsZero()
	o.Interface()
	o.GetString()
	o.Int()
	o.Float()
	o.Bool()
	o.GetTime()
	o.GetArray()
	o.GetMap()
	o.GetAt(0)
	for _, k := range []string{"a", "b", "d", "l", "zz", "A"} {
		o.Contains(k)
		o.ContainsIgnoreCases(k)
		if v, err := o.Get(k); err == nil {
			v.String()
		}
		o.GetIgnoreCases(k)
		o.GetString(k)
		o.Int(k)
		o.Float(k)
		o.Bool(k)
		o.GetTime(k)
		o.GetArray(k)
		o.GetMap(k)
		o.GetAt(0, k)
		o.Get(k, "x")
		o.GetIgnoreCases(k, "X")
		ju.GetStringArray(o, k)
		ju.GetQueryStringArray(o, k)
		ju.QueryBoolean(o, k, true)
		ju.GetArrayOfPrefix(o, k)
	}
	ju.GetAnyString(o, []string{"q", "s", "a"})
	ju.GetAnyString2(o, []string{"q", "s", "a"})
	ju.CheckRequiredFields(o, []string{"a", "zz"})
	switch x := o.(type) {
	case *ju.JSONDict:
		x.SortedKeys()
		x.Length()
		x.Size()
		x.Value()
		x.Copy("a")
		x.CopyIncludes("a", "b")
		x.CopyExcludes("d")
	case *ju.JSONArray:
		x.Length()
		x.Value()
		x.GetStringArray()
		x.Copy()
	}
}

func roOps(nd int) []roOp {
	var ops []roOp
	add := func(n string, f func(w *roWorld)) { ops = append(ops, roOp{n, f}) }
	names := append(append([]string{}, roDocTexts[:nd]...), "shared constants")
	ts := roTargets()
	for i := range names {
		i := i
		for j := range ts {
			j := j
			add(fmt.Sprintf("unmarshal %s into %s", brief(names[i]), ts[j].name), func(w *roWorld) { w.docs[i].Unmarshal(w.tgt[j]) })
		}
		add("read all of "+brief(names[i]), func(w *roWorld) { readAll(w.docs[i], w) })
		add("deep copy and part of "+brief(names[i]), func(w *roWorld) {
			w.keep(ju.DeepCopy(w.docs[i]))
			if v, err := w.docs[i].Get("d"); err == nil {
				w.keep(v)
			}
			if v, err := w.docs[i].GetAt(1); err == nil {
				w.keep(v)
			}
			if x, ok := w.docs[i].(*ju.JSONDict); ok {
				w.keep(x.Copy())
			}
		})
		add("marshal "+brief(names[i]), func(w *roWorld) {
			w.keep(ju.Marshal(w.docs[i]))
			w.keep(ju.MarshalAll(w.docs[i]))
			w.keep(ju.Marshal(struct{ X, Y interface{} }{w.docs[i], []ju.JSONObject{w.docs[i], w.docs[i]}}))
			w.keep(ju.Marshal(map[string]interface{}{"p": w.docs[i], "q": ju.JSONTrue}))
		})
		add("compare "+brief(names[i]), func(w *roWorld) {
			for _, d := range w.docs {
				d.Equals(w.docs[i])
				w.docs[i].Equals(d)
				x, ok1 := d.(*ju.JSONDict)
				y, ok2 := w.docs[i].(*ju.JSONDict)
				if ok1 && ok2 {
					a, b, c, e := ju.Diff(x, y)
					w.keep(a)
					w.keep(b)
					w.keep(c)
					w.keep(e)
				}
			}
		})
		add("unmarshal members of "+brief(names[i]), func(w *roWorld) {
			for _, k := range []string{"a", "b", "d", "l", "bv"} {
				for j := range w.tgt {
					if j%3 == 0 {
						w.docs[i].Unmarshal(w.tgt[j], k)
					}
				}
			}
		})
	}
	for j := range ts {
		j := j
		add("marshal target "+ts[j].name, func(w *roWorld) { w.keep(ju.DeepCopy(ju.Marshal(w.tgt[j]))) })
		add("update target "+ts[j].name+" from the other targets", func(w *roWorld) {
			for k := range w.tgt {
				if (k+j)%5 == 0 {
					ju.Update(w.tgt[j], w.tgt[k])
				}
			}
		})
	}
	return ops
}

func init() {
	register(&Check{ID: "C26", Suites: func(quick bool) []Suite {
		var suites []Suite
		nd := len(roDocTexts)
		run := func(ops []roOp, nd int, always bool) func(t *T, w []int) {
			return func(t *T, w []int) {
				desc := func() string { return opNames(w, func(i int) string { return ops[i].name }) }
				t.Try(desc, func() {
					x := newRoWorld(nd)
					for _, o := range w {
						ops[o].f(x)
						t.Op(1)
						if always {
							if e := x.check(); e != "" {
								t.Failf("after %s: %s", desc(), e)
								return
							}
						}
					}
					if e := x.check(); e != "" {
						t.Failf("after %s: %s", desc(), e)
					}
				})
				t.State(fmt.Sprint(w))
			}
		}
		all := roOps(nd)
		r2 := run(all, nd, true)
		suites = append(suites, Suite{Name: "histories-2", Bound: fmt.Sprintf("all sequences of up to 2 of %d operations on %d documents and %d persistent targets", len(all), nd+1, len(roTargets())), N: wordsUpTo(int64(len(all)), 2), Run: func(t *T, i int64) {
			w := word(i, int64(len(all)))
			r2(t, w)
			if len(w) == 2 {
				t.Sample(func() string { return opNames(w, func(i int) string { return all[i].name }) })
			}
		}})
		// three steps on the same target: the target may hold parts of the first two documents
		ts := roTargets()
		docs := len(roDocTexts) + 1
		suites = append(suites, Suite{Name: "same-target-3", Bound: fmt.Sprintf("each of %d targets filled from all triples of %d documents", len(ts), docs), N: int64(len(ts)) * ipow(int64(docs), 3), Run: func(t *T, i int64) {
			w := radix(i%ipow(int64(docs), 3), int64(docs), 3)
			j := i / ipow(int64(docs), 3)
			t.Try(func() string { return fmt.Sprint(ts[j].name, w) }, func() {
				x := newRoWorld(nd)
				for _, d := range w {
					x.docs[d].Unmarshal(x.tgt[j])
					t.Op(1)
				}
				if e := x.check(); e != "" {
					t.Failf("after unmarshalling documents %v into %s: %s", w, ts[j].name, e)
				}
			})
			t.State(fmt.Sprint("t", i))
		}})
		nd3 := 1
		if !quick {
			nd3 = 3
		}
		ops3 := roOps(nd3)
		r3 := run(ops3, nd3, false)
		n3 := ipow(int64(len(ops3)), 3)
		suites = append(suites, Suite{Name: "histories-3", Bound: fmt.Sprintf("all sequences of 3 of %d operations on %d documents", len(ops3), nd3+1), N: n3, Run: func(t *T, i int64) { r3(t, radix(i, int64(len(ops3)), 3)) }})
		// every document: reads and unmarshals leave it alone
		dd := newTreeGen([]*V{vNull(), vInt(3), vFloat(0.5), vStr("s"), vBool(true)}, []string{"a", "b", "l"}).upTo(4)
		suites = append(suites, Suite{Name: "every-document", Bound: fmt.Sprintf("all documents of up to 4 nodes, each read in every way and unmarshalled into %d targets twice", len(ts)), N: int64(len(dd)), Run: func(t *T, i int64) {
			o := dd[i].obj()
			s := o.String()
			t.Try(func() string { return s }, func() {
				w := &roWorld{docs: []ju.JSONObject{o}, texts: []string{s}}
				for _, tg := range ts {
					p := tg.p()
					o.Unmarshal(p)
					o.Unmarshal(p)
					ju.Marshal(p)
					ju.JSONArray2StringArray([]ju.JSONObject{o})
					t.Op(3)
					if e := w.check(); e != "" {
						t.Failf("%s unmarshalled into %s: %s", s, tg.name, e)
						return
					}
				}
				readAll(o, w)
				if e := w.check(); e != "" {
					t.Failf("%s, all read: %s", s, e)
				}
				if x := same(observe(o), dd[i]); x != "" {
					t.Failf("%s, all read: %s", s, x)
				}
			})
			t.State(s)
		}})
		return suites
	}, Assume: []string{"Unmarshalling into interface{} hands out the list of the document itself; editing that list is an edit of the document and not part of the histories."}})
}
