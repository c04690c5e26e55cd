package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/gotypes"
)

// ---- C24: after-unmarshal hooks ----

// hkEntry is one call of a hook: the type and what its object held then.
var hkCalls []string

func hkLog(name string, s interface{}) {
	hkCalls = append(hkCalls, name+hkDump(reflect.ValueOf(s)))
}

// hkDump writes down everything reachable.
func hkDump(v reflect.Value) string {
	var sb strings.Builder
	hkWrite(&sb, v, 0)
	return sb.String()
}

func hkWrite(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		hkWrite(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteByte(':')
			hkWrite(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			hkWrite(sb, v.Index(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Map:
		var keys []string
		for _, k := range v.MapKeys() {
			keys = append(keys, k.String())
		}
		sort.Strings(keys)
		sb.WriteByte('<')
		for _, k := range keys {
			sb.WriteString(k + "=")
			hkWrite(sb, v.MapIndex(reflect.ValueOf(k).Convert(v.Type().Key())), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('>')
	default:
		fmt.Fprintf(sb, "%v", v.Interface())
	}
}

type hkType struct {
	name     string
	typ      reflect.Type
	promoted bool
	wrap     func() interface{}
	wrap2    func() interface{}
}

var hkOwn = map[reflect.Type]bool{}

func hkMake[S any](name string, own, promoted bool) hkType {
	t := reflect.TypeOf((*S)(nil)).Elem()
	if own {
		hkOwn[t] = true
	}
	hkOwn[reflect.TypeOf(hkWrap[S]{})] = true
	hkOwn[reflect.TypeOf(hkWrap[hkWrap[S]]{})] = true
	return hkType{name: name, typ: t, promoted: promoted,
		wrap:  func() interface{} { return &hkWrap[S]{} },
		wrap2: func() interface{} { return &hkWrap[hkWrap[S]]{} },
	}
}

// hkWrap holds a struct at every kind of position and has a hook itself.
type hkWrap[S any] struct {
	Zz   string
	F    S
	P    *S
	L    []S
	PL   []*S
	M    map[string]S
	PM   map[string]*S
	A    [2]S
	PP   **S
	LL   [][]S
	ML   map[string][]*S
	Aa   int
	Seen int `json:"-"`
}

func (w *hkWrap[S]) AfterUnmarshal() { w.Seen++; hkLog("wrap", w) }

func hkKey(f reflect.StructField) string {
	n := strings.Split(f.Tag.Get("json"), ",")[0]
	if n == "" {
		n = strings.ToLower(f.Name)
	}
	return n
}

// hkNode is an expected hook call with those that must precede it.
type hkNode struct {
	key string
	sub []*hkNode
	own bool
}

// hkWalk finds the hook calls that belong to the result v of reading d.
func hkWalk(v reflect.Value, d *V, into *hkNode) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	switch {
	case v.Kind() == reflect.Struct && d.K == KDict:
		n := &hkNode{}
		hkFields(v, d, n)
		n.own = hkOwn[v.Type()]
		if n.own {
			name := v.Type().Name()
			if strings.HasPrefix(name, "hkWrap") {
				name = "wrap"
			}
			n.key = name + hkDump(v)
		}
		into.sub = append(into.sub, n)
	case (v.Kind() == reflect.Slice || v.Kind() == reflect.Array) && d.K == KArr:
		for i := 0; i < v.Len() && i < len(d.A); i++ {
			hkWalk(v.Index(i), d.A[i], into)
		}
	case v.Kind() == reflect.Map && d.K == KDict:
		for _, k := range d.keys() {
			if e := v.MapIndex(reflect.ValueOf(k)); e.IsValid() {
				hkWalk(e, d.M[k], into)
			}
		}
	}
}

func hkFields(v reflect.Value, d *V, n *hkNode) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Anonymous {
			hkWalk(v.Field(i), d, n)
		} else if m := d.M[hkKey(f)]; m != nil && f.PkgPath == "" && f.Tag.Get("json") != "-" {
			hkWalk(v.Field(i), m, n)
		}
	}
}

func (n *hkNode) all(f func(*hkNode)) {
	for _, s := range n.sub {
		s.all(f)
	}
	if n.own {
		f(n)
	}
}

// hkJudge compares the recorded calls with the result.
func hkJudge(calls []string, v reflect.Value, d *V) (extra map[string]int, msg string) {
	top := &hkNode{}
	hkWalk(v, d, top)
	want, got := map[string]int{}, map[string]int{}
	top.all(func(n *hkNode) { want[n.key]++ })
	for _, c := range calls {
		got[c]++
	}
	for k, n := range want {
		if got[k] < n {
			return nil, fmt.Sprintf("%d calls instead of %d of the hook of the finished %s; calls: %s", got[k], n, k, strings.Join(calls, "; "))
		}
	}
	extra = map[string]int{}
	for k, n := range got {
		if n > want[k] {
			extra[k] = n - want[k]
		}
	}
	var bad string
	top.all(func(n *hkNode) {
		under := map[string]int{}
		for _, s := range n.sub {
			s.all(func(x *hkNode) { under[x.key]++ })
		}
		for _, c := range calls {
			if c == n.key {
				break
			}
			if under[c] > 0 {
				under[c]--
			}
		}
		for k, left := range under {
			if left > 0 {
				bad = fmt.Sprintf("the hook of %s runs before that of %s", n.key, k)
			}
		}
	})
	return extra, bad
}

// hkAlloc fills nil embedded pointers; outer only where a struct is embedded
// below another.
func hkAlloc(v reflect.Value, all bool) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.Anonymous {
			continue
		}
		e := v.Field(i)
		if e.Kind() == reflect.Ptr {
			inner := false
			for k := 0; k < e.Type().Elem().NumField(); k++ {
				g := e.Type().Elem().Field(k)
				inner = inner || g.Anonymous
			}
			if !all && !inner {
				continue
			}
			e.Set(reflect.New(e.Type().Elem()))
			e = e.Elem()
		}
		hkAlloc(e, all)
	}
}

func hkNested(t reflect.Type) bool {
	v := reflect.New(t).Elem()
	hkAlloc(v, false)
	return !v.IsZero()
}

// hkMembers lists the scalar members with their text-ness.
func hkMembers(t reflect.Type) (names []string, isInt []bool) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		switch {
		case f.Anonymous:
			e := f.Type
			if e.Kind() == reflect.Ptr {
				e = e.Elem()
			}
			n, b := hkMembers(e)
			names, isInt = append(names, n...), append(isInt, b...)
		case f.Tag.Get("json") != "-":
			names, isInt = append(names, hkKey(f)), append(isInt, f.Type.Kind() == reflect.Int)
		}
	}
	return
}

// hkDoc makes the object with the members of the mask; bad is a member that
// cannot be converted.
func hkDoc(names []string, isInt []bool, mask int, bad string, tag string) *V {
	d := vDict()
	for i, n := range names {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		switch {
		case n == bad:
			d.M[n] = vArr(vInt(1), vInt(2))
		case isInt[i]:
			d.M[n] = vInt(int64(100 + i + 1000*len(tag)))
		default:
			d.M[n] = vStr(n + "." + tag)
		}
	}
	return d
}

// hkValue checks that the members hold what the document says.
func hkValue(v reflect.Value, d *V, bad string) string {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			if len(d.M) > 0 && v.Type().Elem().Kind() == reflect.Struct {
				n, _ := hkMembers(v.Type().Elem())
				for _, x := range n {
					if d.M[x] != nil && x != bad {
						return x + " is below a nil pointer"
					}
				}
			}
			return ""
		}
		v = v.Elem()
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Anonymous {
			if s := hkValue(v.Field(i), d, bad); s != "" {
				return s
			}
			continue
		}
		k := hkKey(f)
		m := d.M[k]
		if m == nil || k == bad {
			continue
		}
		if g := fmt.Sprint(v.Field(i).Interface()); m.K == KInt && g != fmt.Sprint(m.I) || m.K == KStr && g != m.S {
			return fmt.Sprintf("%s is %s", k, g)
		}
	}
	return ""
}

// hkUnm runs one unmarshal with recording.
func hkUnm(f func() error) ([]string, error) {
	hkCalls = nil
	err := f()
	return hkCalls, err
}

func hkOne(t *T, what string, dst reflect.Value, d *V, bad string, f func() error) bool {
	desc := func() string { return what + " " + brief(d.text()) }
	return t.Try(desc, func() {
		calls, err := hkUnm(f)
		t.Op(1 + len(calls))
		if (err != nil) != (bad != "") {
			t.Failf("%s: %v", desc(), err)
			return
		}
		extra, msg := hkJudge(calls, dst, d)
		if msg != "" {
			t.Failf("%s: %s", desc(), msg)
		} else if len(extra) > 0 {
			for k, n := range extra {
				t.Failf("%s: %d unexpected calls of the hook of %s", desc(), n, k)
				break
			}
		}
	})
}

func hkTop(t *T, ht *hkType) {
	names, isInt := hkMembers(ht.typ)
	nested := hkNested(ht.typ)
	for mask := 0; mask < 1<<uint(len(names)); mask++ {
		bads := []string{""}
		for i, n := range names {
			if isInt[i] && mask>>uint(i)&1 == 1 {
				bads = append(bads, n)
			}
		}
		for _, bad := range bads {
			d := hkDoc(names, isInt, mask, bad, "t")
			t.State(ht.name + d.text())
			o := d.obj()
			for mode := 0; mode < 3; mode++ {
				p := reflect.New(ht.typ)
				if mode > 0 || nested {
					hkAlloc(p.Elem(), mode > 0)
				}
				hkOne(t, "top "+ht.name, p, d, bad, func() error { return o.Unmarshal(p.Interface()) })
				if s := hkValue(p, d, bad); s != "" {
					t.Failf("%s: member %s", ht.name, s)
				}
				if mode == 2 {
					// a second object in the same place
					d2 := hkDoc(names, isInt, 1<<uint(len(names))-1, bad, "second")
					o2 := d2.obj()
					if bad != "" {
						continue
					}
					hkOne(t, "again "+ht.name, p, d2, bad, func() error { return o2.Unmarshal(p.Interface()) })
				}
			}
			if mask == 1<<uint(len(names))-1 || mask == 0 {
				pp := reflect.New(reflect.PtrTo(ht.typ))
				if nested {
					pp.Elem().Set(reflect.New(ht.typ))
					hkAlloc(pp.Elem().Elem(), true)
				}
				hkOne(t, "top pointer "+ht.name, pp, d, bad, func() error { return o.Unmarshal(pp.Interface()) })
				deep := vDict("a", vDict("b", d)).obj()
				p := reflect.New(ht.typ)
				hkAlloc(p.Elem(), true)
				hkOne(t, "by path "+ht.name, p, d, bad, func() error { return deep.Unmarshal(p.Interface(), "a", "b") })
				if bad == "" {
					e := hkDoc(names, isInt, 1<<uint(len(names))-1, "", "e")
					l := vArr(d, e, d)
					s := reflect.New(reflect.SliceOf(ht.typ))
					if !nested {
						hkOne(t, "top list "+ht.name, s, l, "", func() error { return l.obj().Unmarshal(s.Interface()) })
						m := reflect.New(reflect.MapOf(reflect.TypeOf(""), ht.typ))
						md := vDict("x", d, "", e)
						hkOne(t, "top map "+ht.name, m, md, "", func() error { return md.obj().Unmarshal(m.Interface()) })
					}
					// through Update
					p := reflect.New(ht.typ)
					hkAlloc(p.Elem(), true)
					hkOne(t, "Update "+ht.name, p, d, "", func() error { return ju.Update(p.Interface(), d.obj()) })
				}
			}
		}
	}
}

var hkSpots = []string{"f", "p", "l", "pl", "m", "pm", "a", "pp", "ll", "ml"}

// hkSpot is the document at a position, with the object of that position in it.
func hkSpot(spot string, mk func(tag string) *V) *V {
	switch spot {
	case "f", "p", "pp":
		return mk(spot)
	case "l", "pl":
		return vArr(mk(spot+"0"), mk(spot+"01"))
	case "a":
		return vArr(mk("a0"), mk("a01"))
	case "ll":
		return vArr(vArr(), vArr(mk("ll0"), mk("ll01")), vArr(mk("ll")))
	case "ml":
		return vDict("u", vArr(mk("ml0")), "v", vArr())
	}
	return vDict("k", mk(spot+"k"), "kk", mk(spot+"kk"))
}

func hkPositions(t *T, ht *hkType, quick bool) {
	names, isInt := hkMembers(ht.typ)
	if hkNested(ht.typ) {
		return
	}
	full := 1<<uint(len(names)) - 1
	mk := func(tag string) *V { return hkDoc(names, isInt, full, "", tag) }
	half := func(tag string) *V { return hkDoc(names, isInt, 0x55&full, "", tag) }
	empty := func(tag string) *V { return vDict() }
	for mask := 0; mask < 1<<uint(len(hkSpots)); mask++ {
		if quick && mask&(mask-1) != 0 && mask&(mask-1)&((mask&(mask-1))-1) != 0 && mask != 1<<uint(len(hkSpots))-1 {
			continue
		}
		for fi, f := range []func(string) *V{mk, half, empty} {
			if fi > 0 && mask&(mask-1) != 0 && mask != 1<<uint(len(hkSpots))-1 {
				continue
			}
			d := vDict("zz", vStr("z"), "aa", vInt(7))
			for i, s := range hkSpots {
				if mask>>uint(i)&1 == 1 {
					d.M[s] = hkSpot(s, f)
				}
			}
			t.State(ht.name + d.text())
			o := d.obj()
			w := ht.wrap()
			hkOne(t, "in "+ht.name, reflect.ValueOf(w), d, "", func() error { return o.Unmarshal(w) })
			if mask&(mask-1) == 0 {
				t.Sample(func() string { return ht.name + " " + d.text() })
				// two objects deep, at each pair of positions
				for _, s := range hkSpots {
					dd := vDict("zz", vStr("outer"), s, hkSpot(s, func(tag string) *V {
						c := d.clone()
						c.M["zz"] = vStr(tag)
						return c
					}))
					w := ht.wrap2()
					hkOne(t, "two deep in "+ht.name, reflect.ValueOf(w), dd, "", func() error { return dd.obj().Unmarshal(w) })
				}
			}
		}
	}
	// a member that fails, at each position where the object itself stays
	for i, n := range names {
		if !isInt[i] {
			continue
		}
		fail := func(tag string) *V { return hkDoc(names, isInt, full, n, tag) }
		for _, s := range []string{"f", "p", "pp", "l", "pl", "a"} {
			var x *V
			switch s {
			case "f", "p", "pp":
				x = fail(s)
			default:
				x = vArr(mk("1"), fail("22"))
			}
			d := vDict("zz", vStr("z"), "aa", vInt(7), s, x, "m", hkSpot("m", mk))
			w := ht.wrap()
			hkOne(t, "failing in "+ht.name, reflect.ValueOf(w), d, n, func() error { return d.obj().Unmarshal(w) })
			dd := vDict("zz", vStr("outer"), "f", d, "pm", vDict())
			ww := ht.wrap2()
			hkOne(t, "failing two deep in "+ht.name, reflect.ValueOf(ww), dd, n, func() error { return dd.obj().Unmarshal(ww) })
		}
	}
	// the own members of the holder fail
	for _, bad := range []string{"aa"} {
		d := vDict("zz", vStr("z"), bad, vArr(vInt(1)), "f", mk("f"), "pm", vDict("k", mk("k")))
		w := ht.wrap()
		hkOne(t, "holder of "+ht.name, reflect.ValueOf(w), d, bad, func() error { return d.obj().Unmarshal(w) })
	}
}

// hkPromoted: structs that only inherit the hook of an embedded one.
func hkPromoted(t *T, ht *hkType) {
	names, isInt := hkMembers(ht.typ)
	for mask := 0; mask < 1<<uint(len(names)); mask++ {
		d := hkDoc(names, isInt, mask, "", "t")
		t.State(ht.name + d.text())
		for _, filled := range []bool{true, false} {
			p := reflect.New(ht.typ)
			if filled || hkNested(ht.typ) {
				hkAlloc(p.Elem(), filled)
			}
			desc := func() string { return "inheriting " + ht.name + " " + d.text() }
			func() {
				defer func() {
					if r := recover(); r != nil {
						if strings.Contains(fmt.Sprint(r), "nil pointer") && !filled {
							t.Failf("%s: calls the inherited hook on a nil embedded pointer: %v", desc(), r)
							return
						}
						t.Failf("panic in %s: %v at %s", desc(), r, panicSite())
					}
				}()
				calls, err := hkUnm(func() error { return d.obj().Unmarshal(p.Interface()) })
				t.Op(1 + len(calls))
				if err != nil {
					t.Failf("%s: %v", desc(), err)
					return
				}
				if s := hkValue(p, d, ""); s != "" {
					t.Failf("%s: member %s", desc(), s)
				}
				if len(calls) == 0 && filled {
					t.Failf("%s: no hook is called", desc())
					return
				}
				// a call by inheritance repeats the last call of the same hook;
				// the repeated one may see its own mark
				seen := map[string]bool{}
				again := false
				for _, c := range calls {
					n := c[:strings.IndexByte(c, '{')]
					if seen[n] {
						again = true
					}
					seen[n] = true
				}
				top := &hkNode{}
				hkWalk(p, d, top)
				top.all(func(n *hkNode) {
					if name := n.key[:strings.IndexByte(n.key, '{')]; !seen[name] {
						t.Failf("%s: the hook of %s is not called", desc(), name)
					}
				})
				if again {
					t.Failf("%s: the hook runs again through a struct that only inherits it", desc())
				}
			}()
		}
	}
}

type (
	hkOld struct {
		Aa  int
		New HkXH
		Old HkXH `yunion-deprecated-by:"new"`
		// a chain ending in a pointer
		C1   *HkYH `yunion-deprecated-by:"c2"`
		C2   HkYH  `yunion-deprecated-by:"c3"`
		C3   *HkYH
		Seen int `json:"-"`
	}
	hkInner struct {
		A string
		N int
	}
	hkUnexp struct {
		hkInner
		B    string
		Seen int `json:"-"`
	}
	hkGraph struct {
		Id   int
		P, Q *hkGraph
		L    []*hkGraph
		M    map[string]*hkGraph
		Seen int `json:"-"`
	}
	// hkSer is restored through a registered interface.
	hkISer interface {
		gotypes.ISerializable
		Hk()
	}
	hkSer struct {
		A    string
		X    HkXH
		Seen int `json:"-"`
	}
	hkSerBox struct {
		I    hkISer
		L    []hkISer
		M    map[string]hkISer
		Seen int `json:"-"`
	}
)

// hkBad has many members that may fail, own and embedded.
type (
	HkEmpty struct{}
	hkBad   struct {
		N1 int
		*HkEmpty
		HkBadEmb
		N2, N3, N4, N5, N6 int
		T                  string
		Seen               int `json:"-"`
	}
	HkBadEmb struct {
		M1, M2, M3 int
		MSeen      int `json:"-"`
	}
	hkRow struct {
		A    string
		N    int
		Seen int `json:"-"`
	}
	hkRows struct {
		L    []hkRow
		Pl   []*hkRow
		M    map[string]hkRow
		Pm   map[string]*hkRow
		Seen int `json:"-"`
	}
)

var hkOrder []string

func (s *HkEmpty) AfterUnmarshal()  { hkOrder = append(hkOrder, "empty") }
func (s *HkBadEmb) AfterUnmarshal() { s.MSeen++; hkOrder = append(hkOrder, "emb") }
func (s *hkBad) AfterUnmarshal()    { s.Seen++; hkOrder = append(hkOrder, "bad") }
func (s *hkRow) AfterUnmarshal()    { s.Seen++; s.A += "!" }
func (s *hkRows) AfterUnmarshal() {
	s.Seen++
	hkOrder = append(hkOrder, fmt.Sprint(len(s.L), len(s.Pl), len(s.M), len(s.Pm)))
}

// hkFailing unmarshals an object some of whose members cannot be converted.
func hkFailing(t *T, fail int64) {
	names := []string{"n1", "m1", "m2", "m3", "n2", "n3", "n4", "n5", "n6"}
	for way := 0; way < 6; way++ {
		d := vDict("t", vStr("x"))
		for k, n := range names {
			d.M[n] = vInt(int64(k + 1))
			if fail>>uint(k)&1 == 1 {
				d.M[n] = []*V{vArr(vInt(1), vInt(2)), vStr("abc"), vDict("a", vInt(1))}[way%3]
			}
		}
		t.State(d.text())
		t.Try(func() string { return "failing " + d.text() }, func() {
			hkOrder = nil
			x := &hkBad{}
			want := "[emb bad]"
			if way >= 3 {
				x.HkEmpty = &HkEmpty{}
				want = "[empty emb bad]"
			}
			err := d.obj().Unmarshal(x)
			t.Op(1)
			if (err != nil) != (fail != 0) {
				t.Failf("failing %s: error %v", d.text(), err)
			}
			if g := fmt.Sprint(hkOrder); g != want || x.Seen != 1 || x.MSeen != 1 {
				t.Failf("unmarshalling %s, %d members of which fail: hooks called: %s, want %s", d.text(), bits64(fail), g, want)
			}
			for k, g := range []int{x.N1, x.M1, x.M2, x.M3, x.N2, x.N3, x.N4, x.N5, x.N6} {
				if fail>>uint(k)&1 == 0 && g != k+1 {
					t.Failf("unmarshalling %s: member %s is %d", d.text(), names[k], g)
				}
			}
		})
	}
}

func bits64(x int64) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return
}

// hkMany unmarshals n hooked structs in lists, maps and below each other.
func hkMany(t *T, n int) {
	desc := func() string { return fmt.Sprintf("%d hooked structs", n) }
	t.Try(desc, func() {
		l, m := vArr(), vDict()
		for i := 0; i < n; i++ {
			r := vDict("a", vStr(fmt.Sprint("a", i)), "n", vInt(int64(i)))
			if i%3 == 2 {
				r = vDict("n", vInt(int64(i)))
			}
			l.A = append(l.A, r)
			m.M[keyName(i)] = r
		}
		d := vDict("l", l, "pl", l, "m", m, "pm", m)
		t.State(fmt.Sprint("many ", n))
		var x hkRows
		hkOrder = nil
		err := d.obj().Unmarshal(&x)
		t.Op(1 + 4*n)
		if err != nil {
			t.Failf("%s: %v", desc(), err)
			return
		}
		if g, w := fmt.Sprint(hkOrder), fmt.Sprintf("[%d %d %d %d]", n, n, n, n); g != w {
			t.Failf("%s: the outer hook saw %s, want %s", desc(), g, w)
			return
		}
		chk := func(where string, i int, r *hkRow) {
			a := fmt.Sprintf("a%d!", i)
			if i%3 == 2 {
				a = "!"
			}
			if r.Seen != 1 || r.A != a || r.N != i {
				t.Failf("%s: %s element %d is %+v", desc(), where, i, *r)
			}
		}
		for i := 0; i < n; i++ {
			chk("list", i, &x.L[i])
			chk("pointer list", i, x.Pl[i])
			r := x.M[keyName(i)]
			chk("map", i, &r)
			chk("pointer map", i, x.Pm[keyName(i)])
		}
	})
	if n > 300 || n == 0 {
		return
	}
	for way := 0; way < 3; way++ {
		t.Try(desc, func() {
			var d *V
			want := ""
			for i := n; i > 0; i-- {
				e := vDict("id", vInt(int64(i)))
				want += fmt.Sprint(i, " ")
				if d != nil {
					switch way {
					case 0:
						e.M["p"] = d
					case 1:
						e.M["l"] = vArr(d)
					case 2:
						e.M["m"] = vDict("k", d)
					}
				}
				d = e
			}
			var x hkGraph
			calls, err := hkUnm(func() error { return d.obj().Unmarshal(&x) })
			t.Op(n)
			if g := strings.Join(calls, " ") + " "; err != nil || g != want {
				t.Failf("%s below each other (way %d): hooks in order %s: %v", desc(), way, brief(g), err)
			}
		})
	}
}

var (
	hkInnerCalls int
	hkReady      sync.Once
)

func (s *hkOld) AfterUnmarshal()    { s.Seen++; hkLog("hkOld", s) }
func (s *hkInner) AfterUnmarshal()  { hkInnerCalls++ }
func (s *hkUnexp) AfterUnmarshal()  { s.Seen++; hkLog("hkUnexp", s) }
func (s *hkGraph) AfterUnmarshal()  { s.Seen++; hkCalls = append(hkCalls, fmt.Sprint(s.Id)) }
func (s *hkSer) AfterUnmarshal()    { s.Seen++; hkLog("hkSer", s) }
func (s *hkSerBox) AfterUnmarshal() { s.Seen++; hkLog("hkSerBox", s) }
func (s *hkSer) Hk()                {}
func (s *hkSer) IsZero() bool       { return s == nil }
func (s *hkSer) String() string     { return "ser" }

func init() {
	for _, v := range []interface{}{hkOld{}, hkUnexp{}, hkSer{}, hkSerBox{}} {
		hkOwn[reflect.TypeOf(v)] = true
	}
	register(&Check{ID: "C24", Suites: func(quick bool) []Suite {
		hkReady.Do(func() {
			gotypes.RegisterSerializable(reflect.TypeOf((*hkISer)(nil)).Elem(), func() gotypes.ISerializable { return &hkSer{} })
		})
		var plain, prom []*hkType
		for i := range hkTypes {
			if hkTypes[i].promoted {
				prom = append(prom, &hkTypes[i])
			} else {
				plain = append(plain, &hkTypes[i])
			}
		}
		var suites []Suite
		suites = append(suites, Suite{Name: "compositions", Bound: fmt.Sprintf("%d compositions of up to 4 structs on 3 levels, embedded by value and by pointer, each with a pointer, a value or no hook x all subsets of members x no or one failing member x fresh, filled and reused targets", len(plain)), N: int64(len(plain)), Run: func(t *T, i int64) {
			hkTop(t, plain[i])
		}})
		b := "each set of up to 2 and all"
		if !quick {
			b = "all 1024 sets"
		}
		suites = append(suites, Suite{Name: "positions", Bound: fmt.Sprintf("the same compositions at %s of 10 kinds of positions in a holder with a hook, pairs of positions two deep, failing members", b), N: int64(len(plain)), Run: func(t *T, i int64) {
			hkPositions(t, plain[i], quick)
		}})
		suites = append(suites, Suite{Name: "promoted", Bound: fmt.Sprintf("%d compositions in which a struct inherits the hook of an embedded one x all subsets of members", len(prom)), N: int64(len(prom)), Run: func(t *T, i int64) {
			hkPromoted(t, prom[i])
		}})
		suites = append(suites, Suite{Name: "deprecated", Bound: "all subsets of members of structs with deprecated members holding hooked structs", N: 1 << 6, Run: func(t *T, i int64) {
			keys := []string{"old", "c1", "c2", "aa"}
			d := vDict()
			for k, n := range keys {
				if i>>uint(k)&1 == 1 {
					switch n {
					case "old":
						d.M[n] = vDict("xa", vStr("o"), "xn", vInt(1))
					case "aa":
						d.M[n] = vInt(5)
					default:
						d.M[n] = vDict("ya", vStr(n))
					}
				}
			}
			if d.M["c1"] != nil && d.M["c2"] != nil {
				return
			}
			bad := ""
			if i>>4&1 == 1 && d.M["aa"] != nil {
				bad = "aa"
				d.M["aa"] = vArr()
				d.M["aa"].A = append(d.M["aa"].A, vInt(1), vInt(2))
			}
			x := &hkOld{}
			// what is reached by deprecation counts as read
			e := d.clone()
			for _, p := range [][2]string{{"old", "new"}, {"c1", "c2"}, {"c2", "c3"}} {
				if e.M[p[0]] != nil {
					e.M[p[1]] = e.M[p[0]]
				}
			}
			t.State(d.text())
			t.Try(func() string { return "deprecated " + d.text() }, func() {
				calls, err := hkUnm(func() error { return d.obj().Unmarshal(x) })
				t.Op(1)
				if (err != nil) != (bad != "") {
					t.Failf("deprecated %s: %v", d.text(), err)
				}
				extra, msg := hkJudge(calls, reflect.ValueOf(x), e)
				if msg != "" || len(extra) > 0 {
					t.Failf("deprecated %s: %s %v", d.text(), msg, extra)
				}
			})
		}})
		suites = append(suites, Suite{Name: "unexported", Bound: "all subsets of members of a struct that embeds an unexported hooked struct", N: 8, Run: func(t *T, i int64) {
			d := hkDoc([]string{"a", "n", "b"}, []bool{false, true, false}, int(i), "", "t")
			x := &hkUnexp{}
			t.State(d.text())
			hkOne(t, "unexported", reflect.ValueOf(x), &V{K: KDict, M: map[string]*V{}}, "", func() error { return d.obj().Unmarshal(x) })
		}})
		suites = append(suites, Suite{Name: "failing", Bound: "all subsets of 9 own and embedded members failing to convert, in 3 ways, with and without an embedded hooked struct that has no members", N: 1 << 9, Run: func(t *T, i int64) {
			hkFailing(t, i)
		}})
		lad := sizeLadder(1100)
		suites = append(suites, Suite{Name: "many", Bound: fmt.Sprintf("lists and maps of hooked structs and their pointers, of every size up to 70 and near each power of two and ten up to 1100 (%d sizes); hooked structs up to 300 deep below each other by pointer, list and map", len(lad)), N: int64(len(lad)), Run: func(t *T, i int64) {
			hkMany(t, lad[i])
		}})
		for n := 1; n <= 3; n++ {
			n := n
			per := int64((n + 1) * (n + 1))
			suites = append(suites, Suite{Name: fmt.Sprintf("graph-%d", n), Bound: fmt.Sprintf("all graphs of %d hooked structs with two pointers, and with a list or map holding the nodes", n), N: ipow(per, n) * 3, Run: func(t *T, i int64) {
				mode := int(i % 3)
				i /= 3
				l := make([]*hkGraph, n)
				for k := range l {
					l[k] = &hkGraph{Id: k + 1}
				}
				ref := func(k int) *hkGraph {
					if k == n {
						return nil
					}
					return l[k]
				}
				for k, x := range radix(i, per, n) {
					l[k].P, l[k].Q = ref(x%(n+1)), ref(x/(n+1))
				}
				switch mode {
				case 1:
					l[0].L = l
				case 2:
					l[0].M = map[string]*hkGraph{}
					for k, x := range l {
						l[0].M[fmt.Sprint("m", k)] = x
					}
				}
				reach := map[int]bool{}
				var go_ func(x *hkGraph)
				go_ = func(x *hkGraph) {
					if x == nil || reach[x.Id] {
						return
					}
					reach[x.Id] = true
					go_(x.P)
					go_(x.Q)
					for _, y := range x.L {
						go_(y)
					}
					for _, y := range x.M {
						go_(y)
					}
				}
				go_(l[0])
				desc := func() string { return fmt.Sprintf("graph %d of %d nodes, mode %d", i, n, mode) }
				t.Try(desc, func() {
					o := ju.Marshal(l[0])
					p, err := ju.ParseString(o.String())
					if err != nil {
						t.Failf("%s: %v", desc(), err)
						return
					}
					t.State(o.String())
					var y *hkGraph
					calls, err := hkUnm(func() error { return p.Unmarshal(&y) })
					t.Op(3)
					if err != nil {
						t.Failf("%s %s: %v", desc(), o, err)
						return
					}
					cnt := map[string]int{}
					for _, c := range calls {
						cnt[c]++
					}
					if len(cnt) != len(reach) {
						t.Failf("%s %s: hooks of %v", desc(), o, cnt)
					}
					var look func(x *hkGraph, seen map[*hkGraph]bool)
					look = func(x *hkGraph, seen map[*hkGraph]bool) {
						if x == nil || seen[x] {
							return
						}
						seen[x] = true
						if x.Seen != 1 {
							t.Failf("%s %s: a node %d was finished %d times", desc(), o, x.Id, x.Seen)
						}
						look(x.P, seen)
						look(x.Q, seen)
						for _, z := range x.L {
							look(z, seen)
						}
						for _, z := range x.M {
							look(z, seen)
						}
					}
					seen := map[*hkGraph]bool{}
					look(y, seen)
					if len(seen) != len(calls) {
						t.Failf("%s %s: %d calls for %d objects", desc(), o, len(calls), len(seen))
					}
				})
			}})
		}
		suites = append(suites, Suite{Name: "interface", Bound: "hooked structs behind a registered interface as member, list element and map value, all subsets", N: 1 << 5, Run: func(t *T, i int64) {
			mk := func(tag string) *V {
				d := vDict("a", vStr(tag))
				if i>>3&1 == 1 {
					d.M["x"] = vDict("xa", vStr(tag))
				}
				return d
			}
			d := vDict()
			if i&1 == 1 {
				d.M["i"] = mk("i")
			}
			if i&2 != 0 {
				d.M["l"] = vArr(mk("l1"), mk("l22"))
			}
			if i&4 != 0 {
				d.M["m"] = vDict("k", mk("mk"), "kk", mk("mkk"))
			}
			x := &hkSerBox{}
			t.State(d.text())
			t.Try(func() string { return "interface " + d.text() }, func() {
				calls, err := hkUnm(func() error { return d.obj().Unmarshal(x) })
				t.Op(1)
				if err != nil {
					t.Failf("interface %s: %v", d.text(), err)
				}
				extra, msg := hkJudge(calls, reflect.ValueOf(x), d)
				if msg != "" || len(extra) > 0 {
					t.Failf("interface %s: %s %v", d.text(), msg, extra)
				}
			})
		}})
		return suites
	}, Assume: []string{
		"Structs with a method of their own; that a hook inherited from an embedded struct runs again for the outer one is a known finding (suite promoted).",
		"Nil pointers embedded below nil embedded pointers are allocated beforehand (known finding of C22).",
	}})
}
