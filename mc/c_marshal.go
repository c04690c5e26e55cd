package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// ---- C13 ----

// present is what must survive of a value: the model of what is written, with
// empty and nil values of fields left out.
func present(v reflect.Value) *V { return writtenAs(v, nil, false, true) }

// trip sends one value through text and back.
func trip(t *T, v reflect.Value) {
	t.Try(func() string { return fmt.Sprintf("the round trip of %s %s", v.Type(), show(v)) }, func() {
		want := present(v)
		if want == nil {
			want = vNull()
		}
		arg := v.Interface()
		o := ju.Marshal(arg)
		t.Op(1)
		for way, s := range []string{o.String(), o.PrettyString(), ""} {
			src := o
			if way < 2 {
				var err error
				if src, err = ju.ParseString(s); err != nil {
					t.Failf("%s %s: the text %s does not parse: %v", v.Type(), show(v), brief(s), err)
					return
				}
			}
			r := reflect.New(v.Type())
			err := src.Unmarshal(r.Interface())
			t.Op(3)
			if err != nil {
				t.Failf("%s %s: unmarshalling %s: %v", v.Type(), show(v), brief(o.String()), err)
				return
			}
			got := present(r.Elem())
			if got == nil {
				got = vNull()
			}
			if x := sameStrict(got, want); x != "" {
				t.Failf("%s %s comes back from %s as %s: %s", v.Type(), show(v), brief(o.String()), show(r.Elem()), x)
				return
			}
			if way == 0 && exact(v) {
				if s2 := ju.Marshal(r.Elem().Interface()).String(); s2 != s {
					t.Failf("%s %s: text %s, after the trip %s", v.Type(), show(v), brief(s), brief(s2))
				}
			}
			if exact(v) {
				if x := sameGo(r.Elem(), v, "$"); x != "" {
					t.Failf("%s %s comes back from %s as %s: %s", v.Type(), show(v), brief(o.String()), show(r.Elem()), x)
				}
			}
		}
	})
}

// exact tells that a value holds nothing that is omitted, so that it must come
// back with all its pointers.
func exact(v reflect.Value) bool { return exactAt(v, nil) }

func exactAt(v reflect.Value, ti *tagInfo) bool {
	field := ti != nil
	if v.Type() == tTime || v.Type() == tTri {
		return !v.IsZero()
	}
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		if v.Float() == 0 && math.Signbit(v.Float()) {
			return false // may come back as zero
		}
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && exactAt(v.Elem(), ti)
	case reflect.String:
		return !field || v.Len() > 0
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() || field && v.Len() == 0 {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if !exactAt(v.Index(i), nil) {
				return false
			}
		}
	case reflect.Map:
		if v.IsNil() || field && v.Len() == 0 {
			return false
		}
		for _, k := range v.MapKeys() {
			if !exactAt(v.MapIndex(k), nil) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !exactAt(v.Field(i), fieldTag(v.Type().Field(i))) {
				return false
			}
		}
	}
	if field && v.IsZero() && (ti.omitFalse && v.Kind() == reflect.Bool || ti.omitZero && v.Kind() != reflect.Bool && v.CanConvert(tF64)) {
		return false
	}
	return true
}

func init() {
	register(&Check{ID: "C13", Suites: func(quick bool) []Suite {
		var suites []Suite
		n, bases := 2, allBases()
		types := typesUpTo(bases, n)
		suites = append(suites, Suite{Name: "types", Bound: fmt.Sprintf("all types of up to 2 constructors (pointer, slice, array of 2, map, struct of 1 field, struct of 3 fields) around %d basic types, each with all listed values at every place, nil and empty containers, containers of one and two entries", len(bases)), N: int64(len(types)), Run: func(t *T, i int64) {
			for _, v := range valuesOf(types[i]) {
				trip(t, v)
				t.State(types[i].String() + show(v))
			}
			t.Sample(func() string { return types[i].String() })
		}})
		few := fewBases()
		if quick {
			few = few[:4]
		}
		deep := 3
		if !quick {
			deep = 4
		}
		var dt []reflect.Type
		for _, x := range typesUpTo(few, deep)[len(typesUpTo(few, 2)):] {
			dt = append(dt, x)
		}
		suites = append(suites, Suite{Name: "deep-types", Bound: fmt.Sprintf("all types of 3 to %d constructors around %d basic types", deep, len(few)), N: int64(len(dt)), Run: func(t *T, i int64) {
			for _, v := range valuesOf(dt[i]) {
				trip(t, v)
			}
			t.State(dt[i].String())
		}})
		// tags do not lose values
		opts := []string{"", "omitempty", "allowempty", "omitzero", "allowzero", "omitfalse", "allowfalse"}
		var kinds []reflect.Type
		for _, b := range allBases() {
			kinds = append(kinds, b, reflect.PointerTo(b))
		}
		suites = append(suites, Suite{Name: "tags", Bound: "every basic type and pointer to it as field with every pair of omission tags, with and without the string tag on numbers and booleans", N: int64(len(kinds)), Run: func(t *T, i int64) {
			for _, a := range opts {
				for _, b := range opts {
					for _, str := range []string{"", ",string"} {
						k := kinds[i]
						if k.Kind() == reflect.Ptr {
							k = k.Elem()
						}
						if str != "" && (k.Kind() == reflect.Slice || k.Kind() == reflect.Map) {
							continue
						}
						tag := fmt.Sprintf(`json:"v,%s,%s%s"`, a, b, str)
						st := structOf(fld("Value", kinds[i], tag), fld("Rest", tString, ""))
						for _, v := range valuesOf(st) {
							trip(t, v)
						}
						st = structOf(fld("Value", kinds[i], strings.Replace(tag, "v,", ",", 1)))
						for _, v := range valuesOf(st) {
							trip(t, v)
						}
					}
				}
			}
			t.State(kinds[i].String())
		}})
		ints := intLadder()
		suites = append(suites, Suite{Name: "integers", Bound: fmt.Sprintf("%d integers around all powers of 2 and 10, in every integer type that holds them, alone, in a field, list and map, plain and as text", len(ints)), N: int64(len(ints)), Run: func(t *T, i int64) {
			for _, it := range append(append([]reflect.Type{}, intTypes...), reflect.TypeOf(mcInt(0))) {
				z := reflect.New(it).Elem()
				if z.CanInt() && z.OverflowInt(ints[i]) || z.CanUint() && (ints[i] < 0 || z.OverflowUint(uint64(ints[i]))) {
					continue
				}
				v := reflect.ValueOf(ints[i]).Convert(it)
				trip(t, v)
				trip(t, listOf(reflect.SliceOf(it), v, v))
				trip(t, mapOf(reflect.MapOf(tString, it), reflect.ValueOf("k"), v))
				s := reflect.New(structOf(fld("A", it, ""), fld("B", it, `json:"b,string"`), fld("C", reflect.PointerTo(it), `json:",omitzero"`))).Elem()
				s.Field(0).Set(v)
				s.Field(1).Set(v)
				s.Field(2).Set(ptrTo(v))
				trip(t, s)
			}
			t.State(fmt.Sprint(ints[i]))
		}})
		fl := floatLadder(!quick)
		suites = append(suites, Suite{Name: "floats", Bound: fmt.Sprintf("%d floats: every binary exponent, short decimals at every decimal exponent; and those of them that 32 bits hold", len(fl)), N: int64(len(fl)), Run: func(t *T, i int64) {
			f := fl[i]
			trip(t, reflect.ValueOf(f))
			trip(t, reflect.ValueOf(struct {
				A float64
				B []float64
				C *float64
				D float64  `json:"d,string"`
				E *float64 `json:",string"`
			}{f, []float64{f, 1}, &f, f, &f}))
			g := float32(f)
			if g-g == 0 {
				trip(t, reflect.ValueOf(g))
				trip(t, reflect.ValueOf(struct {
					A float32
					B map[string]float32
					C float32 `json:"c,string"`
				}{g, map[string]float32{"k": g}, g}))
			}
		}})
		hot := hotStrings(1)
		if !quick {
			hot = hotStrings(2)
		}
		suites = append(suites, Suite{Name: "texts", Bound: fmt.Sprintf("%d special texts as value, field, element, map key and map value", len(hot)), N: int64(len(hot)), Run: func(t *T, i int64) {
			s := hot[i]
			trip(t, reflect.ValueOf(s))
			trip(t, reflect.ValueOf(mcString(s)))
			trip(t, reflect.ValueOf([]string{s, "", s}))
			trip(t, reflect.ValueOf(map[string]string{"k": s}))
			if s != "___jnid_" {
				trip(t, reflect.ValueOf(map[string]string{s: s, "k": ""}))
				trip(t, reflect.ValueOf(map[mcString][]string{mcString(s): {s}}))
			}
			trip(t, reflect.ValueOf(struct {
				A string
				B *string
				C mcString
			}{s, &s, mcString(s)}))
			t.State(s)
		}})
		mk := append(hotStrings(1), caseVariants("ab")...)
		mk = append(mk, "é", "É", "\u212a", "k", "K", "ß", "ẞ", "ab.c", "a\x00", "a")
		suites = append(suites, Suite{Name: "map-keys", Bound: fmt.Sprintf("maps of all pairs of %d keys, plain, of a named type and of one with a String method", len(mk)), N: int64(len(mk)), Run: func(t *T, i int64) {
			for _, k := range mk {
				if k == "___jnid_" || mk[i] == "___jnid_" {
					continue
				}
				trip(t, reflect.ValueOf(map[string]int{mk[i]: 1, k: 2}))
				trip(t, reflect.ValueOf(map[mcString]string{mcString(mk[i]): "x", mcString(k): "y"}))
				trip(t, reflect.ValueOf(map[mcStringer]bool{mcStringer(mk[i]): true, mcStringer(k): false}))
			}
			t.State(mk[i])
		}})
		sizes := withJumbo(sizeLadder(2100), true, 4097, 10001)
		suites = append(suites, Suite{Name: "sizes", Bound: "lists, maps, texts and structs in lists of up to 10001 entries, and structs of up to 200 fields", N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			var l []int
			var ll [][]string
			m := map[string]int{}
			type S struct {
				A int
				B string
				C []string
			}
			var ls []S
			var lp []*S
			for k := 0; k < n; k++ {
				l = append(l, k)
				ll = append(ll, []string{keyName(k)})
				m[keyName(k)] = k
				ls = append(ls, S{k, keyName(k), []string{"x"}})
				lp = append(lp, &S{A: k})
			}
			trip(t, reflect.ValueOf(l))
			trip(t, reflect.ValueOf(ll))
			trip(t, reflect.ValueOf(m))
			trip(t, reflect.ValueOf(ls))
			trip(t, reflect.ValueOf(lp))
			trip(t, reflect.ValueOf([]byte(strings.Repeat("z", n))))
			trip(t, reflect.ValueOf(strings.Repeat("é", n)))
			if n > 0 {
				// long keys that differ in one place only
				a, keys, named := strings.Repeat("k", n), map[string]string{}, map[mcString]int{}
				for j, at := range []int{0, n / 2, n - 1} {
					k := a[:at] + string(rune('x'+j)) + a[at+1:]
					keys[k], named[mcString(k)] = k, j
				}
				trip(t, reflect.ValueOf(keys))
				trip(t, reflect.ValueOf(named))
				trip(t, reflect.ValueOf(map[string]map[string]int{a: {a + "2": 1, a: 2}}))
			}
			if n <= 200 {
				var fs []reflect.StructField
				for k := 0; k < n; k++ {
					fs = append(fs, fld(fmt.Sprintf("F%c%c", 'a'+k/26, 'a'+k%26), tInt, ""))
				}
				v := reflect.New(structOf(fs...)).Elem()
				for k := 0; k < n; k++ {
					v.Field(k).SetInt(int64(k))
				}
				trip(t, v)
			}
			t.State(fmt.Sprint(n))
		}})
		depths := sizeLadder(120)
		suites = append(suites, Suite{Name: "depths", Bound: "nested lists, maps and structs of up to 120 levels, linked structs of up to 4000", N: int64(len(depths)), Run: func(t *T, i int64) {
			n := depths[i]
			for way := 0; way < 4; way++ {
				v := reflect.ValueOf("x")
				for k := 0; k < n; k++ {
					w := way
					if way == 3 {
						w = k % 3
					}
					switch w {
					case 0:
						v = listOf(reflect.SliceOf(v.Type()), v)
					case 1:
						v = mapOf(reflect.MapOf(tString, v.Type()), reflect.ValueOf("k"), v)
					default:
						s := reflect.New(structOf(fld("Inner", v.Type(), ""))).Elem()
						s.Field(0).Set(v)
						v = ptrTo(s)
					}
				}
				trip(t, v)
			}
			type L struct {
				V    int
				Next *L
			}
			var head *L
			for k := 0; k < n*33; k++ {
				head = &L{k, head}
			}
			o := ju.Marshal(head)
			p, err := ju.ParseString(o.String())
			if err != nil {
				t.Failf("a chain of %d structs: %v", n*33, err)
				return
			}
			var back *L
			if err := p.Unmarshal(&back); err != nil && head != nil {
				t.Failf("a chain of %d structs: %v", n*33, err)
				return
			}
			k := 0
			for a, b := head, back; a != nil || b != nil; a, b = a.Next, b.Next {
				if a == nil || b == nil || a.V != b.V {
					t.Failf("a chain of %d structs differs at %d", n*33, k)
					return
				}
				k++
			}
			t.State(fmt.Sprint(n))
		}})
		return suites
	}, Assume: []string{
		"Unsigned integers above the signed 64-bit range are outside of the property.",
		"The string tag on floats (six decimals) and on containers is outside of the property.",
		"A nil element of a list or an unset tri-state in it is left out, as an empty value; arrays of fixed length are used without such elements.",
	}})
}

// ---- C14 ----

func marshalIs(t *T, v reflect.Value) {
	t.Try(func() string { return fmt.Sprintf("Marshal of %s %s", v.Type(), show(v)) }, func() {
		for _, all := range []bool{false, true} {
			w := written(v, nil, all)
			if w == nil {
				w = vNull()
			}
			var o ju.JSONObject
			how := "Marshal"
			if all {
				how = "MarshalAll"
				o = ju.MarshalAll(v.Interface())
			} else {
				o = ju.Marshal(v.Interface())
			}
			t.Op(1)
			if x := asWritten(o, w); x != "" {
				t.Failf("%s of %s %s gives %s: %s", how, v.Type(), show(v), brief(o.String()), x)
				return
			}
			p := ptrTo(v).Interface()
			if w = written(reflect.ValueOf(p), nil, all); w == nil {
				w = vNull()
			}
			if all {
				o = ju.MarshalAll(p)
			} else {
				o = ju.Marshal(p)
			}
			if x := asWritten(o, w); x != "" {
				t.Failf("%s of a pointer to %s %s gives %s: %s", how, v.Type(), show(v), brief(o.String()), x)
			}
		}
	})
}

// tagKinds are the field types with the values that matter for omission.
func tagKinds() (types []reflect.Type, values [][]reflect.Value) {
	add := func(vs ...interface{}) {
		var l []reflect.Value
		for _, v := range vs {
			l = append(l, reflect.ValueOf(v))
		}
		types = append(types, l[0].Type())
		values = append(values, l)
		// pointers
		pt := reflect.PointerTo(l[0].Type())
		pl := []reflect.Value{reflect.Zero(pt)}
		for _, v := range l {
			pl = append(pl, ptrTo(v))
		}
		types = append(types, pt)
		values = append(values, pl)
		// interfaces
		il := []reflect.Value{reflect.Zero(tAny)}
		for _, v := range append(l, pl...) {
			x := reflect.New(tAny).Elem()
			x.Set(v)
			il = append(il, x)
		}
		types = append(types, tAny)
		values = append(values, il)
	}
	type E struct{ X string }
	type F struct{ X int }
	s0, s1 := "", "x"
	i0 := 0
	add("", "x", "0", "false")
	add(mcString(""), mcString("y"))
	add(false, true)
	add(mcBool(false), mcBool(true))
	add(0, 1, -1)
	add(int8(0), int8(-128))
	add(uint8(0), uint8(255))
	add(uint64(0), uint64(7))
	add(mcInt(0), mcInt(5))
	add(0.0, 1.5, -0.25)
	add(float32(0), float32(2.5))
	add(time.Time{}, baseTime)
	add(tristate.None, tristate.True, tristate.False)
	add([]string(nil), []string{}, []string{""}, []string{"a", ""})
	add([]int(nil), []int{}, []int{0})
	add([]*string(nil), []*string{nil}, []*string{&s0, nil, &s1})
	add([]tristate.TriState{}, []tristate.TriState{tristate.None}, []tristate.TriState{tristate.True, tristate.None})
	add([0]int{}, [0]int{})
	add([2]int{}, [2]int{0, 1})
	add([]byte(nil), []byte{}, []byte("a"))
	add(map[string]string(nil), map[string]string{}, map[string]string{"k": ""}, map[string]string{"k": "v"})
	add(map[string]*int(nil), map[string]*int{"k": nil}, map[string]*int{"k": &i0, "l": nil})
	add(map[string]interface{}{}, map[string]interface{}{"k": nil}, map[string]interface{}{"k": 1, "l": []int{}})
	add([]interface{}{}, []interface{}{nil}, []interface{}{0, "", false, nil, []int(nil)})
	add(E{}, E{"x"})
	add(F{}, F{1})
	add(struct{}{}, struct{}{})
	add([]E{}, []E{{}}, []E{{"x"}, {}})
	add(map[string]E{}, map[string]E{"k": {}})
	add(struct{ In E }{}, struct{ In E }{E{"x"}})
	return
}

func init() {
	register(&Check{ID: "C14", Suites: func(quick bool) []Suite {
		var suites []Suite
		opts := []string{"omitempty", "allowempty", "omitzero", "allowzero", "omitfalse", "allowfalse", "string", "OmitZero", "AllowEmpty", "other"}
		var tags []string
		for w := int64(0); w < wordsUpTo(int64(len(opts)), 2); w++ {
			s := ""
			for _, x := range word(w, int64(len(opts))) {
				s += "," + opts[x]
			}
			for _, n := range []string{"", "nm", "-"} {
				if n+s != "" {
					tags = append(tags, fmt.Sprintf(`json:"%s"`, n+s))
				} else {
					tags = append(tags, "")
				}
			}
			tags = append(tags, fmt.Sprintf(`name:"tagname" json:"%s"`, s), fmt.Sprintf(`name:"tagname" json:"x%s"`, s))
		}
		if !quick {
			for w := wordsUpTo(int64(len(opts)), 2); w < wordsUpTo(int64(len(opts)), 3); w++ {
				s := ""
				for _, x := range word(w, int64(len(opts))) {
					s += "," + opts[x]
				}
				tags = append(tags, fmt.Sprintf(`json:"%s"`, s), fmt.Sprintf(`json:"nm%s"`, s))
			}
		}
		tags = append(tags, `json:"-" name:"tagname"`, `json:"-,"`, `json:",,"`, `name:"n2"`, `json:"a_b"`, `json:"a b"`, `other:"x"`)
		kt, kv := tagKinds()
		suites = append(suites, Suite{Name: "one-field", Bound: fmt.Sprintf("%d field types (plain, pointer, interface) with %d tags (every sequence of up to %d omission options, named, dashed, name-tagged) and all telling values, alone and inside of a list, map and struct", len(kt), len(tags), map[bool]int{true: 2, false: 3}[quick]), N: int64(len(kt)) * int64(len(tags)), Run: func(t *T, i int64) {
			k, g := int(i)%len(kt), tags[i/int64(len(kt))]
			st := structOf(fld("TheField", kt[k], g))
			if fieldTag(st.Field(0)).str && (strings.Contains(kt[k].String(), "interface") || kt[k].Kind() == reflect.Interface) {
				return
			}
			for _, v := range kv[k] {
				s := reflect.New(st).Elem()
				s.Field(0).Set(v)
				marshalIs(t, s)
				if quick && len(g) > 24 {
					continue
				}
				marshalIs(t, listOf(reflect.SliceOf(st), s, reflect.Zero(st)))
				marshalIs(t, mapOf(reflect.MapOf(tString, st), reflect.ValueOf("k"), s))
				o := reflect.New(structOf(fld("Outer", st, ""), fld("Ptr", reflect.PointerTo(st), `json:",allowempty"`))).Elem()
				o.Field(0).Set(s)
				o.Field(1).Set(ptrTo(s))
				marshalIs(t, o)
			}
			t.State(st.String())
			t.Sample(func() string { return st.String() })
		}})
		// two fields: each decides for itself
		tags2 := []string{"", `json:"-"`, `json:"p,allowempty"`, `json:",omitzero"`, `json:",omitfalse,omitzero"`, `json:"q,omitempty,string"`}
		var k2 []int
		for k := range kt {
			if kt[k].Kind() != reflect.Interface {
				k2 = append(k2, k)
			}
		}
		if quick {
			var l []int
			for i := 0; i < len(k2); i += 3 {
				l = append(l, k2[i])
			}
			k2 = l
		}
		nk := int64(len(k2))
		nt := int64(len(tags2))
		suites = append(suites, Suite{Name: "two-fields", Bound: fmt.Sprintf("all pairs of %d field types with all pairs of %d tags, all pairs of values", nk, nt), N: nk * nk * nt * nt, Run: func(t *T, i int64) {
			a, b := k2[i%nk], k2[i/nk%nk]
			ta, tb := tags2[i/nk/nk%nt], tags2[i/nk/nk/nt]
			if strings.Contains(ta, `"p,`) {
				tb = strings.Replace(tb, `"p,`, `"p2,`, 1)
			}
			if strings.Contains(ta, `"q,`) {
				tb = strings.Replace(tb, `"q,`, `"q2,`, 1)
			}
			st := structOf(fld("Aa", kt[a], ta), fld("Bb", kt[b], tb))
			for _, x := range kv[a] {
				for _, y := range kv[b] {
					s := reflect.New(st).Elem()
					s.Field(0).Set(x)
					s.Field(1).Set(y)
					marshalIs(t, s)
				}
			}
		}})
		// nested types of C13
		types := typesUpTo(fewBases(), 3)
		suites = append(suites, Suite{Name: "types", Bound: fmt.Sprintf("the %d types of up to 3 constructors around 7 basic types, all listed values", len(types)), N: int64(len(types)), Run: func(t *T, i int64) {
			for _, v := range valuesOf(types[i]) {
				marshalIs(t, v)
			}
			t.State(types[i].String())
		}})
		// documents as fields
		docs := newTreeGen([]*V{vNull(), vInt(0), vInt(3), vStr(""), vStr("x"), vBool(false), vBool(true), vFloat(0.5)}, []string{"a", "b"}).upTo(3)
		suites = append(suites, Suite{Name: "documents", Bound: fmt.Sprintf("the %d documents of up to 3 nodes at the top and in fields, lists and maps of the document type, the empty interface, the pointer types and the types by value, with 4 tags", len(docs)), N: int64(len(docs)), Run: func(t *T, i int64) {
			o := docs[i].obj()
			if s := ju.Marshal(o).String(); s != docs[i].text() {
				t.Failf("Marshal of the document %s gives %s", docs[i].text(), s)
			}
			for _, ty := range []reflect.Type{tObj, tAny, reflect.TypeOf(o)} {
				x := reflect.New(ty).Elem()
				x.Set(reflect.ValueOf(o))
				for _, g := range []string{"", `json:",allowempty"`, `json:",omitzero,omitfalse"`, `json:"-"`} {
					s := reflect.New(structOf(fld("Doc", ty, g), fld("Nil", ty, g))).Elem()
					s.Field(0).Set(x)
					marshalIs(t, s)
				}
				marshalIs(t, listOf(reflect.SliceOf(ty), x, x))
				marshalIs(t, mapOf(reflect.MapOf(tString, ty), reflect.ValueOf("k"), x))
			}
			documentByValue(t, docs[i], o)
			if i == 0 {
				for what, r := range map[string]func(interface{}) ju.JSONObject{"Marshal": ju.Marshal, "MarshalAll": ju.MarshalAll} {
					t.Try(func() string { return what + "(nil)" }, func() {
						if s := r(nil).String(); s != "null" {
							t.Failf("%s(nil) gives %s", what, s)
						}
					})
				}
			}
			t.State(docs[i].text())
		}})
		return suites
	}, Assume: []string{"A pointer, nil value or interface is judged by what it holds; an unset tri-state counts as nil.", "Whether an empty or zero document held by value in a field is omitted, and the string tag on interface fields, are outside of the property."}})
}

// documentByValue marshals a document held by value: as it is, wherever it is.
func documentByValue(t *T, d *V, o ju.JSONObject) {
	p := reflect.ValueOf(o)
	ty := p.Type().Elem()
	if _, ok := jsonKinds[ty]; !ok {
		return
	}
	zero := d.K == KBool && !d.B || d.K == KInt && d.I == 0 || d.K == KFloat && d.F == 0 || d.K == KStr && d.S == "" || d.K == KArr && len(d.A) == 0 || d.K == KDict && len(d.M) == 0
	x := p.Elem()
	is := func(v reflect.Value, want string) {
		t.Op(1)
		t.Try(func() string { return "Marshal of " + v.Type().String() + " holding " + d.text() }, func() {
			if s := ju.Marshal(v.Interface()).String(); s != want {
				t.Failf("Marshal of %s holding %s gives %s instead of %s", v.Type(), d.text(), s, want)
			}
		})
	}
	is(x, d.text())
	is(listOf(reflect.SliceOf(ty), x, x), vArr(d, d).text())
	is(mapOf(reflect.MapOf(tString, ty), reflect.ValueOf("k"), x), vDict("k", d).text())
	for _, g := range []string{"", `json:",allowempty"`, `json:",omitzero,omitfalse"`, `json:",omitempty"`, `json:"-"`} {
		s := reflect.New(structOf(fld("Doc", ty, g), fld("N", tInt, ""))).Elem()
		s.Field(0).Set(x)
		s.Field(1).SetInt(5)
		want := vDict("doc", d, "n", vInt(5))
		if g == `json:"-"` {
			delete(want.M, "doc")
		} else if a := ju.MarshalAll(s.Interface()).String(); a != want.text() {
			t.Failf("MarshalAll of %s holding %s gives %s instead of %s", s.Type(), d.text(), a, want.text())
		} else if zero && g != `json:",allowempty"` {
			continue
		}
		is(s, want.text())
		is(listOf(reflect.SliceOf(s.Type()), s), vArr(want).text())
	}
}
