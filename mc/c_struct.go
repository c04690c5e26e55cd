package main

import (
	"fmt"
	"reflect"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// ---- C17: deprecated fields ----

// root follows the deprecations from a member; "" if they run in a circle or
// end nowhere.
func root(dep map[string]string, name string) string {
	seen := map[string]bool{}
	for {
		if seen[name] {
			return ""
		}
		seen[name] = true
		n, ok := dep[name]
		if !ok || n == "" {
			return name
		}
		name = n
	}
}

// reached lists the members set by a name: itself and its replacements.
func reached(fs []flatField, name string) map[int]bool {
	r := map[int]bool{}
	seen := map[string]bool{}
	var walk func(n string)
	walk = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, i := range matching(fs, n) {
			r[i] = true
			if fs[i].dep != "" {
				walk(fs[i].dep)
			}
		}
	}
	walk(name)
	return r
}

// depMarshalled is the model of a marshalled struct with deprecated members.
func depMarshalled(v reflect.Value) *V {
	fs := members(v)
	dep := map[string]string{}
	for _, f := range fs {
		if f.dep != "" {
			dep[f.name] = f.dep
		}
	}
	r := vDict()
	for _, f := range fs {
		if dep[f.name] == "" {
			if w := written(f.v, &tagInfo{omitEmpty: true}, false); w != nil {
				r.M[f.name] = w
			}
		}
	}
	for n := range dep {
		if t := root(dep, n); t != "" && r.M[t] != nil && dep[t] == "" {
			r.M[n] = r.M[t]
		}
	}
	return r
}

// depCase checks a struct type with deprecated members: marshalling with
// values, and documents with every set of names.
func depCase(t *T, ty reflect.Type, names []string, sample func(k int) *V, subsets bool) {
	desc := func() string { return fmt.Sprintf("struct %s", ty) }
	n := len(names)
	t.State(ty.String())
	// marshal: every subset of the members filled
	masks := []int{0, 1<<uint(n) - 1}
	if subsets {
		masks = masks[:0]
		for m := 0; m < 1<<uint(n); m++ {
			masks = append(masks, m)
		}
	}
	for _, m := range masks {
		t.Try(desc, func() {
			x := reflect.New(ty).Elem()
			for k, f := range members(x) {
				if m>>uint(k)&1 == 1 {
					if f.attach != nil {
						f.attach()
					}
					fill(sample(k), f.v)
				}
			}
			want := depMarshalled(x)
			o := ju.Marshal(x.Interface())
			t.Op(1)
			if s := same(observe(o), want); s != "" {
				t.Failf("Marshal of %s with members %b filled gives %s: %s", ty, m, brief(o.String()), s)
				return
			}
			// and the values come back
			y := reflect.New(ty)
			if err := o.Unmarshal(y.Interface()); err != nil {
				t.Failf("unmarshalling %s into %s: %v", brief(o.String()), ty, err)
			}
		})
	}
	masks = masks[1:]
	if !subsets {
		masks = nil
		for k := 0; k < n; k++ {
			masks = append(masks, 1<<uint(k))
		}
	}
	for _, m := range masks {
		for pre := 0; pre < 2; pre++ {
			d := vDict()
			by := map[int]map[int]bool{} // member -> samples it may hold
			x := reflect.New(ty).Elem()
			was := reflect.New(ty).Elem()
			if pre == 1 {
				x.Set(filledOf(ty, 2))
				was.Set(filledOf(ty, 2))
			}
			fs := members(was)
			for k := 0; k < n; k++ {
				if m>>uint(k)&1 == 1 {
					d.M[names[k]] = sample(k)
					for i := range reached(fs, names[k]) {
						if by[i] == nil {
							by[i] = map[int]bool{}
						}
						by[i][k] = true
					}
				}
			}
			t.Try(func() string { return fmt.Sprintf("unmarshalling %s into %s", d.text(), ty) }, func() {
				err := d.obj().Unmarshal(x.Addr().Interface())
				t.Op(1)
				if err != nil {
					t.Failf("unmarshalling %s into %s: %v", d.text(), ty, err)
					return
				}
				got := members(x)
				for i, f := range got {
					if len(by[i]) == 0 {
						if s := sameGo(f.v, fs[i].v, f.name); s != "" {
							t.Failf("unmarshalling %s into %s: a member it does not carry has changed: %s", d.text(), ty, s)
							return
						}
						continue
					}
					ok := ""
					for k := range by[i] {
						w := reflect.New(f.v.Type()).Elem()
						w.Set(copyGo(fs[i].v))
						fill(sample(k), w)
						if ok = sameGo(f.v, w, f.name); ok == "" {
							break
						}
					}
					if ok != "" {
						t.Failf("unmarshalling %s into %s: %s", d.text(), ty, ok)
						return
					}
				}
			})
		}
	}
}

func depSuites(quick bool) []Suite {
	var suites []Suite
	letter := func(k int) string { return string(rune('a' + k)) }
	max := 5
	if !quick {
		max = 6
	}
	for k := 1; k <= max; k++ {
		k := k
		suites = append(suites, Suite{Name: fmt.Sprintf("fields-%d", k), Bound: fmt.Sprintf("all structs of %d text fields, each deprecated by any field (also itself) or none: marshalled with every subset filled, and every set of names unmarshalled into a zero and a filled struct", k), N: ipow(int64(k+1), k), Run: func(t *T, i int64) {
			var fs []reflect.StructField
			var names []string
			for j, x := range radix(i, int64(k+1), k) {
				tag := fmt.Sprintf(`json:"%s"`, letter(j))
				if x > 0 {
					tag += fmt.Sprintf(` yunion-deprecated-by:"%s"`, letter(x-1))
				}
				fs = append(fs, fld("F"+letter(j), tString, tag))
				names = append(names, letter(j))
			}
			depCase(t, structOf(fs...), names, func(k int) *V { return vStr("v" + letter(k)) }, true)
		}})
	}
	kinds := []reflect.Type{reflect.PointerTo(tString), tInt, reflect.SliceOf(tString), reflect.TypeOf(uIn{}), reflect.TypeOf(&uIn{}), tAny, tObj, reflect.TypeOf(map[string]string{})}
	docs := [][]*V{{vStr("x"), vStr("y"), vStr("z")}, {vInt(1), vInt(2), vInt(3)}, {vArr(vStr("x")), vArr(vStr("y"), vStr("z")), vStr("q")}, {vDict("a", vInt(1)), vDict("b", vStr("q")), vDict("a", vInt(3), "b", vStr("z"))}, {vDict("a", vInt(1)), vDict("b", vStr("q")), vDict("a", vInt(3), "b", vStr("z"))}, {vInt(1), vStr("y"), vBool(true)}, {vInt(1), vDict("x", vStr("y")), vArr()}, {vDict("k", vStr("x")), vDict("l", vStr("y")), vDict("k", vStr("z"))}}
	suites = append(suites, Suite{Name: "kinds", Bound: "all structs of 3 fields of each of 8 kinds with every deprecation, where names are tagged, derived or given by a name tag", N: int64(len(kinds)) * 64 * 3, Run: func(t *T, i int64) {
		kind := int(i) % len(kinds)
		rest := i / int64(len(kinds))
		way := int(rest / 64)
		var fs []reflect.StructField
		goNames := []string{"FirstName", "Other", "ThirdOne"}
		names := []string{"first_name", "other", "third_one"}
		if way == 1 {
			names = []string{"aa", "bb", "cc"}
		}
		for j, x := range radix(rest%64, 4, 3) {
			tag := ""
			switch way {
			case 1:
				tag = fmt.Sprintf(`json:"%s,omitempty" `, names[j])
			case 2:
				tag = fmt.Sprintf(`name:"%s" json:"zz%d" `, names[j], j)
			}
			if x > 0 {
				tag += fmt.Sprintf(`yunion-deprecated-by:"%s"`, names[x-1])
			}
			fs = append(fs, fld(goNames[j], kinds[kind], strings.TrimSpace(tag)))
		}
		subsets := kind != 3 && kind != 4 && kind != 7 // those merge
		depCase(t, structOf(fs...), names, func(k int) *V { return docs[kind][k%3] }, subsets)
	}})
	// declarations at the place of embedding
	opts := []string{"", "a", "b", "c", "d"}
	suites = append(suites, Suite{Name: "embedded", Bound: "all structs of two own fields and an embedded struct (by value, by pointer, two levels) of two fields whose deprecations are declared where it is embedded, for each field or for all", N: ipow(5, 4) * 4, Run: func(t *T, i int64) {
		d := radix(i/4, 5, 4)
		way := int(i % 4)
		base := structOf(fld("Fa", tString, `json:"a"`), fld("Fb", tString, `json:"b"`))
		var tags []string
		if opts[d[0]] != "" {
			tags = append(tags, fmt.Sprintf(`a->yunion-deprecated-by:"%s"`, opts[d[0]]))
		}
		if opts[d[1]] != "" {
			tags = append(tags, fmt.Sprintf(`b->yunion-deprecated-by:"%s"`, opts[d[1]]))
		}
		if way == 3 {
			// one declaration for both
			if d[1] != 0 {
				return
			}
			tags = nil
			if opts[d[0]] != "" {
				tags = append(tags, fmt.Sprintf(`yunion-deprecated-by:"%s"`, opts[d[0]]))
			}
		}
		tag := strings.Join(tags, " ")
		own := func(j int) reflect.StructField {
			s := fmt.Sprintf(`json:"%s"`, letter(j))
			if x := opts[d[j]]; x != "" {
				s += fmt.Sprintf(` yunion-deprecated-by:"%s"`, x)
			}
			return fld("F"+letter(j), tString, s)
		}
		e := base
		switch way {
		case 1:
			e = reflect.PointerTo(base)
		case 2:
			e = structOf(emb("Base", base, ""))
		}
		ty := structOf(own(2), emb("Emb", e, tag), own(3))
		depCase(t, ty, []string{"c", "a", "b", "d"}, func(k int) *V { return vStr("v" + letter(k)) }, true)
	}})
	// circles and tails of any length
	n := 24
	if !quick {
		n = 60
	}
	suites = append(suites, Suite{Name: "long", Bound: fmt.Sprintf("chains of up to %d deprecations ending in a field, in an unknown name, or in a circle entered at any point", n), N: int64(n), Run: func(t *T, i int64) {
		n := int(i) + 1
		for end := -2; end < n; end++ {
			for rev := 0; rev < 2; rev++ {
				var fs []reflect.StructField
				var names []string
				for j := 0; j < n; j++ {
					k := j
					nm := func(k int) string {
						if rev == 1 {
							k = n - 1 - k
						}
						return letter(k%26) + strings.Repeat("x", k/26)
					}
					tag := fmt.Sprintf(`json:"%s"`, nm(k))
					if j+1 < n {
						tag += fmt.Sprintf(` yunion-deprecated-by:"%s"`, nm(k+1))
					} else if end >= 0 {
						tag += fmt.Sprintf(` yunion-deprecated-by:"%s"`, nm(end))
					} else if end == -2 {
						tag += ` yunion-deprecated-by:"nowhere"`
					}
					fs = append(fs, fld("F"+strings.Repeat("z", k/26)+letter(k%26), tString, tag))
					names = append(names, nm(k))
				}
				depCase(t, structOf(fs...), names, func(k int) *V { return vStr(fmt.Sprintf("v%d", k)) }, n <= 5)
			}
		}
	}})
	// names that differ in capitals only
	cases := []string{"ab", "Ab", "aB", "AB"}
	suites = append(suites, Suite{Name: "capitals", Bound: "all structs of four fields whose tagged names differ in capitals only, each deprecated by any of them or none, and every set of names", N: ipow(5, 4), Run: func(t *T, i int64) {
		var fs []reflect.StructField
		for j, x := range radix(i, 5, 4) {
			tag := fmt.Sprintf(`json:"%s"`, cases[j])
			if x > 0 {
				tag += fmt.Sprintf(` yunion-deprecated-by:"%s"`, cases[x-1])
			}
			fs = append(fs, fld("F"+letter(j), tString, tag))
		}
		depCase(t, structOf(fs...), cases, func(k int) *V { return vStr("v" + letter(k)) }, true)
	}})
	// colliding names with a prefix
	suites = append(suites, Suite{Name: "prefixes", Bound: "two embedded structs with the same members, one deprecated by the other, separated by ambiguity prefixes on the first, the second or both, by value and by pointer", N: 3 * 4 * 3, Run: func(t *T, i int64) {
		pre := int(i % 3)
		ptr := int(i / 3 % 4)
		which := int(i / 12)
		deps := []string{"", "id", "new"}
		tag := `json:"old"`
		if deps[which] != "" {
			tag += fmt.Sprintf(` yunion-deprecated-by:"%s"`, deps[which])
		}
		base := structOf(fld("Id", tString, ""), fld("New", tString, ""), fld("Old", tString, tag))
		var e [2]reflect.Type
		for k := range e {
			e[k] = base
			if ptr>>uint(k)&1 == 1 {
				e[k] = reflect.PointerTo(base)
			}
		}
		tags := [2]string{}
		if pre != 1 {
			tags[0] = `yunion-ambiguous-prefix:"one_"`
		}
		if pre != 0 {
			tags[1] = `yunion-ambiguous-prefix:"two_"`
		}
		ty := structOf(emb("First", e[0], tags[0]), emb("Second", e[1], tags[1]))
		var names []string
		for _, f := range members(reflect.New(ty).Elem()) {
			names = append(names, f.name)
		}
		depCase(t, ty, names, func(k int) *V { return vStr(fmt.Sprintf("v%d", k)) }, true)
	}})
	return suites
}

// ---- C22: names and embedding ----

// layout builds struct types with entries drawn from a list.
type nameEntry struct {
	goName, tag string
}

var nameEntries = []nameEntry{
	{"Name", ""},
	{"FirstName", ""},
	{"Name", `json:"x"`},
	{"FirstName", `json:"name"`},
	{"Name", `name:"y" json:"x"`},
	{"VMName", `json:",omitempty"`},
	{"ID", ""},
	{"ID", `json:"-"`},
	{"Value", `json:"Value"`},
	{"FirstName", `json:"firstName,omitempty"`},
	{"Other", `json:"first_name"`},
	{"Enabled", `json:"-,"`},
	{"LongFieldName", `name:"name"`},
}

func nameSpellings(fs []flatField) []string {
	seen := map[string]bool{"zzz": true, "": true, "nam": true, "name_x": true}
	for _, f := range fs {
		seen[f.name] = true
		seen[f.goName] = true
		seen[f.snake] = true
		if len(f.goName) > 1 && f.goName[1] >= 'a' && f.goName[1] <= 'z' {
			seen[strings.ToLower(f.goName[:1])+f.goName[1:]] = true
		}
	}
	d := vDict()
	for s := range seen {
		d.M[s] = nil
	}
	return d.keys()
}

// distinct tells whether all members have names of their own.
func distinct(fs []flatField) bool {
	n := map[string]bool{}
	for _, f := range fs {
		if n[f.name] {
			return false
		}
		n[f.name] = true
	}
	return true
}

// layoutCase checks one struct type of text fields. pairs also sends all pairs of names.
func layoutCase(t *T, ty reflect.Type, pairs bool) {
	desc := func() string { return fmt.Sprintf("struct %s", ty) }
	t.State(ty.String())
	// written: all fields filled, each field alone
	probe := members(reflect.New(ty).Elem())
	t.Try(desc, func() {
		for k := -1; k < len(probe); k++ {
			x := reflect.New(ty).Elem()
			fs := members(x)
			want := vDict()
			all := vDict()
			for i, f := range fs {
				all.M[f.name] = vStr("")
				if k >= 0 && i != k {
					continue
				}
				if f.attach != nil {
					f.attach()
				}
				f.v.SetString(fmt.Sprintf("v%d", i))
				want.M[f.name] = vStr(fmt.Sprintf("v%d", i))
			}
			for i, f := range fs {
				if all.M[f.name].S == "" {
					all.M[f.name] = vStr(f.v.String())
				}
				_ = i
			}
			o := ju.Marshal(x.Interface())
			t.Op(1)
			got := observe(o)
			if distinct(fs) {
				if s := same(got, want); s != "" {
					t.Failf("Marshal of %s gives %s instead of %s: %s", ty, brief(o.String()), want.text(), s)
					return
				}
				if a := observe(ju.MarshalAll(x.Interface())); same(a, all) != "" {
					t.Failf("MarshalAll of %s gives %s instead of %s", ty, a.text(), all.text())
					return
				}
				y := reflect.New(ty)
				if err := o.Unmarshal(y.Interface()); err != nil {
					t.Failf("%s into %s: %v", o.String(), ty, err)
				} else if s := same(observe(ju.Marshal(y.Elem().Interface())), want); s != "" {
					t.Failf("%s comes back through %s as %s: %s", o.String(), ty, ju.Marshal(y.Elem().Interface()), s)
				}
			} else if strings.Join(got.keys(), ",") != strings.Join(want.keys(), ",") {
				t.Failf("Marshal of %s gives the members %v instead of %v", ty, got.keys(), want.keys())
			}
		}
	})
	// read: every spelling of every name
	names := nameSpellings(probe)
	one := func(d *V, pre bool) {
		x := reflect.New(ty).Elem()
		want := reflect.New(ty).Elem()
		if pre {
			x.Set(filledOf(ty, 0))
			want.Set(filledOf(ty, 0))
		}
		fillStruct(d, want)
		t.Try(func() string { return fmt.Sprintf("unmarshalling %s into %s", d.text(), ty) }, func() {
			err := d.obj().Unmarshal(x.Addr().Interface())
			t.Op(1)
			if err != nil {
				t.Failf("unmarshalling %s into %s: %v", d.text(), ty, err)
				return
			}
			if s := sameGo(x, want, "$"); s != "" {
				t.Failf("unmarshalling %s into %s: %s", d.text(), ty, s)
			}
		})
	}
	for i, a := range names {
		for pre := 0; pre < 2; pre++ {
			one(vDict(a, vStr("new")), pre == 1)
			one(vDict(a, vStr("")), pre == 1)
		}
		if pairs {
			for j := i + 1; j < len(names); j++ {
				// two names for one field: the order decides, not specified
				b := names[j]
				ma, mb := matching(probe, a), matching(probe, b)
				clash := false
				for _, p := range ma {
					for _, q := range mb {
						clash = clash || p == q
					}
				}
				if !clash {
					one(vDict(a, vStr("new"), b, vStr("also")), false)
				}
			}
		}
	}
}

func validStruct(fs []reflect.StructField) bool {
	n := map[string]bool{}
	for _, f := range fs {
		if n[f.Name] {
			return false
		}
		n[f.Name] = true
	}
	return true
}

// letters writes a number in letters.
func letters(k int) string {
	return string(rune('a'+k/26)) + string(rune('a'+k%26))
}

// twinTypes are different types of one name.
func twinTypes() []reflect.Type {
	a := func() reflect.Type {
		type Twin struct{ First, Second string }
		return reflect.TypeOf(Twin{})
	}()
	b := func() reflect.Type {
		type Twin struct {
			Second string
			First  string `json:"second_one"`
		}
		return reflect.TypeOf(Twin{})
	}()
	c := func() reflect.Type {
		type Twin struct {
			Other, Third string
			First        string `json:"first,omitempty"`
		}
		return reflect.TypeOf(Twin{})
	}()
	d := func() reflect.Type {
		type Base struct{ Second string }
		type Twin struct {
			Base
			First string `json:"-"`
			Last  string `json:"first"`
		}
		return reflect.TypeOf(Twin{})
	}()
	e := func() reflect.Type {
		type Base struct {
			First string `json:"second"`
		}
		type Twin struct {
			*Base
			Second string `json:"first"`
		}
		return reflect.TypeOf(Twin{})
	}()
	return []reflect.Type{a, b, c, d, e}
}

func nameFld(k int) reflect.StructField {
	return fld(nameEntries[k].goName, tString, nameEntries[k].tag)
}

func init() {
	register(&Check{ID: "C17", Suites: depSuites, Assume: []string{
		"A document that carries several names of one chain sets each field to the value of one of them.",
		"Field names hold no digits (the package that derives names drops them).",
	}})
	register(&Check{ID: "C22", Suites: func(quick bool) []Suite {
		var suites []Suite
		ne := len(nameEntries)
		for n := 1; n <= 3; n++ {
			n := n
			suites = append(suites, Suite{Name: fmt.Sprintf("flat-%d", n), Bound: fmt.Sprintf("all structs of %d text fields out of %d combinations of Go name and tags, every field alone and all together marshalled, every spelling of every name and every pair unmarshalled into a zero and a filled struct", n, ne), N: ipow(int64(ne), n), Run: func(t *T, i int64) {
				var fs []reflect.StructField
				for _, k := range radix(i, int64(ne), n) {
					fs = append(fs, nameFld(k))
				}
				if validStruct(fs) {
					layoutCase(t, structOf(fs...), true)
				}
			}})
		}
		// embedded structs at any position, by value or pointer, with or without a prefix
		prefixes := []string{"", `yunion-ambiguous-prefix:"pre_"`}
		suites = append(suites, Suite{Name: "embedded-1", Bound: "all structs of up to 2 own fields with one embedded struct of up to 2 fields (" + map[bool]string{true: "3 fields together", false: "4 together"}[quick] + "), by value and by pointer, first, between and last, with and without an ambiguity prefix", N: ipow(int64(ne+1), 4) * 12, Run: func(t *T, i int64) {
			d := radix(i/12, int64(ne+1), 4)
			if quick && d[0] > 0 && d[1] > 0 && d[2] > 0 && d[3] > 0 {
				return
			}
			way := int(i % 12)
			var own, sub []reflect.StructField
			for k := 0; k < 2; k++ {
				if d[k] > 0 {
					own = append(own, nameFld(d[k]-1))
				}
				if d[k+2] > 0 {
					sub = append(sub, nameFld(d[k+2]-1))
				}
			}
			if !validStruct(own) || !validStruct(sub) || len(own) == 0 && way%3 > 0 || len(own) == 1 && way%3 > 1 {
				return
			}
			e := structOf(sub...)
			if way/3%2 == 1 {
				e = reflect.PointerTo(e)
			}
			ef := emb("Emb", e, prefixes[way/6])
			at := way % 3
			fs := append(append(append([]reflect.StructField{}, own[:at]...), ef), own[at:]...)
			layoutCase(t, structOf(fs...), false)
		}})
		suites = append(suites, Suite{Name: "embedded-2", Bound: "all structs of one own field and two embedded structs of one field each, by value and by pointer, with and without prefixes, and nested into each other by value", N: ipow(int64(ne), 3) * 16 * 2, Run: func(t *T, i int64) {
			nested := i%2 == 1
			way := int(i / 2 % 16)
			d := radix(i/32, int64(ne), 3)
			var e [2]reflect.Type
			tags := [2]string{}
			for k := 0; k < 2; k++ {
				fs := []reflect.StructField{nameFld(d[k+1])}
				if nested && k == 1 {
					if way&2 > 0 {
						return // an embedded struct below an embedded pointer
					}
					fs = append(fs, emb("Inner", e[0], tags[0]))
				}
				e[k] = structOf(fs...)
				if way>>uint(k)&1 == 1 {
					e[k] = reflect.PointerTo(e[k])
				}
				tags[k] = prefixes[way>>uint(k+2)&1]
			}
			fs := []reflect.StructField{nameFld(d[0]), emb("First", e[0], tags[0]), emb("Second", e[1], strings.Replace(tags[1], "pre_", "two_", 1))}
			if nested {
				fs = []reflect.StructField{nameFld(d[0]), emb("Second", e[1], strings.Replace(tags[1], "pre_", "two_", 1))}
			}
			layoutCase(t, structOf(fs...), false)
		}})
		suites = append(suites, Suite{Name: "depth", Bound: "embedding up to 6 deep, by value, with a field at every level, a pointer at the innermost", N: 6 * int64(ne), Run: func(t *T, i int64) {
			n := int(i / int64(ne))
			ty := structOf(nameFld(int(i) % ne))
			for k := 0; k < n; k++ {
				e := ty
				if k == 0 && i%2 == 1 {
					e = reflect.PointerTo(ty)
					ty = structOf(fld("L"+strings.Repeat("x", k), tString, ""), emb("Emb", e, ""))
					continue
				}
				ty = structOf(fld("L"+strings.Repeat("x", k), tString, ""), emb("Emb", e, ""))
			}
			layoutCase(t, ty, true)
		}})
		tw := twinTypes()
		suites = append(suites, Suite{Name: "same-name", Bound: fmt.Sprintf("%d struct types of one name (declared in different functions) with different fields and tags, one after the other", len(tw)), N: 1, Run: func(t *T, i int64) {
			for k := 0; k < 3; k++ {
				for j := range tw {
					layoutCase(t, tw[(j*(k+1)+k)%len(tw)], true)
				}
			}
		}})
		long := []int{2, 8, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000}
		suites = append(suites, Suite{Name: "long-names", Bound: "structs whose fields have Go names and tags of up to 1000 letters, differing in the last one only, own and embedded", N: int64(len(long)) * 4, Run: func(t *T, i int64) {
			n := long[i/4]
			x := "F" + strings.Repeat("x", n-1)
			if i&1 == 1 {
				x = strings.Repeat("Ab", n/2)
			}
			a, b := fld(x+"y", tString, ""), fld(x+"z", tString, `json:"`+strings.Repeat("t", n)+`a"`)
			c := fld(x+"w", tString, `json:"`+strings.Repeat("t", n)+`b,omitempty"`)
			ty := structOf(a, b, c)
			if i&2 == 2 {
				ty = structOf(a, emb("Emb", structOf(b, c), ""))
			}
			layoutCase(t, ty, true)
		}})
		wide := []int{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129}
		suites = append(suites, Suite{Name: "wide", Bound: "structs of up to 129 fields, own, in one and in several embedded structs", N: int64(len(wide)) * 4, Run: func(t *T, i int64) {
			n := wide[i/4]
			var fs, sub []reflect.StructField
			for k := 0; k < n; k++ {
				f := fld("F"+letters(k)+"Name", tString, "")
				if k%3 == 1 {
					f.Tag = reflect.StructTag(`json:"m` + letters(k) + `,omitempty"`)
				}
				if i%4 > 0 && k%2 == 1 {
					sub = append(sub, f)
				} else {
					fs = append(fs, f)
				}
				if i%4 == 3 && len(sub) == 5 {
					fs = append(fs, emb("Emb"+letters(k), structOf(sub...), ""))
					sub = nil
				}
			}
			if len(sub) > 0 {
				e := structOf(sub...)
				if i%4 == 2 {
					e = reflect.PointerTo(e)
				}
				fs = append(fs[:1:1], append([]reflect.StructField{emb("Emb", e, "")}, fs[1:]...)...)
			}
			layoutCase(t, structOf(fs...), false)
		}})
		suites = append(suites, Suite{Name: "nested-nil", Bound: "an embedded struct (by value or pointer) inside of a nil embedded pointer, one and two levels", N: 4, Run: func(t *T, i int64) {
			inner := structOf(fld("Name", tString, ""))
			mid := inner
			if i&1 == 1 {
				mid = reflect.PointerTo(inner)
			}
			b := structOf(emb("Inner", mid, ""), fld("Own", tString, ""))
			ty := structOf(emb("Emb", reflect.PointerTo(b), ""), fld("Rest", tString, ""))
			if i&2 > 0 {
				ty = structOf(emb("Top", reflect.PointerTo(ty), ""))
			}
			for _, name := range []string{"name", "own", "rest"} {
				want := reflect.New(ty).Elem()
				fillStruct(vDict(name, vStr("new")), want)
				x := reflect.New(ty).Elem()
				t.Try(func() string { return fmt.Sprintf("unmarshalling %s", name) }, func() {
					if err := vDict(name, vStr("new")).obj().Unmarshal(x.Addr().Interface()); err != nil {
						t.Failf("unmarshalling the member %s into nested embedded pointers %d: %v", name, i, err)
						return
					}
					if s := sameGo(x, want, "$"); s != "" {
						t.Failf("unmarshalling the member %s into nested embedded pointers %d: %s", name, i, s)
					}
				})
			}
		}})
		return suites
	}, Assume: []string{
		"Field names hold no digits (the package that derives names drops them), embedded structs have exported type names.",
		"If two members have one name, both are set, and one of them is written.",
	}})
}
