package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// unmInto unmarshals d (as o) into target (settable, its own), and compares
// with the model applied to a copy.
func unmInto(t *T, what string, d *V, target reflect.Value, do func(ptr interface{}) error) verdict {
	return unmIntoF(t, func() string { return what }, d, target, do)
}

func unmIntoF(t *T, what func() string, d *V, target reflect.Value, do func(ptr interface{}) error) verdict {
	before := copyGo(target)
	want := reflect.New(target.Type()).Elem()
	want.Set(copyGo(target))
	var ks []kept
	keptIn(target, "$", &ks)
	desc := func() string {
		return fmt.Sprintf("%s %s into %s %s", what(), brief(d.text()), target.Type(), show(before))
	}
	exp := fill(d, want)
	t.Try(desc, func() {
		err := do(target.Addr().Interface())
		t.Op(1)
		switch {
		case exp == fillAny:
			return
		case exp == fillErr && err == nil:
			t.Failf("%s: no error, result %s", desc(), show(target))
			return
		case exp == fillOK && err != nil:
			t.Failf("%s: %v", desc(), err)
			return
		case exp == fillErr:
			return
		}
		if x := sameGo(target, want, "$"); x != "" {
			t.Failf("%s gives %s instead of %s: %s", desc(), show(target), show(want), x)
			return
		}
		if x := keptOK(ks); x != "" {
			t.Failf("%s: %s", desc(), x)
		}
	})
	return exp
}

// unmDocs are the documents to unmarshal: scalars in up to n containers.
func unmDocs(n int) []*V {
	sc := []*V{vNull(), vBool(true), vBool(false), vInt(0), vInt(1), vInt(-7), vInt(300), vInt(1 << 40), vFloat(0), vFloat(0.5), vFloat(1.5), vFloat(-2.25), vFloat(3), vFloat(1e30),
		vStr(""), vStr("5"), vStr("-3"), vStr("1.5"), vStr("1,234"), vStr("1.234,5"), vStr("1"), vStr("true"), vStr("No"), vStr("off"), vStr("abc"), vStr("null"), vStr("2021-03-04T05:06:07.891234Z"), vStr("[1]"), vStr("{}")}
	level := append(append([]*V{}, sc...), vArr(), vDict())
	r := append([]*V{}, level...)
	for ; n > 0; n-- {
		var next []*V
		for i, d := range level {
			e := level[(i+1)%len(level)]
			next = append(next, vArr(d), vArr(d, e), vDict("value", d), vDict("first", d, "other", e, "b", vStr("x")), vDict("k", d, "zzz", vInt(1)))
		}
		r = append(r, next...)
		level = next
	}
	return r
}

func oddBases() []reflect.Type {
	r := []reflect.Type{tAny, tErr, tObj, reflect.TypeOf((*mcIface)(nil)).Elem(), reflect.TypeOf((*ju.JSONPair)(nil)).Elem(), reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(map[int]string{}), reflect.TypeOf([0]int{}), reflect.TypeOf([1]string{}), reflect.TypeOf(struct{}{}), reflect.TypeOf([]byte{})}
	for _, x := range []interface{}{ju.JSONBool{}, ju.JSONInt{}, ju.JSONFloat{}, ju.JSONString{}, ju.JSONArray{}, ju.JSONDict{}} {
		r = append(r, reflect.TypeOf(x), reflect.PointerTo(reflect.TypeOf(x)))
	}
	return r
}

// targetsOf gives fresh targets of a type: zero and filled.
func targetsOf(t reflect.Type) []reflect.Value {
	var r []reflect.Value
	for k := -1; k < 3; k++ {
		x := reflect.New(t).Elem()
		if k >= 0 {
			x.Set(filledOf(t, k))
		}
		r = append(r, x)
	}
	return r
}

// updates

type uIn struct {
	A int
	B string
	L []int
}

type UEmb struct {
	City string
	Area *uIn
}

type UPtr struct {
	Zip  string
	Code int
}

type uT struct {
	Name string
	Age  int
	On   bool
	Tri  tristate.TriState
	When time.Time
	Opt  *string
	In   uIn
	InP  *uIn
	Ls   []string
	Ms   map[string]int
	Mp   map[string]*uIn
	Lp   []*uIn
	Lv   []uIn
	Ar   [2]uIn
	Any  interface{}
	Doc  ju.JSONObject
	UEmb
	*UPtr
	Skip string `json:"-"`
	priv int
}

// uMembers are the members of an update with the values they may carry.
func uMembers() (names []string, values [][]*V) {
	add := func(n string, vs ...*V) {
		names = append(names, n)
		values = append(values, append(vs, vNull()))
	}
	add("name", vStr("new"), vStr(""), vInt(5))
	add("age", vInt(8), vStr("12"), vStr(""), vStr("x"))
	add("on", vBool(true), vBool(false))
	add("tri", vBool(true), vBool(false))
	add("when", vStr("2022-01-02T03:04:05Z"), vStr(""))
	add("opt", vStr("o"), vStr(""))
	add("in", vDict(), vDict("a", vInt(5)), vDict("b", vStr("b"), "l", vArr(vInt(1))))
	add("in_p", vDict(), vDict("a", vInt(6)), vDict("b", vNull(), "l", vArr()))
	add("ls", vArr(), vArr(vStr("l")), vArr(vStr("l"), vNull(), vStr("m")), vStr("one"))
	add("ms", vDict(), vDict("value", vInt(3)), vDict("n", vInt(1), "old", vNull()))
	add("mp", vDict("value", vDict("a", vInt(9))), vDict("n", vDict(), "old", vNull()))
	add("lp", vArr(vDict("a", vInt(1))), vArr(vNull(), vDict("b", vStr("q")), vDict()))
	add("lv", vArr(vDict("a", vInt(1))), vArr(vDict(), vDict("b", vStr("q")), vDict("l", vArr(vInt(4)))))
	add("ar", vArr(vDict("a", vInt(1)), vDict("b", vStr("q"))), vArr(vDict()))
	add("any", vInt(3), vStr("any"), vArr(vInt(1)))
	add("doc", vInt(3), vDict("x", vArr()))
	add("city", vStr("c"), vStr(""))
	add("area", vDict("a", vInt(2)), vDict())
	add("zip", vStr("z"), vStr(""))
	add("code", vInt(4))
	add("skip", vStr("s"))
	add("unknown", vDict("name", vStr("zz")), vInt(1))
	return
}

// asIface turns a document into maps, lists and scalars.
func asIface(d *V) interface{} {
	switch d.K {
	case KBool:
		return d.B
	case KInt:
		return d.I
	case KFloat:
		return d.F
	case KStr:
		return d.S
	case KArr:
		l := []interface{}{}
		for _, x := range d.A {
			l = append(l, asIface(x))
		}
		return l
	case KDict:
		m := map[string]interface{}{}
		for k, x := range d.M {
			m[k] = asIface(x)
		}
		return m
	}
	return nil
}

// without nil entries, as maps and lists of interfaces are marshalled
func denull(d *V) *V {
	switch d.K {
	case KArr:
		r := vArr()
		for _, x := range d.A {
			if x.K != KNull {
				r.A = append(r.A, denull(x))
			}
		}
		return r
	case KDict:
		r := vDict()
		for k, x := range d.M {
			if x.K != KNull {
				r.M[k] = denull(x)
			}
		}
		return r
	}
	return d
}

func uTarget(k int) reflect.Value {
	x := reflect.New(reflect.TypeOf(uT{})).Elem()
	if k > 0 {
		x.Set(filledOf(x.Type(), k-1))
		u := x.Addr().Interface().(*uT)
		u.priv = 77
		if k == 3 {
			u.UPtr, u.InP, u.Opt, u.Ms, u.Lp = nil, nil, nil, nil, nil
		}
	}
	return x
}

// updateAll applies a document through all kinds of sources.
func updateAll(t *T, d *V, k int) {
	for way := 0; way < 4; way++ {
		x := uTarget(k)
		src, m, what := interface{}(nil), d, ""
		switch way {
		case 0:
			src, what = d.obj(), "Update from a document"
		case 1:
			src, m, what = asIface(d), denull(d), "Update from a map"
		case 2:
			what = "Unmarshal"
		case 3:
			p, err := ju.ParseString(d.text())
			if err != nil {
				t.Failf("%s does not parse: %v", d.text(), err)
				return
			}
			src, what = struct{ *ju.JSONDict }{}, "Update from a parsed document"
			src = p
		}
		unmInto(t, what, m, x, func(p interface{}) error {
			if src == nil {
				return d.obj().Unmarshal(p)
			}
			return ju.Update(p, src)
		})
		if u := x.Addr().Interface().(*uT); k > 0 && u.priv != 77 {
			t.Failf("%s of %s changed an unexported field", what, d.text())
		}
	}
}

func init() {
	register(&Check{ID: "C16", Suites: func(quick bool) []Suite {
		var suites []Suite
		bases := append(allBases(), oddBases()...)
		add := func(name, bound string, docs []*V, types []reflect.Type) {
			suites = append(suites, Suite{Name: name, Bound: bound + fmt.Sprintf(" (%d documents, %d types)", len(docs), len(types)), N: int64(len(types)) * int64((len(docs)+49)/50), Run: func(t *T, i int64) {
				ty := types[i%int64(len(types))]
				lo := int(i/int64(len(types))) * 50
				for j := lo; j < lo+50 && j < len(docs); j++ {
					d := docs[j]
					o := d.obj()
					for _, x := range targetsOf(ty) {
						t.Outcome(fmt.Sprint(unmInto(t, "unmarshalling", d, x, func(p interface{}) error { return o.Unmarshal(p) })))
					}
					t.State(ty.String() + d.text())
				}
			}})
		}
		n1, n2 := 1, 2
		if !quick {
			n2 = 3
		}
		add("scalars", "scalars and empty containers into types of up to 2 constructors, each with zero and three filled targets", unmDocs(0), typesUpTo(bases, 2))
		add("nested-1", "documents of up to 1 container into types of up to 2 constructors", unmDocs(n1)[len(unmDocs(0)):], typesUpTo(bases, 2))
		add("nested-2", fmt.Sprintf("documents of 2 to %d containers into types of up to 1 constructor", n2), unmDocs(n2)[len(unmDocs(n1)):], typesUpTo(bases, 1))
		add("deep", "documents of 2 containers into types of 2 constructors", unmDocs(2)[len(unmDocs(1)):], typesUpTo(append(fewBases(), tAny, tObj), 2)[9+9*6:])
		if !quick {
			add("deeper", "documents of 3 containers into types of 3 constructors", unmDocs(3)[len(unmDocs(2)):], typesUpTo([]reflect.Type{tString, tInt, tF64}, 3)[3+18+108:])
		}
		docs := append(unmDocs(1), unmDocs(2)[len(unmDocs(1)):len(unmDocs(1))+40]...)
		suites = append(suites, Suite{Name: "keys", Bound: "unmarshalling the value at every path of up to 2 names of each document into basic types, structs and maps", N: int64(len(docs)), Run: func(t *T, i int64) {
			names := []string{"value", "first", "other", "k", "nope", ""}
			var paths [][]string
			for _, a := range names {
				paths = append(paths, []string{a})
				for _, b := range names {
					paths = append(paths, []string{a, b})
				}
			}
			o := docs[i].obj()
			for _, p := range paths {
				sub, ok := docs[i], true
				for _, n := range p {
					if sub.K != KDict || sub.M[n] == nil {
						ok = false
						break
					}
					sub = sub.M[n]
				}
				for _, ty := range typesUpTo([]reflect.Type{tString, tInt, tObj}, 1) {
					if ok {
						x := targetsOf(ty)[1]
						unmInto(t, fmt.Sprintf("unmarshalling the path %q, which is", p), sub, x, func(ptr interface{}) error { return o.Unmarshal(ptr, p...) })
						continue
					}
					x := targetsOf(ty)[1]
					was := copyGo(x)
					t.Try(func() string { return fmt.Sprintf("unmarshalling the path %q of %s", p, docs[i].text()) }, func() {
						if err := o.Unmarshal(x.Addr().Interface(), p...); err == nil {
							t.Failf("unmarshalling the missing path %q of %s into %s: no error", p, docs[i].text(), ty)
						} else if s := sameGo(x, was, "$"); s != "" {
							t.Failf("unmarshalling the missing path %q of %s into %s changes the target: %s", p, docs[i].text(), ty, s)
						}
					})
				}
			}
		}})
		// references in hand-written documents
		toks := []string{`{"___jnid_":1,"id":1,"p":X}`, `{"___jnid_":2,"id":"x","l":[X],"m":{"k":X}}`, `{"p":X,"q":X}`, `[X,X]`, "<1>", "<2>", "<3>", "null", `"<1>"`}
		suites = append(suites, Suite{Name: "references", Bound: "all texts made of objects with and without node ids, lists and references to known, later and unknown nodes up to 4 pieces, into graph nodes, lists, maps, interfaces and scalars", N: ipow(int64(len(toks)), 4), Run: func(t *T, i int64) {
			text := "X"
			for _, k := range radix(i, int64(len(toks)), 4) {
				text = replaceFirstX(text, toks[k])
			}
			for {
				n := replaceFirstX(text, "<1>")
				if n == text {
					break
				}
				text = n
			}
			o, err := ju.ParseString(text)
			if err != nil {
				return
			}
			for _, ty := range []reflect.Type{reflect.TypeOf(gN{}), reflect.TypeOf(&gN{}), reflect.TypeOf([]*gN{}), reflect.TypeOf(map[string]*gN{}), reflect.TypeOf(map[string]gN{}), tAny, tString, tInt, tObj, reflect.TypeOf([]int{}), reflect.TypeOf(ju.JSONDict{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf([2]*gN{}), tTime, tTri} {
				t.Try(func() string { return fmt.Sprintf("unmarshalling %s into %s", text, ty) }, func() {
					x := reflect.New(ty)
					o.Unmarshal(x.Interface())
					o.Unmarshal(x.Interface())
					t.Op(2)
				})
			}
			t.State(text)
		}})
		// every text up to a length into every basic type
		alpha := []string{"0", "1", "9", "-", "+", ".", ",", "e", "x", "t", " "}
		n := 3
		if !quick {
			n = 4
		}
		suites = append(suites, Suite{Name: "texts", Bound: fmt.Sprintf("all texts of up to %d symbols %v into every basic type", n, alpha), N: wordsUpTo(int64(len(alpha)), n), Run: func(t *T, i int64) {
			s := ""
			for _, k := range word(i, int64(len(alpha))) {
				s += alpha[k]
			}
			for _, ty := range allBases() {
				for _, x := range targetsOf(ty)[:2] {
					if ty == tTime || ty.Kind() == reflect.Ptr {
						continue
					}
					unmInto(t, "unmarshalling", vStr(s), x, func(p interface{}) error { return ju.NewString(s).Unmarshal(p) })
				}
			}
			t.State(s)
		}})
		var words []string
		for _, b := range []string{"true", "on", "yes", "1", "false", "off", "no", "0", "y", "n", "t", "f", "2", "null", "none"} {
			for _, v := range caseVariants(b) {
				words = append(words, v, v+" ", " "+v, v+"x", "x"+v, v+v)
			}
		}
		words = append(words, specialWords...)
		wordTypes := typesUpTo(append(allBases(), oddBases()...), 1)
		suites = append(suites, Suite{Name: "words", Bound: fmt.Sprintf("%d texts: boolean words in every letter case with additions before and behind, and special words, into %d types of up to one constructor", len(words), len(wordTypes)), N: int64(len(words)), Run: func(t *T, i int64) {
			d := vStr(words[i])
			for _, ty := range wordTypes {
				if strings.Contains(ty.String(), "time.Time") {
					continue // C29 knows the layouts
				}
				for _, x := range targetsOf(ty)[:2] {
					unmInto(t, "unmarshalling", d, x, func(p interface{}) error { return ju.NewString(words[i]).Unmarshal(p) })
				}
			}
			t.State(words[i])
		}})
		ints := intLadder()
		suites = append(suites, Suite{Name: "integers", Bound: fmt.Sprintf("%d integers, as number and as text, into every basic type", len(ints)), N: int64(len(ints)), Run: func(t *T, i int64) {
			for _, ty := range append(allBases(), oddBases()...) {
				for _, x := range targetsOf(ty)[:2] {
					unmInto(t, "unmarshalling", vInt(ints[i]), x, func(p interface{}) error { return ju.NewInt(ints[i]).Unmarshal(p) })
				}
				if ty == tTime {
					continue
				}
				s := fmt.Sprint(ints[i])
				for _, x := range targetsOf(ty)[:2] {
					unmInto(t, "unmarshalling", vStr(s), x, func(p interface{}) error { return ju.NewString(s).Unmarshal(p) })
				}
			}
		}})
		floats := floatLadder(!quick)
		suites = append(suites, Suite{Name: "floats", Bound: fmt.Sprintf("%d floats, as number and as text, into every basic type", len(floats)), N: int64(len(floats)), Run: func(t *T, i int64) {
			f := floats[i]
			for _, ty := range append(allBases(), oddBases()...) {
				if ty.Kind() == reflect.Float32 && math.Abs(f) > math.MaxFloat32 {
					continue
				}
				for _, x := range targetsOf(ty)[:2] {
					unmInto(t, "unmarshalling", vFloat(f), x, func(p interface{}) error { return ju.NewFloat64(f).Unmarshal(p) })
				}
				if ty == tTime || ty.Kind() != reflect.Float32 && ty.Kind() != reflect.Float64 && ty.Kind() != reflect.String {
					continue
				}
				s := strconv.FormatFloat(f, 'f', -1, 64)
				for _, x := range targetsOf(ty)[:2] {
					unmInto(t, "unmarshalling", vStr(s), x, func(p interface{}) error { return ju.NewString(s).Unmarshal(p) })
				}
			}
		}})
		return suites
	}, Assume: []string{
		"The target is a non-nil pointer.",
		"What is stored when a number does not fit the target type is not specified, nor what targets hold after an error.",
		"Lists and objects into tri-states and into pointers to text may be errors or text; a pointer to a time is read by the time's own method.",
	}})

	register(&Check{ID: "C23", Suites: func(quick bool) []Suite {
		var suites []Suite
		names, values := uMembers()
		var ones []*V // all single-member updates
		for i, n := range names {
			for _, v := range values[i] {
				ones = append(ones, vDict(n, v))
			}
		}
		merge := func(ds ...*V) *V {
			r := vDict()
			for _, d := range ds {
				for k, v := range d.M {
					r.M[k] = v
				}
			}
			return r
		}
		m := int64(len(ones))
		suites = append(suites, Suite{Name: "pairs", Bound: fmt.Sprintf("all updates of up to two members out of %d (%d member values) to a target of %d fields of all kinds, zero and filled in three ways, from documents, maps and parsed text", len(names), m, reflect.TypeOf(uT{}).NumField()), N: m * m, Run: func(t *T, i int64) {
			d := merge(ones[i/m], ones[i%m])
			for k := 0; k < 4; k++ {
				updateAll(t, d, k)
			}
			t.State(d.text())
		}})
		seq := 2
		if !quick {
			seq = 3
		}
		suites = append(suites, Suite{Name: "sequences", Bound: fmt.Sprintf("all sequences of %d single-member updates to one target, zero and filled", seq), N: ipow(m, seq), Run: func(t *T, i int64) {
			for k := 0; k < 3; k += 2 {
				x := uTarget(k)
				for _, a := range radix(i, m, seq) {
					d := ones[a]
					if unmInto(t, "Update from a document", d, x, func(p interface{}) error { return ju.Update(p, d.obj()) }) != fillOK {
						break
					}
				}
			}
		}})
		// structs as sources: every subset of filled fields
		ft := reflect.TypeOf(uT{})
		nf := ft.NumField() - 1
		suites = append(suites, Suite{Name: "structs", Bound: fmt.Sprintf("updates from a struct of the same type with every subset of its %d fields filled (two ways), and pointers to it", nf), N: int64(1) << uint(nf-4), Run: func(t *T, i int64) {
			for hi := 0; hi < 16; hi++ {
				bits := i | int64(hi)<<uint(nf-4)
				src := reflect.New(ft).Elem()
				for f := 0; f < nf; f++ {
					if bits>>uint(f)&1 == 1 && ft.Field(f).Name != "Any" {
						src.Field(f).Set(filledOf(ft.Field(f).Type, f+2))
					}
				}
				w := writtenFlat(src)
				for k := 0; k < 3; k += 2 {
					x := uTarget(k)
					arg := src.Interface()
					if hi%2 == 1 {
						arg = src.Addr().Interface()
					}
					unmInto(t, "Update from a struct", w, x, func(p interface{}) error { return ju.Update(p, arg) })
				}
			}
		}})
		few := append(fewBases(), reflect.TypeOf(mcInt(0)), reflect.TypeOf(mcList(nil)), reflect.TypeOf(mcMap(nil)))
		types := typesUpTo(few, 2)
		suites = append(suites, Suite{Name: "types", Bound: fmt.Sprintf("all types of up to 2 constructors around %d basic types: every listed value updated from every listed value", len(few)), N: int64(len(types)), Run: func(t *T, i int64) {
			vs := valuesOf(types[i])
			if len(vs) > 14 && quick {
				vs = append(vs[:7:7], vs[len(vs)-7:]...)
			}
			for _, a := range vs {
				for _, b := range vs {
					w := written(b, nil, false)
					if w == nil {
						w = vNull()
					}
					x := reflect.New(types[i]).Elem()
					x.Set(copyGo(a))
					unmInto(t, "Update", w, x, func(p interface{}) error { return ju.Update(p, b.Interface()) })
				}
			}
			t.State(types[i].String())
		}})
		type S struct {
			A int
			B string
			C *int
			D []int
			E map[string]int
		}
		sizes := withJumbo(sizeLadder(130), true, 255, 256, 257, 1023, 1024, 1025)
		suites = append(suites, Suite{Name: "sizes", Bound: fmt.Sprintf("lists, arrays and maps of up to %d filled structs, pointers to structs, lists and maps, updated from documents of as many, one less, one more, few and no entries that carry one member each, from the start and the end", sizes[len(sizes)-1]), N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			seven := 7
			full := func() S { return S{1, "old", &seven, []int{1, 2, 3}, map[string]int{"o": 1, "p": 2}} }
			tS := reflect.TypeOf(S{})
			for _, et := range []reflect.Type{tS, reflect.PointerTo(tS), reflect.TypeOf([]S{}), reflect.TypeOf(map[string]S{}), reflect.TypeOf([3]S{}), tInt, tString} {
				el := func() reflect.Value {
					switch et.Kind() {
					case reflect.Struct:
						return reflect.ValueOf(full())
					case reflect.Ptr:
						x := full()
						return reflect.ValueOf(&x)
					case reflect.Slice:
						return reflect.ValueOf([]S{full(), full(), full()})
					case reflect.Array:
						return reflect.ValueOf([3]S{full(), full(), full()})
					case reflect.Map:
						return reflect.ValueOf(map[string]S{"k": full(), "j": full()})
					case reflect.Int:
						return reflect.ValueOf(9)
					}
					return reflect.ValueOf("old")
				}
				part := func(k int) *V {
					d := []*V{vDict("a", vInt(5)), vDict("b", vStr("new")), vDict(), vDict("d", vArr(vInt(4))), vDict("e", vDict("p", vInt(3)))}[k%5]
					switch et.Kind() {
					case reflect.Slice:
						return vArr(d, d)
					case reflect.Array:
						return vArr(d, d, d)
					case reflect.Map:
						return vDict("k", d, "n", d)
					case reflect.Int:
						return vInt(int64(k))
					case reflect.String:
						return vStr(keyName(k))
					}
					return d
				}
				for _, m := range []int{n, n - 1, n + 1, 1, 0} {
					if m < 0 {
						continue
					}
					list, dict := vArr(), vDict()
					for k := 0; k < m; k++ {
						list.A = append(list.A, part(k))
						dict.M[keyName(k+n/2)] = part(k)
					}
					st := reflect.StructOf([]reflect.StructField{fld("L", reflect.SliceOf(et), ""), fld("R", reflect.ArrayOf(n, et), ""), fld("M", reflect.MapOf(tString, et), ""), fld("P", reflect.PointerTo(reflect.ArrayOf(n, et)), "")})
					for way := 0; way < 2; way++ {
						x := reflect.New(st).Elem()
						x.Field(0).Set(reflect.MakeSlice(reflect.SliceOf(et), n, n+way*3))
						x.Field(2).Set(reflect.MakeMap(x.Field(2).Type()))
						x.Field(3).Set(reflect.New(x.Field(1).Type()))
						for k := 0; k < n; k++ {
							x.Field(0).Index(k).Set(el())
							x.Field(1).Index(k).Set(el())
							x.Field(2).SetMapIndex(reflect.ValueOf(keyName(k)), el())
							x.Field(3).Elem().Index(k).Set(el())
						}
						d := vDict("l", list, "m", dict)
						if m == n {
							d = vDict("l", list, "m", dict, "r", list, "p", list)
						}
						if way == 0 {
							unmInto(t, "unmarshalling", d, x, func(p interface{}) error { return d.obj().Unmarshal(p) })
						} else {
							unmInto(t, "Update", d, x, func(p interface{}) error { return ju.Update(p, d.obj()) })
						}
					}
				}
			}
			t.State(fmt.Sprint(n))
		}})
		return suites
	}, Assume: []string{
		"Values of a map are replaced as a whole, not updated in place.",
	}})
}

// writtenFlat is the model of what is written for a struct with embedded structs.
func writtenFlat(v reflect.Value) *V {
	r := vDict()
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.PkgPath != "" {
			continue
		}
		if sf.Anonymous {
			fv := v.Field(i)
			if fv.Kind() == reflect.Ptr {
				if fv.IsNil() {
					fv = reflect.New(sf.Type.Elem())
				}
				fv = fv.Elem()
			}
			for k, x := range writtenFlat(fv).M {
				r.M[k] = x
			}
			continue
		}
		ti := fieldTag(sf)
		if ti.ignore {
			continue
		}
		if e := writtenAs(v.Field(i), ti, false, false); e != nil {
			r.M[ti.name] = e
		}
	}
	return r
}

func replaceFirstX(s, x string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == 'X' {
			return s[:i] + x + s[i+1:]
		}
	}
	return s
}
