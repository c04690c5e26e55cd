package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/gotypes"
)

// ---- C20: types with their own JSON methods ----

// every call of a method is recorded here
var csCalls []string

func csNote(what, text string) { csCalls = append(csCalls, what+" "+text) }

func csTake() []string {
	r := csCalls
	csCalls = nil
	sort.Strings(r)
	return r
}

const csBad = `"refuse me"`

var errCsBad = errors.New("refused by the type")

func csErr(text string) error {
	if text == csBad {
		return errCsBad
	}
	return nil
}

// texts held by number
var csTable []string

func csIndex(text string) int {
	for i, s := range csTable {
		if s == text {
			return i
		}
	}
	csTable = append(csTable, text)
	return len(csTable) - 1
}

type (
	csStruct struct {
		Doc   string
		Other *csStruct
	}
	csStr   string
	csInt   int
	csFloat float64
	csUint  uint8
	csBool  bool
	csList  []string
	csMap   map[string]string
	csArr   [2]string
	// methods of the pointer only
	csPtr  struct{ Doc string }
	csPStr string
	// only one of the methods
	csOnlyM  struct{ Doc string }
	csOnlyMS string
	csOnlyU  struct {
		Doc string `json:"doc"`
		N   int    `json:"n"`
	}
	csOnlyUS string
)

func csOut(s string) ([]byte, error) {
	csNote("M", s)
	return []byte(s), nil
}

func (c csStruct) MarshalJSON() ([]byte, error) { return csOut(c.Doc) }
func (c csStr) MarshalJSON() ([]byte, error)    { return csOut(string(c)) }
func (c csInt) MarshalJSON() ([]byte, error)    { return csOut(csTable[c]) }
func (c csFloat) MarshalJSON() ([]byte, error)  { return csOut(csTable[int(c)]) }
func (c csUint) MarshalJSON() ([]byte, error)   { return csOut(csTable[c]) }
func (c csBool) MarshalJSON() ([]byte, error) {
	if c {
		return csOut(`{"b":[true]}`)
	}
	return csOut(`"no"`)
}
func (c csList) MarshalJSON() ([]byte, error)   { return csOut(strings.Join(c, "")) }
func (c csMap) MarshalJSON() ([]byte, error)    { return csOut(c["doc"]) }
func (c csArr) MarshalJSON() ([]byte, error)    { return csOut(c[1]) }
func (c *csPtr) MarshalJSON() ([]byte, error)   { return csOut(c.Doc) }
func (c *csPStr) MarshalJSON() ([]byte, error)  { return csOut(string(*c)) }
func (c csOnlyM) MarshalJSON() ([]byte, error)  { return csOut(c.Doc) }
func (c csOnlyMS) MarshalJSON() ([]byte, error) { return csOut(string(c)) }

func csIn(b []byte) (string, error) {
	csNote("U", string(b))
	return string(b), csErr(string(b))
}

func (c *csStruct) UnmarshalJSON(b []byte) (err error) { c.Doc, err = csIn(b); return }
func (c *csStr) UnmarshalJSON(b []byte) error          { s, err := csIn(b); *c = csStr(s); return err }
func (c *csInt) UnmarshalJSON(b []byte) error {
	s, err := csIn(b)
	*c = csInt(csIndex(s))
	return err
}
func (c *csFloat) UnmarshalJSON(b []byte) error {
	s, err := csIn(b)
	*c = csFloat(csIndex(s))
	return err
}
func (c *csUint) UnmarshalJSON(b []byte) error {
	s, err := csIn(b)
	*c = csUint(csIndex(s))
	return err
}
func (c *csBool) UnmarshalJSON(b []byte) error {
	s, err := csIn(b)
	*c = csBool(strings.Contains(s, "true"))
	return err
}
func (c *csList) UnmarshalJSON(b []byte) error   { s, err := csIn(b); *c = csList{s}; return err }
func (c *csMap) UnmarshalJSON(b []byte) error    { s, err := csIn(b); *c = csMap{"doc": s}; return err }
func (c *csArr) UnmarshalJSON(b []byte) error    { s, err := csIn(b); *c = csArr{"", s}; return err }
func (c *csPtr) UnmarshalJSON(b []byte) error    { s, err := csIn(b); *c = csPtr{s}; return err }
func (c *csPStr) UnmarshalJSON(b []byte) error   { s, err := csIn(b); *c = csPStr(s); return err }
func (c *csOnlyU) UnmarshalJSON(b []byte) error  { s, err := csIn(b); *c = csOnlyU{Doc: s}; return err }
func (c *csOnlyUS) UnmarshalJSON(b []byte) error { s, err := csIn(b); *c = csOnlyUS(s); return err }

// csKind is a custom type: how to make one that holds a text and how to read
// the text it holds.
type csKind struct {
	t       reflect.Type
	mk      func(s string) interface{}
	has     func(v reflect.Value) string
	ptrOnly bool // methods of the pointer: only placed behind a pointer
	noM     bool // no marshal method
	noU     bool // no unmarshal method
}

func csKinds() []csKind {
	k := func(mk func(s string) interface{}, has func(v reflect.Value) string) csKind {
		return csKind{t: reflect.TypeOf(mk("1")), mk: mk, has: has}
	}
	str := func(v reflect.Value) string { return v.String() }
	doc := func(v reflect.Value) string { return v.Field(0).String() }
	num := func(v reflect.Value) string { return csTable[int(v.Convert(tInt).Int())] }
	r := []csKind{
		k(func(s string) interface{} { return csStruct{Doc: s} }, doc),
		k(func(s string) interface{} { return csStr(s) }, str),
		k(func(s string) interface{} { return csInt(csIndex(s)) }, num),
		k(func(s string) interface{} { return csFloat(csIndex(s)) }, num),
		k(func(s string) interface{} { return csUint(csIndex(s)) }, num),
		k(func(s string) interface{} { return csList{s} }, func(v reflect.Value) string {
			if v.Len() != 1 {
				return "?"
			}
			return v.Index(0).String()
		}),
		k(func(s string) interface{} { return csMap{"doc": s} }, func(v reflect.Value) string {
			e := v.MapIndex(reflect.ValueOf("doc"))
			if !e.IsValid() {
				return "?"
			}
			return e.String()
		}),
		k(func(s string) interface{} { return csArr{"", s} }, func(v reflect.Value) string { return v.Index(1).String() }),
		k(func(s string) interface{} { return csPtr{s} }, doc),
		k(func(s string) interface{} { return csPStr(s) }, str),
		k(func(s string) interface{} { return csOnlyM{s} }, doc),
		k(func(s string) interface{} { return csOnlyMS(s) }, str),
		k(func(s string) interface{} { return csOnlyU{Doc: s} }, doc),
		k(func(s string) interface{} { return csOnlyUS(s) }, str),
	}
	r[8].ptrOnly, r[9].ptrOnly = true, true
	r[10].noU, r[11].noU = true, true
	r[12].noM, r[13].noM = true, true
	return r
}

// ways to place a type
const csWays = 9

var csAny = reflect.TypeOf([]interface{}{}).Elem()

func csPlace(t reflect.Type, way int) reflect.Type {
	switch way {
	case 0:
		return reflect.PointerTo(t)
	case 1:
		return reflect.SliceOf(t)
	case 2:
		return reflect.ArrayOf(2, t)
	case 3:
		return reflect.MapOf(tString, t)
	case 4:
		return structOf(fld("A", tString, ""), fld("First", t, ""), fld("Z", tString, ""))
	case 5:
		return structOf(emb("Emb", structOf(fld("Inner", t, `json:"in"`)), ""), fld("Z", tString, ""))
	case 6:
		return structOf(emb("Emb", reflect.PointerTo(structOf(fld("Inner", t, `json:"in"`))), ""), fld("Z", tString, ""))
	case 7:
		third := `json:",allowempty"`
		if t.Name() != "" && t.Kind() != reflect.Interface {
			third = `json:",string"`
		}
		return structOf(fld("First", t, `json:",omitempty"`), fld("Second", t, `json:"2nd,omitzero"`), fld("Third", t, third), fld("Gone", t, `json:"-"`))
	}
	return csAny
}

// csBuild makes a value of a placed type. ways lists the placements from the
// outermost to the innermost.
func csBuild(k *csKind, types []reflect.Type, ways []int, next func() string) reflect.Value {
	t := types[0]
	v := reflect.New(t).Elem()
	if len(ways) == 0 {
		v.Set(reflect.ValueOf(k.mk(next())))
		return v
	}
	sub := func() reflect.Value { return csBuild(k, types[1:], ways[1:], next) }
	switch ways[0] {
	case 0:
		v.Set(ptrTo(sub()))
	case 1:
		v.Set(reflect.Append(v, sub(), sub()))
	case 2:
		v.Index(0).Set(sub())
		v.Index(1).Set(sub())
	case 3:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(reflect.ValueOf("k"), sub())
		v.SetMapIndex(reflect.ValueOf("l m"), sub())
	case 4:
		v.Field(0).SetString("first")
		v.Field(1).Set(sub())
		v.Field(2).SetString("last")
	case 5:
		v.Field(0).Field(0).Set(sub())
		v.Field(1).SetString("last")
	case 6:
		v.Field(0).Set(reflect.New(t.Field(0).Type.Elem()))
		v.Field(0).Elem().Field(0).Set(sub())
		v.Field(1).SetString("last")
	case 7:
		v.Field(0).Set(sub())
		v.Field(1).Set(sub())
		v.Field(2).Set(sub())
	default:
		v.Set(sub())
	}
	return v
}

// csDoc is the document of the placed values whose texts are handed out by next.
func csDoc(ways []int, next func() *V) *V {
	if len(ways) == 0 {
		return next()
	}
	sub := func() *V { return csDoc(ways[1:], next) }
	switch ways[0] {
	case 1, 2:
		a := sub()
		return vArr(a, sub())
	case 3:
		a := sub()
		return vDict("k", a, "l m", sub())
	case 4:
		return vDict("a", vStr("first"), "first", sub(), "z", vStr("last"))
	case 5, 6:
		return vDict("in", sub(), "z", vStr("last"))
	case 7:
		a := sub()
		b := sub()
		return vDict("first", a, "2nd", b, "third", sub())
	}
	return sub()
}

// csRead lists the texts held by a placed value, in the order of csDoc.
func csRead(k *csKind, v reflect.Value, ways []int, out *[]string) string {
	if len(ways) == 0 {
		*out = append(*out, k.has(v))
		return ""
	}
	sub := func(x reflect.Value) string { return csRead(k, x, ways[1:], out) }
	switch ways[0] {
	case 0:
		if v.IsNil() {
			return "nil pointer"
		}
		return sub(v.Elem())
	case 1, 2:
		if v.Len() != 2 {
			return fmt.Sprintf("%d elements", v.Len())
		}
		if x := sub(v.Index(0)); x != "" {
			return x
		}
		return sub(v.Index(1))
	case 3:
		for _, n := range []string{"k", "l m"} {
			e := v.MapIndex(reflect.ValueOf(n))
			if !e.IsValid() || v.Len() != 2 {
				return "wrong map entries"
			}
			if x := sub(e); x != "" {
				return x
			}
		}
		return ""
	case 4:
		if v.Field(0).String() != "first" || v.Field(2).String() != "last" {
			return "the neighbours are lost"
		}
		return sub(v.Field(1))
	case 5:
		if v.Field(1).String() != "last" {
			return "the neighbours are lost"
		}
		return sub(v.Field(0).Field(0))
	case 6:
		if v.Field(1).String() != "last" || v.Field(0).IsNil() {
			return "the neighbours are lost"
		}
		return sub(v.Field(0).Elem().Field(0))
	}
	for i := 0; i < 3; i++ {
		if x := sub(v.Field(i)); x != "" {
			return x
		}
	}
	return ""
}

func csTypes(k *csKind, ways []int) []reflect.Type {
	r := []reflect.Type{k.t}
	for i := len(ways) - 1; i >= 0; i-- {
		r = append([]reflect.Type{csPlace(r[0], ways[i])}, r...)
	}
	return r
}

// csCallsAre compares the recorded calls with the documents.
func csCallsAre(got []string, what string, docs []*V) string {
	texts := map[string]int{}
	for _, g := range got {
		texts[g]++
	}
	for _, d := range docs {
		found := false
		for g, n := range texts {
			if n == 0 || !strings.HasPrefix(g, what+" ") {
				continue
			}
			if x, err := stdDecode(g[2:]); err == nil && sameStrict(x, d) == "" && (what == "M" || g[2:] == stripSpace(g[2:])) {
				texts[g]--
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("no call with %s: calls %q", d.text(), got)
		}
	}
	for g, n := range texts {
		if n > 0 {
			return fmt.Sprintf("call too many: %q in %q", g, got)
		}
	}
	return ""
}

// csCase sends documents through one placement of one kind.
func csCase(t *T, k *csKind, ways []int, docs []*V) {
	types := csTypes(k, ways)
	ty := types[0]
	name := ty.String()
	t.State(name)
	iface := false
	for _, w := range ways {
		iface = iface || w == 8
	}
	for at := range docs {
		var used []*V
		next := func(from int) func() *V {
			i := from
			return func() *V {
				d := docs[(i+at)%len(docs)]
				i++
				used = append(used, d)
				return d
			}
		}
		used = nil
		want := csDoc(ways, next(0))
		given := append([]*V{}, used...)
		nt := next(0)
		v := csBuild(k, types, ways, func() string { return nt().text() })
		desc := func() string { return fmt.Sprintf("%s with %s", name, want.text()) }
		var o ju.JSONObject
		if k.noM {
			o = want.obj()
		} else {
			if !t.Try(desc, func() {
				csTake()
				o = ju.Marshal(v.Interface())
				t.Op(1)
				if x := csCallsAre(csTake(), "M", given); x != "" {
					t.Failf("Marshal of %s: %s", desc(), x)
				}
				if x := same(observe(o), want); x != "" {
					t.Failf("Marshal of %s gives %s: %s", desc(), brief(o.String()), x)
				}
				csTake()
				if m := ju.MarshalAll(v.Interface()); len(ways) > 0 && !hasWay(ways, 7) {
					if x := same(observe(m), want); x != "" {
						t.Failf("MarshalAll of %s gives %s: %s", desc(), brief(m.String()), x)
					}
				}
			}) {
				return
			}
		}
		if k.noU || iface || o == nil {
			continue
		}
		for pre := 0; pre < 3; pre++ {
			if pre == 2 && at > 0 {
				break
			}
			t.Try(desc, func() {
				x := reflect.New(ty)
				if pre > 0 {
					old := 0
					x.Elem().Set(csBuild(k, types, ways, func() string { old++; return fmt.Sprintf(`"old %d"`, old) }))
				}
				src := o
				if pre == 0 {
					p, err := ju.ParseString(want.text())
					if err != nil {
						t.Failf("%s: %v", desc(), err)
						return
					}
					src = p
				}
				csTake()
				var err error
				if pre == 2 && !k.noM {
					err = ju.Update(x.Interface(), v.Interface())
					var us []string
					for _, c := range csTake() {
						if c[0] == 'U' {
							us = append(us, c)
						}
					}
					csCalls = us
				} else {
					err = src.Unmarshal(x.Interface())
				}
				t.Op(1)
				calls := csTake()
				if err != nil {
					t.Failf("unmarshalling %s: %v", desc(), err)
					return
				}
				if s := csCallsAre(calls, "U", given); s != "" {
					t.Failf("unmarshalling %s: %s", desc(), s)
					return
				}
				var got []string
				if s := csRead(k, x.Elem(), ways, &got); s != "" {
					t.Failf("unmarshalling %s: %s", desc(), s)
					return
				}
				for i, g := range got {
					d, err := stdDecode(g)
					if err != nil || i >= len(given) || sameStrict(d, given[i]) != "" {
						t.Failf("unmarshalling %s: the value number %d holds %s", desc(), i, g)
						return
					}
				}
			})
		}
	}
}

func hasWay(ways []int, w int) bool {
	for _, x := range ways {
		if x == w {
			return true
		}
	}
	return false
}

// csRefuse: one value refuses its text: an error, and the others are set.
func csRefuse(t *T, k *csKind) {
	names := []string{"a", "b", "c", "d", "e", "f"}
	ty := structOf(fld("A", k.t, ""), fld("B", reflect.PointerTo(k.t), ""), fld("C", reflect.SliceOf(k.t), ""), fld("D", reflect.MapOf(tString, k.t), ""), fld("E", tString, ""), fld("F", structOf(fld("X", k.t, "")), ""))
	shape := func(n string, d *V) *V {
		switch n {
		case "c":
			return vArr(d)
		case "d":
			return vDict("k", d)
		case "e":
			return vStr("text")
		case "f":
			return vDict("x", d)
		}
		return d
	}
	for bad := 0; bad < len(names); bad++ {
		if names[bad] == "e" {
			continue
		}
		d := vDict()
		for i, n := range names {
			x := vInt(int64(i))
			if i == bad {
				x = vStr("refuse me")
			}
			d.M[n] = shape(n, x)
		}
		t.Try(func() string { return d.text() + " into " + ty.String() }, func() {
			csTake()
			x := reflect.New(ty)
			err := d.obj().Unmarshal(x.Interface())
			csTake()
			t.Op(1)
			if err == nil || !strings.Contains(err.Error(), errCsBad.Error()) {
				t.Failf("%s into %s: the type's error is not reported: %v", d.text(), ty, err)
				return
			}
			for i, n := range names {
				if i == bad {
					continue
				}
				f := x.Elem().Field(i)
				ok := false
				switch n {
				case "a":
					ok = k.has(f) == strconv.Itoa(i)
				case "b":
					ok = !f.IsNil() && k.has(f.Elem()) == strconv.Itoa(i)
				case "c":
					ok = f.Len() == 1 && k.has(f.Index(0)) == strconv.Itoa(i)
				case "d":
					ok = f.MapIndex(reflect.ValueOf("k")).IsValid() && k.has(f.MapIndex(reflect.ValueOf("k"))) == strconv.Itoa(i)
				case "e":
					ok = f.String() == "text"
				case "f":
					ok = k.has(f.Field(0)) == strconv.Itoa(i)
				}
				if !ok {
					t.Failf("%s into %s: member %s is not set: %s", d.text(), ty, n, show(f))
				}
			}
		})
	}
}

// ---- serializable interfaces ----

type (
	csShape interface {
		gotypes.ISerializable
		Sides() int
	}
	csSquare struct {
		Side  int
		Name  string
		Tags  []string
		Inner csShape
		After int `json:"-"`
	}
	// registered, with methods of its own
	csToken interface {
		gotypes.ISerializable
		Token()
	}
	csTok struct{ Doc string }
	// registered, and transformed on deserialization
	csMorph interface {
		gotypes.ISerializable
		Morph()
	}
	csCaterpillar struct{ N int }
	csButterfly   struct{ N int }
	// a registered map type
	csBag interface {
		gotypes.ISerializable
		Bag()
	}
	csBagMap map[string]interface{}
	// never registered
	csUnknown interface {
		gotypes.ISerializable
		Unknown()
	}
)

func (s *csSquare) String() string { return ju.Marshal(s).String() }
func (s *csSquare) IsZero() bool   { return s.Side == 0 }
func (s *csSquare) Sides() int     { return 4 }
func (s *csTok) String() string    { return s.Doc }
func (s *csTok) IsZero() bool      { return s.Doc == "" }
func (s *csTok) Token()            {}
func (s *csTok) UnmarshalJSON(b []byte) error {
	x, err := csIn(b)
	s.Doc = x
	return err
}
func (s *csTok) MarshalJSON() ([]byte, error) { return csOut(s.Doc) }
func (s *csCaterpillar) String() string       { return strconv.Itoa(s.N) }
func (s *csCaterpillar) IsZero() bool         { return s.N == 0 }
func (s *csCaterpillar) Morph()               {}
func (s *csButterfly) String() string         { return strconv.Itoa(s.N) }
func (s *csButterfly) IsZero() bool           { return s.N == 0 }
func (s *csButterfly) Morph()                 {}
func (s csBagMap) String() string             { return fmt.Sprint(map[string]interface{}(s)) }
func (s csBagMap) IsZero() bool               { return len(s) == 0 }
func (s csBagMap) Bag()                       {}

var (
	tShape   = reflect.TypeOf((*csShape)(nil)).Elem()
	tToken   = reflect.TypeOf((*csToken)(nil)).Elem()
	tMorph   = reflect.TypeOf((*csMorph)(nil)).Elem()
	tBag     = reflect.TypeOf((*csBag)(nil)).Elem()
	tUnknown = reflect.TypeOf((*csUnknown)(nil)).Elem()
	csReady  bool
)

func csRegister() {
	if csReady {
		return
	}
	csReady = true
	gotypes.RegisterSerializable(tShape, func() gotypes.ISerializable { return &csSquare{} })
	gotypes.RegisterSerializable(tToken, func() gotypes.ISerializable { return &csTok{} })
	gotypes.RegisterSerializable(tMorph, func() gotypes.ISerializable { return &csCaterpillar{} })
	gotypes.RegisterSerializable(tBag, func() gotypes.ISerializable { return csBagMap{} })
	gotypes.RegisterSerializableTransformer(tMorph, func(x gotypes.ISerializable) gotypes.ISerializable {
		return &csButterfly{N: x.(*csCaterpillar).N + 100}
	})
}

// csShapeOf is the model of a shape made from a document.
func csShapeOf(d *V) *csSquare {
	s := &csSquare{}
	if x := d.M["side"]; x != nil {
		s.Side = int(x.I)
	}
	if x := d.M["name"]; x != nil {
		s.Name = x.S
	}
	if x := d.M["tags"]; x != nil {
		s.Tags = []string{}
		for _, e := range x.A {
			s.Tags = append(s.Tags, e.S)
		}
	}
	if x := d.M["inner"]; x != nil && x.K == KDict {
		s.Inner = csShapeOf(x)
	}
	return s
}

func csShapeIs(g csShape, w *csSquare, path string) string {
	if w == nil || g == nil {
		if (w == nil) != (g == nil) {
			return fmt.Sprintf("%s: %v instead of %v", path, g, w)
		}
		return ""
	}
	s, ok := g.(*csSquare)
	if !ok {
		return fmt.Sprintf("%s: type %T", path, g)
	}
	if s.Side != w.Side || s.Name != w.Name || strings.Join(s.Tags, "|") != strings.Join(w.Tags, "|") || len(s.Tags) != len(w.Tags) {
		return fmt.Sprintf("%s: %v instead of %v", path, s, w)
	}
	if w.Inner == nil {
		if s.Inner != nil {
			return path + ".Inner: not nil"
		}
		return ""
	}
	return csShapeIs(s.Inner, w.Inner.(*csSquare), path+".Inner")
}

func csShapeDocs() []*V {
	var r []*V
	for m := 0; m < 8; m++ {
		d := vDict()
		if m&1 > 0 {
			d.M["side"] = vInt(int64(3 + m))
		}
		if m&2 > 0 {
			d.M["name"] = vStr("<é\"\n>")
		}
		if m&4 > 0 {
			d.M["tags"] = vArr(vStr("x"), vStr(""))
		}
		r = append(r, d)
	}
	n := len(r)
	for i := 0; i < n; i++ {
		d := r[i].clone()
		d.M["inner"] = r[(i+3)%n].clone()
		d.M["inner"].M["inner"] = r[(i+5)%n].clone()
		r = append(r, d)
	}
	d := r[1].clone()
	d.M["inner"] = vNull()
	d.M["unknown"] = vArr(vInt(1))
	return append(r, d)
}

// csSerial places an interface type and recreates values in it.
func csSerial(t *T, ways []int, docs []*V) {
	csRegister()
	k := &csKind{t: tShape}
	types := csTypes(k, ways)
	ty := types[0]
	t.State(ty.String())
	for at := range docs {
		var used []*V
		i := at
		want := csDoc(ways, func() *V {
			d := docs[i%len(docs)]
			i++
			used = append(used, d)
			return d
		})
		for pre := 0; pre < 2; pre++ {
			t.Try(func() string { return want.text() + " into " + ty.String() }, func() {
				x := reflect.New(ty)
				var kept []csShape
				if pre == 1 {
					k.mk = func(string) interface{} {
						s := &csSquare{Side: 7, Name: "old", Tags: []string{"old"}}
						kept = append(kept, s)
						return s
					}
					x.Elem().Set(csBuild(k, types, ways, func() string { return "" }))
				}
				err := want.obj().Unmarshal(x.Interface())
				t.Op(1)
				if err != nil {
					t.Failf("%s into %s: %v", want.text(), ty, err)
					return
				}
				var got []reflect.Value
				k.has = func(v reflect.Value) string { got = append(got, v); return "" }
				var dummy []string
				if s := csRead(k, x.Elem(), ways, &dummy); s != "" {
					t.Failf("%s into %s: %s", want.text(), ty, s)
					return
				}
				for j, v := range got {
					if v.IsNil() {
						t.Failf("%s into %s: value %d is nil", want.text(), ty, j)
						return
					}
					if s := csShapeIs(v.Interface().(csShape), csShapeOf(used[j]), fmt.Sprintf("value %d", j)); s != "" {
						t.Failf("%s into %s: %s", want.text(), ty, s)
						return
					}
				}
				// and back
				back := ju.Marshal(x.Interface())
				y := reflect.New(ty)
				if err := back.Unmarshal(y.Interface()); err != nil {
					t.Failf("%s into %s: %v", back, ty, err)
					return
				}
				got = nil
				if s := csRead(k, y.Elem(), ways, &dummy); s != "" {
					t.Failf("%s back into %s: %s", back, ty, s)
					return
				}
				for j, v := range got {
					if v.IsNil() {
						t.Failf("%s back into %s: value %d is nil", back, ty, j)
						return
					}
					w := csShapeOf(used[j])
					if len(w.Tags) == 0 {
						w.Tags = nil
					}
					if s := csShapeIs(v.Interface().(csShape), w, fmt.Sprintf("value %d", j)); s != "" {
						t.Failf("%s back into %s: %s", back, ty, s)
						return
					}
				}
			})
		}
	}
}

func init() {
	register(&Check{ID: "C20", Suites: func(quick bool) []Suite {
		csTable = nil
		kinds := csKinds()
		gen := newTreeGen([]*V{vInt(1), vStr("a b"), vBool(true), vNull(), vFloat(0.5)}, []string{"k", "é\""})
		docs := []*V{}
		for _, d := range gen.upTo(2) {
			if d.K != KNull {
				docs = append(docs, d)
			}
		}
		few := []*V{vInt(-7), vStr(`q"\` + "\n"), vDict("k", vArr(vNull(), vDict())), vArr(), vFloat(0.25), vBool(false), vStr("")}
		for i, d := range append(append([]*V{}, docs...), few...) {
			_ = i
			csIndex(d.text())
		}
		csIndex(csBad)
		depth := 4
		if !quick {
			depth = 5
		}
		var suites []Suite
		nk := int64(len(kinds))
		for n := 0; n <= depth; n++ {
			n := n
			ds := few
			if n <= 1 {
				ds = append(append([]*V{}, few...), docs...)
			}
			if n >= 4 {
				ds = few[:3]
			}
			suites = append(suites, Suite{Name: fmt.Sprintf("places-%d", n), Bound: fmt.Sprintf("%d kinds of types with own methods placed by every %d of %d ways (pointer, list, array, map, field, fields of embedded structs and embedded pointers, tagged fields, interface), each value holding each of %d documents", len(kinds), n, csWays, len(ds)), N: nk * ipow(csWays, n), Run: func(t *T, i int64) {
				k := kinds[i%nk]
				ways := radix(i/nk, csWays, n)
				if k.ptrOnly && (n == 0 || ways[n-1] != 0) {
					return
				}
				if n > 0 && ways[n-1] == 8 && k.ptrOnly {
					return
				}
				csCase(t, &k, ways, ds)
			}})
		}
		// more documents through the shallow places
		gen2 := newTreeGen([]*V{vInt(1), vStr("a b"), vBool(true), vNull()}, []string{"k", "é\""})
		deep := gen2.upTo(map[bool]int{true: 3, false: 4}[quick])
		lad := []*V{}
		for _, i := range intLadder() {
			lad = append(lad, vInt(i))
		}
		for _, s := range hotStrings(1) {
			lad = append(lad, vStr(s), vDict(s, vStr(s)))
		}
		all := append(deep, lad...)
		suites = append(suites, Suite{Name: "documents", Bound: fmt.Sprintf("%d documents: all trees of bounded size, integers at powers of two and ten, strings and names of every kind of character, in 4 kinds of types at 5 places", len(all)), N: int64(len(all)), Run: func(t *T, i int64) {
			d := all[i]
			if d.K == KNull {
				return
			}
			if len(csTable) > 200 {
				csTable = csTable[:100]
			}
			for _, k := range []int{0, 1, 5, 6, 9, 12} {
				for _, ways := range [][]int{{}, {0}, {4}, {1, 0}, {3, 4}} {
					kk := kinds[k]
					if kk.ptrOnly && (len(ways) == 0 || ways[len(ways)-1] != 0) {
						continue
					}
					csCase(t, &kk, ways, []*V{d})
				}
			}
		}})
		suites = append(suites, Suite{Name: "null", Bound: "null at every kind and every way of placing: the value becomes zero", N: nk * csWays * csWays, Run: func(t *T, i int64) {
			k := kinds[i%nk]
			ways := radix(i/nk, csWays, 2)
			if hasWay(ways, 8) || hasWay(ways, 0) || k.noU || k.ptrOnly {
				return
			}
			types := csTypes(&k, ways)
			x := reflect.New(types[0])
			x.Elem().Set(csBuild(&k, types, ways, func() string { return `"old"` }))
			want := csDoc(ways, func() *V { return vNull() })
			t.Try(func() string { return want.text() + " into " + types[0].String() }, func() {
				csTake()
				if err := want.obj().Unmarshal(x.Interface()); err != nil {
					t.Failf("%s into %s: %v", want.text(), types[0], err)
					return
				}
				t.Op(1)
				zero := true
				kk := k
				kk.has = func(v reflect.Value) string { zero = zero && v.IsZero(); return "" }
				var out []string
				if s := csRead(&kk, x.Elem(), ways, &out); s != "" {
					t.Failf("%s into %s: %s", want.text(), types[0], s)
				} else if !zero {
					t.Failf("%s into %s: a value is not cleared: %s", want.text(), types[0], show(x.Elem()))
				}
			})
		}})
		suites = append(suites, Suite{Name: "refused", Bound: "a value refuses its text at any of 5 places of a struct: the error is reported and all other members are set", N: nk, Run: func(t *T, i int64) {
			k := kinds[i]
			if !k.noU {
				csRefuse(t, &k)
			}
		}})
		suites = append(suites, Suite{Name: "shared", Bound: "one pointer to each kind at 2-4 places of a list, map and struct: written in full each time", N: nk * 3, Run: func(t *T, i int64) {
			k := kinds[i%nk]
			if k.noM {
				return
			}
			n := int(i/nk) + 2
			p := ptrTo(reflect.ValueOf(k.mk(few[2].text())))
			var l []interface{}
			m := map[string]interface{}{}
			var ds []*V
			w := vDict()
			for j := 0; j < n; j++ {
				l = append(l, p.Interface())
				m[strconv.Itoa(j)] = p.Interface()
				w.M[strconv.Itoa(j)] = few[2]
				ds = append(ds, few[2])
			}
			t.Try(func() string { return "shared " + k.t.String() }, func() {
				csTake()
				o := ju.Marshal(l)
				if s := csCallsAre(csTake(), "M", ds); s != "" {
					t.Failf("list of one shared %s: %s", k.t, s)
				} else if s := same(observe(o), vArr(ds...)); s != "" {
					t.Failf("list of one shared %s: %s", k.t, s)
				}
				o = ju.Marshal(m)
				if s := csCallsAre(csTake(), "M", ds); s != "" {
					t.Failf("map of one shared %s: %s", k.t, s)
				} else if s := same(observe(o), w); s != "" {
					t.Failf("map of one shared %s: %s", k.t, s)
				}
				t.Op(2)
			})
		}})
		sdocs := csShapeDocs()
		sd := 4
		if !quick {
			sd = 5
		}
		for n := 0; n <= sd; n++ {
			n := n
			suites = append(suites, Suite{Name: fmt.Sprintf("serializable-%d", n), Bound: fmt.Sprintf("a registered interface type placed by every %d of 7 ways (list, array, map, field, fields of embedded structs, tagged fields), holding each of %d objects, into empty and filled targets, and back", n, len(sdocs)), N: ipow(csWays, n), Run: func(t *T, i int64) {
				ways := radix(i, csWays, n)
				// a pointer directly to an interface cannot take an object
				if hasWay(ways, 8) || n > 0 && ways[n-1] == 0 {
					return
				}
				csSerial(t, ways, sdocs)
			}})
		}
		suites = append(suites, Suite{Name: "deserialize", Bound: fmt.Sprintf("JSONDeserialize of %d objects and all documents of up to 3 nodes into registered types: struct, own methods, transformed, map, document, object and list types; unregistered types and broken texts", len(sdocs)), N: int64(len(sdocs) + len(all)), Run: func(t *T, i int64) {
			csRegister()
			var d *V
			if i < int64(len(sdocs)) {
				d = sdocs[i]
			} else {
				d = all[i-int64(len(sdocs))]
			}
			text := d.text()
			t.Try(func() string { return "JSONDeserialize " + text }, func() {
				if i < int64(len(sdocs)) {
					x, err := ju.JSONDeserialize(tShape, text)
					if err != nil {
						t.Failf("JSONDeserialize(%s): %v", text, err)
					} else if s := csShapeIs(x.(csShape), csShapeOf(d), "$"); s != "" {
						t.Failf("JSONDeserialize(%s): %s", text, s)
					}
					m, err := ju.JSONDeserialize(tMorph, `{"n":`+strconv.Itoa(int(i))+`}`)
					if b, ok := m.(*csButterfly); err != nil || !ok || b.N != int(i)+100 {
						t.Failf("JSONDeserialize of a transformed type: %v, %v", m, err)
					}
				}
				o, err := ju.JSONDeserialize(tObj, text)
				if err != nil {
					t.Failf("JSONDeserialize(JSONObject, %s): %v", text, err)
				} else if s := same(observe(o.(ju.JSONObject)), d); s != "" {
					t.Failf("JSONDeserialize(JSONObject, %s): %s", text, s)
				}
				csTake()
				if d.K != KNull {
					x, err := ju.JSONDeserialize(tToken, text)
					calls := csTake()
					if err != nil {
						t.Failf("JSONDeserialize(own methods, %s): %v", text, err)
					} else if s := csCallsAre(calls, "U", []*V{d}); s != "" {
						t.Failf("JSONDeserialize(own methods, %s): %s", text, s)
					} else if _, ok := x.(*csTok); !ok {
						t.Failf("JSONDeserialize(own methods, %s): %T", text, x)
					}
				}
				for _, p := range []struct {
					t reflect.Type
					k Kind
				}{{ju.JSONDictPtrType, KDict}, {ju.JSONArrayPtrType, KArr}} {
					x, err := ju.JSONDeserialize(p.t, text)
					t.Op(1)
					switch {
					case d.K == p.k && err != nil:
						t.Failf("JSONDeserialize(%s, %s): %v", p.t, text, err)
					case d.K == p.k:
						if s := same(observe(x.(ju.JSONObject)), d); s != "" {
							t.Failf("JSONDeserialize(%s, %s): %s", p.t, text, s)
						}
					case (d.K == KArr || d.K == KDict) && err == nil && d.K != p.k && p.k == KDict:
						t.Failf("JSONDeserialize(%s, %s) gives %v", p.t, text, x)
					}
				}
				if x, err := ju.JSONDeserialize(tUnknown, text); err == nil {
					t.Failf("JSONDeserialize of an unregistered type gives %v", x)
				}
				if d.K == KDict || d.K == KArr {
					for cut := 1; cut < len(text); cut++ {
						if x, err := ju.JSONDeserialize(tShape, text[:cut]); err == nil {
							t.Failf("JSONDeserialize(%q) gives %v", text[:cut], x)
						}
					}
				}
				u := struct{ X csUnknown }{}
				if d.K == KDict {
					if err := vDict("x", d).obj().Unmarshal(&u); err == nil {
						t.Failf("%s into an unregistered interface type gives %v", text, u.X)
					}
				}
				t.Op(4)
			})
		}})
		return suites
	}, Assume: []string{
		"Methods declared on the pointer are honoured behind pointers and when reading; a plain value of such a type is not such a value when writing.",
		"An interface is honoured when writing; a document unmarshalled into a general interface field replaces it (serializable interfaces excepted).",
		"Embedding a type with own methods makes it the outer type's method (Go's rule), so it is not a position of its own. null clears a value without calling it.",
	}})
}
