package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// ---- Go types and values, enumerated through reflection ----

type (
	mcString   string
	mcStringer string
	mcInt      int
	mcBool     bool
	mcFloat    float64
	mcList     []string
	mcMap      map[mcString]int
)

var (
	tString  = reflect.TypeOf("")
	tBool    = reflect.TypeOf(false)
	tTime    = reflect.TypeOf(time.Time{})
	tTri     = reflect.TypeOf(tristate.None)
	tAny     = reflect.TypeOf((*interface{})(nil)).Elem()
	tErr     = reflect.TypeOf((*error)(nil)).Elem()
	tObj     = reflect.TypeOf((*ju.JSONObject)(nil)).Elem()
	intTypes = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0))}
	tF32     = reflect.TypeOf(float32(0))
	tF64     = reflect.TypeOf(float64(0))
	tInt     = intTypes[0]
)

func allBases() []reflect.Type {
	r := []reflect.Type{tString, tBool, tTime, tTri, tF32, tF64}
	r = append(r, intTypes...)
	return append(r, reflect.TypeOf(mcString("")), reflect.TypeOf(mcBool(false)), reflect.TypeOf(mcInt(0)), reflect.TypeOf(mcFloat(0)), reflect.TypeOf(mcList(nil)), reflect.TypeOf(mcMap(nil)))
}

func fewBases() []reflect.Type {
	return []reflect.Type{tString, tBool, tInt, reflect.TypeOf(uint8(0)), tF64, tTime, tTri}
}

func structOf(fs ...reflect.StructField) reflect.Type { return reflect.StructOf(fs) }

func fld(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

func emb(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag), Anonymous: true}
}

// wraps lists the types built around t with one constructor.
func wraps(t reflect.Type) []reflect.Type {
	return []reflect.Type{
		reflect.PointerTo(t),
		reflect.SliceOf(t),
		reflect.ArrayOf(2, t),
		reflect.MapOf(tString, t),
		structOf(fld("Value", t, "")),
		structOf(fld("FirstName", t, `json:"first"`), fld("B", tString, ""), fld("Other", t, `json:",allowempty"`)),
	}
}

// typesUpTo lists all types of at most n constructors around the bases.
func typesUpTo(bases []reflect.Type, n int) []reflect.Type {
	r := append([]reflect.Type{}, bases...)
	level := r
	for ; n > 0; n-- {
		var next []reflect.Type
		for _, t := range level {
			next = append(next, wraps(t)...)
		}
		r = append(r, next...)
		level = next
	}
	return r
}

var baseTime = time.Date(2021, 3, 4, 5, 6, 7, 891234000, time.UTC)

func scalarValues(t reflect.Type) []interface{} {
	switch t {
	case tTime:
		return []interface{}{time.Time{}, baseTime, time.Date(1969, 12, 31, 23, 59, 59, 0, time.FixedZone("x", -5*3600-1800)), time.Date(9999, 12, 31, 23, 59, 59, 999999000, time.UTC), time.Unix(0, 1000).In(time.FixedZone("y", 13*3600))}
	case tTri:
		return []interface{}{tristate.None, tristate.True, tristate.False}
	}
	switch t.Kind() {
	case reflect.String:
		return []interface{}{"", "a", "null", "<1>", "é\"\\\n\x00\u2028😀", " 1"}
	case reflect.Bool:
		return []interface{}{false, true}
	case reflect.Float32:
		return []interface{}{0.0, float64(float32(0.1)), -1.5, float64(float32(math.MaxFloat32)), float64(float32(math.SmallestNonzeroFloat32)), float64(float32(16777217))}
	case reflect.Float64:
		return []interface{}{0.0, 0.1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e21, 1e-7, 9007199254740993.0, 1.7976931348623157e-300}
	case reflect.Uint64, reflect.Uint:
		return []interface{}{uint64(0), uint64(1), uint64(math.MaxInt64)}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return []interface{}{uint64(0), uint64(1), uint64(1)<<uint(t.Bits()) - 1}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := uint(t.Bits() - 1)
		return []interface{}{int64(0), int64(1), int64(-1), int64(-1) << b, int64(1)<<b - 1}
	}
	return nil
}

func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func listOf(t reflect.Type, vs ...reflect.Value) reflect.Value {
	l := reflect.MakeSlice(t, 0, len(vs))
	return reflect.Append(l, vs...)
}

func mapOf(t reflect.Type, kv ...reflect.Value) reflect.Value {
	m := reflect.MakeMap(t)
	for i := 0; i+1 < len(kv); i += 2 {
		m.SetMapIndex(kv[i].Convert(t.Key()), kv[i+1])
	}
	return m
}

// valuesOf enumerates values of t: all scalar values above at every place, nil
// and empty containers, and containers of one or two entries.
func valuesOf(t reflect.Type) []reflect.Value {
	var r []reflect.Value
	if sc := scalarValues(t); sc != nil {
		for _, x := range sc {
			r = append(r, reflect.ValueOf(x).Convert(t))
		}
		return r
	}
	switch t.Kind() {
	case reflect.Ptr:
		r = append(r, reflect.Zero(t))
		for _, v := range valuesOf(t.Elem()) {
			r = append(r, ptrTo(v).Convert(t))
		}
	case reflect.Slice:
		es := valuesOf(t.Elem())
		r = append(r, reflect.Zero(t), listOf(t))
		for i, v := range es {
			r = append(r, listOf(t, v), listOf(t, v, es[(i+1)%len(es)]))
		}
	case reflect.Array:
		es := valuesOf(t.Elem())
		for i := range es {
			a := reflect.New(t).Elem()
			ok := true
			for k := 0; k < t.Len(); k++ {
				e := es[(i+k)%len(es)]
				if written(e, nil, false) == nil {
					ok = false // a list drops it, the length no longer fits
				}
				a.Index(k).Set(e)
			}
			if ok {
				r = append(r, a)
			}
		}
	case reflect.Map:
		es := valuesOf(t.Elem())
		r = append(r, reflect.Zero(t), mapOf(t))
		ks := []string{"k", "", "B é\"", "a.b", "null", "1"}
		for i, v := range es {
			k := reflect.ValueOf(ks[i%len(ks)])
			r = append(r, mapOf(t, reflect.ValueOf("k"), v), mapOf(t, k, v, reflect.ValueOf("z"), es[(i+1)%len(es)]))
		}
	case reflect.Struct:
		var fs [][]reflect.Value
		max := 0
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, valuesOf(t.Field(i).Type))
			if len(fs[i]) > max {
				max = len(fs[i])
			}
		}
		for shift := 0; shift < 2; shift++ {
			for k := 0; k < max; k++ {
				s := reflect.New(t).Elem()
				for i := range fs {
					if len(fs[i]) > 0 {
						s.Field(i).Set(fs[i][(k+shift*i)%len(fs[i])])
					}
				}
				r = append(r, s)
			}
			if t.NumField() < 2 {
				break
			}
		}
	}
	return r
}

// tagInfo is what the tags of a field say.
type tagInfo struct {
	name                                        string
	ignore, omitEmpty, omitZero, omitFalse, str bool
}

func fieldTag(f reflect.StructField) *tagInfo {
	ti := &tagInfo{omitEmpty: true}
	if j, ok := f.Tag.Lookup("json"); ok {
		p := strings.Split(j, ",")
		ti.name = p[0]
		if j == "-" {
			ti.ignore, ti.name = true, ""
		}
		for _, o := range p[1:] {
			switch strings.ToLower(o) {
			case "omitempty":
				ti.omitEmpty = true
			case "allowempty":
				ti.omitEmpty = false
			case "omitzero":
				ti.omitZero = true
			case "allowzero":
				ti.omitZero = false
			case "omitfalse":
				ti.omitFalse = true
			case "allowfalse":
				ti.omitFalse = false
			case "string":
				ti.str = true
			}
		}
	}
	if n, ok := f.Tag.Lookup("name"); ok {
		ti.name = n
	}
	if ti.name == "" {
		ti.name = snake(f.Name)
	}
	return ti
}

// snake is the snake-case form of a Go name made of letters: a word starts at
// an upper case letter behind a lower case one and at the last of several upper
// case letters if a lower case one follows (of three or more).
func snake(s string) string {
	var sb strings.Builder
	up := func(i int) bool { return i >= 0 && i < len(s) && s[i] >= 'A' && s[i] <= 'Z' }
	low := func(i int) bool { return i >= 0 && i < len(s) && s[i] >= 'a' && s[i] <= 'z' }
	for i := 0; i < len(s); i++ {
		if i > 0 && up(i) && (low(i-1) || up(i-1) && up(i-2) && low(i+1)) {
			sb.WriteByte('_')
		}
		sb.WriteString(strings.ToLower(s[i : i+1]))
	}
	return sb.String()
}

// written is the model of what is written for a value: nil stands for nothing.
// ti is the tag of the field that holds it, nil inside of lists and maps.
func written(v reflect.Value, ti *tagInfo, all bool) *V { return writtenAs(v, ti, all, false) }

// writtenAs: with norm, a list or map all of whose entries are left out counts as empty.
func writtenAs(v reflect.Value, ti *tagInfo, all, norm bool) *V {
	t := v.Type()
	none := (*V)(nil)
	if all {
		none = vNull()
	}
	omit := ti != nil && ti.omitEmpty && !all
	asStr := func(x *V) *V {
		if ti != nil && ti.str {
			return vStr(x.text())
		}
		return x
	}
	switch t {
	case tTime:
		tm := v.Interface().(time.Time)
		if tm.IsZero() {
			if omit {
				return nil
			}
			return vStr("")
		}
		return vStr(tm.UTC().Format("2006-01-02T15:04:05.000000Z"))
	case tTri:
		switch v.Interface().(tristate.TriState) {
		case tristate.True:
			return vBool(true)
		case tristate.False:
			return vBool(false)
		}
		return none
	}
	if o, ok := v.Interface().(ju.JSONObject); ok && !(v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) || ok && !v.IsNil() {
		return observe(o)
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return none
		}
		if t.Kind() == reflect.Ptr && t.Elem() == tTime {
			// a pointer to a time is written by the time itself
			return vStr(v.Elem().Interface().(time.Time).UTC().Format("2006-01-02T15:04:05.000000Z"))
		}
		return writtenAs(v.Elem(), ti, all, norm)
	case reflect.String:
		if omit && v.Len() == 0 {
			return nil
		}
		return vStr(v.String())
	case reflect.Bool:
		if !v.Bool() && ti != nil && ti.omitFalse && !all {
			return nil
		}
		return asStr(vBool(v.Bool()))
	case reflect.Float32, reflect.Float64:
		if v.Float() == 0 && ti != nil && ti.omitZero && !all {
			return nil
		}
		return asStr(vFloat(v.Float()))
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return none
		}
		if omit && v.Len() == 0 {
			return nil
		}
		r := vArr()
		for i := 0; i < v.Len(); i++ {
			if e := writtenAs(v.Index(i), nil, all, norm); e != nil {
				r.A = append(r.A, e)
			}
		}
		if omit && norm && len(r.A) == 0 {
			return nil
		}
		return asStr(r)
	case reflect.Map:
		if v.IsNil() {
			return none
		}
		if omit && v.Len() == 0 {
			return nil
		}
		r := vDict()
		for _, k := range v.MapKeys() {
			if e := writtenAs(v.MapIndex(k), nil, all, norm); e != nil {
				r.M[k.String()] = e
			}
		}
		if omit && norm && len(r.M) == 0 {
			return nil
		}
		return asStr(r)
	case reflect.Struct:
		r := vDict()
		for i := 0; i < t.NumField(); i++ {
			fi := fieldTag(t.Field(i))
			if fi.ignore {
				continue
			}
			if e := writtenAs(v.Field(i), fi, all, norm); e != nil {
				r.M[fi.name] = e
			}
		}
		if omit && len(r.M) == 0 {
			return nil
		}
		return asStr(r)
	}
	if v.CanInt() || v.CanUint() {
		i := int64(0)
		if v.CanInt() {
			i = v.Int()
		} else {
			i = int64(v.Uint())
		}
		if i == 0 && ti != nil && ti.omitZero && !all {
			return nil
		}
		return asStr(vInt(i))
	}
	return vStr("!" + t.String())
}

// asWritten compares an actual document with the model; texts that stand for
// floats or containers (string tag) compare by meaning.
func asWritten(o ju.JSONObject, w *V) string {
	return loose(observe(o), w, "$")
}

func loose(g, w *V, path string) string {
	if g == nil || w == nil {
		return sameAt(g, w, path, false)
	}
	if g.K == KStr && w.K == KStr && g.S != w.S {
		x, e1 := time.Parse(time.RFC3339Nano, g.S)
		y, e2 := time.Parse(time.RFC3339Nano, w.S)
		if e1 == nil && e2 == nil {
			if !x.Equal(y) {
				return fmt.Sprintf("%s: %v != %v", path, x, y)
			}
			return ""
		}
		a, e1 := stdDecode(g.S)
		b, e2 := stdDecode(w.S)
		if e1 == nil && e2 == nil && a.K == b.K && a.K > KStr {
			return sameAt(a, b, path, false)
		}
		if e1 == nil && e2 == nil && (a.K == KInt || a.K == KFloat) && (b.K == KFloat || b.K == KInt) && strings.Contains(g.S, ".") {
			return sameAt(a, b, path, false)
		}
	}
	if g.K == w.K && g.K == KArr && len(g.A) == len(w.A) {
		for i := range g.A {
			if x := loose(g.A[i], w.A[i], fmt.Sprintf("%s[%d]", path, i)); x != "" {
				return x
			}
		}
		return ""
	}
	if g.K == w.K && g.K == KDict && len(g.M) == len(w.M) {
		for _, k := range g.keys() {
			if x := loose(g.M[k], w.M[k], path+"."+k); x != "" {
				return x
			}
		}
		return ""
	}
	return sameAt(g, w, path, false)
}

// show prints a Go value with the pointers followed.
func show(v reflect.Value) string {
	return brief(showAt(v, 0))
}

func showAt(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d > 12 {
		return "..."
	}
	if v.Type() == tTime {
		return v.Interface().(time.Time).Format(time.RFC3339Nano)
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + showAt(v.Elem(), d+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil[]"
		}
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, showAt(v.Index(i), d+1))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nil{}"
		}
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, showAt(k, d+1)+":"+showAt(v.MapIndex(k), d+1))
		}
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Struct:
		if o, ok := v.Interface().(fmt.Stringer); ok {
			return o.String()
		}
		var l []string
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			l = append(l, v.Type().Field(i).Name+":"+showAt(v.Field(i), d+1))
		}
		return "(" + strings.Join(l, " ") + ")"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprint(v.Interface())
}

// sameGo compares two Go values of one type; empties count as nil and times
// compare as instants of a microsecond. empties: "" and nil may differ in
// presence (an omitted pointer to an empty value).
func sameGo(a, b reflect.Value, path string) string {
	t := a.Type()
	if t != b.Type() {
		return fmt.Sprintf("%s: type %s != %s", path, t, b.Type())
	}
	if t == tTime {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if x.IsZero() != y.IsZero() || !x.Truncate(time.Microsecond).Equal(y.Truncate(time.Microsecond)) {
			return fmt.Sprintf("%s: %v != %v", path, x, y)
		}
		return ""
	}
	bad := func() string { return fmt.Sprintf("%s: %s != %s", path, show(a), show(b)) }
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return bad()
			}
			return ""
		}
		if x, ok := a.Interface().(ju.JSONObject); ok {
			if s := sameStrict(observe(x), observe(b.Interface().(ju.JSONObject))); s != "" {
				return path + s
			}
			return ""
		}
		if t.Kind() == reflect.Interface && a.Elem().Type() != b.Elem().Type() {
			return bad()
		}
		return sameGo(a.Elem(), b.Elem(), path)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return bad()
		}
		for i := 0; i < a.Len(); i++ {
			if x := sameGo(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); x != "" {
				return x
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return bad()
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return bad()
			}
			if x := sameGo(a.MapIndex(k), y, path+"."+k.String()); x != "" {
				return x
			}
		}
		return ""
	case reflect.Struct:
		if o, ok := reflect.New(t).Interface().(ju.JSONObject); ok && o != nil {
			if a.CanAddr() && b.CanAddr() {
				if s := sameStrict(observe(a.Addr().Interface().(ju.JSONObject)), observe(b.Addr().Interface().(ju.JSONObject))); s != "" {
					return path + s
				}
				return ""
			}
			x, y := ptrTo(a).Interface().(ju.JSONObject), ptrTo(b).Interface().(ju.JSONObject)
			if s := sameStrict(observe(x), observe(y)); s != "" {
				return path + s
			}
			return ""
		}
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			if x := sameGo(a.Field(i), b.Field(i), path+"."+t.Field(i).Name); x != "" {
				return x
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() && !(a.Float() != a.Float() && b.Float() != b.Float()) {
			return bad()
		}
		return ""
	case reflect.Chan, reflect.Func:
		if a.IsNil() != b.IsNil() {
			return bad()
		}
		return ""
	}
	if a.Interface() != b.Interface() {
		return bad()
	}
	return ""
}

// copyGo is a deep copy of a Go value.
func copyGo(v reflect.Value) reflect.Value {
	r := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return r
		}
		if o, ok := v.Interface().(ju.JSONObject); ok {
			r.Set(reflect.ValueOf(ju.DeepCopy(o)))
			return r
		}
		r.Set(ptrTo(copyGo(v.Elem())).Convert(v.Type()))
	case reflect.Interface:
		if v.IsNil() {
			return r
		}
		if o, ok := v.Interface().(ju.JSONObject); ok {
			r.Set(reflect.ValueOf(ju.DeepCopy(o)))
			return r
		}
		r.Set(copyGo(v.Elem()))
	case reflect.Slice:
		if v.IsNil() {
			return r
		}
		r.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(copyGo(v.Index(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(copyGo(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return r
		}
		r.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			r.SetMapIndex(k, copyGo(v.MapIndex(k)))
		}
	case reflect.Struct:
		r.Set(v)
		if v.Type() == tTime {
			return r
		}
		if _, ok := reflect.New(v.Type()).Interface().(ju.JSONObject); ok {
			return r
		}
		for i := 0; i < v.NumField(); i++ {
			if r.Field(i).CanSet() {
				r.Field(i).Set(copyGo(v.Field(i)))
			}
		}
	default:
		r.Set(v)
	}
	return r
}

func (s mcStringer) String() string { return "<" + strings.ToUpper(string(s)) + ">" }
