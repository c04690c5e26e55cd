package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// ---- the model of unmarshalling ----

type verdict int

const (
	fillOK  verdict = iota
	fillErr         // an error must be reported
	fillAny         // the property says nothing, beyond that nothing panics
)

func worse(a, b verdict) verdict {
	if a == fillAny || b == fillAny {
		return fillAny
	}
	if a == fillErr || b == fillErr {
		return fillErr
	}
	return fillOK
}

var jsonKinds = map[reflect.Type]Kind{
	reflect.TypeOf(ju.JSONBool{}):   KBool,
	reflect.TypeOf(ju.JSONInt{}):    KInt,
	reflect.TypeOf(ju.JSONFloat{}):  KFloat,
	reflect.TypeOf(ju.JSONString{}): KStr,
	reflect.TypeOf(ju.JSONArray{}):  KArr,
	reflect.TypeOf(ju.JSONDict{}):   KDict,
}

var (
	usAmount = regexp.MustCompile(`^[+-]?([0-9]{0,3}|[0-9]{1,3}(,[0-9]{3})+)(\.[0-9]*)?$`)
	euAmount = regexp.MustCompile(`^[+-]?([0-9]{0,3}|[0-9]{1,3}(\.[0-9]{3})+)(,[0-9]*)?$`)
	isoTimes = regexp.MustCompile(`^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})$`)
)

// amount is the plain spelling of a number in US or European notation.
func amount(s string) string {
	if usAmount.MatchString(s) {
		return strings.ReplaceAll(s, ",", "")
	}
	if euAmount.MatchString(s) {
		return strings.ReplaceAll(strings.ReplaceAll(s, ".", ""), ",", ".")
	}
	return s
}

// textTime is the time a text stands for; zero for texts that are no time.
func textTime(s string) time.Time {
	if isoTimes.MatchString(s) {
		if tm, err := time.Parse(time.RFC3339Nano, s); err == nil {
			return tm
		}
	}
	return time.Time{}
}

func yesWord(s string) bool {
	switch strings.ToLower(s) {
	case "true", "yes", "on", "1":
		return true
	}
	return false
}

func noWord(s string) bool {
	switch strings.ToLower(s) {
	case "false", "no", "off", "0":
		return true
	}
	return false
}

// scalarText is the text a scalar is stored as.
func scalarText(d *V) string {
	switch d.K {
	case KBool:
		return strconv.FormatBool(d.B)
	case KInt:
		return strconv.FormatInt(d.I, 10)
	case KFloat:
		return strconv.FormatFloat(d.F, 'f', -1, 64)
	case KStr:
		return d.S
	}
	return d.obj().String()
}

// fill is what unmarshalling d into v does to v.
func fill(d *V, v reflect.Value) verdict {
	t := v.Type()
	if d.K == KNull {
		v.Set(reflect.Zero(t))
		return fillOK
	}
	if t == tObj {
		v.Set(reflect.ValueOf(d.obj()))
		return fillOK
	}
	if k, ok := jsonKinds[t]; ok {
		return fillJSON(d, v, k, false)
	}
	if t.Kind() == reflect.Ptr {
		if k, ok := jsonKinds[t.Elem()]; ok {
			return fillJSON(d, v, k, true)
		}
	}
	switch t {
	case tTime:
		if d.K != KStr {
			return fillErr
		}
		v.Set(reflect.ValueOf(textTime(d.S)))
		return fillOK
	case tTri:
		tri := tristate.None
		switch d.K {
		case KBool:
			tri = tristate.NewFromBool(d.B)
		case KInt:
			tri = tristate.NewFromBool(d.I != 0)
		case KFloat:
			tri = tristate.NewFromBool(d.F != 0)
		case KStr:
			if yesWord(d.S) {
				tri = tristate.True
			} else if noWord(d.S) {
				tri = tristate.False
			}
		default:
			return fillAny // text, or an error
		}
		v.Set(reflect.ValueOf(tri))
		return fillOK
	}
	switch t.Kind() {
	case reflect.Ptr:
		e := t.Elem()
		if e == tTime {
			if d.K != KStr {
				return fillErr
			}
			if !isoTimes.MatchString(d.S) {
				return fillAny // read by the time itself
			}
		}
		for e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		if d.K >= KArr {
			switch e.Kind() {
			case reflect.String:
				return fillAny // text or an error
			case reflect.Interface:
				return fillAny
			case reflect.Slice, reflect.Array:
				if d.K == KDict {
					return fillErr
				}
			case reflect.Struct, reflect.Map:
				if d.K == KArr && jsonKinds[e] == 0 {
					return fillErr
				}
			default:
				return fillErr
			}
			if _, ok := jsonKinds[e]; ok && d.K == KArr {
				return fillAny // pointer to pointer to a list
			}
		}
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()))
		}
		return fill(d, v.Elem())
	case reflect.Interface:
		if t.NumMethod() > 0 {
			return fillErr
		}
		var x interface{}
		switch d.K {
		case KBool:
			x = d.B
		case KInt:
			x = d.I
		case KFloat:
			x = d.F
		case KStr:
			x = d.S
		case KArr:
			l := make([]ju.JSONObject, len(d.A))
			for i := range l {
				l[i] = d.A[i].obj()
			}
			x = l
		default:
			return fillErr
		}
		v.Set(reflect.ValueOf(x))
		return fillOK
	case reflect.String:
		v.SetString(scalarText(d))
		return fillOK
	case reflect.Bool:
		switch d.K {
		case KBool:
			v.SetBool(d.B)
		case KInt:
			v.SetBool(d.I != 0)
		case KFloat:
			v.SetBool(d.F != 0)
		case KStr:
			v.SetBool(yesWord(strings.TrimSpace(d.S)))
		default:
			return fillErr
		}
		return fillOK
	case reflect.Slice:
		switch d.K {
		case KArr:
			l := reflect.MakeSlice(t, len(d.A), len(d.A))
			v.Set(l)
			for i, x := range d.A {
				if r := fill(x, l.Index(i)); r != fillOK {
					return r
				}
			}
			return fillOK
		case KStr:
			l := reflect.MakeSlice(t, 1, 1)
			v.Set(l)
			return fill(d, l.Index(0))
		}
		return fillErr
	case reflect.Array:
		if d.K != KArr || len(d.A) != t.Len() {
			return fillErr
		}
		v.Set(reflect.Zero(t))
		for i, x := range d.A {
			if r := fill(x, v.Index(i)); r != fillOK {
				return r
			}
		}
		return fillOK
	case reflect.Map:
		if d.K != KDict || t.Key().Kind() != reflect.String {
			return fillErr
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(t))
		}
		for _, k := range d.keys() {
			e := reflect.New(t.Elem()).Elem()
			if r := fill(d.M[k], e); r != fillOK {
				return r
			}
			v.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), e)
		}
		return fillOK
	case reflect.Struct:
		if d.K != KDict {
			return fillErr
		}
		return fillStruct(d, v)
	}
	return fillNumber(d, v)
}

func fillNumber(d *V, v reflect.Value) verdict {
	isF := v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64
	if v.Kind() == reflect.Uintptr || !isF && !v.CanInt() && !v.CanUint() {
		return fillErr // channels, functions, complex numbers
	}
	var i int64
	var f float64
	whole := true
	switch d.K {
	case KBool:
		if d.B {
			i = 1
		}
		f = float64(i)
	case KInt:
		i, f = d.I, float64(d.I)
	case KFloat:
		i, f, whole = int64(d.F), d.F, false
		if f < 0 && v.CanUint() || f >= 1<<63 || f < -1<<63 {
			if !isF {
				return fillAny
			}
		}
	case KStr:
		if d.S == "" {
			return fillOK
		}
		s := amount(d.S)
		var err error
		if isF {
			f, err = strconv.ParseFloat(s, 64)
		} else if v.CanInt() {
			i, err = strconv.ParseInt(s, 10, 64)
		} else {
			var u uint64
			u, err = strconv.ParseUint(s, 10, 64)
			if err == nil {
				if v.OverflowUint(u) {
					return fillAny
				}
				v.SetUint(u)
				return fillOK
			}
		}
		if err != nil {
			return fillErr
		}
	default:
		return fillErr
	}
	_ = whole
	if isF {
		v.SetFloat(f)
		return fillOK
	}
	if v.CanInt() {
		if v.OverflowInt(i) {
			return fillAny
		}
		v.SetInt(i)
		return fillOK
	}
	if i < 0 || v.OverflowUint(uint64(i)) {
		return fillAny
	}
	v.SetUint(uint64(i))
	return fillOK
}

// fillJSON fills a JSON value type (or a pointer to one).
func fillJSON(d *V, v reflect.Value, k Kind, ptr bool) verdict {
	set := func(x *V) verdict {
		if ptr {
			v.Set(reflect.ValueOf(x.obj()))
		} else {
			v.Set(reflect.ValueOf(x.obj()).Elem())
		}
		return fillOK
	}
	if d.K == k {
		if !ptr && k == KDict {
			old := observe(ptrTo(v).Interface().(ju.JSONObject))
			for n, x := range d.M {
				old.M[n] = x
			}
			return set(old)
		}
		return set(d)
	}
	switch {
	case k == KStr && d.K < KStr:
		return set(vStr(scalarText(d)))
	case d.K >= KArr || k >= KArr:
		return fillErr
	case d.K == KStr && k == KBool:
		return set(vBool(yesWord(d.S)))
	case d.K == KFloat && k == KInt:
		if d.F < 1<<63 && d.F > -1<<63 {
			return set(vInt(int64(d.F)))
		}
		return fillAny
	case d.K == KFloat && k == KBool && !ptr:
		return set(vBool(d.F != 0))
	}
	return fillErr
}

// flatField is one member of a struct, embedded structs taken apart.
type flatField struct {
	name, goName, snake, prefix, dep string
	v                                reflect.Value
	attach                           func()
}

func embTags(tag reflect.StructTag) map[string]string {
	r := map[string]string{}
	for _, k := range []string{"yunion-ambiguous-prefix", "yunion-deprecated-by"} {
		if x, ok := tag.Lookup(k); ok {
			r[k] = x
		}
	}
	// name->key forms
	s := string(tag)
	for {
		i := strings.Index(s, "->")
		if i < 0 {
			break
		}
		b := strings.LastIndexAny(s[:i], " ") + 1
		e := strings.Index(s, ":\"")
		q := strings.IndexByte(s[e+2:], '"') + e + 2
		r[s[b:e]] = s[e+2 : q]
		s = s[q+1:]
	}
	return r
}

// flat lists the members of a struct, before names are made unique.
func flat(v reflect.Value, attach func()) []flatField {
	var r []flatField
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if c := sf.Name[0]; c < 'A' || c > 'Z' {
			continue
		}
		fv := v.Field(i)
		et := sf.Type
		if et.Kind() == reflect.Ptr {
			et = et.Elem()
		}
		if sf.Anonymous && et.Kind() == reflect.Struct && et != tTime {
			at := attach
			if sf.Type.Kind() == reflect.Ptr {
				if fv.IsNil() {
					nv := reflect.New(et)
					done := false
					fv2, up := fv, attach
					at = func() {
						if up != nil {
							up()
						}
						if !done {
							fv2.Set(nv)
							done = true
						}
					}
					fv = nv
				}
				fv = fv.Elem()
			}
			sub := flat(fv, at)
			for key, x := range embTags(sf.Tag) {
				target := ""
				if p := strings.Index(key, "->"); p >= 0 {
					target, key = key[:p], key[p+2:]
				}
				for j := range sub {
					if target != "" && sub[j].name != target {
						continue
					}
					if key == "yunion-ambiguous-prefix" {
						sub[j].prefix = x
					} else if key == "yunion-deprecated-by" {
						sub[j].dep = x
					}
				}
			}
			r = append(r, sub...)
			continue
		}
		ti := fieldTag(sf)
		if ti.ignore {
			continue
		}
		r = append(r, flatField{name: ti.name, goName: sf.Name, snake: snake(sf.Name), prefix: sf.Tag.Get("yunion-ambiguous-prefix"), dep: sf.Tag.Get("yunion-deprecated-by"), v: fv, attach: attach})
	}
	return r
}

// members lists the members of a struct under their final names.
func members(v reflect.Value) []flatField {
	r := flat(v, nil)
	n := map[string]int{}
	for _, f := range r {
		n[f.name]++
	}
	for i := range r {
		if n[r[i].name] > 1 && r[i].prefix != "" {
			r[i].name = r[i].prefix + r[i].name
			if r[i].dep != "" {
				r[i].dep = r[i].prefix + r[i].dep
			}
		}
	}
	return r
}

// matching lists the members that a name of a document stands for.
func matching(fs []flatField, name string) []int {
	var r []int
	for i, f := range fs {
		if f.name == name {
			r = append(r, i)
		}
	}
	if len(r) > 0 {
		return r
	}
	for i, f := range fs {
		if f.snake == name || f.goName == name || name != "" && f.goName == strings.ToUpper(name[:1])+name[1:] || f.goName != "" && strings.ToLower(f.goName[:1])+f.goName[1:] == name {
			r = append(r, i)
		}
	}
	return r
}

func fillStruct(d *V, v reflect.Value) verdict {
	fs := members(v)
	r := fillOK
	for _, k := range d.keys() {
		r = worse(r, fillMember(fs, k, d.M[k], map[string]bool{}))
	}
	return r
}

func fillMember(fs []flatField, name string, d *V, seen map[string]bool) verdict {
	if seen[name] {
		return fillOK
	}
	seen[name] = true
	r := fillOK
	for _, i := range matching(fs, name) {
		if fs[i].attach != nil {
			fs[i].attach()
		}
		x := fill(d, fs[i].v)
		r = worse(r, x)
		if x != fillOK {
			return r
		}
		if fs[i].dep != "" {
			r = worse(r, fillMember(fs, fs[i].dep, d, seen))
		}
	}
	return r
}

type mcErr string

func (e mcErr) Error() string { return string(e) }

type mcIface interface{ Error() string }

// filledOf makes a value of t that holds something everywhere; k varies it.
func filledOf(t reflect.Type, k int) reflect.Value {
	if t == tObj {
		x := reflect.New(t).Elem()
		x.Set(reflect.ValueOf(ju.NewString("old" + strconv.Itoa(k))))
		return x
	}
	jt, ptr := t, false
	if t.Kind() == reflect.Ptr {
		jt, ptr = t.Elem(), true
	}
	if kind, ok := jsonKinds[jt]; ok {
		d := map[Kind]*V{KBool: vBool(k == 0), KInt: vInt(int64(40 + k)), KFloat: vFloat(4.5), KStr: vStr("old"), KArr: vArr(vInt(9), vStr("o")), KDict: vDict("old", vInt(1), "value", vInt(2))}[kind]
		o := reflect.ValueOf(d.obj())
		if ptr {
			return o
		}
		return o.Elem()
	}
	if sc := scalarValues(t); sc != nil {
		return reflect.ValueOf(sc[(1+k)%len(sc)]).Convert(t)
	}
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		return ptrTo(filledOf(t.Elem(), k)).Convert(t)
	case reflect.Slice:
		l := reflect.MakeSlice(t, 0, 4)
		return reflect.Append(l, filledOf(t.Elem(), k), filledOf(t.Elem(), k+1))
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			r.Index(i).Set(filledOf(t.Elem(), k+i))
		}
	case reflect.Map:
		r.Set(reflect.MakeMap(t))
		if t.Key().Kind() != reflect.String {
			return r
		}
		for i, n := range []string{"value", "old"} {
			r.SetMapIndex(reflect.ValueOf(n).Convert(t.Key()), filledOf(t.Elem(), k+i))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if r.Field(i).CanSet() {
				r.Field(i).Set(filledOf(t.Field(i).Type, k+i))
			}
		}
	case reflect.Interface:
		switch {
		case t.NumMethod() > 0:
			if reflect.TypeOf(mcErr("")).Implements(t) && k > 0 {
				r.Set(reflect.ValueOf(mcErr("old")))
			}
		case k%3 == 0:
			r.Set(reflect.ValueOf("old"))
		case k%3 == 1:
			x := 7
			r.Set(reflect.ValueOf(&x))
		default:
			r.Set(reflect.ValueOf(map[string]int{"old": 1}))
		}
	case reflect.Chan:
		return reflect.MakeChan(t, 1)
	}
	return r
}

// kept notes what unmarshalling must not replace or write through.
type kept struct {
	v           reflect.Value // a pointer reached through fields
	path        string
	get         func() reflect.Value
	frozen, was reflect.Value // an old list or map entry, and its content
}

// keptIn collects from a filled target.
func keptIn(v reflect.Value, path string, out *[]kept) {
	if v.Type() == tTime {
		return
	}
	if _, ok := jsonKinds[v.Type()]; ok {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if _, ok := jsonKinds[v.Type().Elem()]; ok {
			return
		}
		f := v
		*out = append(*out, kept{v: reflect.ValueOf(v.Interface()), path: path, get: func() reflect.Value { return f }})
		keptIn(v.Elem(), path+"*", out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				keptIn(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Slice:
		if v.Len() > 0 {
			old := reflect.ValueOf(v.Interface())
			*out = append(*out, kept{path: path, frozen: old, was: copyGo(old)})
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			old := reflect.ValueOf(v.MapIndex(k).Interface())
			if old.IsValid() {
				*out = append(*out, kept{path: path + "[" + fmt.Sprint(k) + "]", frozen: old, was: copyGo(old)})
			}
		}
	}
}

// keptOK checks it afterwards.
func keptOK(ks []kept) string {
	for _, k := range ks {
		if k.get != nil {
			if p := k.get(); !p.IsNil() && p.Pointer() != k.v.Pointer() {
				return k.path + ": the pointer was replaced, not what it points to"
			}
			continue
		}
		if x := sameGo(k.frozen, k.was, k.path); x != "" {
			return "the old content was written to: " + x
		}
	}
	return ""
}
