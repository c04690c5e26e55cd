S = []
def seed(id, prop, needs, breaks, edits, demo, imports=(), decls='', flags=''):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports), decls=decls, flags=flags))

seed('c13-slice-info', 'C13',
     'a list field that is not empty but has an empty element',
     'the omission rules of the field are applied to its elements, which vanish',
     [('marshal.go', 'val := s.marshalValue(val.Index(i), nil, omitEmpty)', 'val := s.marshalValue(val.Index(i), info, omitEmpty)')],
     r'''
	type T struct {
		L []string
	}
	v := T{L: []string{"a", "", "b"}}
	var w T
	if err := ju.Marshal(v).Unmarshal(&w); err != nil || len(w.L) != 3 {
		t.Fatal(ju.Marshal(v), w, err)
	}
''')
seed('c14-time-tag', 'C14',
     'a struct with a zero time that has no tags',
     'the zero time is written although empty values are omitted by default',
     [('marshal.go', """		if info != nil && info.OmitEmpty && omitEmpty {
			return nil
		}
		return NewString("")""", """		if info != nil && info.OmitZero && omitEmpty {
			return nil
		}
		return NewString("")""")],
     r'''
	type T struct {
		A  int
		At time.Time
	}
	if got := ju.Marshal(T{A: 1}).String(); got != `{"a":1}` {
		t.Fatal(got)
	}
''', ['time'])
seed('c14-omit-string-tag', 'C14',
     'a boolean field tagged both as text and to omit false',
     'false is written as text although the tag says to omit it',
     [('marshal.go', """	if !val && info != nil && info.OmitFalse && omitEmpty {
		return nil
	} else if info != nil && info.ForceString {
		return NewString(fmt.Sprintf("%v", val))
	} else {""", """	if info != nil && info.ForceString {
		return NewString(fmt.Sprintf("%v", val))
	} else if !val && info != nil && info.OmitFalse && omitEmpty {
		return nil
	} else {""")],
     r'''
	type T struct {
		A int
		B bool `json:"b,omitfalse,string"`
	}
	if got := ju.Marshal(T{A: 1}).String(); got != `{"a":1}` {
		t.Fatal(got)
	}
	if got := ju.Marshal(T{A: 1, B: true}).String(); got != `{"a":1,"b":"true"}` {
		t.Fatal(got)
	}
''')
seed('c14-marshalall-map', 'C14',
     'MarshalAll of a struct with a nil map or a nil list inside a map',
     'the nil entry is dropped instead of written as null',
     [('marshal.go', "s.marshalValue(val.MapIndex(key), nil, omitEmpty)", "s.marshalValue(val.MapIndex(key), nil, true)")],
     r'''
	type T struct {
		M map[string][]int
	}
	if got := ju.MarshalAll(T{M: map[string][]int{"a": nil}}).String(); got != `{"m":{"a":null}}` {
		t.Fatal(got)
	}
''')
seed('c15-forward-refs', 'C15',
     'a graph in which two members that sort before the definition of a node refer to it',
     'only the last of several references seen before their node is resolved',
     [('unmarshal_session.go', 'nv.targetValues = append(nv.targetValues, val)', 'nv.targetValues = []reflect.Value{val}')],
     r'''
	sub := &N{Name: "sub"}
	sub.Self = sub
	top := &N{Name: "top", Z: sub, A: sub, B: sub}
	o, err := ju.ParseString(ju.Marshal(top).String())
	if err != nil {
		t.Fatal(err)
	}
	r := &N{}
	if err := o.Unmarshal(r); err != nil {
		t.Fatal(err)
	}
	if r.Z == nil || r.A == nil || r.B == nil || r.A.Name != "sub" || r.B.Name != "sub" || r.A.Self == nil {
		t.Fatalf("%s: %+v", o, r)
	}
''', decls='''type N struct {
	Name string
	Z    *N
	A    *N
	B    *N
	Self *N
}''')
seed('c16-bool-float32', 'C16',
     'reading a boolean into a 32-bit float',
     'the documented conversion is refused',
     [('unmarshal.go', """	case reflect.Float32, reflect.Float64:
		if this.data {
			val.SetFloat(1.0)""", """	case reflect.Float64:
		if this.data {
			val.SetFloat(1.0)""")],
     r'''
	var f float32
	if err := ju.JSONTrue.Unmarshal(&f); err != nil || f != 1 {
		t.Fatal(err, f)
	}
''')
seed('c16-string-list', 'C16',
     'reading a single text into a list that is already longer than one element',
     'the old elements remain behind the text',
     [('unmarshal.go', """		dataLen := 1
		newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
		val.Set(newVal)
		return this""", """		if val.Len() == 0 {
			val.Set(reflect.MakeSlice(val.Type(), 1, 1))
		}
		return this""")],
     r'''
	l := []string{"x", "y"}
	if err := ju.NewString("a").Unmarshal(&l); err != nil || len(l) != 1 || l[0] != "a" {
		t.Fatal(err, l)
	}
''')
seed('c16-tristate-float', 'C16',
     'a boolean word with capitals, such as OFF, read into a tri-state field',
     'tri-state text values on and off are no longer understood in capitals',
     [('unmarshal.go', """	case tristate.TriStateType:
		switch strings.ToLower(this.data) {""", """	case tristate.TriStateType:
		switch this.data {""")],
     r'''
	type T struct{ A, B tristate.TriState }
	var v T
	o, _ := ju.ParseString(`{"a":"True","b":"OFF"}`)
	if err := o.Unmarshal(&v); err != nil || !v.A.IsTrue() || !v.B.IsFalse() {
		t.Fatal(err, v)
	}
''', ['yunion.io/x/pkg/tristate'])
seed('c18-escape-key', 'C18',
     'a member name with characters that are special in a query string',
     'names are written without escaping',
     [('querystring.go', 'return url.QueryEscape(key) + "=" + url.QueryEscape(val)', 'return key + "=" + url.QueryEscape(val)')],
     r'''
	d := ju.NewDict()
	d.Set("a&b=c d", ju.NewString("x"))
	o, err := ju.ParseQueryString(d.QueryString())
	if err != nil || !o.Equals(d) {
		t.Fatal(o, err)
	}
''')
seed('c22-loose-name', 'C22',
     'a member that names a field by its Go name or snake-case form while the struct also has embedded fields',
     'a field is no longer found by its Go name when the struct is embedded by pointer',
     [('unmarshal.go', """		if fieldValues[index].Parent != nil && fieldValues[index].Parent.Field.IsNil() {
			fieldValues[index].Parent.Field.Set(fieldValues[index].Parent.Value)
		}""", """		if ok && fieldValues[index].Parent != nil && fieldValues[index].Parent.Field.IsNil() {
			fieldValues[index].Parent.Field.Set(fieldValues[index].Parent.Value)
		}""")],
     r'''
	var v T
	o, _ := ju.ParseString(`{"UserName":"x"}`)
	if err := o.Unmarshal(&v); err != nil || v.Base == nil || v.UserName != "x" {
		t.Fatal(err, v)
	}
''', decls='''type Base struct{ UserName string }
type T struct {
	*Base
	A int
}''')
seed('c23-map-replaced', 'C23',
     'unmarshalling an object into a map field that already has entries, with an empty object as the source',
     'an empty source object empties the map',
     [('unmarshal.go', """	if val.IsNil() {
		mapVal := reflect.MakeMap(val.Type())
		val.Set(mapVal)
	}""", """	if val.IsNil() || len(this.data) == 0 {
		mapVal := reflect.MakeMap(val.Type())
		val.Set(mapVal)
	}""")],
     r'''
	type T struct{ M map[string]int }
	v := T{M: map[string]int{"a": 1}}
	o, _ := ju.ParseString(`{"m":{}}`)
	if err := o.Unmarshal(&v); err != nil || v.M["a"] != 1 {
		t.Fatal(err, v)
	}
''')
seed('c24-on-error', 'C24',
     'an object of which some member fails to convert',
     'the hook is not called when a member failed',
     [('unmarshal.go', """	callStructAfterUnmarshal(val)
	if len(errs) > 0 {
		return errors.NewAggregate(errs)
	} else {
		return nil
	}""", """	if len(errs) > 0 {
		return errors.NewAggregate(errs)
	}
	callStructAfterUnmarshal(val)
	return nil""")],
     r'''
	var v H
	o, _ := ju.ParseString(`{"a":"x","b":2}`)
	if err := o.Unmarshal(&v); err == nil || v.N != 1 || v.Seen != 2 {
		t.Fatal(err, v)
	}
''', decls='''type H struct {
	A, B    int
	N, Seen int
}

func (h *H) AfterUnmarshal() { h.N++; h.Seen = h.B }''')
seed('c24-order', 'C24',
     'a struct with a hook that relies on the hook of an embedded struct',
     'the hook of the outer struct runs before the one of the embedded struct',
     [('unmarshal.go', """		structType := val.Type()
		for i := 0; i < val.NumField(); i++ {
			fieldType := structType.Field(i)
			if fieldType.Anonymous {
				callStructAfterUnmarshal(val.Field(i))
			}
		}
""", """		defer func() {
			structType := val.Type()
			for i := 0; i < val.NumField(); i++ {
				if structType.Field(i).Anonymous {
					callStructAfterUnmarshal(val.Field(i))
				}
			}
		}()
""")],
     r'''
	var v Outer
	o, _ := ju.ParseString(`{"a":1,"b":2}`)
	if err := o.Unmarshal(&v); err != nil || v.Sum != 3 {
		t.Fatal(err, v)
	}
''', decls='''type Inner struct{ A, Copy int }

func (h *Inner) AfterUnmarshal() { h.Copy = h.A }

type Outer struct {
	Inner
	B, Sum int
}

func (h *Outer) AfterUnmarshal() { h.Sum = h.Copy + h.B }''')
seed('c25-required-null', 'C25',
     'a required-field check of two fields of which a later one is null',
     'only the first field is checked for null',
     [('utils.go', """	for _, f := range fields {
		jsonVal, ok := jsonMap[f]
		if !ok {
			return errors.Wrap(ErrMissingInputField, f)
		}
		if jsonVal == JSONNull {""", """	for i, f := range fields {
		jsonVal, ok := jsonMap[f]
		if !ok {
			return errors.Wrap(ErrMissingInputField, f)
		}
		if i == 0 && jsonVal == JSONNull {""")],
     r'''
	o, _ := ju.ParseString(`{"a":1,"b":null}`)
	if err := ju.CheckRequiredFields(o, []string{"a", "b"}); err == nil {
		t.Fatal("no error")
	}
''')
seed('c25-query-array', 'C25',
     'a text list given as a numbered object that starts at zero and has more than ten entries',
     'an entry whose text is empty ends the list',
     [('utils.go', """				if err != nil {
					break
				}
				arr""", """				if err != nil || len(searchText) == 0 {
					break
				}
				arr""")],
     r'''
	o, _ := ju.ParseString(`{"k":{"0":"a","1":"","2":"c"}}`)
	if l := ju.GetQueryStringArray(o, "k"); len(l) != 3 {
		t.Fatal(l)
	}
''')
seed('c26-in-place', 'C26',
     'two unmarshals into the same target that has a field of type *JSONString',
     'the second unmarshal writes into a document obtained from the first',
     [('unmarshal.go', """	case JSONStringPtrType:
		data := strconv.FormatBool(this.data)
		val.Set(reflect.ValueOf(NewString(data)))
		return nil""", """	case JSONStringPtrType:
		if val.IsNil() {
			val.Set(reflect.ValueOf(NewString("")))
		}
		val.Interface().(*JSONString).data = strconv.FormatBool(this.data)
		return nil""")],
     r'''
	type T struct{ S *ju.JSONString }
	var v T
	d1, _ := ju.ParseString(`{"s":"abc"}`)
	d2, _ := ju.ParseString(`{"s":true}`)
	if err := d1.Unmarshal(&v); err != nil {
		t.Fatal(err)
	}
	if err := d2.Unmarshal(&v); err != nil {
		t.Fatal(err)
	}
	if d1.String() != `{"s":"abc"}` {
		t.Fatal(d1)
	}
''')
seed('c27-groups', 'C27',
     'an amount with two or more thousands groups in the US notation',
     'only the first separator is removed',
     [('currency.go', 'return strings.Replace(currency, ",", "", -1)', 'return strings.Replace(currency, ",", "", 1)')],
     r'''
	var f float64
	if err := ju.NewString("1,234,567.5").Unmarshal(&f); err != nil || f != 1234567.5 {
		t.Fatal(err, f)
	}
''')
seed('c27-eu-fraction', 'C27',
     'an amount in the European notation without a fraction but with several groups',
     'the text is read with its last group as a fraction',
     [('currency.go', """	} else {
		return strings.Replace(currency, ".", "", -1)
	}""", """	} else {
		return strings.Replace(currency, ".", "", strings.Count(currency, ".")-1)
	}""")],
     r'''
	var f float64
	if err := ju.NewString("1.234.567").Unmarshal(&f); err != nil || f != 1234567 {
		t.Fatal(err, f)
	}
''')
seed('c28-excerpt', 'C28',
     'an error closer than ten bytes to the start of the text',
     'the excerpt behind the position is longer than ten bytes',
     [('errors.go', """	end := pos + sublen
	if start < 0 {
		start = 0
	}""", """	if start < 0 {
		start = 0
	}
	end := start + 2*sublen""")],
     r'''
	e := ju.NewJSONError([]byte("0123456789abcdefghijklmnop"), 3, "x")
	if got := e.Error(); got != "JSON error x at 3: 012^3456789abc..." {
		t.Fatal(got)
	}
''')
seed('c28-pos', 'C28',
     'a position exactly at the end of the text',
     'the error report panics or points behind the text',
     [('errors.go', '} else if pos > len(str)-1 {', '} else if pos > len(str) {')],
     r'''
	e := ju.NewJSONError([]byte("abc"), 3, "x")
	if got := e.Error(); got != "JSON error x at 2: ab^c..." {
		t.Fatal(got)
	}
''')
seed('c29-local', 'C29',
     'a time whose zone is not UTC',
     'the second-resolution text is the local time of day, marked as UTC',
     [('utils.go', 'return NewString(tm.UTC().Format("2006-01-02T15:04:05Z"))', 'return NewString(tm.Format("2006-01-02T15:04:05Z"))')],
     r'''
	tm := time.Date(2020, 1, 2, 3, 4, 5, 0, time.FixedZone("x", 3600))
	if got := ju.NewTimeString(tm).String(); got != `"2020-01-02T02:04:05Z"` {
		t.Fatal(got)
	}
''', ['time'])
seed('c29-microseconds', 'C29',
     'a time with a fraction of a second',
     'the fraction is dropped on marshal',
     [('marshal.go', 'return NewString(timeutils.FullIsoTime(val))', 'return NewString(timeutils.IsoTime(val))')],
     r'''
	tm := time.Date(2020, 1, 2, 3, 4, 5, 123456000, time.UTC)
	var back time.Time
	if err := ju.Marshal(tm).Unmarshal(&back); err != nil || !back.Equal(tm) {
		t.Fatal(back, err)
	}
''', ['time'])
seed('c29-layout', 'C29',
     'a time in the RFC 822 layout, read from a document',
     'one of the documented layouts is no longer read',
     [('access.go', """time.UnixDate,
		time.RFC822,
	} {""", """time.UnixDate} {""")],
     r'''
	if tm, err := ju.NewString("02 Jan 06 15:04 UTC").GetTime(); err != nil || tm.Unix() != 1136214240 {
		t.Fatal(tm, err)
	}
''')
seed('c21-scratch', 'C21',
     'two goroutines that print pretty text (or build amounts) at the same moment',
     'a shared scratch buffer is overwritten by the other goroutine',
     [('jsonutils.go', """func quoteString(str string) string {
	sb := &strings.Builder{}
	sb.Grow(len(str) + 2)""", """var quoteBuffer bytes.Buffer

func quoteString(str string) string {
	sb := &quoteBuffer
	sb.Reset()"""),
      ('jsonutils.go', 'func escapeJsonChar(sb *strings.Builder, ch byte) {', 'func escapeJsonChar(sb *bytes.Buffer, ch byte) {')],
     r'''
	a := ju.NewString(strings.Repeat("a", 3000))
	b := ju.NewString(strings.Repeat("b", 3000))
	wa, wb := a.String(), b.String()
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					atomic.StoreInt32(&bad, 1)
				}
			}()
			s, w := a, wa
			if g%2 == 1 {
				s, w = b, wb
			}
			for i := 0; i < 3000; i++ {
				if s.String() != w {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("mixed text")
	}
''', ['strings', 'sync', 'sync/atomic'])
seed('c21-lazy', 'C21',
     'two goroutines that read the same document at the same moment',
     'reading the printed text of a list memorises it in the shared document without synchronisation',
     [('jsonutils.go', """type JSONArray struct {
	JSONValue
	data []JSONObject
}""", """type JSONArray struct {
	JSONValue
	data []JSONObject

	strs []string
}"""), ('utils.go', """	ret := make([]string, len(this.data))
	for i, obj := range this.data {
		s, e := obj.GetString()
		if e == nil {
			ret[i] = s
		}
	}
	return ret
}

func JSONArray2StringArray""", """	// reuse the buffer of the last call
	this.strs = this.strs[:0]
	for _, obj := range this.data {
		s, _ := obj.GetString()
		this.strs = append(this.strs, s)
	}
	return append([]string{}, this.strs...)
}

func JSONArray2StringArray""")],
     r'''
	l := ju.NewArray()
	for i := 0; i < 50; i++ {
		l.Add(ju.NewInt(int64(i)))
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if len(l.GetStringArray()) != 50 {
					t.Error("wrong length")
				}
			}
		}()
	}
	wg.Wait()
''', ['sync'], flags='-race ')

seed('c13-float32', 'C13',
     'a 64-bit float that lies next to an integer',
     'the float is written as if it had 32-bit precision',
     [('marshal.go', """	} else {
		return NewFloat64(val)
	}""", """	} else if float64(int64(val)) != val && float32(val) == float32(int64(val)) {
		// a short value
		return NewFloat32(float32(val))
	} else {
		return NewFloat64(val + 0)
	}""")],
     r"""
	v := 16777216.000000004
	var w float64
	o, _ := ju.ParseString(ju.Marshal(v).String())
	if err := o.Unmarshal(&w); err != nil || w != v {
		t.Fatal(w, v, err)
	}
""")
seed('c13-map-sort', 'C13',
     'a map whose keys differ only in case',
     'keys that are equal ignoring case are taken for one',
     [('marshal.go', """	sort.Sort(tMapKeys(keys))
	objPairs := make([]JSONPair, 0)
	for i := 0; i < len(keys); i += 1 {
		key := keys[i]
""", """	sort.Sort(tMapKeys(keys))
	objPairs := make([]JSONPair, 0)
	for i := 0; i < len(keys); i++ {
		key := keys[i]
		if i > 0 && strings.EqualFold(keys[i-1].String(), key.String()) {
			// written already
			continue
		}
"""), ('marshal.go', '\t"sort"\n', '\t"sort"\n\t"strings"\n')],
     r"""
	v := map[string]int{"a": 1, "A": 2, "á": 3, "Á": 4, "Aa": 5, "AA": 6}
	w := map[string]int{}
	if err := ju.Marshal(v).Unmarshal(&w); err != nil || len(w) != len(v) {
		t.Fatal(ju.Marshal(v), w, err)
	}
""")
seed('c15-find-last', 'C15',
     'a cyclic graph in which a struct and its first field have the same address and different pointer types',
     'references print the number of the node that was found first instead of the node itself',
     [('json_pointer_trace.go', """		if t.trace[i].inf == inf {
			ret = t.trace[i]
		}""", """		if reflect.ValueOf(t.trace[i].inf).Pointer() == reflect.ValueOf(inf).Pointer() {
			ret = t.trace[i]
		}"""), ('json_pointer_trace.go', '\t"fmt"\n', '\t"fmt"\n\t"reflect"\n')],
     r"""
	a := &Out{}
	a.In.Name = "in"
	a.P = &a.In
	r := &Out{}
	o, err := ju.ParseString(ju.Marshal(a).String())
	if err != nil {
		t.Fatal(err)
	}
	if err := o.Unmarshal(r); err != nil || r.P == nil || r.P.Name != "in" {
		t.Fatal(o, err, r)
	}
""", decls="""type In struct{ Name string }
type Out struct {
	In In
	P  *In
}""")
seed('c16-null-map', 'C16',
     'reading null into a map that has entries',
     'the entries stay',
     [('unmarshal.go', """	if val.CanSet() {
		zeroVal""", """	if val.CanSet() && val.Kind() != reflect.Map {
		zeroVal""")],
     r"""
	type T struct{ M map[string]int }
	v := T{M: map[string]int{"a": 1}}
	o, _ := ju.ParseString(`{"m":null}`)
	if err := o.Unmarshal(&v); err != nil || v.M != nil {
		t.Fatal(err, v)
	}
""")
seed('c17-unmarshal-chain', 'C17',
     'a document that carries only the oldest name of a chain of five deprecations',
     'on reading, the replacement of a replacement is not set',
     [('unmarshal.go', """			err := setStructFieldAt(s, depInfo, v, fieldValues, keyIndexMap, visited)
			if err != nil {""", """			if len(visited) > 4 {
				continue
			}
			err := setStructFieldAt(s, depInfo, v, fieldValues, keyIndexMap, visited)
			if err != nil {""" ), ('unmarshal.go', """		depInfo, ok := fieldValues[index].Info.Tags[TAG_DEPRECATED_BY]
		if ok {""", """		depInfo := fieldValues[index].Info.Tags[TAG_DEPRECATED_BY]
		if len(depInfo) > 0 {""")],
     r"""
	type T struct {
		A string `json:"a" yunion-deprecated-by:"b"`
		B string `json:"b" yunion-deprecated-by:"c"`
		C string `json:"c" yunion-deprecated-by:"d"`
		D string `json:"d" yunion-deprecated-by:"e"`
		E string `json:"e" yunion-deprecated-by:"f"`
		F string `json:"f"`
	}
	var v T
	o, _ := ju.ParseString(`{"a":"x"}`)
	if err := o.Unmarshal(&v); err != nil || v != (T{"x", "x", "x", "x", "x", "x"}) {
		t.Fatal(err, v)
	}
""")
seed('c17-empty-new', 'C17',
     'a deprecated field whose replacement holds an empty value that the tags keep',
     'the old name is not written when the new value is zero',
     [('marshal.go', """		val := findValueByKey(objPairs, key)
		if val != nil {""", """		val := findValueByKey(objPairs, key)
		if i, ok := val.(*JSONInt); val != nil && (!ok || i.data != 0) {""")],
     r"""
	type T struct {
		A int `json:"a" yunion-deprecated-by:"b"`
		B int `json:"b"`
	}
	if got := ju.Marshal(T{}).String(); got != `{"a":0,"b":0}` {
		t.Fatal(got)
	}
""")
seed('c18-number-order', 'C18',
     'a list of more than a hundred elements, or with indices beyond 99',
     'indices are compared as texts beyond a certain size, the list comes back with an error',
     [('stringsegment.go', """		if tn.number < tn2.number {
			return -1
		} else if tn.number > tn2.number {""", """		if n1, n2 := int8(tn.number), int8(tn2.number); n1 < n2 {
			return -1
		} else if n1 > n2 {""")],
     r"""
	l := ju.NewArray()
	for i := 0; i < 140; i++ {
		l.Add(ju.NewString(strings.Repeat("x", i+1)))
	}
	d := ju.NewDict()
	d.Set("l", l)
	o, err := ju.ParseQueryString(d.QueryString())
	if err != nil || !o.Equals(d) {
		t.Fatal(o, err)
	}
""", ['strings'])
seed('c18-list-in-list', 'C18',
     'a list that is itself an element of a list',
     'the names of nested elements miss the outer index',
     [('querystring.go', """		k := strconv.FormatInt(int64(i), 10)
		if len(key) > 0 {
			k = key + "." + k
		}""", """		k := strconv.FormatInt(int64(i), 10)
		if len(key) > 0 && !strings.HasSuffix(key, "."+k) {
			k = key + "." + k
		} else if len(key) > 0 {
			k = key
		}""")],
     r"""
	o, _ := ju.ParseString(`{"a":[["x","y"],["z"]]}`)
	p, err := ju.ParseQueryString(o.QueryString())
	if err != nil || !p.Equals(o) {
		t.Fatal(p, err)
	}
""")
seed('c19-plain-string', 'C19',
     'a text at the top that YAML reads as something else, such as 010, yes, null or ~',
     'the text is printed without quotes and comes back as a number, boolean or null',
     [('yamlutils.go', """func (this *JSONString) YAMLString() string {
	return yamlString(this)
}""", """func (this *JSONString) YAMLString() string {
	for i := 0; i < len(this.data); i++ {
		c := this.data[i]
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
			return yamlString(this)
		}
	}
	return strings.TrimSpace(this.data) + "\\n"
}""")],
     r"""
	for _, s := range []string{"yes", "null", "010", "12", "true"} {
		o, err := ju.ParseYAML(ju.NewString(s).YAMLString())
		if err != nil || !o.Equals(ju.NewString(s)) {
			t.Fatal(s, o, err)
		}
	}
""")
seed('c20-pointer-receiver', 'C20',
     'a named list type whose UnmarshalJSON has a pointer receiver, as a field',
     'the method of the type is not called when reading',
     [('std_json.go', 'if v.Kind() != reflect.Ptr && v.Type().Name() != "" && v.CanAddr() {', 'if v.Kind() != reflect.Ptr && v.Kind() != reflect.Slice && v.Type().Name() != "" && v.CanAddr() {')],
     r"""
	type T struct{ L L }
	o, _ := ju.ParseString(`{"l":["five"]}`)
	var v T
	if err := o.Unmarshal(&v); err != nil || len(v.L) != 1 || v.L[0] != `["five"]` {
		t.Fatal(err, v)
	}
""", decls="""type L []string

func (l *L) UnmarshalJSON(b []byte) error {
	*l = L{string(b)}
	return nil
}""")
seed('c20-interface-value', 'C20',
     'a value with its own MarshalJSON method inside an interface',
     'values inside interfaces do not use their own method',
     [('marshal.go', """		return s.marshalValue(objValue.Elem(), info, omitEmpty)
	default:""", """		if objValue.Kind() == reflect.Interface {
			return s.marshalValueWithObjectMap(objValue.Elem(), info, omitEmpty)
		}
		return s.marshalValue(objValue.Elem(), info, omitEmpty && true)
	default:""")],
     r"""
	if got := ju.Marshal(map[string]interface{}{"a": C{X: 1}}).String(); got != `{"a":"custom"}` {
		t.Fatal(got)
	}
""", decls="""type C struct{ X int }

func (c C) MarshalJSON() ([]byte, error) { return []byte(`"custom"`), nil }""")
seed('c23-marshal-all', 'C23',
     'an update from a source struct whose fields are unset',
     'unset fields of the source clear the fields of the target',
     [('update.go', 'json := Marshal(src)', 'json := MarshalAll(src)')],
     r"""
	type S struct {
		A string
		P *int
		L []int
	}
	n := 1
	dst := S{A: "x", P: &n, L: []int{1}}
	if err := ju.Update(&dst, S{A: "y"}); err != nil || dst.A != "y" || dst.P == nil || len(dst.L) != 1 {
		t.Fatal(err, dst)
	}
""")
seed('c26-compare-trims', 'C26',
     'comparing a list with a longer one that ends in null',
     'comparing trims the compared document',
     [('equals.go', """	if len(arr.data) != len(arr2.data) {
		return false
	}
	for i, v := range arr.data {""", """	if n := len(arr2.data); n > 0 && n > len(arr.data) && arr2.data[n-1] == JSONNull {
		// trailing nulls do not count
		arr2.data = arr2.data[:n-1]
		return false
	}
	if len(arr.data) < len(arr2.data) || len(arr.data) > len(arr2.data) {
		return false
	}
	for i, v := range arr.data {""")],
     r"""
	a, _ := ju.ParseString(`[1]`)
	b, _ := ju.ParseString(`[1,null]`)
	a.Equals(b)
	if b.String() != "[1,null]" {
		t.Fatal(b)
	}
""")
SEEDS = S
seed('c21-cache', 'C21',
     'one goroutine reads a time between the two steps in which another one stores its own in the cache',
     'a cache of the last time read is filled in two separately locked steps, so a reader can get the time of another text',
     [('access.go', """	t, e := timeutils.ParseTimeStr(this.data)
	if e == nil {
		return t, nil
	}
	for _, tf""", """	if t, ok := lastTime.get(this.data); ok {
		return t, nil
	}
	t, e := timeutils.ParseTimeStr(this.data)
	if e == nil {
		return lastTime.put(this.data, t), nil
	}
	for _, tf"""), ('access.go', """func (this *JSONString) GetTime(""", """type sTimeCache struct {
	lock sync.Mutex
	text string
	time time.Time
}

var lastTime sTimeCache

func (c *sTimeCache) get(text string) (time.Time, bool) {
	c.lock.Lock()
	defer c.lock.Unlock()
	return c.time, len(text) > 0 && c.text == text
}

func (c *sTimeCache) setText(text string) {
	c.lock.Lock()
	defer c.lock.Unlock()
	c.text = text
}

func (c *sTimeCache) setTime(tm time.Time) {
	c.lock.Lock()
	defer c.lock.Unlock()
	c.time = tm
}

func (c *sTimeCache) put(text string, tm time.Time) time.Time {
	c.setTime(tm)
	c.setText(text)
	return tm
}

func (this *JSONString) GetTime("""), ('access.go', '''	"strings"
	"time"
''', '''	"strings"
	"sync"
	"time"
''')],
     r'''
	texts := []string{"2020-01-02T03:04:05Z", "2021-01-02T03:04:05Z"}
	want := []int64{1577934245, 1609556645}
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			s := ju.NewString(texts[g%2])
			for i := 0; i < 400000 && atomic.LoadInt32(&bad) == 0; i++ {
				if i%16 == 0 {
					runtime.Gosched()
				}
				tm, err := s.GetTime()
				if err != nil || tm.Unix() != want[g%2] {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("a time that is not in the text")
	}
''', ['runtime', 'sync', 'sync/atomic'])
