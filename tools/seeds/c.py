"""Third batch of planted bugs."""
S = []
def seed(id, prop, needs, breaks, edits, demo, imports=(), decls='', flags=''):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports), decls=decls, flags=flags))

seed('c01-query-index', 'C01',
     'a query string in which the second index of a list is one beyond the next one',
     'an index beyond the end of the list is used to read the list',
     [('querystring.go', """		if index < arrSize {
			next, err := jbody.GetAt(int(index))
			if err != nil {
				return nil, errors.Wrapf(err, "get jsonarray %s at %d fail", body, index)
			}""", """		if index < arrSize || index > arrSize {
			var err error
			next := jbody.data[index]""")],
     r'''
	if _, err := ju.ParseQueryString("a.0=1&a.2=3"); err == nil {
		t.Fatal("accepted")
	}
''')
seed('c02-empty-name', 'C02',
     'an object with a member whose name is the empty text',
     'the member is dropped',
     [('jsonutils.go', """		} else {
			smap = sortedmap.Add(smap, key, val)
		}""", """		} else if len(key) > 0 {
			smap = sortedmap.Add(smap, key, val)
		}""")],
     r'''
	o, err := ju.ParseString(`{"":1,"a":2}`)
	if err != nil || o.String() != `{"":1,"a":2}` {
		t.Fatal(o, err)
	}
''')
seed('c04-format', 'C04',
     'a member value with a percent sign, printed indented',
     'the text of a member is used as a format',
     [('jsonutils.go', """			buffer.WriteByte(' ')
			buffer.WriteString(v.String())""", """			fmt.Fprintf(&buffer, " "+v.String())"""),
      ('jsonutils.go', '	"bytes"\n', '	"bytes"\n	"fmt"\n')],
     r'''
	d := ju.NewDict()
	d.Set("a", ju.NewString("100%d"))
	o, err := ju.ParseString(d.PrettyString())
	if err != nil || o.String() != d.String() {
		t.Fatal(d.PrettyString())
	}
''')
seed('c04-list-level', 'C04',
     'a list in a list, printed indented',
     'elements of nested lists stand as deep as their brackets',
     [('jsonutils.go', "		buffer.WriteString(v.prettyString(level + 1))", "		if _, ok := v.(*JSONArray); ok {\n			buffer.WriteString(v.prettyString(level))\n		} else {\n			buffer.WriteString(v.prettyString(level + 1))\n		}")],
     r'''
	a := ju.NewArray(ju.NewArray(ju.NewInt(1)))
	if s := a.PrettyString(); s != "[\n  [\n    1\n  ]\n]" {
		t.Fatalf("%q", s)
	}
''')
seed('c06-none', 'C06',
     'the word none in an array',
     'none is read as a text',
     [('jsonutils.go', 'if len(lval) == 0 || lval == "null" || lval == "none" {', 'if len(lval) == 0 || lval == "null" || val == "none" {')],
     r'''
	o, err := ju.ParseString(`[None]`)
	if err != nil || o.String() != `[null]` {
		t.Fatal(o, err)
	}
''')
seed('c08-update-alias', 'C08',
     'merging into an empty object and editing either of the two afterwards',
     'an empty object adopts the storage of the object merged into it',
     [('dict.go', "	dict.data = sortedmap.Merge(dict.data, dict2.data)", "	if len(dict.data) == 0 {\n		dict.data = dict2.data\n	} else {\n		dict.data = sortedmap.Merge(dict.data, dict2.data)\n	}")],
     r'''
	a, b := ju.NewDict(), ju.NewDict()
	b.Set("x", ju.NewInt(1))
	b.Set("y", ju.NewInt(1))
	a.Update(b)
	a.Set("x", ju.NewInt(2))
	a.Remove("x")
	if b.String() != `{"x":1,"y":1}` {
		t.Fatal(b)
	}
''')
seed('c08-excludes-case', 'C08',
     'names that differ only in letter case, one of them excluded from a copy',
     'excluded names are matched ignoring case',
     [('clone.go', """		exists, _ := utils.InStringArray(k, excludes)
		if !exists {""", """		exists := false
		for _, x := range excludes {
			exists = exists || strings.EqualFold(x, k)
		}
		if !exists {"""),
      ('clone.go', '	"reflect"\n', '	"reflect"\n	"strings"\n')],
     r'''
	a := ju.NewDict()
	a.Set("x", ju.NewInt(1))
	a.Set("X", ju.NewInt(2))
	if b := a.CopyExcludes("x"); b.String() != `{"X":2}` {
		t.Fatal(b)
	}
''')
seed('c09-wrap', 'C09',
     'an index from the back that is beyond the front',
     'such an index wraps around instead of giving an error',
     [('access.go', """	if i < 0 {
		i = len(this.data) + i
	}""", """	for i < 0 && len(this.data) > 0 {
		i = len(this.data) + i
	}""")],
     r'''
	a := ju.NewArray(ju.NewInt(1), ju.NewInt(2))
	if o, err := a.GetAt(-3); err == nil {
		t.Fatal(o)
	}
''')
seed('c10-copy-shared', 'C10',
     'replacing an element in a shallow copy of a list',
     'the copy shares its storage until it grows',
     [('clone.go', """	for _, v := range this.data {
		arr.data = append(arr.data, v)
	}
	return arr""", """	arr.data = this.data[:len(this.data):len(this.data)]
	return arr""")],
     r'''
	a := ju.NewArray(ju.NewInt(1), ju.NewInt(2))
	b := a.Copy()
	b.Add(ju.NewInt(3))
	c := a.Copy()
	c.SetAt(0, ju.NewInt(9))
	if a.String() != "[1,2]" || b.String() != "[1,2,3]" {
		t.Fatal(a, b)
	}
''')
seed('c11-big-int', 'C11',
     'two integers beyond 53 bits that differ by one',
     'integers are compared as floats',
     [('equals.go', """func (o *JSONInt) Equals(json JSONObject) bool {
	o2, ok := json.(*JSONInt)
	if !ok {
		return false
	}
	return o.data == o2.data""", """func (o *JSONInt) Equals(json JSONObject) bool {
	o2, ok := json.(*JSONInt)
	if !ok {
		return false
	}
	return float64(o.data) == float64(o2.data)""")],
     r'''
	if ju.NewInt(1 << 60).Equals(ju.NewInt(1<<60 + 1)) {
		t.Fatal("equal")
	}
''')
seed('c11-same-storage', 'C11',
     'two objects of the same size, one of which is a sub-map of the other plus a null',
     'a member that is missing on one side counts as null',
     [('equals.go', """	if len(aNoB) > 0 || len(bNoA) > 0 {
		return false
	}""", """	for _, m := range []sortedmap.SSortedMap{aNoB, bNoA} {
		for _, k := range m.Keys() {
			if v, _ := m.Get(k); v != JSONNull {
				return false
			}
		}
	}""")],
     r'''
	a, _ := ju.ParseString(`{"a":null,"c":1}`)
	b, _ := ju.ParseString(`{"b":null,"c":1}`)
	if a.Equals(b) {
		t.Fatal("equal")
	}
''')
seed('c12-time-path', 'C12',
     'a path that goes on beyond a text holding a time',
     'the rest of the path is ignored',
     [('access.go', """func (this *JSONString) GetTime(keys ...string) (time.Time, error) {
	if len(keys) > 0 {""", """func (this *JSONString) GetTime(keys ...string) (time.Time, error) {
	if len(keys) > 1 {""")],
     r'''
	if tm, err := ju.NewString("2021-03-04T05:06:07Z").GetTime("a"); err == nil {
		t.Fatal(tm)
	}
''')
seed('c12-map-inner', 'C12',
     'reading the members of a nested object of an object with a list',
     'a list reads as a map of its elements by index',
     [('access.go', """	dict, ok := obj.(*JSONDict)
	if !ok {
		return nil, ErrInvalidJsonDict
	}
	// allocate""", """	dict, ok := obj.(*JSONDict)
	if !ok && !obj.IsZero() {
		return nil, ErrInvalidJsonDict
	} else if !ok {
		dict = NewDict()
	}
	// allocate""")],
     r'''
	a, _ := ju.ParseString(`{"a":[]}`)
	if m, err := a.GetMap("a"); err == nil {
		t.Fatal(m)
	}
''')
seed('c13-map-elem', 'C13',
     'a map of structs in which a later entry omits what an earlier one has',
     'the entries of a map are read into one variable',
     [('unmarshal.go', """		valVal := reflect.New(valType.Elem()).Elem()

		err := v""", """		if !valVal.IsValid() {
			valVal = reflect.New(valType.Elem()).Elem()
		}
		err := v"""),
      ('unmarshal.go', """	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
		k, vinf := iter.Get()
		v := vinf.(JSONObject)
		keyVal""", """	var valVal reflect.Value
	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
		k, vinf := iter.Get()
		v := vinf.(JSONObject)
		keyVal""")],
     r'''
	v := map[string]T{"a": {"x", ""}, "b": {"", "y"}}
	var w map[string]T
	if err := ju.Marshal(v).Unmarshal(&w); err != nil || w["b"].A != "" || w["a"].A != "x" {
		t.Fatal(w, err)
	}
''', decls='type T struct{ A, B string }')
seed('c14-pointer-info', 'C14',
     'a pointer to an empty value in a field, without tags',
     'the tags of a field are not applied to what its pointer holds',
     [('marshal.go', 'return s.marshalValue(objValue.Elem(), info, omitEmpty)', 'return s.marshalValue(objValue.Elem(), nil, omitEmpty)')],
     r'''
	e := ""
	if s := ju.Marshal(T{A: &e, B: 1}).String(); s != `{"b":1}` {
		t.Fatal(s)
	}
''', decls='type T struct{ A *string; B int }')
seed('c15-refcnt', 'C15',
     'a node on a cycle that is reached again after the cycle was closed',
     'only the node a reference leads to is kept, not the nodes in between',
     [('json_pointer_trace.go', """			ret = t.trace[i]
		}
		if ret != nil {
			t.trace[i].refcnt++
		}""", """			ret = t.trace[i]
			t.trace[i].refcnt++
		}""")],
     r'''
	a, b := &N{Name: "a"}, &N{Name: "b"}
	a.L, a.R = b, b
	b.L = a
	o, err := ju.ParseString(ju.Marshal(a).String())
	if err != nil {
		t.Fatal(err)
	}
	var c N
	if err := o.Unmarshal(&c); err != nil || c.L == nil || c.L != c.R || c.L.L != &c {
		t.Fatal(o, err)
	}
''', decls='type N struct { Name string; L, R *N }')
seed('c16-int-clear', 'C16',
     'null read into a number that holds something',
     'null leaves numbers as they were',
     [('unmarshal.go', """	if val.CanSet() {
		zeroVal""", """	if val.CanSet() && !val.CanUint() {
		zeroVal""")],
     r'''
	v := T{5}
	o, _ := ju.ParseString(`{"a":null}`)
	if err := o.Unmarshal(&v); err != nil || v.A != 0 {
		t.Fatal(v, err)
	}
''', decls='type T struct{ A uint64 }')
seed('c16-on-word', 'C16',
     'the text "on" read into a pointer to a boolean document',
     'the word on is not understood there',
     [('unmarshal.go', """		var data bool
		switch strings.ToLower(this.data) {
		case "true", "yes", "on", "1":""", """		var data bool
		switch strings.ToLower(this.data) {
		case "true", "yes", "1":""")],
     r'''
	var v T
	o, _ := ju.ParseString(`{"a":"on"}`)
	if err := o.Unmarshal(&v); err != nil || v.A == nil || !v.A.Value() {
		t.Fatal(v, err)
	}
''', decls='type T struct{ A *ju.JSONBool }')
seed('c18-multi-value', 'C18',
     'a parameter that appears twice under a name with a dot',
     'some of the repeated values of a nested name are lost',
     [('querystring.go', 'next, err := addQueryStringSeg(nil, segs[1:], val)\n			if err != nil {\n				return nil, errors.Wrapf(err, "addQueryStringSeg %s with %s fail", body, key)', 'next, err := addQueryStringSeg(nil, segs[1:], val[:1+(len(val)-1)/len(segs)])\n			if err != nil {\n				return nil, errors.Wrapf(err, "addQueryStringSeg %s with %s fail", body, key)')],
     r'''
	o, err := ju.ParseQueryString("a.b.c=1&a.b.c=2")
	if err != nil || o.String() != `{"a":{"b":{"c":["1","2"]}}}` {
		t.Fatal(o, err)
	}
''')
seed('c19-list-items', 'C19',
     'an empty list, or a list of texts with several lines',
     'a list of scalars is written entry by entry: the empty list becomes an empty text',
     [('yamlutils.go', """func (this *JSONArray) YAMLString() string {
	return yamlString(this)""", """func (this *JSONArray) YAMLString() string {
	sb := &strings.Builder{}
	for _, v := range this.data {
		if v.isCompond() {
			return yamlString(this)
		}
		sb.WriteString("- " + v.YAMLString())
	}
	return sb.String()""")],
     r'''
	a := ju.NewArray()
	o, err := ju.ParseYAML(a.YAMLString())
	if err != nil || !a.Equals(o) {
		t.Fatal(a.YAMLString(), o, err)
	}
''')
seed('c20-pretty', 'C20',
     'a container read by a type that keeps the raw text',
     'the method receives indented text',
     [('std_json.go', 'return u.UnmarshalJSON([]byte(jo.String()))', 'return u.UnmarshalJSON([]byte(jo.PrettyString()))')],
     r'''
	o, _ := ju.ParseString(`{"a":[1, 2]}`)
	var v T
	if err := o.Unmarshal(&v); err != nil || string(v.A.raw) != "[1,2]" {
		t.Fatal(v, err)
	}
''', decls='type R struct{ raw []byte }\n\nfunc (r *R) UnmarshalJSON(b []byte) error { r.raw = append([]byte(nil), b...); return nil }\n\ntype T struct{ A R }')
seed('c21-rune-buffer', 'C21',
     'two goroutines that parse texts with \\u escapes at the same time',
     'the buffer for encoded characters is shared',
     [('jsonutils.go', """		buffer    []byte
		runebytes = make([]byte, 4)
""", """		buffer    []byte
"""), ('jsonutils.go', 'func parseQuoteString(', 'var runebytes = make([]byte, 4)\n\nfunc parseQuoteString(')],
     r'''
	var wg sync.WaitGroup
	for _, s := range []string{`"\u00e9\u4e2d"`, `"\u0041\u03b1"`} {
		want, _ := ju.ParseString(s)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(s string) {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					if o, err := ju.ParseString(s); err != nil || o.String() != want.String() {
						t.Errorf("%v %v", o, err)
						return
					}
				}
			}(s)
		}
	}
	wg.Wait()
''', ['sync'], flags='-race ')
seed('c22-parent', 'C22',
     'a nil embedded pointer to a struct, several of whose members are in the document',
     'the embedded struct is only attached for its first member that is named in full',
     [('unmarshal.go', """		if fieldValues[index].Parent != nil && fieldValues[index].Parent.Field.IsNil() {""", """		if fieldValues[index].Parent != nil && fieldValues[index].Parent.Field.IsNil() && !v.IsZero() {""")],
     r'''
	o, _ := ju.ParseString(`{"a":0}`)
	var v T
	if err := o.Unmarshal(&v); err != nil || v.In == nil {
		t.Fatal(v, err)
	}
''', decls='type In struct{ A int }\n\ntype T struct{ *In; B int }')
seed('c24-first-embedded', 'C24',
     'a struct that embeds a hooked struct behind another field',
     'hooks of embedded structs run only when these come first',
     [('unmarshal.go', '			if fieldType.Anonymous {', '			if !fieldType.Anonymous {\n				break\n			} else {')],
     r'''
	o, _ := ju.ParseString(`{"a":1}`)
	var v T
	if err := o.Unmarshal(&v); err != nil || v.n != 1 {
		t.Fatal(v, err)
	}
''', decls='type In struct{ A, n int }\n\nfunc (i *In) AfterUnmarshal() { i.n++ }\n\ntype T struct {\n\tB int\n\tIn\n}\n\nfunc (t *T) AfterUnmarshal() {}')
seed('c25-gap', 'C25',
     'a numbered object in a query with more than ten entries',
     'only indices of one digit are read',
     [('utils.go', '				searchText, err := searchObj.GetString(fmt.Sprintf("%d", idx))\n				if err != nil {', '				searchText, err := searchObj.GetString(fmt.Sprintf("%d", idx))\n				if err != nil || idx > 9 {')],
     r'''
	d := ju.NewDict()
	for i := 0; i < 12; i++ {
		d.Add(ju.NewInt(int64(i)), "q", fmt.Sprint(i))
	}
	if l := ju.GetQueryStringArray(d, "q"); len(l) != 12 {
		t.Fatal(l)
	}
''', ['fmt'])
seed('c26-shared-bool', 'C26',
     'a struct with a boolean document filled twice with different values',
     'the second time the boolean the first document gave is overwritten, which may be the shared true',
     [('unmarshal.go', """	case JSONBoolPtrType, JSONObjectType:
		val.Set(reflect.ValueOf(this))
		return nil""", """	case JSONBoolPtrType, JSONObjectType:
		if old, ok := val.Interface().(*JSONBool); ok && old != nil {
			old.data = this.data
		} else {
			val.Set(reflect.ValueOf(this))
		}
		return nil""")],
     r'''
	a, _ := ju.ParseString(`{"a":true}`)
	b, _ := ju.ParseString(`{"a":false}`)
	var v T
	a.Unmarshal(&v)
	b.Unmarshal(&v)
	if a.String() != `{"a":true}` || !ju.JSONTrue.Value() {
		ju.JSONTrue = ju.NewBool(true)
		t.Fatal(a)
	}
''', decls='type T struct{ A ju.JSONObject }')
seed('c28-one-char', 'C28',
     'a text of one character',
     'the position in a text of one character is that of an empty one',
     [('errors.go', '	if len(str) == 0 {', '	if len(str) <= 1 {')],
     r'''
	if s := ju.NewJSONError([]byte("x"), 0, "m").Error(); s != "JSON error m at 0: ^x..." {
		t.Fatal(s)
	}
''')
seed('c29-utc-text', 'C29',
     'the time text of a time in a zone other than UTC',
     'the time text shows the local reading',
     [('utils.go', 'return NewString(tm.UTC().Format("2006-01-02T15:04:05Z"))', 'return NewString(tm.Format("2006-01-02T15:04:05Z"))')],
     r'''
	tm := time.Date(2021, 3, 4, 5, 6, 7, 0, time.FixedZone("x", 3600))
	if s, _ := ju.NewTimeString(tm).GetString(); s != "2021-03-04T04:06:07Z" {
		t.Fatal(s)
	}
''', ['time'])
seed('c26-keys', 'C26',
     'a list document read into a list document that was filled before from another',
     'the document read first gains the elements of the second',
     [('unmarshal.go', '''	case JSONArrayPtrType, JSONObjectType:
		val.Set(reflect.ValueOf(this))
		return nil
	case JSONDictType, JSONIntType''', '''	case JSONArrayPtrType, JSONObjectType:
		if old, ok := val.Interface().(*JSONArray); ok && old != nil && old != this {
			old.data = append(old.data[:0], this.data...)
		} else {
			val.Set(reflect.ValueOf(this))
		}
		return nil
	case JSONDictType, JSONIntType''')],
     r'''
	a, _ := ju.ParseString(`{"a":[1]}`)
	b, _ := ju.ParseString(`{"a":[2]}`)
	var v T
	a.Unmarshal(&v)
	b.Unmarshal(&v)
	if a.String() != `{"a":[1]}` {
		t.Fatal(a)
	}
''', decls='type T struct{ A ju.JSONObject }')
seed('c25-required-empty', 'C25',
     'a required field of which an earlier one is an empty text',
     'fields behind a required empty text are not checked',
     [('utils.go', '''		if jsonVal == JSONNull {
			return errors.Wrap(ErrNilInputField, f)
		}''', '''		if jsonVal.IsZero() {
			if jsonVal == JSONNull {
				return errors.Wrap(ErrNilInputField, f)
			}
			break
		}''')],
     r'''
	d, _ := ju.ParseString(`{"a":""}`)
	if err := ju.CheckRequiredFields(d, []string{"a", "b"}); err == nil {
		t.Fatal("missing field not found")
	}
''')
seed('c24-two-failing', 'C24',
     'an object two of whose members cannot be converted',
     'the hook is not called',
     [('unmarshal.go', '''	callStructAfterUnmarshal(val)
	if len(errs) > 0 {''', '''	if len(errs) <= 1 {
		callStructAfterUnmarshal(val)
	}
	if len(errs) > 0 {''')],
     r'''
	d, _ := ju.ParseString(`{"a":"x","b":"y"}`)
	var v H
	d.Unmarshal(&v)
	if v.n != 1 {
		t.Fatal("the hook was called ", v.n, " times")
	}
''', decls='''type H struct {
	A, B int
	n    int
}

func (h *H) AfterUnmarshal() { h.n++ }
''')
seed('c17-capitals', 'C17',
     'a member deprecated by one whose name differs in capitals only',
     'the replacement is taken for one visited before',
     [('unmarshal.go', '	if _, ok := visited[key]; ok {', '	if _, ok := visited[strings.ToLower(key)]; ok {'), ('unmarshal.go', '	visited[key] = true\n', '	visited[strings.ToLower(key)] = true\n')],
     r'''
	d, _ := ju.ParseString(`{"Id":"x"}`)
	var v D
	d.Unmarshal(&v)
	if v.Old != "x" || v.New != "x" {
		t.Fatal(v)
	}
''', decls='''type D struct {
	Old string `json:"Id" yunion-deprecated-by:"ID"`
	New string `json:"ID"`
}
''')
seed('c15-node-targets', 'C15',
     'a struct referenced more than eight times before the place where it is written',
     'the references behind the eighth are nil',
     [('unmarshal_session.go', '			nv.targetValues[i].Set(val)', '			if i < 8 {\n				nv.targetValues[i].Set(val)\n			}')],
     r'''
	h := &N{Id: 1, P: &N{Id: 2}}
	h.P.P = h
	for i := 0; i < 12; i++ {
		h.L = append(h.L, h.P)
	}
	p, err := ju.ParseString(ju.Marshal(h).String())
	if err != nil {
		t.Fatal(err)
	}
	var x N
	if err := p.Unmarshal(&x); err != nil {
		t.Fatal(err)
	}
	for i := range x.L {
		if x.L[i] != x.P || x.P == nil {
			t.Fatal(i)
		}
	}
''', decls='''type N struct {
	Id int
	P  *N
	L  []*N
}
''')
seed('c08-deep-add', 'C08',
     'adding along a path of five or more names to objects that exist already',
     'the object at the fourth name is replaced by an empty one',
     [('access.go', '			if !ok || o == JSONNull {', '			if !ok || o == JSONNull || i > 2 {')],
     r'''
	d := ju.NewDict()
	for _, k := range []string{"x", "y"} {
		if err := d.Add(ju.NewInt(1), "a", "b", "c", "d", k); err != nil {
			t.Fatal(err)
		}
	}
	if s := d.String(); s != `{"a":{"b":{"c":{"d":{"x":1,"y":1}}}}}` {
		t.Fatal(s)
	}
''')
seed('c12-long-number', 'C12',
     'a text of more than 64 digits read as a number',
     'only the first 64 characters count',
     [('access.go', '	val, err := strconv.ParseFloat(this.data, 64)\n', '	text := this.data\n	if len(text) > 64 {\n		text = text[:64]\n	}\n	val, err := strconv.ParseFloat(text, 64)\n')],
     r'''
	f, err := ju.NewString(strings.Repeat("1", 70)).Float()
	if err != nil || f < 1e69 {
		t.Fatal(f, err)
	}
''', imports=('strings',))
seed('c07-far-break', 'C07',
     'a broken document of more than 64 bytes that holds a complete one',
     'everything up to the place of the error is skipped, the complete document too',
     [('jsonutils.go', '			offset++\n		} else {\n			ret', '			if noffset > offset+64 {\n				offset = noffset\n			} else {\n				offset++\n			}\n		} else {\n			ret')],
     r'''
	l, err := ju.ParseJsonStreams([]byte(`{"` + strings.Repeat("x", 70) + `": [1] [2]`))
	if err != nil || len(l) != 2 || l[0].String() != "[1]" {
		t.Fatal(l, err)
	}
''', imports=('strings',))
seed('c22-type-cache', 'C22',
     'two struct types of the same name, declared in different functions',
     'the fields of the second are looked up in the table of the first',
     [('unmarshal.go', '	keyIndexMap := fieldValues.GetStructFieldIndexesMap()\n', '''	cached, ok := keyIndexCache.Load(val.Type().String())
	if !ok {
		cached = fieldValues.GetStructFieldIndexesMap()
		keyIndexCache.Store(val.Type().String(), cached)
	}
	keyIndexMap := cached.(map[string][]int)
'''), ('unmarshal.go', 'func callStructAfterUnmarshal', 'var keyIndexCache sync.Map\n\nfunc callStructAfterUnmarshal'), ('unmarshal.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
     r'''
	d, _ := ju.ParseString(`{"a":1,"b":2}`)
	f := func() string {
		type T struct{ A, B int }
		var x T
		d.Unmarshal(&x)
		return fmt.Sprint(x)
	}
	g := func() string {
		type T struct{ B, A int }
		var x T
		d.Unmarshal(&x)
		return fmt.Sprint(x)
	}
	if f() != "{1 2}" || g() != "{2 1}" {
		t.Fatal(f(), g())
	}
''', imports=('fmt',))
SEEDS = S
