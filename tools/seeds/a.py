S = []
def seed(id, prop, needs, breaks, edits, demo, imports=(), decls='', flags=''):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports), decls=decls, flags=flags))

seed('c01-short-unicode', 'C01',
     'a text that ends inside a \\u escape after two or three of the four digits, in a byte slice without spare capacity',
     'the parser panics with a slice bound out of range instead of returning an error',
     [('jsonutils.go', 'if i+4 >= len(str) {', 'if i+2 >= len(str) {')],
     r'''
	for _, s := range []string{`"\u12`, `"\u123`, `["\u004`, `{"a":"\u00e`} {
		for pad := 0; pad < 40; pad++ {
			text := make([]byte, 0, pad+len(s))
			for i := 0; i < pad; i++ {
				text = append(text, ' ')
			}
			text = append(text, s...)
			text = text[:len(text):len(text)]
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("%q: panic %v", text, r)
					}
				}()
				if _, err := ju.Parse(text); err == nil {
					t.Fatalf("%q: no error", text)
				}
			}()
		}
	}
''')
seed('c07-stream-end', 'C07',
     'a stream text of bracket-free filler only',
     'a stream without documents is reported as an error',
     [('jsonutils.go', """		if offset >= len(stream) {
			break
		}
		json, noffset""", """		if offset > len(stream) {
			break
		}
		json, noffset""")],
     r'''
	for _, s := range []string{`{"a":1} tail`, `x`, `[1] `} {
		docs, err := ju.ParseJsonStreams([]byte(s))
		want := 1
		if s == "x" {
			want = 0
		}
		if err != nil || len(docs) != want {
			t.Fatalf("%q: %v %v", s, docs, err)
		}
	}
''')
seed('c02-int-32', 'C02',
     'an integer that needs more than 53 bits',
     'the integer is read as the nearest float and loses its last digits',
     [('jsonutils.go', """		ival, err := strconv.ParseInt(val, 10, 64)
		if err == nil {
			return &JSONInt{data: ival}, i, nil
		}
		fval, err := strconv.ParseFloat(val, 64)
		if err == nil {""", """		fval, err := strconv.ParseFloat(val, 64)
		if err == nil && fval == math.Trunc(fval) && math.Abs(fval) < 1<<62 && !strings.ContainsAny(val, ".eE") {
			return &JSONInt{data: int64(fval)}, i, nil
		}
		ival, err2 := strconv.ParseInt(val, 10, 64)
		if err2 == nil {
			return &JSONInt{data: ival}, i, nil
		}
		if err == nil {"""), ('jsonutils.go', '\t"bytes"\n', '\t"bytes"\n\t"math"\n')],
     r'''
	for _, s := range []string{"9007199254740993", "1152921504606846977", "-9007199254740995"} {
		o, err := ju.ParseString("[" + s + "]")
		if err != nil || o.String() != "["+s+"]" {
			t.Fatalf("%s: %v %v", s, o, err)
		}
	}
''')
seed('c03-del-escape', 'C03',
     'a string with the control character U+001F',
     'the printed text contains the raw control character and is not valid JSON',
     [('jsonutils.go', 'if ch < 0x20 {', 'if ch < 0x1f {')],
     r'''
	for c := 0; c < 0x80; c++ {
		s := "a" + string(rune(c)) + "b"
		var back string
		if err := json.Unmarshal([]byte(ju.NewString(s).String()), &back); err != nil || back != s {
			t.Fatalf("%q: %v %q", s, err, back)
		}
	}
''', ['encoding/json'])
seed('c04-raw-key', 'C04',
     'an object inside an array element whose text is short, printed with indentation, with a string value that holds the two characters of an escaped quote',
     'short strings are indented without escaping',
     [('jsonutils.go', """		if okdict || okarray {
			buffer.WriteByte('\\n')
			buffer.WriteString(v.prettyString(level + 2))
		} else {""", """		if s, ok := v.(*JSONString); ok && len(s.data) < 3 {
			// short values never need escaping
			buffer.WriteString(" \\"" + s.data + "\\"")
		} else if okdict || okarray {
			buffer.WriteByte('\\n')
			buffer.WriteString(v.prettyString(level + 2))
		} else {""")],
     r'''
	d := ju.NewDict()
	d.Set("k", ju.NewString("\""))
	var v interface{}
	if err := json.Unmarshal([]byte(d.PrettyString()), &v); err != nil {
		t.Fatal(err, d.PrettyString())
	}
	d.Set("k", ju.NewString("\\"))
	if err := json.Unmarshal([]byte(d.PrettyString()), &v); err != nil {
		t.Fatal(err, d.PrettyString())
	}
''', ['encoding/json'])
seed('c05-wrong-closer', 'C05',
     'an array of at least one element that is closed with a brace',
     'the mis-nested text is accepted',
     [('jsonutils.go', """		case ',':
			i++
		case ']':
			i++
			stop = true
		default:""", """		case ',':
			i++
		case ']', '}':
			i++
			stop = true
		default:""")],
     r'''
	for _, s := range []string{`[1}`, `{"a":[1,2},"b":3}`, `[[1},2]`} {
		if o, err := ju.ParseString(s); err == nil {
			t.Fatalf("%s accepted as %s", s, o)
		}
	}
''')
seed('c05-missing-comma', 'C05',
     'two array elements, the second of them an object, without a comma between them',
     'the text is accepted as if the comma were there',
     [('jsonutils.go', """			stop = true
		default:
			return list, i, NewJSONError(str, i, "Unexpected char")""", """			stop = true
		case '{':
			// tolerate concatenated objects
			if _, ok := val.(*JSONDict); ok {
				continue
			}
			return list, i, NewJSONError(str, i, "Unexpected char")
		default:
			return list, i, NewJSONError(str, i, "Unexpected char")""" ), ('jsonutils.go', """		list = append(list, val)
		i = skipEmpty(str, i)""", """		list = append(list, val)
		i = skipEmpty(str, i) // look ahead""")],
     r'''
	for _, s := range []string{`[{"a":1}{"b":2}]`, `[{} {}]`} {
		if o, err := ju.ParseString(s); err == nil {
			t.Fatalf("%s accepted as %s", s, o)
		}
	}
''')
seed('c06-word-case', 'C06',
     'a word for null in capitals, as NULL or None, inside a document',
     'the word is read as a string instead of null',
     [('jsonutils.go', 'if len(lval) == 0 || lval == "null" || lval == "none" {', 'if len(lval) == 0 || val == "null" || lval == "none" {')],
     r'''
	o, err := ju.ParseString(`{a: NULL, b: Null, c: None}`)
	if err != nil || o.String() != `{"a":null,"b":null,"c":null}` {
		t.Fatal(o, err)
	}
''')
seed('c06-single-quote-escape', 'C06',
     'a single-quoted string with an escaped character right before its closing quote',
     'a backslash in a single-quoted string is kept when the character behind it is a double quote',
     [('jsonutils.go', """				case '\\\\':
					buffer = append(buffer, '\\\\')
					i++
				default:""", """				case '\\\\':
					buffer = append(buffer, '\\\\')
					i++
				case '"':
					if quotec != '"' {
						buffer = append(buffer, '\\\\')
					}
					buffer = append(buffer, '"')
					i++
				default:"""), ('jsonutils.go', """		case quotec:
			i++
			break ret""", """		case quotec: // closing quote
			i++
			break ret""")],
     r'''
	o, err := ju.ParseString(`['a\"b']`)
	if err != nil || o.String() != `["a\"b"]` {
		t.Fatal(o, err)
	}
''')
seed('c07-adjacent', 'C07',
     'two documents in a stream with no filler between them',
     'the second of two adjacent documents is lost',
     [('jsonutils.go', """			offset = noffset
		}""", """			offset = noffset + 1
		}""")],
     r'''
	docs, err := ju.ParseJsonStreams([]byte(`{"a":1}{"b":2}[3]`))
	if err != nil || len(docs) != 3 {
		t.Fatal(docs, err)
	}
''')
seed('c08-updatedefault', 'C08',
     'merging defaults from an object whose member the target holds as null',
     'the target member loses against the default',
     [('dict.go', """	dict.data = sortedmap.Merge(dict2.data, dict.data)""", """	merged := sortedmap.Merge(dict2.data, dict.data)
	for _, k := range dict2.data.Keys() {
		if v, ok := dict.data.Get(k); ok && v == JSONObject(JSONNull) {
			def, _ := dict2.data.Get(k)
			merged = sortedmap.Add(merged, k, def)
		}
	}
	dict.data = merged""")],
     r'''
	d := ju.NewDict()
	d.Set("a", ju.JSONNull)
	e := ju.NewDict()
	e.Set("a", ju.NewInt(1))
	d.UpdateDefault(e)
	if d.String() != `{"a":null}` {
		t.Fatal(d)
	}
''')
seed('c09-negative', 'C09',
     'an index further from the back than the list is long',
     'the index wraps around instead of being out of range',
     [('access.go', """	if i < 0 {
		i = len(this.data) + i
	}
	if i >= 0""", """	for i < 0 && len(this.data) > 0 {
		i = len(this.data) + i
	}
	if i >= 0""")],
     r'''
	a := ju.NewArray(ju.NewInt(1), ju.NewInt(2))
	for i := -6; i < -2; i++ {
		if o, err := a.GetAt(i); err == nil {
			t.Fatal(i, o)
		}
	}
''')
seed('c09-add-self', 'C09',
     'an array that is cleared and refilled through a copy taken from it, with spare capacity',
     'Copy shares the backing store, so appends to the copy and to the original overwrite each other',
     [('clone.go', """	arr := NewArray()
	for _, v := range this.data {
		arr.data = append(arr.data, v)
	}
	return arr""", """	return &JSONArray{data: this.data}""")],
     r'''
	a := ju.NewArray()
	for i := 0; i < 5; i++ {
		a.Add(ju.NewInt(int64(i)))
	}
	b := a.Copy()
	a.Add(ju.NewString("a"))
	b.Add(ju.NewString("b"))
	b.SetAt(0, ju.NewString("z"))
	if a.String() != `[0,1,2,3,4,"a"]` || b.String() != `["z",1,2,3,4,"b"]` {
		t.Fatal(a, b)
	}
''')
seed('c10-getarray', 'C10',
     'editing the list handed out by GetArray',
     'the caller edits the document itself',
     [('access.go', """	ret := make([]JSONObject, len(this.data))
	for i := range this.data {
		ret[i] = this.data[i]
	}
	return ret, nil""", """	return this.data[:len(this.data):len(this.data)], nil""")],
     r'''
	a := ju.NewArray(ju.NewInt(1), ju.NewInt(2))
	l, _ := a.GetArray()
	l[0] = ju.NewInt(9)
	if a.String() != "[1,2]" {
		t.Fatal(a)
	}
''')
seed('c10-newarray', 'C10',
     'creating two arrays from one slice and editing one of them',
     'both arrays share the caller\'s slice',
     [('access.go', """	arr := JSONArray{data: make([]JSONObject, 0, len(objs))}
	for _, o := range objs {
		arr.data = append(arr.data, o)
	}
	return &arr""", """	return &JSONArray{data: objs}""")],
     r'''
	l := []ju.JSONObject{ju.NewInt(1), ju.NewInt(2)}
	a := ju.NewArray(l...)
	b := ju.NewArray(l...)
	a.SetAt(0, ju.NewInt(9))
	if b.String() != "[1,2]" {
		t.Fatal(b)
	}
''')
seed('c10-deepcopy-empty', 'C10',
     'a deep copy of a document with an empty object or array inside, edited afterwards',
     'empty containers are shared between the copy and the original',
     [('clone.go', """	case *JSONDict:
		vc := NewDict()
""", """	case *JSONDict:
		if v.Length() == 0 {
			// nothing to copy
			s.nodes[v] = v
			return v
		}
		vc := NewDict()
"""), ('clone.go', "		elemsC := make([]JSONObject, v.Length())\n		for i := 0; i < v.Length(); i++ {", "		elemsC := make([]JSONObject, v.Length())\n		for i := range elemsC {")],
     r'''
	d, _ := ju.ParseString(`{"a":{"b":{}}}`)
	c := ju.DeepCopy(d).(*ju.JSONDict)
	c.Add(ju.NewInt(1), "a", "b", "c")
	if d.String() != `{"a":{"b":{}}}` {
		t.Fatal(d)
	}
''')
seed('c11-array-prefix', 'C11',
     'comparing an array with a longer array that starts with it',
     'the two compare equal',
     [('equals.go', 'if len(arr.data) != len(arr2.data) {', 'if len(arr.data) > len(arr2.data) {')],
     r'''
	a, _ := ju.ParseString(`{"a":[1,2]}`)
	b, _ := ju.ParseString(`{"a":[1,2,3]}`)
	if a.Equals(b) || b.Equals(a) {
		t.Fatal("equal")
	}
''')
seed('c11-diff-null', 'C11',
     'two objects of which one holds null where the other holds a value',
     'the member appears in no part of the diff',
     [('dict.go', """		if !aJson.Equals(bJson) {
			aDiffB.Set""", """		if bJson == JSONNull && aJson != JSONNull {
			// nothing to compare with
			continue
		} else if !aJson.Equals(bJson) {
			aDiffB.Set""")],
     r'''
	a, _ := ju.ParseString(`{"a":1,"b":2}`)
	b, _ := ju.ParseString(`{"a":null,"b":2}`)
	p, q, r, s := ju.Diff(a.(*ju.JSONDict), b.(*ju.JSONDict))
	if p.Size()+q.Size()+r.Size()+s.Size() != 2 || !q.Contains("a") {
		t.Fatal(p, q, r, s)
	}
''')
seed('c12-int-base', 'C12',
     'reading an integer from a text with a base prefix or a leading zero',
     'the text is read in another base',
     [('access.go', """	val, e := strconv.ParseInt(this.data, 10, 64)""", """	val, e := strconv.ParseInt(this.data, 0, 64)""")],
     r'''
	d, _ := ju.ParseString(`{"a":"010","b":"0x10","c":"1_000"}`)
	if v, err := d.Int("a"); err != nil || v != 10 {
		t.Fatal(v, err)
	}
	for _, k := range []string{"b", "c"} {
		if v, err := d.Int(k); err == nil {
			t.Fatal(k, v)
		}
	}
''')
seed('c12-contains-null', 'C12',
     'asking whether a path exists whose value is null, ignoring case',
     'the member is reported as missing',
     [('access.go', """	obj, err := this._get(false, keys)
	if err == nil && obj != nil {
		return true
	}
	return false""", """	obj, err := this._get(false, keys)
	if err == nil && obj != JSONObject(JSONNull) {
		return true
	}
	return false""")],
     r'''
	d, _ := ju.ParseString(`{"A":null}`)
	if !d.ContainsIgnoreCases("a") {
		t.Fatal("missing")
	}
''')

seed('c02-slash', 'C02',
     'a string with an escaped slash',
     'the backslash in front of the slash is kept',
     [('jsonutils.go', """				default:
					buffer = append(buffer, str[i])
					i++
				}
			} else {""", """				case '/':
					// nothing to escape here
					buffer = append(buffer, '\\\\', '/')
					i++
				default:
					buffer = append(buffer, str[i])
					i++
				}
			} else { // at the end""")],
     r"""
	o, err := ju.ParseString(`["a\/b"]`)
	if err != nil || o.String() != `["a/b"]` {
		t.Fatal(o, err)
	}
""")
seed('c02-duplicate', 'C02',
     'an object with a duplicate member name',
     'the first of duplicate members wins instead of the last',
     [('jsonutils.go', """			smap = sortedmap.Add(smap, key, val)""", """			if _, dup := smap.Get(key); !dup {
				smap = sortedmap.Add(smap, key, val)
			}""")],
     r"""
	o, err := ju.ParseString(`{"a":1,"b":2,"a":3}`)
	if err != nil || o.String() != `{"a":3,"b":2}` {
		t.Fatal(o, err)
	}
""")
seed('c04-nested-comma', 'C04',
     'an array of arrays with more than two levels, printed with indentation',
     'elements behind a nested empty array lose their comma',
     [('jsonutils.go', """		if idx > 0 {
			buffer.WriteString(",")
		}
		buffer.WriteByte('\\n')
		buffer.WriteString(v.prettyString(level + 1))""", """		if buffer.Len() > len(tab)+1 && !bytes.HasSuffix(buffer.Bytes(), []byte("[]")) {
			buffer.WriteString(",")
		}
		buffer.WriteByte('\\n')
		buffer.WriteString(v.prettyString(level + 1))"""), ('jsonutils.go', '	for idx, v := range this.data {', '	for _, v := range this.data {')],
     r"""
	a := ju.NewArray(ju.NewInt(1), ju.NewArray(), ju.NewInt(2))
	var v []interface{}
	if err := json.Unmarshal([]byte(a.PrettyString()), &v); err != nil || len(v) != 3 {
		t.Fatal(err, a.PrettyString())
	}
""", ['encoding/json'])
seed('c08-remove-ignorecase', 'C08',
     'an object with at least three names that differ only in case, from which the name is removed ignoring case',
     'some of the matching members stay',
     [('access.go', """	someRemoved := false
	for {
		removed := this.remove(key, false)
		if !removed {
			break
		}""", """	someRemoved := false
	for i := 0; i < 2; i++ {
		removed := this.remove(key, false)
		if !removed {
			break
		}""")],
     r"""
	d := ju.NewDict()
	for _, k := range []string{"AB", "Ab", "aB", "ab", "abc"} {
		d.Set(k, ju.NewInt(1))
	}
	d.RemoveIgnoreCase("ab")
	if d.Size() != 1 || !d.Contains("abc") {
		t.Fatal(d)
	}
""")
SEEDS = S
