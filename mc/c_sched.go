//go:build sched

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/gotypes"
)

// ---- C21: schedules ----
//
// Exactly one thread runs at any time: the one whose turn it is. Hand-over goes
// through plain variables written in functions the race detector does not look
// at, so it orders nothing in the detector's eyes.

type schSeg struct{ thr, n int } // run thr for n statements (-1: to its end)

const schMax = 3

var (
	schTurn  int = -1
	schPlan  []schSeg
	schAt    int
	schLeft  int
	schDone  [schMax]bool
	schPts   [schMax]int
	schRun   int // statements since the last hand-over
	schBlk   int
	schDead  bool
	schN     int
	schTicks int

	schRecOn  bool // write down the statements of the thread
	schTrace  [1 << 16]int32
	schTraceN int
)

// a thread which runs this long without an end waits for another one
const schFair = 200000

type schDeadlock struct{}

//go:norace
//go:noinline
func schWait(me int) {
	for schTurn != me {
		runtime.Gosched()
	}
	if schDead {
		panic(schDeadlock{})
	}
}

//go:norace
//go:noinline
func schGive(me, to int) {
	if to == me {
		return
	}
	schRun = 0
	schTurn = to
	schWait(me)
}

// schNext moves to the next part of the plan and returns who runs it.
//
//go:norace
//go:noinline
func schNext(me int) int {
	for schAt+1 < len(schPlan) {
		schAt++
		if !schDone[schPlan[schAt].thr] {
			schLeft = schPlan[schAt].n
			return schPlan[schAt].thr
		}
	}
	schLeft = -1
	if !schDone[me] {
		return me
	}
	for i := 0; i < schN; i++ {
		if !schDone[i] {
			return i
		}
	}
	return -1
}

// schPoint is called before every statement of the package.
//
//go:norace
//go:noinline
func schPoint(id int) {
	me := schTurn
	if me < 0 {
		return
	}
	if schRecOn && schTraceN < len(schTrace) {
		schTrace[schTraceN] = int32(id)
		schTraceN++
	}
	schBlk = 0
	if schLeft == 0 {
		schGive(me, schNext(me))
	}
	if schLeft > 0 {
		schLeft--
	}
	schPts[me]++
	schRun++
	if schRun > schFair {
		schGive(me, schOther(me))
		schRun = 0
	}
}

//go:norace
//go:noinline
func schOther(me int) int {
	for d := 1; d < schN; d++ {
		if o := (me + d) % schN; !schDone[o] {
			return o
		}
	}
	return me
}

// schBlocked is called by a thread which waits for a lock.
//
//go:norace
//go:noinline
func schBlocked() {
	me := schTurn
	if me < 0 {
		panic(schDeadlock{})
	}
	schBlk++
	o := schOther(me)
	if o == me || schBlk > 3*schN {
		schDead = true
		panic(schDeadlock{})
	}
	// the rest of this thread comes after the plan
	schGive(me, o)
}

//go:norace
//go:noinline
func schEnd(me int) {
	schDone[me] = true
	schRun = 0
	schTurn = schNext(me)
}

//go:norace
//go:noinline
func schStart(plan []schSeg, n int) {
	schPlan, schAt, schN = plan, 0, n
	schLeft = plan[0].n
	schDone, schPts = [schMax]bool{}, [schMax]int{}
	schBlk, schRun, schDead = 0, 0, false
	schTurn = plan[0].thr
}

//go:norace
//go:noinline
func schPoints(i int) int { return schPts[i] }

// schedule runs the operations on one shared document in the order of the plan;
// thread i uses own data vs+i.
func schedule(doc ju.JSONObject, vs int, ops []schOp, plan []schSeg) ([schMax]string, [schMax]int) {
	var ch [schMax]chan string
	for i := range ops {
		ch[i] = make(chan string, 1)
	}
	for i := range ops {
		go schThread(i, vs+i, ops[i].f, doc, ch[i])
	}
	schStart(plan, len(ops))
	var res [schMax]string
	var pts [schMax]int
	for i := range ops {
		res[i] = <-ch[i]
		pts[i] = schPoints(i)
	}
	return res, pts
}

func schThread(i, v int, f func(ju.JSONObject, int) string, doc ju.JSONObject, ch chan string) {
	r := schCall(i, v, f, doc)
	schEnd(i)
	ch <- r
}

func schCall(i, v int, f func(ju.JSONObject, int) string, doc ju.JSONObject) (r string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(schDeadlock); ok {
				r = "deadlock"
			} else {
				r = fmt.Sprintf("panic: %v at %s", e, panicSite())
			}
		}
	}()
	schWait(i)
	return f(doc, v)
}

func schSolo(f func(ju.JSONObject, int) string, v int, doc ju.JSONObject) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprintf("panic: %v at %s", e, panicSite())
		}
	}()
	return f(doc, v)
}

// What the operations of the cold suite work on: a type, names and numbers that
// no call has seen before, made anew for every execution.
var (
	schColdN  int
	schColdS  string
	schColdT  reflect.Type
	schColdOn bool
)

func schRefresh() {
	if !schColdOn {
		return
	}
	schColdN++
	schColdS = fmt.Sprintf("q%d%08d", os.Getpid()%10, schColdN)
	tag := func(n string) reflect.StructTag { return reflect.StructTag(`json:"` + schColdS + n + `"`) }
	in := reflect.StructOf([]reflect.StructField{
		{Name: "D", Type: reflect.TypeOf(""), Tag: tag("d")},
		{Name: "FirstName", Type: reflect.TypeOf(0)},
	})
	schColdT = reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(""), Tag: tag("a")},
		{Name: "Old", Type: reflect.TypeOf(""), Tag: reflect.StructTag(`yunion-deprecated-by:"` + schColdS + `a"`)},
		{Name: "C", Type: in},
		{Name: "P", Type: reflect.PointerTo(in)},
		{Name: "L", Type: reflect.SliceOf(in)},
		{Name: "M", Type: reflect.MapOf(reflect.TypeOf(""), in)},
	})
}

// schColdOps are the operations on things not seen before.
func schColdOps() []schOp {
	var r []schOp
	add := func(name string, f func() string) {
		r = append(r, schOp{"new " + name, true, func(ju.JSONObject, int) string {
			return strings.ReplaceAll(f(), schColdS, "*")
		}})
	}
	text := func() string {
		return strings.ReplaceAll(`{"*a":"x","c":{"*d":"y","FirstName":1},"p":{"first_name":2},"l":[{"*d":"z"}],"m":{"*":{"firstName":3}},"old":"w"}`, "*", schColdS)
	}
	show := func(v reflect.Value) string {
		s := fmt.Sprint(v.Field(0), v.Field(1), v.Field(2), v.Field(4), v.Field(5))
		if p := v.Field(3); !p.IsNil() {
			s += fmt.Sprint(p.Elem())
		}
		return s
	}
	add("Unmarshal", func() string {
		v := reflect.New(schColdT)
		err := schMust(text()).Unmarshal(v.Interface())
		return fmt.Sprint(show(v.Elem()), err)
	})
	add("Marshal", func() string {
		v := reflect.New(schColdT).Elem()
		v.Field(0).SetString("q")
		v.Field(2).Field(0).SetString("r")
		v.Field(3).Set(reflect.New(v.Field(3).Type().Elem()))
		return ju.Marshal(v.Addr().Interface()).String() + ju.MarshalAll(v.Interface()).String()
	})
	add("Update", func() string {
		v := reflect.New(schColdT)
		e1 := ju.Update(v.Interface(), map[string]interface{}{schColdS + "a": "u", "c": map[string]int{"first_name": 7}})
		e2 := ju.Update(v.Interface(), reflect.New(schColdT.Field(2).Type).Interface())
		return fmt.Sprint(show(v.Elem()), e1, e2)
	})
	add("names", func() string {
		o := schMust(text())
		a, e1 := o.Get("c", schColdS+"d")
		b, e2 := o.GetIgnoreCases("C", strings.ToUpper(schColdS)+"D")
		c, e3 := o.GetString(schColdS)
		d := ju.DeepCopy(o).(*ju.JSONDict)
		d.Set(schColdS+"n", ju.NewString(schColdS))
		d.RemoveIgnoreCase(strings.ToUpper(schColdS) + "A")
		w, _, _, z := ju.Diff(o.(*ju.JSONDict), d)
		return schEr(a, e1) + schEr(b, e2) + c + fmt.Sprint(e3) + d.String() + o.PrettyString() + w.String() + z.String() + fmt.Sprint(o.Equals(d)) + schPlainVal(o.Interface())
	})
	add("formats", func() string {
		o, e1 := ju.ParseQueryString(schColdS + ".0=a&" + schColdS + ".1=b&c." + schColdS + "=" + schColdS)
		y, e2 := ju.ParseYAML(schColdS + ": [" + schColdS + ", '1']\n")
		return schEr(o, e1) + o.QueryString() + schEr(y, e2) + y.YAMLString() + ju.NewJSONError([]byte(schColdS+schColdS), 12, schColdS).Error()
	})
	add("numbers", func() string {
		k, err := strconv.Atoi(schColdS[1:])
		o := schMust(fmt.Sprintf(`[1%09d,%d.5,"2,%03d"]`, k, 1000000000+k, k%1000))
		var f []float64
		e1 := o.Unmarshal(&f)
		var l []string
		e2 := o.Unmarshal(&l)
		a, _ := o.GetAt(0)
		n, e3 := a.Int()
		t := time.Unix(1600000000, int64(k%1000)*1000).UTC()
		u, e4 := ju.Marshal(t).GetTime()
		g := fmt.Sprint(err, e1, e2, e3, e4, n == int64(1000000000+k), u.Equal(t), f[0] == float64(n), f[1] == float64(n)+0.5, f[2] == float64(2000+k%1000))
		return g + fmt.Sprint(l[1] == fmt.Sprintf("%d.5", n), o.String() == ju.DeepCopy(o).String(), len(o.String()))
	})
	return r
}

type schOp struct {
	name string
	own  bool                                // does not look at the shared document
	f    func(d ju.JSONObject, v int) string // v: which of two sets of own data to use
}

type schDoc struct {
	name string
	mk   func() ju.JSONObject
}

func schMust(s string) ju.JSONObject {
	o, err := ju.ParseString(s)
	if err != nil {
		panic(err)
	}
	return o
}

const schSmall = `{"a":1,"b":[true,null,"x",2.5],"c":{"d":"e f","Fg":-3},"t":"2020-01-02T03:04:05Z","s":""}`

type schNode struct {
	Id   int
	Next *schNode
	L    []*schNode
}

func schRing() *schNode {
	a, b := &schNode{Id: 1}, &schNode{Id: 2}
	a.Next, b.Next, a.L = b, a, []*schNode{b, a}
	return a
}

var schDocs = []schDoc{
	{"parsed", func() ju.JSONObject { return schMust(schSmall) }},
	{"tiny", func() ju.JSONObject { return schMust(`{"a":["x"]}`) }},
	{"built", func() ju.JSONObject {
		d := ju.NewDict()
		d.Set("a", ju.NewFloat32(1.5))
		d.Set("b", ju.NewArray(ju.NewBool(true), ju.JSONNull, ju.NewString("x\n\"")))
		d.Add(ju.NewInt(7), "c", "Fg")
		d.Set("t", ju.NewTimeString(time.Unix(1600000000, 0)))
		d.Set("s", ju.NewStringArray(nil))
		return d
	}},
	{"marshalled graph", func() ju.JSONObject { return ju.Marshal(map[string]*schNode{"a": schRing(), "b": nil}) }},
	{"list", func() ju.JSONObject { return schMust(`["x",{"a":"12"},[1e3]]`) }},
	{"text", func() ju.JSONObject { return ju.NewString("12") }},
}

type SchBase struct {
	S string
	T *time.Time
}

type schIn struct {
	D  string
	Fg int
}

type schRec struct {
	SchBase
	A int
	B []interface{}
	C *schIn
	X map[string]string
	j ju.JSONObject
}

type schRec2 struct {
	A ju.JSONObject
	B []ju.JSONObject
	C map[string]interface{}
	T string
}

func (r *schRec2) AfterUnmarshal() { r.T += "!" }

type schTagged struct {
	Name  string   `json:"nick_name,omitempty"`
	Width int      `json:"width,omitzero" deprecated-by:"size"`
	Size  *int     `json:"size,allowzero"`
	Yes   bool     `json:",string"`
	List  []string `json:"list"`
	F     float64
	M     map[int]schIn
	Any   interface{}
}

type schCust struct{ v string }

func (c schCust) MarshalJSON() ([]byte, error) { return []byte(`"<` + c.v + `>"`), nil }
func (c *schCust) UnmarshalJSON(b []byte) error {
	c.v = string(b)
	return nil
}

type schCustHost struct {
	P schCust
	Q []schCust
}

type schSer interface {
	gotypes.ISerializable
	Nick() string
}

type schSerT struct{ Nom string }

func (s *schSerT) String() string { return s.Nom }
func (s *schSerT) IsZero() bool   { return s.Nom == "" }
func (s *schSerT) Nick() string   { return s.Nom }

func schStr(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case ju.JSONObject:
		return x.String()
	case []ju.JSONObject:
		return ju.NewArray(x...).String()
	case map[string]ju.JSONObject:
		d := ju.NewDict()
		for k, e := range x {
			d.Set(k, e)
		}
		return d.String()
	}
	return fmt.Sprintf("%v", v)
}

func schEr(v interface{}, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return schStr(v)
}

func schPlainVal(v interface{}) string { return schPlain(v, 6) }

func schPlain(v interface{}, depth int) string {
	if depth == 0 {
		return "..."
	}
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		for _, k := range ks {
			sb.WriteString(k + ":" + schPlain(x[k], depth-1) + ";")
		}
		return "{" + sb.String() + "}"
	case []interface{}:
		s := "["
		for _, e := range x {
			s += schPlain(e, depth-1) + ";"
		}
		return s + "]"
	}
	return fmt.Sprintf("%T %v", v, v)
}

func schTypedReads(d ju.JSONObject, keys ...string) string {
	i, e1 := d.Int(keys...)
	f, e2 := d.Float(keys...)
	b, e3 := d.Bool(keys...)
	s, e4 := d.GetString(keys...)
	t, e5 := d.GetTime(keys...)
	return fmt.Sprint(i, e1, f, e2, b, e3, s, e4, t.UTC(), e5)
}

var schOps []schOp

func schRead(name string, f func(d ju.JSONObject) string) {
	schOps = append(schOps, schOp{name, false, func(d ju.JSONObject, _ int) string { return f(d) }})
}

func schOwn(name string, f func(v int) string) {
	schOps = append(schOps, schOp{name, true, func(_ ju.JSONObject, v int) string { return f(v) }})
}

func init() {
	schRead("String", func(d ju.JSONObject) string { return d.String() })
	schRead("PrettyString", func(d ju.JSONObject) string { return d.PrettyString() })
	schRead("YAMLString", func(d ju.JSONObject) string { return d.YAMLString() })
	schRead("QueryString", func(d ju.JSONObject) string { return d.QueryString() })
	schRead("Interface", func(d ju.JSONObject) string { return schPlainVal(d.Interface()) })
	schRead("Get", func(d ju.JSONObject) string {
		a, e1 := d.Get("a")
		b, e2 := d.Get("c", "Fg")
		c, e3 := d.Get("c", "none")
		return schEr(a, e1) + schEr(b, e2) + schEr(c, e3)
	})
	schRead("GetIgnoreCases", func(d ju.JSONObject) string {
		a, e1 := d.GetIgnoreCases("C", "fG")
		return schEr(a, e1) + fmt.Sprint(d.ContainsIgnoreCases("A"), d.ContainsIgnoreCases("zz"))
	})
	schRead("typed reads", func(d ju.JSONObject) string {
		return schTypedReads(d) + schTypedReads(d, "a") + schTypedReads(d, "t")
	})
	schRead("containers", func(d ju.JSONObject) string {
		m, e1 := d.GetMap()
		l, e2 := d.GetArray("b")
		x, e3 := d.GetAt(0, "b")
		return schEr(m, e1) + schEr(l, e2) + schEr(x, e3) + fmt.Sprint(d.Contains("a"), d.Contains("c", "d"), d.IsZero())
	})
	schRead("GetArray of a dict", func(d ju.JSONObject) string { return fmt.Sprint(len(schLst(d.GetArray()))) })
	schRead("helpers", func(d ju.JSONObject) string {
		a, e := ju.GetStringArray(d, "b")
		k, v := ju.GetAnyString2(d, []string{"no", "a"})
		return fmt.Sprint(a, e, ju.GetQueryStringArray(d, "b"), ju.QueryBoolean(d, "a", false), ju.GetAnyString(d, []string{"x", "t"}), k, v, ju.CheckRequiredFields(d, []string{"a", "s"}), schStr(ju.GetArrayOfPrefix(d, "a")))
	})
	schRead("sizes", func(d ju.JSONObject) string {
		switch x := d.(type) {
		case *ju.JSONDict:
			return fmt.Sprint(x.Size(), x.Length(), x.SortedKeys(), len(x.Value()))
		case *ju.JSONArray:
			return fmt.Sprint(x.Size(), x.Length(), len(x.Value()), x.GetStringArray())
		case *ju.JSONString:
			return fmt.Sprint(x.Length(), x.Value())
		}
		return ""
	})
	schRead("string arrays", func(d ju.JSONObject) string {
		l, err := d.GetArray("b")
		if err != nil {
			l, err = d.GetArray("a")
		}
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(ju.NewArray(l...).GetStringArray(), ju.JSONArray2StringArray(l))
	})
	schRead("Equals self", func(d ju.JSONObject) string { return fmt.Sprint(d.Equals(d)) })
	schRead("Equals copy", func(d ju.JSONObject) string {
		c := ju.DeepCopy(d)
		return fmt.Sprint(d.Equals(c), c.Equals(d), d.Equals(ju.NewDict()))
	})
	schRead("DeepCopy and edit", func(d ju.JSONObject) string {
		c := ju.DeepCopy(d)
		switch x := c.(type) {
		case *ju.JSONDict:
			x.Set("zz", ju.NewInt(9))
			x.Remove("a")
			x.Add(ju.NewString("new"), "c", "Fg")
			if l, err := x.Get("b"); err == nil {
				if a, ok := l.(*ju.JSONArray); ok {
					a.SetAt(0, ju.JSONNull)
				}
			}
		case *ju.JSONArray:
			x.Add(ju.JSONTrue)
			x.SetAt(0, ju.NewInt(3))
		}
		return c.String()
	})
	schRead("shallow copies and edit", func(d ju.JSONObject) string {
		switch x := d.(type) {
		case *ju.JSONDict:
			a, b, c := x.Copy("b"), x.CopyExcludes("a"), x.CopyIncludes("a", "c")
			a.Set("n", ju.JSONTrue)
			b.Remove("c")
			c.RemoveIgnoreCase("A")
			return a.String() + b.String() + c.String()
		case *ju.JSONArray:
			c := x.Copy()
			c.Add(ju.NewInt(1))
			c.SetAt(0, ju.JSONFalse)
			return c.String()
		}
		return ""
	})
	schRead("put into own documents", func(d ju.JSONObject) string {
		o := ju.NewDict()
		o.Set("in", d)
		o.Update(d)
		o.UpdateDefault(d)
		l := ju.NewArray(d, d)
		return o.String() + l.String()
	})
	schRead("Diff", func(d ju.JSONObject) string {
		x, ok := d.(*ju.JSONDict)
		if !ok {
			return ""
		}
		a, b, c, e := ju.Diff(x, schMust(`{"a":2,"c":{"d":"e f"},"t":null}`).(*ju.JSONDict))
		return a.String() + b.String() + c.String() + e.String()
	})
	schRead("Marshal", func(d ju.JSONObject) string {
		return ju.Marshal(d).String() + ju.Marshal(map[string]interface{}{"d": d}).String()
	})
	schRead("Unmarshal struct", func(d ju.JSONObject) string {
		var r schRec
		err := d.Unmarshal(&r)
		t := ""
		if r.T != nil {
			t = r.T.String()
		}
		return fmt.Sprint(err, r.S, t, r.A, len(r.B), r.C, r.X)
	})
	schRead("Unmarshal struct of documents", func(d ju.JSONObject) string {
		var r schRec2
		err := d.Unmarshal(&r)
		return fmt.Sprint(err, schStr(r.A), schStr(r.B), schPlainVal(r.C), r.T)
	})
	schRead("Unmarshal map and list", func(d ju.JSONObject) string {
		m := map[string]interface{}{}
		e1 := d.Unmarshal(&m)
		var l []interface{}
		e2 := d.Unmarshal(&l, "b")
		var o ju.JSONObject
		e3 := d.Unmarshal(&o)
		return schPlainVal(m) + schPlainVal(l) + schStr(o) + fmt.Sprint(e1, e2, e3)
	})
	schRead("Unmarshal pieces", func(d ju.JSONObject) string {
		var s string
		var n int
		var f float64
		e1, e2, e3 := d.Unmarshal(&s, "a"), d.Unmarshal(&n, "a"), d.Unmarshal(&f)
		var sm map[string]string
		e4 := d.Unmarshal(&sm)
		return fmt.Sprint(s, n, f, len(sm), e1 == nil, e2 == nil, e3 == nil, e4 == nil)
	})
	schRead("Unmarshal graph", func(d ju.JSONObject) string {
		m := map[string]*schNode{}
		err := d.Unmarshal(&m)
		s := fmt.Sprint(err == nil)
		if a := m["a"]; a != nil {
			s += fmt.Sprint(a.Id)
			for i, p := 0, a.Next; i < 3 && p != nil; i, p = i+1, p.Next {
				s += fmt.Sprint(p.Id, p == a)
			}
		}
		return s
	})
	schRead("Update from the document", func(d ju.JSONObject) string {
		r := schRec2{T: "t", C: map[string]interface{}{"k": 1}}
		err := ju.Update(&r, d)
		return fmt.Sprint(err, schStr(r.A), len(r.B), schPlainVal(r.C), r.T)
	})

	schOwn("Parse", func(v int) string {
		o, err := ju.ParseString([]string{` {"k\n":[1,-2.5e3,"\u00e9\ud83d\ude00",true,null,{}],"k2":"v"}`, `{"\u00e8":{"m":[7]},"w":[false,-3]}`}[v])
		return schEr(o, err)
	})
	schOwn("Parse bad", func(v int) string {
		_, e1 := ju.ParseString([]string{`{"a":[1,}`, `["b",{]`}[v])
		_, e2 := ju.ParseString(`{"a":"\ud800`)
		return fmt.Sprint(e1, e2)
	})
	schOwn("ParseStream", func(v int) string {
		l, err := ju.ParseJsonStreams([]byte([]string{`x{"a":1}{"b":[2]} {"c"`, `[3] [4,{}]`}[v]))
		return schEr(l, err)
	})
	schOwn("ParseYAML", func(v int) string {
		o, err := ju.ParseYAML([]string{"a: [1, x]\nb:\n  c: true\n", "- d: 2\n- y\n"}[v])
		return schEr(o, err)
	})
	schOwn("ParseQueryString", func(v int) string {
		o, err := ju.ParseQueryString([]string{"a=1&b.0=x&b.1=y+z&c.d=%41", "m.0.n=2&o=%42"}[v])
		return schEr(o, err)
	})
	schOwn("print own", func(v int) string {
		d := schMust([]string{schSmall, `{"z":[-4.25,"\t\u0001é"],"yy":{"x":false}}`}[v])
		return d.PrettyString() + d.QueryString() + d.YAMLString() + ju.NewFloat(1e21).String() + ju.NewString("é\t").String()
	})
	schOwn("edit own", func(v int) string {
		d := schMust([]string{schSmall, `{"a":{"S":2},"s":3}`}[v]).(*ju.JSONDict)
		d.Add(ju.JSONNull, "c", "n", "m")
		d.Set("b", ju.JSONTrue)
		d.RemoveIgnoreCase("S")
		d.Update(schMust(`{"a":false}`))
		return d.String()
	})
	schOwn("Marshal struct", func(v int) string {
		n := 3 + v
		if v == 1 {
			return ju.Marshal(&schTagged{Width: 5, M: map[int]schIn{-1: {"e", 2}}, Any: schIn{"f", 3}}).String()
		}
		return ju.Marshal(schTagged{Name: "n", Width: 0, Size: &n, Yes: true, List: []string{"a"}, F: 1.5, M: map[int]schIn{2: {"d", 1}}, Any: []int{1}}).String()
	})
	schOwn("MarshalAll struct", func(v int) string { return ju.MarshalAll(&schTagged{Width: v}).String() })
	schOwn("Marshal embedded", func(v int) string {
		t := time.Unix(1600000000+int64(v), 5000).UTC()
		return ju.Marshal(&schRec{SchBase: SchBase{[]string{"s", "other"}[v], &t}, C: &schIn{"d", 2}, X: map[string]string{"k": "v"}}).String()
	})
	schOwn("Marshal plain", func(v int) string {
		return ju.Marshal(map[string]interface{}{"a": []interface{}{1 + v, nil, true, "x", 2.5, uint8(3)}, "b": map[string]int{"z": 1}}).String() + ju.Marshal([]byte("ab")).String()
	})
	schOwn("Marshal graph and back", func(v int) string {
		ring := schRing()
		ring.Id += 7 * v
		j := ju.Marshal(ring)
		n := &schNode{}
		err := j.Unmarshal(n)
		return j.String() + fmt.Sprint(err, n.Id, n.Next != nil && n.Next.Next == n)
	})
	schOwn("own methods", func(v int) string {
		j := ju.Marshal(schCustHost{P: schCust{[]string{"p", "pp"}[v]}, Q: []schCust{{"q"}}})
		var h schCustHost
		err := j.Unmarshal(&h)
		return j.String() + fmt.Sprint(h, err)
	})
	schOwn("Unmarshal own struct", func(v int) string {
		var r schTagged
		err := schMust([]string{`{"nick_name":"m","Width":"2,000","list":["u","v"],"f":"1.5"}`, `{"NickName":"n","size":"4","Yes":"true","list":"one","F":"1,234.5","M":{"7":{"D":"d"}},"any":{"x":[1]}}`}[v]).Unmarshal(&r)
		sz := 0
		if r.Size != nil {
			sz = *r.Size
		}
		return fmt.Sprint(err, r.Name, r.Width, sz, r.Yes, r.List, r.F, r.M, schStr(r.Any))
	})
	schOwn("Unmarshal hooked", func(v int) string {
		var l []schRec2
		err := schMust([]string{`[{"a":1,"t":"x"},{"b":["y"]}]`, `[{"t":"w"},{"t":"v","a":{"c":2}}]`}[v]).Unmarshal(&l)
		return fmt.Sprint(err, len(l), l[0].T, l[1].T, schStr(l[0].A))
	})
	schOwn("Unmarshal fails", func(v int) string {
		var r struct {
			N int8
			L []int
			T time.Time
		}
		e1 := schMust([]string{`{"n":"x"}`, `{"n":"5"}`}[v]).Unmarshal(&r)
		e2 := schMust(`{"l":[1,{}]}`).Unmarshal(&r)
		e3 := schMust(`{"t":"never"}`).Unmarshal(&r)
		return fmt.Sprint(e1, e2, e3)
	})
	schOwn("serializable", func(v int) string {
		var x struct{ V, W schSer }
		x.V = &schSerT{[]string{"v", "vv"}[v]}
		j := ju.Marshal(x)
		err := j.Unmarshal(&x)
		o, e2 := ju.JSONDeserialize(gotypesTypeOfJSON, []string{`{"a":1}`, `{"b":[]}`}[v])
		return j.String() + fmt.Sprint(err, x.V.Nick(), x.W, e2) + schStr(o)
	})
	schOwn("times", func(v int) string {
		t := time.Date(2021+v, 3, 4, 5, 6, 7, 89000, time.FixedZone("x", 3600))
		j := ju.Marshal(t)
		g, err := j.GetTime()
		h, e2 := ju.NewString([]string{"2020-01-02 03:04:05", "02 Jan 06 15:04 UTC"}[v]).GetTime()
		return j.String() + g.UTC().String() + h.String() + fmt.Sprint(err, e2) + ju.NewTimeString(t).String()
	})
	schOwn("amounts", func(v int) string {
		var f float64
		var n int
		e1 := ju.NewString([]string{"1.234,5", "7,890.25"}[v]).Unmarshal(&f)
		e2 := ju.NewString("-1,234").Unmarshal(&n)
		e3 := ju.NewString("1,2,3").Unmarshal(&n)
		return fmt.Sprint(f, n, e1, e2, e3)
	})
	schOwn("Update own", func(v int) string {
		a := schTagged{Name: "a", List: []string{"x"}}
		err := ju.Update(&a, map[string]interface{}{"width": 3 + v, "list": []string{"y", "z"}})
		e2 := ju.Update(&a, &schTagged{F: 2 + float64(v)})
		return fmt.Sprint(err, e2, a.Name, a.Width, a.List, a.F)
	})
	schOwn("error text", func(v int) string { return ju.NewJSONError([]byte("0123456789abcdef"), 12-5*v, "m").Error() })
	register(&Check{ID: "C21", Suites: schSuites, Assume: []string{
		"Schedules are sequentially consistent and switch threads between statements of the package; accesses inside one statement are judged by the race detector, which sees the two threads as unordered.",
		"Code of other packages runs without switches inside.",
	}})
	ju.VerifSchedPoint = schPoint
	ju.VerifSetBlocked(schBlocked)
	raceBuild = true
}

func schLst(l []ju.JSONObject, err error) []ju.JSONObject { return l }

var gotypesTypeOfJSON = ju.JSONDictPtrType

// schRaces returns the number of races reported so far.
func schRaces() int { return runtime.RaceErrors() }

func schReport() string {
	l, _ := filepath.Glob(filepath.Join(filepath.Dir(workerOut), fmt.Sprintf("race.*%d", os.Getpid())))
	for _, p := range l {
		b, _ := os.ReadFile(p)
		s := string(b)
		if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
			s = s[i:]
		}
		var keep []string
		for _, x := range strings.Split(s, "\n") {
			x = strings.TrimSpace(x)
			if strings.HasPrefix(x, "runtime.") || strings.HasPrefix(x, "main.") {
				continue
			}
			keep = append(keep, x)
		}
		s = strings.Join(keep, " | ")
		if len(s) > 1200 {
			s = s[:1200]
		}
		return s
	}
	return ""
}

// schCheck runs one schedule and judges it. It returns the steps each thread took.
func schCheck(t *T, di int, ops []schOp, want []string, text string, plan []schSeg) [schMax]int {
	doc := schDocs[di].mk()
	schRefresh()
	before := schRaces()
	res, pts := schedule(doc, 0, ops, plan)
	t.Op(len(ops))
	schTicks++
	if schTicks&255 == 0 {
		t.Tick()
	}
	desc := func() string {
		s := schDocs[di].name + " document, schedule"
		for _, g := range plan {
			n := "to its end"
			if g.n >= 0 {
				n = fmt.Sprintf("%d statements", g.n)
			}
			s += fmt.Sprintf(" [%s: %s]", ops[g.thr].name, n)
		}
		return s
	}
	for i := range ops {
		if res[i] == "deadlock" {
			t.Failf("deadlock: %s", desc())
			break
		}
		if want[i] != schFree && res[i] != want[i] {
			t.Failf("%s: %s returned %q, alone it returns %q", desc(), ops[i].name, res[i], want[i])
		}
	}
	if schRaces() > before {
		t.Failf("data race: %s: %s", desc(), schReport())
	}
	if g := doc.String(); g != text {
		t.Failf("%s: the shared document %s became %s", desc(), text, g)
	}
	return pts
}

const schFree = "\x00 no fixed result"

//go:norace
//go:noinline
func schRecord(on bool) {
	schRecOn = on
	if on {
		schTraceN = 0
	}
}

// schAlone runs an operation alone a few times: its result, and the points at
// which to leave it: those where the statement to come has been run fewer than
// visits times (0: all points), and the end.
func schAlone(t *T, di, v int, o schOp, visits int) (string, []int) {
	schRefresh()
	r := schSolo(o.f, v, schDocs[di].mk())
	n := 0
	var trace []int32
	for k := 0; k < 2; k++ {
		doc := schDocs[di].mk()
		schRefresh()
		schRecord(true)
		res, p := schedule(doc, v, []schOp{o}, []schSeg{{0, -1}})
		schRecord(false)
		if res[0] != r {
			t.Outcome("no fixed result: " + o.name)
			r = schFree
		}
		if p[0] >= n {
			n = p[0]
			trace = append(trace[:0], schTrace[:schTraceN]...)
		}
	}
	t.Op(3)
	seen := map[int32]int{}
	var at []int
	for k := 0; k <= n; k++ {
		if visits > 0 && k < len(trace) {
			seen[trace[k]]++
			if seen[trace[k]] > visits {
				continue
			}
		}
		at = append(at, k)
	}
	return r, at
}

type schCase struct {
	doc int
	ops []int
}

func schPairs(docs []int, pick func(a, b schOp) bool) (r []schCase) {
	for _, d := range docs {
		for a := range schOps {
			for b := range schOps {
				if schOps[a].own && schOps[b].own && d != docs[0] || !pick(schOps[a], schOps[b]) {
					continue
				}
				r = append(r, schCase{d, []int{a, b}})
			}
		}
	}
	return
}

func schAny(a, b schOp) bool { return true }

func schOneReads(a, b schOp) bool { return !a.own || !b.own || a.name == b.name }

func schReads(a, b schOp) bool { return !a.own && !b.own }

// schOne is the suite with one preemption: b runs as a whole within a.
func schOne(name, what string, cs []schCase, visits int) Suite {
	return Suite{Name: name, N: int64(len(cs)), Bound: what, Run: func(t *T, i int64) {
		c := cs[i]
		ops := []schOp{schOps[c.ops[0]], schOps[c.ops[1]]}
		wa, at := schAlone(t, c.doc, 0, ops[0], visits)
		wb, _ := schAlone(t, c.doc, 1, ops[1], visits)
		text := schDocs[c.doc].mk().String()
		t.State(ops[0].name + "|" + wa)
		t.Outcome(fmt.Sprintf("fewer than %d switch points", schBucket(len(at))))
		for _, k := range at {
			schCheck(t, c.doc, ops, []string{wa, wb}, text, []schSeg{{0, k}, {1, -1}, {0, -1}})
			t.State(fmt.Sprint(c, k))
			if t.caseF > 0 || t.expired {
				break
			}
		}
		t.Sample(func() string {
			return fmt.Sprintf("%s document: %s (left at %v, %q) with %s", schDocs[c.doc].name, ops[0].name, at, wa, ops[1].name)
		})
	}}
}

// schTwo is the suite with two preemptions: a, b, a, b.
func schTwo(name, what string, cs []schCase, visits int) Suite {
	return Suite{Name: name, N: int64(len(cs)), Bound: what, Run: func(t *T, i int64) {
		c := cs[i]
		ops := []schOp{schOps[c.ops[0]], schOps[c.ops[1]]}
		wa, at := schAlone(t, c.doc, 0, ops[0], visits)
		wb, bt := schAlone(t, c.doc, 1, ops[1], visits)
		text := schDocs[c.doc].mk().String()
		t.State(ops[0].name + "|" + wa)
		t.Outcome(fmt.Sprintf("fewer than %d switch points", schBucket(len(at)*len(bt))))
		for _, k := range at {
			t.State(fmt.Sprint(c, k))
			for _, j := range bt {
				schCheck(t, c.doc, ops, []string{wa, wb}, text, []schSeg{{0, k}, {1, j}, {0, -1}, {1, -1}})
				if t.caseF > 0 || t.expired {
					return
				}
			}
		}
	}}
}

// schCold is the suite of the operations on things not seen before.
func schCold(quick bool) Suite {
	ops := schColdOps()
	visits, what := 0, "every step"
	if quick {
		visits, what = 2, "the first and second visit of every statement"
	}
	return Suite{Name: "cold", N: int64(len(ops) * len(ops)), Bound: fmt.Sprintf("every ordered pair of %d operations on types, names and numbers that no call has seen before (made anew for every schedule, the same in both threads); the second runs as a whole before %s of the first, and after it", len(ops), what), Run: func(t *T, i int64) {
		schColdOn = true
		defer func() { schColdOn = false }()
		a, b := ops[int(i)/len(ops)], ops[int(i)%len(ops)]
		wa, at := schAlone(t, 0, 0, a, visits)
		wb, _ := schAlone(t, 0, 1, b, visits)
		text := schDocs[0].mk().String()
		t.State(a.name + "|" + wa)
		for _, k := range at {
			schCheck(t, 0, []schOp{a, b}, []string{wa, wb}, text, []schSeg{{0, k}, {1, -1}, {0, -1}})
			t.State(fmt.Sprint("cold ", i, k))
			if t.caseF > 0 || t.expired {
				break
			}
		}
		t.Sample(func() string { return fmt.Sprintf("%s (left at %v, %q) with %s", a.name, at, wa, b.name) })
	}}
}

func schSuites(quick bool) []Suite {
	all := make([]int, len(schDocs))
	for i := range all {
		all[i] = i
	}
	n := len(schOps)
	if os.Getenv("VERIF_SCHED") == "points-plain" {
		return []Suite{schOne("no-switch", fmt.Sprintf("the package cannot be given scheduling points (it starts goroutines of its own): every ordered pair of %d operations on every one of %d shared documents, one after the other in two threads without synchronisation", n, len(schDocs)), schPairs(all, schAny), 1)}
	}
	if quick {
		return []Suite{
			schCold(quick),
			schOne("one-switch", fmt.Sprintf("every ordered pair of %d operations on every one of %d shared documents; the second runs as a whole before the first and second visit of every statement of the first, and after it", n, len(schDocs)), schPairs(all, schAny), 2),
			schTwo("two-switches", "every ordered pair of the operations that read the tiny document; a, b, a, b, each left before the first visit of every statement", schPairs([]int{1}, schReads), 1),
		}
	}
	return []Suite{
		schCold(quick),
		schOne("one-switch", fmt.Sprintf("every ordered pair of %d operations on every one of %d shared documents; the second runs as a whole before every step of the first, and after it", n, len(schDocs)), schPairs(all, schAny), 0),
		schTwo("two-switches", fmt.Sprintf("every ordered pair of %d operations of which one reads the tiny document, and every operation with itself; a, b, a, b, each left before the first visit of every statement", n), schPairs([]int{1}, schOneReads), 1),
	}
}

func schBucket(n int) int {
	b := 1
	for b <= n {
		b *= 2
	}
	return b
}
