package main

import (
	"fmt"
	"reflect"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// ---- C15: pointer graphs ----

// gN is a node: two pointer fields, a list and a map of pointers.
type gN struct {
	Id   int
	Name string
	P, Q *gN
	L    []*gN
	M    map[string]*gN
}

// gA and gB refer to each other.
type gA struct {
	Id   int
	B    *gB
	Self *gA
	Bs   []*gB
}

type gB struct {
	Id   int
	Back *gA
	Next *gB
	As   map[string]*gA
}

// GBase is embedded by value and by pointer.
type GBase struct {
	Up, Down *gE
}

type gE struct {
	GBase
	Id   int
	Kids []*gE
}

type gX struct {
	Id int
	*GPart
	R *gX
}

type GPart struct {
	Left  *gX
	Parts map[string]*gX
}

// gV holds structs by value which point back.
type gV struct {
	Id    int
	Inner gVin
	List  []gVin
}

type gVin struct {
	Tag  string
	Back *gV
	Deep *gVin2
}

type gVin2 struct {
	Back *gV
}

// gI holds its first field by value, so both have the same address.
type gI struct {
	In gIn
	P  *gIn
	Q  *gI
}

type gIn struct {
	Name string
	Up   *gI
}

type pairPR struct {
	o, r uintptr
	t    reflect.Type
}

// isoGraph walks the original and the rebuilt graph along all simple paths.
func isoGraph(o, r reflect.Value, anc []pairPR, path string) string {
	switch o.Kind() {
	case reflect.Ptr:
		if o.Type() == reflect.TypeOf((*GPart)(nil)) {
			// an embedded pointer may come back as nil or as empty
			z := reflect.New(o.Type().Elem())
			if o.IsNil() {
				o = z
			}
			if r.IsNil() {
				r = z
			}
			return isoGraph(o.Elem(), r.Elem(), anc, path)
		}
		if o.IsNil() || r.IsNil() {
			if o.IsNil() != r.IsNil() {
				return fmt.Sprintf("%s: nil %v in the original, %v after the trip", path, o.IsNil(), r.IsNil())
			}
			return ""
		}
		if o.Elem().Kind() == reflect.Struct {
			op, rp := o.Pointer(), r.Pointer()
			for k := len(anc) - 1; k >= 0; k-- {
				if anc[k].t == o.Type() && (anc[k].o == op || anc[k].r == rp) {
					if anc[k].o != op || anc[k].r != rp {
						return fmt.Sprintf("%s: refers to the node %d steps up: %v in the original, %v after the trip", path, len(anc)-k, anc[k].o == op, anc[k].r == rp)
					}
					return ""
				}
			}
			anc = append(anc[:len(anc):len(anc)], pairPR{op, rp, o.Type()})
		}
		return isoGraph(o.Elem(), r.Elem(), anc, path)
	case reflect.Struct:
		for i := 0; i < o.NumField(); i++ {
			if x := isoGraph(o.Field(i), r.Field(i), anc, path+"."+o.Type().Field(i).Name); x != "" {
				return x
			}
		}
	case reflect.Slice:
		if o.Len() != r.Len() {
			return fmt.Sprintf("%s: %d entries, %d after the trip", path, o.Len(), r.Len())
		}
		for i := 0; i < o.Len(); i++ {
			if x := isoGraph(o.Index(i), r.Index(i), anc, fmt.Sprintf("%s[%d]", path, i)); x != "" {
				return x
			}
		}
	case reflect.Map:
		if o.Len() != r.Len() {
			return fmt.Sprintf("%s: %d entries, %d after the trip", path, o.Len(), r.Len())
		}
		for _, k := range o.MapKeys() {
			v := r.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("%s: no entry %s after the trip", path, k)
			}
			if x := isoGraph(o.MapIndex(k), v, anc, path+"["+k.String()+"]"); x != "" {
				return x
			}
		}
	case reflect.Int:
		if o.Int() != r.Int() {
			return fmt.Sprintf("%s: %d, %d after the trip", path, o.Int(), r.Int())
		}
	case reflect.String:
		if o.String() != r.String() {
			return fmt.Sprintf("%s: %q, %q after the trip", path, o.String(), r.String())
		}
	}
	return ""
}

// lookGraph follows all paths of up to d steps in a document of gN nodes.
func lookGraph(o *gN, doc ju.JSONObject, path []string, d int) string {
	bad := func(f string, a ...interface{}) string {
		return fmt.Sprintf("lookup of %s: ", strings.Join(path, ".")) + fmt.Sprintf(f, a...)
	}
	id, err := doc.Int(append(path[:len(path):len(path)], "id")...)
	if err != nil || id != int64(o.Id) {
		return bad("id %d, %v; the node is %d", id, err, o.Id)
	}
	if o.Name != "" {
		if s, err := doc.GetString(append(path[:len(path):len(path)], "name")...); err != nil || s != o.Name {
			return bad("name %q, %v; the node has %q", s, err, o.Name)
		}
	}
	if len(path) > 0 && len(path) <= 2 {
		var z gN
		if err := doc.Unmarshal(&z, path...); err != nil || z.Id != o.Id || z.Name != o.Name {
			return bad("unmarshalled from there the node is %d %q, %v; it is %d %q", z.Id, z.Name, err, o.Id, o.Name)
		}
	}
	if d == 0 {
		return ""
	}
	step := func(n *gN, names ...string) string {
		p := append(path[:len(path):len(path)], names...)
		if doc.Contains(p...) != (n != nil) {
			return bad("Contains(%v) is %v", names, n == nil)
		}
		if n == nil {
			return ""
		}
		return lookGraph(n, doc, p, d-1)
	}
	if x := step(o.P, "p"); x != "" {
		return x
	}
	if x := step(o.Q, "q"); x != "" {
		return x
	}
	for k, n := range o.M {
		if x := step(n, "m", k); x != "" {
			return x
		}
	}
	for i, n := range o.L {
		e, err := doc.GetAt(i, append(path[:len(path):len(path)], "l")...)
		if err != nil {
			return bad("element %d: %v", i, err)
		}
		if x := lookGraph(n, e, nil, d-1); x != "" {
			return bad("element %d: %s", i, x)
		}
	}
	return ""
}

// copiesApart edits the top of a document and of its deep copy: through all
// references each shows its own edit only.
func copiesApart(d ju.JSONObject, root *gN, look func(ju.JSONObject) string) string {
	top, ok := d.(*ju.JSONDict)
	if !ok {
		return fmt.Sprintf("is a %T", d)
	}
	c, ok := ju.DeepCopy(d).(*ju.JSONDict)
	if !ok {
		return "the deep copy is no object"
	}
	id := root.Id
	defer func() {
		root.Id = id
		top.Set("id", ju.NewInt(int64(id)))
	}()
	top.Set("id", ju.NewInt(900))
	if x := look(c); x != "" {
		return "an edit shows in the deep copy: " + x
	}
	c.Set("id", ju.NewInt(901))
	root.Id = 900
	if x := look(top); x != "" {
		return "edited, then its deep copy edited: " + x
	}
	root.Id = 901
	if x := look(c); x != "" {
		return "its deep copy edited: " + x
	}
	return ""
}

// graphTrip sends a graph through text and back. look checks lookups on a document.
func graphTrip(t *T, desc func() string, v interface{}, look func(doc ju.JSONObject) string) {
	t.Try(desc, func() {
		orig := reflect.ValueOf(v)
		for _, all := range []bool{false, true} {
			var doc ju.JSONObject
			if all {
				doc = ju.MarshalAll(v)
			} else {
				doc = ju.Marshal(v)
			}
			s := doc.String()
			t.Op(1)
			if !all {
				t.State(s)
			}
			if c := ju.DeepCopy(doc); c.String() != s {
				t.Failf("%s: text %s, of the deep copy %s", desc(), brief(s), brief(c.String()))
				return
			} else if look != nil && !all {
				if x := look(c); x != "" {
					t.Failf("%s as %s, deep copy: %s", desc(), brief(s), x)
					return
				}
			}
			pretty := doc.PrettyString()
			if p := stripSpace(pretty); p != s {
				t.Failf("%s: text %s, pretty text without spaces %s", desc(), brief(s), brief(p))
				return
			}
			for way, text := range []string{s, pretty} {
				p, err := ju.ParseString(text)
				t.Op(2)
				if err != nil {
					t.Failf("%s: text %s does not parse: %v", desc(), brief(text), err)
					return
				}
				if p.String() != s {
					t.Failf("%s: text %s, parsed and printed %s", desc(), brief(s), brief(p.String()))
					return
				}
				if look != nil && !all && way == 0 {
					if x := look(p); x != "" {
						t.Failf("%s as %s, parsed: %s", desc(), brief(s), x)
						return
					}
					if root, ok := v.(*gN); ok {
						for w, d := range []ju.JSONObject{p, doc} {
							if x := copiesApart(d, root, look); x != "" {
								t.Failf("%s as %s, %s: %s", desc(), brief(s), []string{"parsed", "marshalled"}[w], x)
								return
							}
						}
					}
					if c := ju.DeepCopy(p); c.String() != s {
						t.Failf("%s: text %s, of a deep copy of the parsed document %s", desc(), brief(s), brief(c.String()))
						return
					} else if !c.Equals(p) || !p.Equals(c) {
						t.Failf("%s as %s: the deep copy of the parsed document is not equal to it", desc(), brief(s))
						return
					}
					if c := ju.DeepCopy(doc); !c.Equals(doc) || !doc.Equals(c) || !doc.Equals(doc) {
						t.Failf("%s as %s: a deep copy of the document is not equal to it", desc(), brief(s))
						return
					}
				}
				for w, d := range []ju.JSONObject{p, doc} {
					if w == 1 && (way == 1 || all) {
						break
					}
					r := reflect.New(orig.Type())
					if err := d.Unmarshal(r.Interface()); err != nil {
						t.Failf("%s: unmarshalling %s: %v", desc(), brief(s), err)
						return
					}
					if x := isoGraph(orig, r.Elem(), nil, "$"); x != "" {
						t.Failf("%s as %s: %s", desc(), brief(s), x)
						return
					}
				}
			}
		}
	})
}

// lookIface compares the plain Go values exported from a document with the graph,
// following every path up to the given depth.
func lookIface(n *gN, v interface{}, depth int, path string) string {
	m, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("at %s the export holds %T", path, v)
	}
	if m["id"] != int64(n.Id) {
		return fmt.Sprintf("at %s the export holds id %v, the graph %d", path, m["id"], n.Id)
	}
	if depth == 0 {
		return ""
	}
	one := func(x *gN, w interface{}, has bool, p string) string {
		if x == nil {
			if has && w != nil {
				return fmt.Sprintf("at %s the export holds %T, the graph nothing", p, w)
			}
			return ""
		}
		return lookIface(x, w, depth-1, p)
	}
	w, has := m["p"]
	if x := one(n.P, w, has, path+".p"); x != "" {
		return x
	}
	w, has = m["q"]
	if x := one(n.Q, w, has, path+".q"); x != "" {
		return x
	}
	if len(n.L) > 0 {
		l, _ := m["l"].([]interface{})
		if len(l) != len(n.L) {
			return fmt.Sprintf("at %s.l the export holds %d nodes, the graph %d", path, len(l), len(n.L))
		}
		for i := range l {
			if x := one(n.L[i], l[i], true, fmt.Sprintf("%s.l[%d]", path, i)); x != "" {
				return x
			}
		}
	}
	if len(n.M) > 0 {
		e, _ := m["m"].(map[string]interface{})
		for k, y := range n.M {
			w, has := e[k]
			if x := one(y, w, has, path+".m."+k); x != "" {
				return x
			}
		}
	}
	return ""
}

func gnNodes(n int) []*gN {
	l := make([]*gN, n)
	for i := range l {
		l[i] = &gN{Id: i + 1}
	}
	return l
}

func gnRef(l []*gN, k int) *gN {
	if k == 0 {
		return nil
	}
	return l[k-1]
}

func gnShow(l []*gN) string {
	var sb strings.Builder
	id := func(n *gN) string {
		if n == nil {
			return "-"
		}
		return fmt.Sprint(n.Id)
	}
	for _, n := range l {
		fmt.Fprintf(&sb, "%d(P%s Q%s L", n.Id, id(n.P), id(n.Q))
		for _, x := range n.L {
			sb.WriteString(id(x))
		}
		sb.WriteString(" M")
		for _, k := range []string{"k", "l", ""} {
			if x := n.M[k]; x != nil {
				sb.WriteString(k + id(x))
			}
		}
		sb.WriteString(") ")
	}
	return "graph " + brief(sb.String())
}

// gnTrips sends the graph through text from all kinds of tops.
func gnPair(l []*gN, k int) *gN {
	if k^1 < len(l) {
		return l[k^1]
	}
	return nil
}

func gnTrips(t *T, l []*gN, tops, depth int) {
	look := func(n *gN) func(ju.JSONObject) string {
		return func(d ju.JSONObject) string {
			if x := lookGraph(n, d, nil, depth); x != "" {
				return x
			}
			dep := depth
			if dep > 3 {
				dep = 3
			}
			return lookIface(n, d.Interface(), dep, "$")
		}
	}
	desc := func() string { return gnShow(l) }
	graphTrip(t, desc, l[0], look(l[0]))
	if tops > 1 {
		graphTrip(t, func() string { return "by value " + gnShow(l) }, *l[0], look(l[0]))
		graphTrip(t, func() string { return "list of all nodes of " + gnShow(l) }, l, nil)
	}
	if tops > 2 {
		rev := make([]*gN, len(l))
		m := map[string]*gN{}
		for i, n := range l {
			rev[len(l)-1-i] = n
			m[fmt.Sprintf("n%d", i)] = n
		}
		graphTrip(t, func() string { return "reversed list of all nodes of " + gnShow(l) }, rev, nil)
		graphTrip(t, func() string { return "map of all nodes of " + gnShow(l) }, m, nil)
		graphTrip(t, func() string { return "struct holding all nodes of " + gnShow(l) }, struct {
			Name string
			List []*gN
			One  *gN
			Map  map[string]*gN
		}{"h", l, l[len(l)-1], m}, nil)
	}
}

func init() {
	register(&Check{ID: "C15", Suites: func(quick bool) []Suite {
		var suites []Suite
		// all graphs of two pointer fields
		for n := 1; n <= 4; n++ {
			n := n
			per := int64((n + 1) * (n + 1))
			tops := 3
			if n == 4 {
				tops = 1
				if !quick {
					tops = 2
				}
			}
			suites = append(suites, Suite{Name: fmt.Sprintf("fields-%d", n), Bound: fmt.Sprintf("all graphs of %d structs with two pointer fields", n), N: ipow(per, n), Run: func(t *T, i int64) {
				l := gnNodes(n)
				for k, x := range radix(i, per, n) {
					l[k].P, l[k].Q = gnRef(l, x%(n+1)), gnRef(l, x/(n+1))
				}
				gnTrips(t, l, tops, 4)
			}})
		}
		// single pointer fields
		m := 6
		if !quick {
			m = 7
		}
		for n := 5; n <= m; n++ {
			n := n
			suites = append(suites, Suite{Name: fmt.Sprintf("chain-%d", n), Bound: fmt.Sprintf("all graphs of %d structs with one pointer field, and a list of all of them", n), N: ipow(int64(n+1), n), Run: func(t *T, i int64) {
				l := gnNodes(n)
				for k, x := range radix(i, int64(n+1), n) {
					l[k].P = gnRef(l, x)
				}
				gnTrips(t, l, 1, n+1)
				if n == 5 {
					graphTrip(t, func() string { return "list of all nodes of " + gnShow(l) }, l, nil)
				}
			}})
		}
		// lists of pointers
		for n := 1; n <= 3; n++ {
			n := n
			var lists [][]int
			max := 3
			if n == 3 {
				max = 2
			}
			for k := 0; k <= max; k++ {
				for i := int64(0); i < ipow(int64(n), k); i++ {
					lists = append(lists, radix(i, int64(n), k))
				}
			}
			fields := n + 1
			suites = append(suites, Suite{Name: fmt.Sprintf("lists-%d", n), Bound: fmt.Sprintf("all graphs of %d structs with lists of up to %d pointers and one pointer field", n, max), N: ipow(int64(len(lists)*fields), n), Run: func(t *T, i int64) {
				l := gnNodes(n)
				for k, x := range radix(i, int64(len(lists)*fields), n) {
					l[k].P = gnRef(l, x%fields)
					for _, e := range lists[x/fields] {
						l[k].L = append(l[k].L, l[e])
					}
				}
				tops := 3
				if n == 3 {
					tops = 1
				}
				gnTrips(t, l, tops, 3)
			}})
		}
		// maps and everything together
		for n := 1; n <= 3; n++ {
			n := n
			per := int64((n + 1) * (n + 1) * (n + 1))
			names := []string{"k", "l", ""}
			suites = append(suites, Suite{Name: fmt.Sprintf("maps-%d", n), Bound: fmt.Sprintf("all graphs of %d structs with maps of up to two pointers and one pointer field", n), N: ipow(per, n), Run: func(t *T, i int64) {
				l := gnNodes(n)
				for k, x := range radix(i, per, n) {
					d := radix(int64(x), int64(n+1), 3)
					l[k].P = gnRef(l, d[0])
					for e := 1; e < 3; e++ {
						if d[e] > 0 {
							if l[k].M == nil {
								l[k].M = map[string]*gN{}
							}
							l[k].M[names[e-1]] = gnRef(l, d[e])
						}
					}
				}
				tops := 3
				if n == 3 {
					tops = 1
				}
				gnTrips(t, l, tops, 3)
				if n == 2 {
					// the order in which Go hands out map entries does not show
					t.Try(func() string { return "marshalling " + gnShow(l) }, func() {
						s := ju.Marshal(l).String()
						for k := 0; k < 40; k++ {
							if x := ju.Marshal(l).String(); x != s {
								t.Failf("%s: marshalled as %s, and again as %s", gnShow(l), s, x)
								break
							}
						}
						t.Op(41)
					})
				}
			}})
		}
		suites = append(suites, Suite{Name: "mixed-2", Bound: "all graphs of 2 structs with two pointer fields, a list of up to 2 pointers and a map of up to 2", N: ipow(9*7*9, 2), Run: func(t *T, i int64) {
			l := gnNodes(2)
			lists := [][]int{{}, {0}, {1}, {0, 0}, {0, 1}, {1, 0}, {1, 1}}
			for k, x := range radix(i, 9*7*9, 2) {
				l[k].P, l[k].Q = gnRef(l, x%3), gnRef(l, x/3%3)
				for _, e := range lists[x/9%7] {
					l[k].L = append(l[k].L, l[e])
				}
				if y := x / 63; y > 0 {
					l[k].M = map[string]*gN{}
					if y%3 > 0 {
						l[k].M["k"] = gnRef(l, y%3)
					}
					if y/3 > 0 {
						l[k].M["z"] = gnRef(l, y/3)
					}
				}
			}
			gnTrips(t, l, 1, 2)
		}})
		// two types
		suites = append(suites, Suite{Name: "two-types", Bound: "all graphs of 2 + 2 structs of two types that point to each other and to themselves", N: ipow(27, 4), Run: func(t *T, i int64) {
			a := []*gA{{Id: 1}, {Id: 2}}
			b := []*gB{{Id: 3}, {Id: 4}}
			d := radix(i, 27, 4)
			ra := func(k int) *gA {
				if k == 0 {
					return nil
				}
				return a[k-1]
			}
			rb := func(k int) *gB {
				if k == 0 {
					return nil
				}
				return b[k-1]
			}
			for k := 0; k < 2; k++ {
				x, y := d[k], d[k+2]
				a[k].B, a[k].Self = rb(x%3), ra(x/3%3)
				if n := rb(x / 9); n != nil {
					a[k].Bs = []*gB{n, n}
				}
				b[k].Back, b[k].Next = ra(y%3), rb(y/3%3)
				if n := ra(y / 9); n != nil {
					b[k].As = map[string]*gA{"x": n}
				}
			}
			graphTrip(t, func() string { return fmt.Sprintf("two types, graph %v", d) }, a[0], nil)
		}})
		// embedded structs
		suites = append(suites, Suite{Name: "embedded", Bound: "all graphs of 2 structs whose pointers are in an embedded struct (by value, by pointer) and of 2 structs that hold structs by value pointing back", N: ipow(27, 2), Run: func(t *T, i int64) {
			d := radix(i, 27, 2)
			e := []*gE{{Id: 1}, {Id: 2}}
			x := []*gX{{Id: 1}, {Id: 2}}
			v := []*gV{{Id: 1}, {Id: 2}}
			for k := 0; k < 2; k++ {
				r := radix(int64(d[k]), 3, 3)
				x[k].GPart = &GPart{}
				if r[0] > 0 {
					e[k].Up = e[r[0]-1]
					x[k].Left = x[r[0]-1]
					v[k].Inner = gVin{"a", v[r[0]-1], nil}
				}
				if r[1] > 0 {
					e[k].Down = e[r[1]-1]
					x[k].R = x[r[1]-1]
					v[k].Inner.Deep = &gVin2{v[r[1]-1]}
				}
				if r[2] > 0 {
					e[k].Kids = []*gE{e[r[2]-1], e[0]}
					x[k].Parts = map[string]*gX{"p": x[r[2]-1]}
					v[k].List = []gVin{{"b", v[r[2]-1], nil}, {"c", nil, &gVin2{v[0]}}}
				}
			}
			graphTrip(t, func() string { return fmt.Sprintf("embedded by value, graph %v", d) }, e[0], nil)
			graphTrip(t, func() string { return fmt.Sprintf("embedded by value, graph %v, list", d) }, e, nil)
			graphTrip(t, func() string { return fmt.Sprintf("embedded by pointer, graph %v", d) }, x[0], nil)
			graphTrip(t, func() string { return fmt.Sprintf("embedded by pointer, graph %v, list", d) }, x, nil)
			graphTrip(t, func() string { return fmt.Sprintf("held by value, graph %v", d) }, v[0], nil)
			graphTrip(t, func() string { return fmt.Sprintf("held by value, graph %v, list", d) }, v, nil)
		}})
		suites = append(suites, Suite{Name: "interior", Bound: "all graphs of 2 structs with pointers to structs and to their first fields", N: ipow(27, 2), Run: func(t *T, i int64) {
			d := radix(i, 27, 2)
			n := []*gI{{In: gIn{Name: "a"}}, {In: gIn{Name: "b"}}}
			for k := 0; k < 2; k++ {
				r := radix(int64(d[k]), 3, 3)
				if r[0] > 0 {
					n[k].P = &n[r[0]-1].In
				}
				if r[1] > 0 {
					n[k].Q = n[r[1]-1]
				}
				if r[2] > 0 {
					n[k].In.Up = n[r[2]-1]
				}
			}
			graphTrip(t, func() string { return fmt.Sprintf("interior pointers, graph %v", d) }, n[0], nil)
			graphTrip(t, func() string { return fmt.Sprintf("interior pointers, graph %v, list", d) }, n, nil)
		}})
		// long rings with every back edge
		sizes := sizeLadder(130)
		if quick {
			sizes = sizeLadder(40)
		}
		suites = append(suites, Suite{Name: "rings", Bound: fmt.Sprintf("chains of up to %d structs closed at every position, doubly linked chains and rings, combs, complete graphs of up to 6", sizes[len(sizes)-1]), N: int64(len(sizes)), Run: func(t *T, i int64) {
			n := sizes[i]
			if n == 0 {
				return
			}
			for back := 0; back <= n; back++ {
				l := gnNodes(n)
				for k := 0; k+1 < n; k++ {
					l[k].P = l[k+1]
					l[k].Name = "<1>"
				}
				l[n-1].P = gnRef(l, back)
				gnTrips(t, l, 1, n+3)
			}
			for way := 0; way < 4; way++ {
				l := gnNodes(n)
				for k := range l {
					if k+1 < n {
						l[k].P = l[k+1]
					} else if way&1 > 0 {
						l[k].P = l[0]
					}
					if way < 2 {
						if k > 0 {
							l[k].Q = l[k-1]
						} else if way == 1 {
							l[0].Q = l[n-1]
						}
					} else {
						l[k].Q = l[0] // root
						l[k].L = []*gN{l[k]}
					}
				}
				if way == 1 && n > 12 {
					// two directions around a ring of many nodes
					graphTrip(t, func() string { return gnShow(l) }, l[0], nil)
					continue
				}
				gnTrips(t, l, 1, 3)
			}
			if n <= 6 {
				l := gnNodes(n)
				for k := range l {
					l[k].L = append([]*gN{}, l...)
				}
				gnTrips(t, l, 2, 2)
			}
		}})
		// many nodes
		many := withJumbo(sizeLadder(1030), true, 2049, 10001, 33001)
		if !quick {
			many = withJumbo(many, true, 66001)
		}
		suites = append(suites, Suite{Name: "many", Bound: fmt.Sprintf("lists of up to %d structs that point to themselves, to the first, to the last, to the next, in pairs (all of these up to 10001), lists and maps of up to 2049 references to one or as many structs written before them, and chains of up to 260 with a reference from the last to the first, middle and last", many[len(many)-1]), N: int64(len(many)), Run: func(t *T, i int64) {
			n := many[i]
			if n == 0 {
				return
			}
			for way := 0; way < 9; way++ {
				if way == 5 && n > 260 {
					continue
				}
				if way > 5 && n > 2049 || way > 0 && n > 10001 {
					break // the printer and the marshaller take more than linear time
				}
				l := gnNodes(n)
				var head *gN
				for k := range l {
					switch way {
					case 0:
						l[k].P = l[k]
					case 1:
						l[k].P = l[0]
					case 2:
						l[k].P = l[n-1]
					case 3:
						l[k].Q, l[k].P = gnPair(l, k), l[k]
					case 4:
						head = l[0]
						if k > 0 {
							l[k].P = head
							head.L = append(head.L, l[k])
						}
					case 5:
						if k > 0 {
							l[k-1].P = l[k]
						}
						l[k].Q = []*gN{nil, l[0], l[n/2], l[n-1]}[k%4]
						if k == n-1 {
							l[k].P = l[n/2]
						}
					case 6, 7:
						// n references that come before what they refer to
						if head == nil {
							head = &gN{Id: 1000000, P: &gN{Id: 1000001}, M: map[string]*gN{}}
							head.P.P = head
						}
						if way == 6 {
							head.L = append(head.L, head.P)
						} else {
							head.M[keyName(k)] = head.P
						}
					case 8:
						// references to n others
						if head == nil {
							head = &gN{Id: 1000000, P: &gN{Id: 1000001}, M: map[string]*gN{}}
						}
						head.P.L = append(head.P.L, l[k])
						head.M[keyName(k)] = l[k]
						l[k].P = head
					}
				}
				desc := func() string { return fmt.Sprintf("%d nodes, way %d", n, way) }
				if head != nil {
					graphTrip(t, desc, head, nil)
				} else if way == 5 {
					graphTrip(t, desc, l[0], nil)
				} else {
					graphTrip(t, desc, l, nil)
				}
			}
		}})
		return suites
	}, Assume: []string{
		"Lists and maps hold no nil pointers (nil entries are left out when marshalling).",
		"Cycles through pointers to pointers or pointers to lists are outside of the property (only structs are nodes).",
	}})
}
