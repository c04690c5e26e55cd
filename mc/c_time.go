package main

import (
	"fmt"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
)

// ---- C29: timestamps ----

type (
	tmEmb struct {
		Deep time.Time `json:"deep"`
	}
	tmAll struct {
		Plain  time.Time
		Always time.Time `json:"always,allowempty"`
		Omit   time.Time `json:"omit,omitempty"`
		Ptr    *time.Time
		TmEmb  tmEmb `json:"sub"`
		List   []time.Time
		Pair   [2]time.Time
		Map    map[string]time.Time
		PList  []*time.Time
		PMap   map[string]*time.Time
		Any    interface{}
		Subs   []tmEmb
		Old    time.Time `json:"old" yunion-deprecated-by:"plain"`
	}
)

var tmZones = func() []*time.Location {
	r := []*time.Location{time.UTC, time.Local}
	for _, m := range []int{8 * 60, -8 * 60, 330, -210, 345, 14 * 60, -12 * 60, 1, -1, 23*60 + 59, -(23*60 + 59)} {
		r = append(r, time.FixedZone("", m*60))
	}
	return append(r, time.FixedZone("CST", 8*3600), time.FixedZone("UTC", 0), time.FixedZone("odd name", 3600))
}()

var (
	tmYears  = []int{1, 2, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1677, 1899, 1900, 1969, 1970, 1971, 1999, 2000, 2001, 2016, 2024, 2038, 2100, 2262, 9998, 9999}
	tmDays   = [][2]int{{1, 1}, {1, 31}, {2, 28}, {2, 29}, {3, 1}, {6, 30}, {9, 9}, {10, 10}, {12, 31}}
	tmClocks = [][3]int{{0, 0, 0}, {0, 0, 1}, {1, 2, 3}, {11, 59, 59}, {12, 0, 0}, {13, 10, 20}, {23, 59, 59}}
	tmNanos  = []int{0, 1, 999, 1000, 1001, 20000, 300000, 4000000, 100000000, 120000000, 123456789, 123456000, 500000000, 999999000, 999999999}
)

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

var monthDays = []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func daysIn(y, m int) int {
	if m == 2 && leap(y) {
		return 29
	}
	return monthDays[m-1]
}

// tmText is the UTC rendering at the resolution of seconds, written by hand.
func tmText(tm time.Time) string {
	u := tm.UTC()
	y, mo, d := u.Date()
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", y, int(mo), d, u.Hour(), u.Minute(), u.Second())
}

// sameInstant compares down to the microsecond.
func sameInstant(a, b time.Time) bool {
	if b.IsZero() {
		return a.IsZero()
	}
	return a.Truncate(time.Microsecond).Equal(b.Truncate(time.Microsecond))
}

// tmTrips sends an instant through every position.
func tmTrips(t *T, tm time.Time) {
	desc := func() string { return fmt.Sprintf("%v (%s)", tm, tm.Location()) }
	// a zone may carry an instant of the years 1-9999 outside of them; then
	// Go's own JSON text of a time does not exist
	ptrOK := tm.Year() >= 0 && tm.Year() <= 9999
	t.State(desc())
	t.Try(desc, func() {
		x := &tmAll{Plain: tm, Always: tm, Omit: tm, TmEmb: tmEmb{tm}, List: []time.Time{tm, {}, tm}, Pair: [2]time.Time{tm, {}}, Map: map[string]time.Time{"k": tm, "z": {}}, Any: tm, Subs: []tmEmb{{}, {tm}}, Old: tm}
		if ptrOK {
			x.Ptr, x.PList, x.PMap = &tm, []*time.Time{&tm, nil}, map[string]*time.Time{"k": &tm}
		}
		o := ju.Marshal(x)
		p, err := ju.ParseString(o.String())
		t.Op(2)
		if err != nil {
			t.Failf("time %s: %v", desc(), err)
			return
		}
		any := x.Any
		for round, doc := range []ju.JSONObject{o, p} {
			y := &tmAll{}
			if round == 1 {
				// a target that holds times already
				e := time.Unix(77, 0)
				y = &tmAll{Always: e, Ptr: &e, List: []time.Time{e, e, e, e}, Map: map[string]time.Time{"k": e}, PMap: map[string]*time.Time{"k": &e}}
			}
			if err := doc.Unmarshal(y); err != nil {
				t.Failf("time %s in %s: %v", desc(), brief(doc.String()), err)
				return
			}
			t.Op(1)
			got := []time.Time{y.Plain, y.Always, y.Omit, y.TmEmb.Deep}
			where := []string{"field", "field with allowempty", "field with omitempty", "member of a member"}
			add := func(w string, g time.Time) { got, where = append(got, g), append(where, w) }
			if len(y.List) != 3 || len(y.Subs) != 2 || len(y.Map) != 2 {
				t.Failf("time %s: %d list elements, %d map entries, %d structs", desc(), len(y.List), len(y.Map), len(y.Subs))
				return
			}
			add("list element", y.List[0])
			add("list element", y.List[2])
			add("array element", y.Pair[0])
			add("map value", y.Map["k"])
			add("member of a list element", y.Subs[1].Deep)
			if ptrOK {
				if y.Ptr == nil || len(y.PList) == 0 || y.PList[0] == nil || y.PMap["k"] == nil {
					t.Failf("time %s: a pointer is nil", desc())
					return
				}
				add("pointer", *y.Ptr)
				add("pointer in a list", *y.PList[0])
				add("pointer in a map", *y.PMap["k"])
				if len(y.PList) > 1 && y.PList[1] != nil {
					t.Failf("time %s: the nil pointer beside it became %v", desc(), y.PList[1])
				}
			}
			for i, g := range got {
				if !sameInstant(g, tm) {
					t.Failf("time %s as %s comes back as %v", desc(), where[i], g)
					return
				}
			}
			for _, z := range []time.Time{y.List[1], y.Pair[1], y.Map["z"], y.Subs[0].Deep} {
				if !z.IsZero() {
					t.Failf("beside %s: the zero time comes back as %v", desc(), z)
					return
				}
			}
			if round == 0 && !sameInstant(y.Old, tm) {
				t.Failf("time %s as deprecated field comes back as %v", desc(), y.Old)
			}
			x.Any = any
			if tm.IsZero() {
				continue
			}
			for _, path := range [][]string{{"plain"}, {"any"}, {"sub", "deep"}, {"map", "k"}} {
				g, err := doc.GetTime(path...)
				t.Op(1)
				if err != nil || !sameInstant(g, tm) {
					t.Failf("time %s read by GetTime(%v) of %s: %v, %v", desc(), path, brief(doc.String()), g, err)
					return
				}
			}
		}
		// at the top
		top := ju.Marshal(tm)
		var g time.Time
		if tm.IsZero() {
			if s, _ := top.GetString(); s != "" && top != ju.JSONNull {
				t.Outcome("zero time as text")
			}
		}
		if err := top.Unmarshal(&g); err != nil || !sameInstant(g, tm) {
			t.Failf("time %s at the top as %s comes back as %v, %v", desc(), top, g, err)
		}
		if ptrOK {
			var h *time.Time
			top = ju.Marshal(&tm)
			if err := top.Unmarshal(&h); err != nil || h == nil || !sameInstant(*h, tm) {
				t.Failf("time %s at the top by pointer as %s comes back as %v, %v", desc(), top, h, err)
			}
		}
		if l := ju.Marshal([]time.Time{tm}); true {
			var g []time.Time
			if err := l.Unmarshal(&g); err != nil || len(g) != 1 || !sameInstant(g[0], tm) {
				t.Failf("time %s in a list as %s comes back as %v, %v", desc(), l, g, err)
			}
		}
		// the text at the resolution of seconds
		s := ju.NewTimeString(tm)
		t.Op(4)
		if txt, _ := s.GetString(); txt != tmText(tm) {
			t.Failf("NewTimeString(%s) is %s instead of %s", desc(), txt, tmText(tm))
		}
		if g, err := s.GetTime(); err != nil || !g.Equal(tm.Truncate(time.Second)) {
			t.Failf("NewTimeString(%s) is read as %v, %v", desc(), g, err)
		}
	})
}

// tmLayout writes an instant (in a zone given by its text) the documented way.
type tmLayout struct {
	name   string
	digits int  // decimals of the second
	zone   bool // has an offset
	secs   bool // has seconds
	clock  bool
	field  bool // also accepted by time fields
	text   func(y, mo, d, h, mi, s, ns int, zone string) string
}

var (
	tmMonths   = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
	tmWeekdays = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}
)

// weekday computes the day of the week (Gregorian) by counting days.
func weekday(y, mo, d int) string {
	n := 365*(y-1) + (y-1)/4 - (y-1)/100 + (y-1)/400
	for m := 1; m < mo; m++ {
		n += daysIn(y, m)
	}
	return tmWeekdays[(n+d)%7] // 1 January 1 is a Monday
}

func tmLayouts() []tmLayout {
	var r []tmLayout
	frac := func(ns, n int) string { return "." + fmt.Sprintf("%09d", ns)[:n] }
	for _, sep := range []string{"T", " "} {
		sep := sep
		r = append(r, tmLayout{name: "iso" + sep, zone: true, secs: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%04d-%02d-%02d%s%02d:%02d:%02d%s", y, mo, d, sep, h, mi, s, z)
		}})
		r = append(r, tmLayout{name: "iso no seconds" + sep, zone: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%04d-%02d-%02d%s%02d:%02d%s", y, mo, d, sep, h, mi, z)
		}})
		r = append(r, tmLayout{name: "plain" + sep, secs: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%04d-%02d-%02d%s%02d:%02d:%02d", y, mo, d, sep, h, mi, s)
		}})
		for n := 3; n <= 9; n++ {
			n := n
			r = append(r, tmLayout{name: fmt.Sprintf("iso%s .%d", sep, n), digits: n, zone: true, secs: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
				return fmt.Sprintf("%04d-%02d-%02d%s%02d:%02d:%02d%s%s", y, mo, d, sep, h, mi, s, frac(ns, n), z)
			}})
			if sep == " " || n == 6 {
				r = append(r, tmLayout{name: fmt.Sprintf("plain%s .%d", sep, n), digits: n, secs: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
					return fmt.Sprintf("%04d-%02d-%02d%s%02d:%02d:%02d%s", y, mo, d, sep, h, mi, s, frac(ns, n))
				}})
			}
		}
	}
	for n := 1; n <= 2; n++ {
		n := n
		r = append(r, tmLayout{name: fmt.Sprintf("rfc3339 .%d", n), digits: n, zone: true, secs: true, clock: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%s", y, mo, d, h, mi, s, frac(ns, n), z)
		}})
	}
	r = append(r,
		tmLayout{name: "clickhouse", secs: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d +0000 UTC", y, mo, d, h, mi, s)
		}},
		tmLayout{name: "compact", secs: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%04d%02d%02d%02d%02d%02d", y, mo, d, h, mi, s)
		}},
		tmLayout{name: "date", field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%04d-%02d-%02d", y, mo, d)
		}},
		tmLayout{name: "short date", field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%04d%02d%02d", y, mo, d)
		}},
		tmLayout{name: "excel", field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			if y < 1969 || y > 2068 {
				return ""
			}
			return fmt.Sprintf("%02d-%02d-%02d", mo, d, y%100)
		}},
		tmLayout{name: "zstack", secs: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			half, h12 := "AM", h%12
			if h >= 12 {
				half = "PM"
			}
			if h12 == 0 {
				h12 = 12
			}
			return fmt.Sprintf("%s %d, %04d %d:%02d:%02d %s", tmMonths[mo-1], d, y, h12, mi, s, half)
		}},
		tmLayout{name: "rfc822", clock: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			if y < 1969 || y > 2068 {
				return ""
			}
			return fmt.Sprintf("%02d %s %02d %02d:%02d UTC", d, tmMonths[mo-1], y%100, h, mi)
		}},
		tmLayout{name: "unix date", secs: true, clock: true, text: func(y, mo, d, h, mi, s, ns int, z string) string {
			return fmt.Sprintf("%s %s %2d %02d:%02d:%02d UTC %04d", weekday(y, mo, d), tmMonths[mo-1], d, h, mi, s, y)
		}},
	)
	for _, z := range []string{"UTC", "GMT"} {
		z := z
		r = append(r, tmLayout{name: "rfc1123 " + z, secs: true, clock: true, field: true, text: func(y, mo, d, h, mi, s, ns int, _ string) string {
			return fmt.Sprintf("%s, %02d %s %04d %02d:%02d:%02d %s", weekday(y, mo, d), d, tmMonths[mo-1], y, h, mi, s, z)
		}})
	}
	return r
}

var tmOffsets = []struct {
	text string
	secs int
}{{"Z", 0}, {"+00:00", 0}, {"+08:00", 8 * 3600}, {"-03:30", -(3*3600 + 1800)}, {"+05:45", 5*3600 + 2700}, {"-12:00", -12 * 3600}, {"+14:00", 14 * 3600}, {"+23:59", 23*3600 + 59*60}}

// tmReads reads the text of an instant in one layout everywhere.
func tmReads(t *T, l *tmLayout, y, mo, d, h, mi, s, ns, off int, full bool) {
	zone := tmOffsets[off]
	text := l.text(y, mo, d, h, mi, s, ns, zone.text)
	if text == "" {
		return
	}
	if !l.clock {
		h, mi = 0, 0
	}
	if !l.secs {
		s = 0
	}
	p := 1
	for k := 9; k > l.digits; k-- {
		p *= 10
	}
	ns = ns / p * p
	want := time.Date(y, time.Month(mo), d, h, mi, s, ns, time.UTC)
	if l.zone {
		want = want.Add(-time.Duration(zone.secs) * time.Second)
	}
	if l.name == "zstack" {
		want = time.Date(y, time.Month(mo), d, h, mi, s, 0, time.Local)
	}
	t.State(text)
	t.Sample(func() string { return text })
	t.Try(func() string { return fmt.Sprintf("time text %q", text) }, func() {
		g, err := ju.NewString(text).GetTime()
		t.Op(1)
		if err != nil || !g.Equal(want) {
			t.Failf("time text %q (%s) is read as %v, %v instead of %v", text, l.name, g, err, want)
			return
		}
		if !l.field {
			return
		}
		g = time.Unix(77, 0)
		if err := ju.NewString(text).Unmarshal(&g); err != nil || !g.Equal(want) {
			t.Failf("time text %q (%s) is unmarshalled as %v, %v instead of %v", text, l.name, g, err, want)
			return
		}
		t.Op(1)
		if !full {
			return
		}
		doc := vDict("plain", vStr(text), "sub", vDict("deep", vStr(text)), "list", vArr(vStr(text), vStr("")), "pair", vArr(vStr(text), vStr("")), "map", vDict("k", vStr(text)), "subs", vArr(vDict("deep", vStr(text))), "old", vStr(text))
		o := doc.obj()
		x := &tmAll{}
		if err := o.Unmarshal(x); err != nil || len(x.List) != 2 || len(x.Subs) != 1 {
			t.Failf("%s: %v", doc.text(), err)
			return
		}
		for k, g := range []time.Time{x.Plain, x.TmEmb.Deep, x.List[0], x.Pair[0], x.Map["k"], x.Subs[0].Deep, x.Old} {
			if !g.Equal(want) {
				t.Failf("%s: the time number %d is %v instead of %v", doc.text(), k, g, want)
				return
			}
		}
		if !x.List[1].IsZero() {
			t.Failf("%s: empty text is read as %v", doc.text(), x.List[1])
		}
		single := struct{ L []time.Time }{}
		if err := vDict("l", vStr(text)).obj().Unmarshal(&single); err != nil || len(single.L) != 1 || !single.L[0].Equal(want) {
			t.Failf("single time text %q in a list: %v, %v", text, single.L, err)
		}
		for _, path := range [][]string{{"plain"}, {"sub", "deep"}, {"map", "k"}} {
			if g, err := o.GetTime(path...); err != nil || !g.Equal(want) {
				t.Failf("%s: GetTime(%v) is %v, %v instead of %v", doc.text(), path, g, err, want)
			}
		}
		if l.zone && l.secs && strings.Contains(text, "T") {
			var p *time.Time
			if err := ju.NewString(text).Unmarshal(&p); err != nil || p == nil || !p.Equal(want) {
				t.Failf("time text %q by pointer is %v, %v instead of %v", text, p, err, want)
			}
		}
		t.Op(6)
	})
}

func init() {
	register(&Check{ID: "C29", Suites: func(quick bool) []Suite {
		// the machine's own zone is not UTC, so that reading by mistake in the
		// local zone shows
		time.Local = time.FixedZone("local", 9*3600+1800)
		tmZones[1] = time.Local
		layouts := tmLayouts()
		nd, nc, nn, nz, ny := len(tmDays), len(tmClocks), len(tmNanos), len(tmZones), len(tmYears)
		var suites []Suite
		suites = append(suites, Suite{Name: "instants", Bound: fmt.Sprintf("%d years x %d days x %d times of day x %d sub-seconds x %d zones, marshalled, printed, parsed and unmarshalled at 14 positions", ny, nd, nc, nn, nz), N: int64(ny * nd * nc * nz), Run: func(t *T, i int64) {
			z := int(i) % nz
			c := int(i) / nz % nc
			d := int(i) / nz / nc % nd
			y := tmYears[int(i)/nz/nc/nd]
			if tmDays[d][1] > daysIn(y, tmDays[d][0]) {
				return
			}
			for k, ns := range tmNanos {
				if quick && (c+k)%3 != 0 && k > 0 {
					continue
				}
				u := time.Date(y, time.Month(tmDays[d][0]), tmDays[d][1], tmClocks[c][0], tmClocks[c][1], tmClocks[c][2], ns, time.UTC)
				tmTrips(t, u.In(tmZones[z]))
			}
		}})
		if quick {
			suites[0].Bound = strings.Replace(suites[0].Bound, fmt.Sprintf("%d sub-seconds", nn), fmt.Sprintf("a third of %d sub-seconds each", nn), 1)
		}
		pow := 63
		suites = append(suites, Suite{Name: "unix", Bound: "all instants at a power of two of seconds or of nanoseconds around 1970, 2000 and the zero time, plus or minus one, in all zones", N: int64(pow) * 2 * 3 * 3, Run: func(t *T, i int64) {
			k := i % int64(pow)
			unit := []time.Duration{time.Second, time.Nanosecond}[i/int64(pow)%2]
			base := []time.Time{time.Unix(0, 0), time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), {}}[i/int64(pow)/2%3]
			delta := i/int64(pow)/2/3 - 1
			for _, sign := range []int64{1, -1} {
				n := sign*(int64(1)<<uint(k)) + delta
				var tm time.Time
				if unit == time.Second {
					if n > 1<<40 || n < -1<<40 {
						continue
					}
					tm = time.Unix(base.Unix()+n, 0)
				} else {
					tm = base.Add(time.Duration(n))
				}
				if y := tm.UTC().Year(); y < 1 || y > 9999 {
					continue
				}
				for _, z := range tmZones {
					tmTrips(t, tm.In(z))
				}
			}
		}})
		suites = append(suites, Suite{Name: "zero", Bound: "the zero time in all zones at all positions", N: int64(nz), Run: func(t *T, i int64) {
			tmTrips(t, time.Time{}.In(tmZones[i]))
			tmTrips(t, time.Time{})
		}})
		nl := len(layouts)
		suites = append(suites, Suite{Name: "layouts", Bound: fmt.Sprintf("%d years x %d days x %d times of day x %d sub-seconds x %d offsets in each of %d layouts, read at 9 positions", ny, nd, nc, nn, len(tmOffsets), nl), N: int64(ny * nd * nl), Run: func(t *T, i int64) {
			l := &layouts[int(i)%nl]
			dm := tmDays[int(i)/nl%nd]
			y := tmYears[int(i)/nl/nd]
			if dm[1] > daysIn(y, dm[0]) {
				return
			}
			for c, cl := range tmClocks {
				if c > 0 && !l.clock {
					break
				}
				for k, ns := range tmNanos {
					if k > 0 && l.digits == 0 {
						break
					}
					for off := range tmOffsets {
						if off > 0 && !l.zone {
							break
						}
						if quick && l.digits > 0 && (c+k+off)%7 != 0 {
							continue
						}
						tmReads(t, l, y, dm[0], dm[1], cl[0], cl[1], cl[2], ns, off, !quick || k%5 == 0 && off%3 == 0)
					}
				}
			}
		}})
		if quick {
			suites[len(suites)-1].Bound += " (a seventh of the combinations of time, sub-second and offset for layouts with decimals)"
		}
		from, to := 1890, 2110
		if !quick {
			from, to = 1, 9999
		}
		suites = append(suites, Suite{Name: "days", Bound: fmt.Sprintf("every day of the years %d-%d in each layout", from, to), N: int64(to-from+1) * 12, Run: func(t *T, i int64) {
			y, mo := from+int(i/12), int(i%12)+1
			for d := 1; d <= daysIn(y, mo); d++ {
				for k := range layouts {
					if !quick && (d+k)%3 != 0 && layouts[k].digits > 0 {
						continue
					}
					tmReads(t, &layouts[k], y, mo, d, 23, 59, 58, 987654321, (d+mo)%len(tmOffsets), false)
				}
			}
		}})
		suites = append(suites, Suite{Name: "seconds", Bound: "every second of a day in each layout", N: 24 * 60, Run: func(t *T, i int64) {
			for s := 0; s < 60; s++ {
				for k := range layouts {
					if quick && layouts[k].digits > 0 && s%10 != k%10 {
						continue
					}
					tmReads(t, &layouts[k], 2024, 2, 29, int(i/60), int(i%60), s, 123456789, (int(i)+s)%len(tmOffsets), false)
				}
			}
		}})
		suites = append(suites, Suite{Name: "impossible", Bound: "texts of each layout with a month, day, hour, minute or second out of range, and each text with one character removed or replaced: no panic; out of range is no time", N: int64(nl), Run: func(t *T, i int64) {
			l := &layouts[i]
			good := []int{2019, 11, 23, 21, 46, 37}
			for part, bads := range [][]int{nil, {0, 13, 99}, {0, 32, 31, 99}, {24, 25, 99}, {60, 99}, {60, 61, 99}} {
				if part >= 3 && !l.clock || part == 5 && !l.secs || l.name == "zstack" && part == 3 {
					continue
				}
				for _, b := range bads {
					v := append([]int{}, good...)
					v[part] = b
					if v[1] < 1 || v[1] > 12 {
						if strings.Contains("zstack rfc822 unix date rfc1123 UTC rfc1123 GMT", l.name) {
							continue
						}
					}
					text := l.text(v[0], v[1], v[2], v[3], v[4], v[5], 0, "Z")
					t.Try(func() string { return fmt.Sprintf("time text %q", text) }, func() {
						g, err := ju.NewString(text).GetTime()
						t.Op(2)
						if err == nil {
							t.Failf("time text %q (%s) is read as %v", text, l.name, g)
						}
						g = time.Unix(77, 0)
						if err := ju.NewString(text).Unmarshal(&g); err == nil && !g.IsZero() {
							t.Failf("time text %q (%s) is unmarshalled as %v", text, l.name, g)
						}
					})
				}
			}
			text := l.text(2019, 11, 23, 21, 46, 37, 123456789, "-03:30")
			for k := 0; k < len(text); k++ {
				for _, r := range []string{"", "x", " ", "0", "-", ":", "Z"} {
					m := text[:k] + r + text[k+1:]
					t.Try(func() string { return fmt.Sprintf("time text %q", m) }, func() {
						var g time.Time
						ju.NewString(m).GetTime()
						ju.NewString(m).Unmarshal(&g)
						t.Op(2)
					})
				}
			}
		}})
		return suites
	}, Assume: []string{
		"Instants of the years 1-9999 (UTC), zones of whole minutes below 24 hours.",
		"Pointers to times follow Go's own JSON text of times (RFC 3339 only); the other layouts are read by time fields and typed reads.",
		"A text that is no time leaves the zero time in a field (logged, by design); typed reads report an error.",
	}})
}
