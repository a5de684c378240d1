//go:build full
// +build full

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
)

func upos(u suriya.UposathaMoon) M {
	return M{"t": "u", "d": inst(u.Date), "cal": ci(u.Calendar), "st": ci(u.Status), "ph": esc(u.Phase), "ev": esc(u.Event),
		"sn": ci(u.S_Number), "tot": ci(u.S_Total), "ud": ci(u.U_Days), "md": ci(u.M_Days), "mon": ci(u.LunarMonth),
		"sea": ci(u.LunarSeason), "ly": ci(u.LunarYear), "av": u.HasAdhikavara, "src": esc(u.Source), "com": esc(u.Comments)}
}
func half(h suriya.HalfMoon) M   { return M{"t": "h", "d": inst(h.Date), "ph": esc(h.Phase)} }
func astro(a suriya.AstroMoon) M { return M{"t": "a", "d": inst(a.Date), "ph": esc(a.Phase)} }
func major(e suriya.MajorEvent) M {
	return M{"t": "m", "d": inst(e.Date), "cal": ci(e.Calendar), "sum": esc(e.Summary), "desc": esc(e.Description)}
}
func event(e suriya.Event) M {
	return M{"t": "e", "d": inst(e.Date), "cal": ci(e.Calendar), "sum": esc(e.Summary), "desc": esc(e.Description)}
}

func item(e suriya.CalendarEvent) M {
	switch x := e.(type) {
	case suriya.UposathaMoon:
		return upos(x)
	case *suriya.UposathaMoon:
		return upos(*x)
	case suriya.HalfMoon:
		return half(x)
	case *suriya.HalfMoon:
		return half(*x)
	case suriya.AstroMoon:
		return astro(x)
	case *suriya.AstroMoon:
		return astro(*x)
	case suriya.MajorEvent:
		return major(x)
	case *suriya.MajorEvent:
		return major(*x)
	case suriya.Event:
		return event(x)
	case *suriya.Event:
		return event(*x)
	}
	return M{"t": "?"}
}

func items(l []suriya.CalendarEvent) []M {
	r := []M{}
	for _, e := range l {
		r = append(r, item(e))
	}
	return r
}

func calday(c suriya.CalDay) M {
	u, h, a, m, e := []M{}, []M{}, []M{}, []M{}, []M{}
	for _, x := range c.UposathaMoon {
		u = append(u, upos(x))
	}
	for _, x := range c.HalfMoon {
		h = append(h, half(x))
	}
	for _, x := range c.AstroMoon {
		a = append(a, astro(x))
	}
	for _, x := range c.MajorEvents {
		m = append(m, major(x))
	}
	for _, x := range c.Events {
		e = append(e, event(x))
	}
	return M{"d": inst(c.Date), "u": u, "h": h, "a": a, "m": m, "e": e}
}

// to JSON and back
func again(e suriya.CalendarEvent) M {
	b, err := json.Marshal(e)
	if err != nil {
		return M{"t": "error"}
	}
	switch e.(type) {
	case suriya.UposathaMoon:
		var x suriya.UposathaMoon
		err = json.Unmarshal(b, &x)
		e = x
	case suriya.HalfMoon:
		var x suriya.HalfMoon
		err = json.Unmarshal(b, &x)
		e = x
	case suriya.AstroMoon:
		var x suriya.AstroMoon
		err = json.Unmarshal(b, &x)
		e = x
	case suriya.MajorEvent:
		var x suriya.MajorEvent
		err = json.Unmarshal(b, &x)
		e = x
	case suriya.Event:
		var x suriya.Event
		err = json.Unmarshal(b, &x)
		e = x
	}
	if err != nil {
		return M{"t": "error"}
	}
	return item(e)
}

func dayAgain(c suriya.CalDay) M {
	var d suriya.CalDay
	b, err := json.Marshal(c)
	if err == nil {
		err = json.Unmarshal(b, &d)
	}
	if err != nil {
		return M{"t": "error"}
	}
	return calday(d)
}

// the names in its JSON object
func dayKeys(c suriya.CalDay) []string {
	m := map[string]json.RawMessage{}
	b, _ := json.Marshal(c)
	json.Unmarshal(b, &m)
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// the day with what its accessors and its text say
func caldayFull(c suriya.CalDay) M {
	r := calday(c)
	r["json"] = dayAgain(c)
	r["keys"] = dayKeys(c)
	r["gu"] = upos(c.GetUposathaMoon())
	r["gh"] = half(c.GetHalfMoon())
	r["ga"] = astro(c.GetAstroMoon())
	r["str"] = esc(c.String())
	return r
}

func caldays(l []suriya.CalDay) []M {
	r := []M{}
	for _, c := range l {
		r = append(r, calday(c))
	}
	return r
}

// An item as the operations give it.
func mkU(o Op) suriya.UposathaMoon {
	return suriya.UposathaMoon{Date: toInst(o["d"]), Calendar: o.Int("cal"), Status: o.Int("st"), Phase: o.Str("ph"), Event: o.Str("ev"),
		S_Number: o.Int("sn"), S_Total: o.Int("tot"), U_Days: o.Int("ud"), M_Days: o.Int("md"), LunarMonth: o.Int("mon"),
		LunarSeason: o.Int("sea"), LunarYear: o.Int("ly"), HasAdhikavara: o.Bool("av"), Source: o.Str("src"), Comments: o.Str("com")}
}
func mk(o Op) suriya.CalendarEvent {
	switch o.Str("t") {
	case "u":
		return mkU(o)
	case "h":
		return suriya.HalfMoon{Date: toInst(o["d"]), Phase: o.Str("ph")}
	case "a":
		return suriya.AstroMoon{Date: toInst(o["d"]), Phase: o.Str("ph")}
	case "m":
		return suriya.MajorEvent{Date: toInst(o["d"]), Calendar: o.Int("cal"), Summary: o.Str("sum"), Description: o.Str("desc")}
	}
	return suriya.Event{Date: toInst(o["d"]), Calendar: o.Int("cal"), Summary: o.Str("sum"), Description: o.Str("desc")}
}

func mkDay(o Op) suriya.CalDay {
	c := suriya.CalDay{Date: toInst(o["d"])}
	for _, x := range o.List("u") {
		c.UposathaMoon = append(c.UposathaMoon, mkU(Op(x.(map[string]interface{}))))
	}
	for _, x := range o.List("h") {
		c.HalfMoon = append(c.HalfMoon, mk(Op(x.(map[string]interface{}))).(suriya.HalfMoon))
	}
	for _, x := range o.List("a") {
		c.AstroMoon = append(c.AstroMoon, mk(Op(x.(map[string]interface{}))).(suriya.AstroMoon))
	}
	for _, x := range o.List("m") {
		c.MajorEvents = append(c.MajorEvents, mk(Op(x.(map[string]interface{}))).(suriya.MajorEvent))
	}
	for _, x := range o.List("e") {
		c.Events = append(c.Events, mk(Op(x.(map[string]interface{}))).(suriya.Event))
	}
	return c
}

// A copy of a day whose dates in one zone are at the same clock times in
// another (a zone with rules is written down as if it were UTC).
func inZone(c suriya.CalDay, from, to *time.Location) suriya.CalDay {
	re := func(t time.Time) time.Time {
		if t.Location().String() != from.String() {
			return t
		}
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), to)
	}
	c.Date = re(c.Date)
	c.UposathaMoon = append([]suriya.UposathaMoon(nil), c.UposathaMoon...)
	for i := range c.UposathaMoon {
		c.UposathaMoon[i].Date = re(c.UposathaMoon[i].Date)
	}
	c.HalfMoon = append([]suriya.HalfMoon(nil), c.HalfMoon...)
	for i := range c.HalfMoon {
		c.HalfMoon[i].Date = re(c.HalfMoon[i].Date)
	}
	c.AstroMoon = append([]suriya.AstroMoon(nil), c.AstroMoon...)
	for i := range c.AstroMoon {
		c.AstroMoon[i].Date = re(c.AstroMoon[i].Date)
	}
	c.MajorEvents = append([]suriya.MajorEvent(nil), c.MajorEvents...)
	for i := range c.MajorEvents {
		c.MajorEvents[i].Date = re(c.MajorEvents[i].Date)
	}
	c.Events = append([]suriya.Event(nil), c.Events...)
	for i := range c.Events {
		c.Events[i].Date = re(c.Events[i].Date)
	}
	return c
}

// the day that was worked on in full, and all of them
func days(l []*suriya.CalDay, k int) M {
	all := []M{}
	for _, d := range l {
		all = append(all, calday(*d))
	}
	return M{"day": caldayFull(*l[k]), "all": all}
}

func location(n string) *time.Location {
	l, err := time.LoadLocation(n)
	if err != nil {
		return time.UTC
	}
	return l
}

// The two ends of a range; with "loc" the same instants in a zone with rules.
func ends(o Op) (time.Time, time.Time) {
	f, t := toInst(o["from"]), toInst(o["to"])
	if n := o.Str("loc"); n != "" {
		f, t = f.In(location(n)), t.In(location(n))
	}
	return f, t
}

var uids = map[string]bool{}
var uidsMu sync.Mutex

func init() {
	doers["solar"] = func(s *session, o Op) M {
		l := suriya.GenerateSolarYear(o.Int("ce"))
		r := items(l)
		if o.Bool("spoil") {
			// what the caller does to the listing is its own business
			for i := range l {
				l[i] = suriya.Event{}
			}
		}
		return M{"items": r}
	}
	doers["caldays"] = func(s *session, o Op) M {
		l := suriya.GetCalDays(ends(o))
		r := caldays(l)
		if o.Bool("spoil") {
			for i := range l {
				for j := range l[i].MajorEvents {
					l[i].MajorEvents[j] = suriya.MajorEvent{}
				}
				for j := range l[i].UposathaMoon {
					l[i].UposathaMoon[j] = suriya.UposathaMoon{}
				}
				for j := range l[i].HalfMoon {
					l[i].HalfMoon[j] = suriya.HalfMoon{}
				}
				for j := range l[i].AstroMoon {
					l[i].AstroMoon[j] = suriya.AstroMoon{}
				}
				l[i] = suriya.CalDay{}
			}
		}
		return M{"days": r}
	}
	// many years at once, and one by one
	doers["parts"] = func(s *session, o Op) M {
		lo, hi := o.Int("lo"), o.Int("hi")
		in := func(a, b int) []suriya.CalDay {
			return suriya.GetCalDays(time.Date(a, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(b+1, 1, 1, 0, 0, 0, -1, time.UTC))
		}
		// the days of each year in turn
		group := func(l []suriya.CalDay) (r []M) {
			for i := 0; i < len(l); {
				j, y := i, l[i].Date.UTC().Year()
				for j < len(l) && l[j].Date.UTC().Year() == y {
					j++
				}
				b, err := json.Marshal(caldays(l[i:j]))
				if err != nil {
					panic(err)
				}
				r = append(r, M{"y": y, "n": j - i, "sha": digest(b)})
				i = j
			}
			return r
		}
		parts := []M{}
		for y := lo; y <= hi; y++ {
			parts = append(parts, group(in(y, y))...)
		}
		return M{"whole": group(in(lo, hi)), "parts": parts}
	}
	doers["astro"] = func(s *session, o Op) M {
		l := suriya.GetAstroMoons(ends(o))
		r := []M{}
		for i, a := range l {
			r = append(r, astro(a))
			if o.Bool("spoil") {
				l[i] = suriya.AstroMoon{}
			}
		}
		return M{"moons": r}
	}
	// one file of the data, as anyone may read it
	doers["aeris"] = func(s *session, o Op) M {
		b, err := suriya.FSByte(false, fmt.Sprintf("/data/astro/astro-%d.json", o.Int("ce")))
		var a struct {
			Success  bool
			Error    struct{ Code string }
			Response []struct {
				Timestamp   int64
				DateTimeISO time.Time
				Code        int
				Name        string
			}
		}
		ok := err == nil && json.Unmarshal(b, &a) == nil
		r := []M{}
		for _, m := range a.Response {
			d := m.Timestamp / 86400
			if m.Timestamp%86400 < 0 {
				d--
			}
			r = append(r, M{"ts": []int64{clamp(d), m.Timestamp - d*86400}, "d": inst(m.DateTimeISO), "code": ci(m.Code), "name": esc(m.Name)})
		}
		return M{"ok": ok, "success": a.Success, "err": esc(a.Error.Code), "moons": r}
	}
	// a succession of uposathas, from a given one
	doers["chain"] = func(s *session, o Op) M {
		u := mkU(o.Sub("u"))
		s.vals["chain"] = u
		return M{"u": upos(u)}
	}
	doers["next"] = func(s *session, o Op) M {
		u := s.vals["chain"].(suriya.UposathaMoon)
		before := upos(u)
		n := u.NextUposatha()
		after := upos(u)
		s.vals["chain"] = n
		return M{"before": before, "after": after, "u": upos(n)}
	}
	// one step from a given uposatha
	doers["step"] = func(s *session, o Op) M {
		return M{"u": upos(mkU(o.Sub("u")).NextUposatha())}
	}
	// a day, and what is put on it
	doers["newday"] = func(s *session, o Op) M {
		n := o.Int("n")
		if n == 0 {
			n = 1
		}
		l := []*suriya.CalDay{}
		for i := 0; i < n; i++ {
			l = append(l, &suriya.CalDay{})
		}
		s.vals["days"] = l
		return days(l, 0)
	}
	doers["add"] = func(s *session, o Op) M {
		l := s.vals["days"].([]*suriya.CalDay)
		mk(o.Sub("it")).AddToDay(l[o.Int("k")])
		return days(l, o.Int("k"))
	}
	doers["set"] = func(s *session, o Op) M {
		l := s.vals["days"].([]*suriya.CalDay)
		d := l[o.Int("k")]
		switch x := mk(o.Sub("it")).(type) {
		case suriya.UposathaMoon:
			d.SetUposathaMoon(x)
		case suriya.HalfMoon:
			d.SetHalfMoon(x)
		case suriya.AstroMoon:
			d.SetAstroMoon(x)
		}
		return days(l, o.Int("k"))
	}
	doers["addhalf"] = func(s *session, o Op) M {
		var l []suriya.CalDay
		if x := o.Int("cap"); x > 0 {
			l = make([]suriya.CalDay, 0, x)
		}
		loc := time.UTC
		if n := o.Str("loc"); n != "" {
			loc = location(n)
		}
		for _, x := range o.List("days") {
			l = append(l, inZone(mkDay(Op(x.(map[string]interface{}))), time.UTC, loc))
		}
		n := len(l)
		// the given list can be the first part of a longer one
		for _, x := range o.List("rest") {
			l = append(l, inZone(mkDay(Op(x.(map[string]interface{}))), time.UTC, loc))
		}
		out := suriya.AddHalfMoonDays(l[:n])
		rest := []suriya.CalDay{}
		for _, x := range l[n:] {
			rest = append(rest, inZone(x, loc, time.UTC))
		}
		l = l[:n]
		in2, out2 := []suriya.CalDay{}, []suriya.CalDay{}
		for _, x := range l {
			in2 = append(in2, inZone(x, loc, time.UTC))
		}
		for _, x := range out {
			out2 = append(out2, inZone(x, loc, time.UTC))
		}
		return M{"in": caldays(in2), "out": caldays(out2), "rest": caldays(rest)}
	}
	doers["sortdays"] = func(s *session, o Op) M {
		l := []suriya.CalDay{}
		for _, x := range o.List("days") {
			l = append(l, mkDay(Op(x.(map[string]interface{}))))
		}
		st := append([]suriya.CalDay(nil), l...)
		n := suriya.CalDaySlice(l).Len()
		sort.Sort(suriya.CalDaySlice(l))
		sort.Stable(suriya.CalDaySlice(st))
		return M{"out": caldays(l), "stable": caldays(st), "n": ci(n), "is": sort.IsSorted(suriya.CalDaySlice(l))}
	}
	// one value which several callers read at the same time
	doers["share"] = func(s *session, o Op) M {
		n := o.Int("callers")
		if n == 0 {
			n = 1
		}
		var y suriya.SuriyaYear
		y.Init(o.Int("ce"))
		var d suriya.SuriyaDay
		d.Init(o.Int("ce"), 103)
		u := mkU(o.Sub("u"))
		l := make([]suriya.CalDay, 0, 64)
		for _, x := range o.List("days") {
			l = append(l, mkDay(Op(x.(map[string]interface{}))))
		}
		read := func() M {
			out := []M{}
			for i := range l {
				out = append(out, caldayFull(l[i]))
			}
			return M{
				"m": []bool{y.Is_Adhikamasa(), y.Would_Be_Adhikamasa(), y.Is_Adhikavara(), y.Would_Be_Adhikavara(), y.Has_Carried_Adhikavara(), y.Is_Suriya_Leap()},
				"n": []int64{ci(y.YearLength()), ci(y.DeltaAdhikamasa()), ci(y.DeltaAdhikavara()), ci(y.AdhikamasaCyclePos()), ci(y.AdhikavaraCyclePos())},
				"a": inst(y.AsalhaPuja()), "s": esc(y.String() + y.SuriyaValuesString()), "h": ci(d.Horakhun), "t": rnd(d.TrueMoon, 1e4),
				"u": upos(u.NextUposatha()), "us": esc(u.String()), "ud": inst(u.GetDate()), "l": out, "half": caldays(suriya.AddHalfMoonDays(l)),
			}
		}
		got := make([]string, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		panics := make(chan string, n)
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						panics <- fmt.Sprint(e)
					}
				}()
				<-start
				b, _ := json.Marshal(read())
				got[i] = string(b)
			}(i)
		}
		close(start)
		wg.Wait()
		select {
		case e := <-panics:
			panic(e)
		default:
		}
		sort.Strings(got)
		r := []string{}
		for i, x := range got {
			if i == 0 || x != got[i-1] {
				r = append(r, x)
			}
		}
		return M{"all": r}
	}
	doers["text"] = func(s *session, o Op) M {
		it := Op{}
		for k, v := range o.Sub("it") {
			it[k] = v
		}
		if n := o.Str("loc"); n != "" {
			it["d"] = toInst(it["d"]).In(location(n))
		}
		e := mk(it)
		r := M{"str": esc(e.String()), "date": inst(e.GetDate()), "it": item(e), "json": again(e)}
		t0 := time.Now()
		event := func() interface {
		} {
			switch x := e.(type) {
			case suriya.UposathaMoon:
				return x.IcalEvent()
			case suriya.HalfMoon:
				return x.IcalEvent()
			case suriya.AstroMoon:
				return x.IcalEvent()
			case suriya.MajorEvent:
				return x.IcalEvent()
			case suriya.Event:
				return x.IcalEvent()
			}
			return nil
		}
		v, again := event(), event()
		t1 := time.Now()
		var f struct {
			UID                     string
			DTSTAMP, DTSTART, DTEND time.Time
			SUMMARY, TZID           string
			AllDay                  bool
		}
		b, _ := json.Marshal(v)
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		var g struct{ UID string }
		b, _ = json.Marshal(again)
		json.Unmarshal(b, &g)
		uidsMu.Lock()
		defer uidsMu.Unlock()
		r["ical"] = M{"fresh": f.UID != "" && !uids[f.UID] && f.UID != g.UID, "start": inst(f.DTSTART), "end": inst(f.DTEND), "sum": esc(f.SUMMARY),
			"allday": f.AllDay, "tzid": esc(f.TZID),
			"now": !f.DTSTAMP.Before(t0.Add(-time.Second)) && !f.DTSTAMP.After(t1.Add(time.Second))}
		uids[f.UID], uids[g.UID] = true, true
		return r
	}
}
