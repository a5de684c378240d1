// The recorder: executes the operations it is given against suriya-go's
// exported API and writes down what came back.  It decides nothing; the
// recorded trace is judged by the TLA+ specification.
//
// usage: drv OPS.ndjson TRACE.ndjson
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
)

type M map[string]interface{}
type Op map[string]interface{}

func (o Op) Int(k string) int {
	f, _ := o[k].(float64)
	return int(f)
}
func (o Op) Str(k string) string { s, _ := o[k].(string); return unesc(s) }
func (o Op) Bool(k string) bool  { b, _ := o[k].(bool); return b }
func (o Op) List(k string) []interface{} {
	l, _ := o[k].([]interface{})
	return l
}
func (o Op) Sub(k string) Op { m, _ := o[k].(map[string]interface{}); return Op(m) }

// What is not printable ASCII is written {hex}, so that the specification
// reads it the same way everywhere.
func esc(s string) string {
	var b bytes.Buffer
	for _, r := range s {
		if r < 32 || r > 126 || r == '{' || r == '}' {
			fmt.Fprintf(&b, "{%x}", r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// the inverse, for the texts of operations
func unesc(s string) string {
	if strings.IndexByte(s, '{') < 0 {
		return s
	}
	var b bytes.Buffer
	for i := 0; i < len(s); i++ {
		j := strings.IndexByte(s[i:], '}')
		if s[i] != '{' || j < 0 {
			b.WriteByte(s[i])
			continue
		}
		n, _ := strconv.ParseInt(s[i+1:i+j], 16, 32)
		b.WriteRune(rune(n))
		i += j
	}
	return b.String()
}

// An instant as [year, month, day, second of day, nanosecond, zone offset],
// read in its own zone.
func inst(t time.Time) []int {
	_, off := t.Zone()
	return []int{t.Year(), int(t.Month()), t.Day(), t.Hour()*3600 + t.Minute()*60 + t.Second(), t.Nanosecond(), off}
}

func offset(t time.Time) int {
	_, off := t.Zone()
	return off
}

func toInst(v interface{}) time.Time {
	if t, ok := v.(time.Time); ok {
		return t
	}
	l, _ := v.([]interface{})
	var n [6]int
	for i := range l {
		f, _ := l[i].(float64)
		n[i] = int(f)
	}
	loc := time.UTC
	if n[5] != 0 {
		loc = time.FixedZone("Z", n[5])
	}
	return time.Date(n[0], time.Month(n[1]), n[2], 0, 0, n[3], n[4], loc)
}

// TLC's integers have 32 bits: what lies beyond is clamped (and then does
// not match anything).
func clamp(n int64) int64 {
	if n > 2000000000 {
		return 2000000000
	}
	if n < -2000000000 {
		return -2000000000
	}
	return n
}
func ci(n int) int64 { return clamp(int64(n)) }
func rnd(f, unit float64) int64 {
	x := math.Round(f * unit)
	if math.IsNaN(x) {
		return 2000000000
	}
	if x > 2e9 {
		return 2000000000
	}
	if x < -2e9 {
		return -2000000000
	}
	return int64(x)
}

// how far (in millionths of the unit) a value lies from its grid
func off(f, unit float64) int64 {
	return rnd(math.Abs(f*unit-math.Round(f*unit)), 1e6)
}

type doer func(s *session, o Op) M

var doers = map[string]doer{}

// the objects that operations build up step by step
type session struct {
	vals map[string]interface{}
}

func newSession() *session { return &session{map[string]interface{}{}} }

func (s *session) run(o Op) (out M) {
	ev := o.Str("ev")
	out = M{}
	for k, v := range o {
		out[k] = v
	}
	defer func() {
		if e := recover(); e != nil {
			out["panic"] = esc(fmt.Sprint(e))
			out["r"] = M{}
		}
	}()
	f := doers[ev]
	if f == nil {
		fmt.Fprintln(os.Stderr, "drv: unknown operation", ev)
		os.Exit(3)
	}
	out["panic"] = ""
	out["r"] = f(s, o)
	return out
}

func ints(l []int) []int64 {
	r := make([]int64, len(l))
	for i, x := range l {
		r[i] = ci(x)
	}
	return r
}

func init() {
	doers["config"] = func(s *session, o Op) M {
		suriya.UseExceptions = o.Bool("on")
		// the table is a variable: it can be edited, and it can be replaced
		if o.Bool("replace") {
			suriya.AdhikavaraExceptions = map[int]bool{}
			if len(o.List("tab")) == 0 {
				suriya.AdhikavaraExceptions = nil
			}
		} else if suriya.AdhikavaraExceptions == nil {
			suriya.AdhikavaraExceptions = map[int]bool{}
		}
		t := suriya.AdhikavaraExceptions
		for k := range t {
			delete(t, k)
		}
		for _, p := range o.List("tab") {
			q := p.([]interface{})
			t[int(q[0].(float64))] = q[1].(bool)
		}
		return M{}
	}
	// what the library starts with
	doers["defaults"] = func(s *session, o Op) M {
		tab := []interface{}{}
		for y := 1; y <= 5000; y++ {
			if v, ok := suriya.AdhikavaraExceptions[y]; ok {
				tab = append(tab, []interface{}{y, v})
			}
		}
		return M{"on": suriya.UseExceptions, "tab": tab, "n": len(suriya.AdhikavaraExceptions)}
	}
	doers["year"] = func(s *session, o Op) M {
		var y suriya.SuriyaYear
		ce := o.Int("ce")
		// what the value held before
		switch o.Int("dirty") {
		case 1:
			y = suriya.SuriyaYear{Year: 1, BE_Year: 2, CS_Year: 3, Horakhun: 4, Kammacubala: 5, Uccabala: 6, Avoman: 7, Masaken: 8, Tithi: 9}
		case 2:
			y = suriya.SuriyaYear{Year: ce, BE_Year: 2, CS_Year: 3, Horakhun: 4, Kammacubala: 5, Uccabala: 6, Avoman: 7, Masaken: 8, Tithi: 9}
		case 3:
			y.Init(ce - 1)
		case 4:
			y.Init(ce)
			y.Kammacubala, y.Avoman, y.Tithi = 900, 700, 31
		case 5:
			y.Init(ce + 1)
			y.Year = ce
		case 6:
			y.Init(ce)
			y.Horakhun += 7
		case 7:
			y.Init(ce + 19)
			y.Init(ce)
		}
		y.Init(ce)
		r := M{}
		g := o.Str("g")
		has := func(c byte) bool { return bytes.IndexByte([]byte(g), c) >= 0 }
		if has('e') {
			r["e"] = []int64{ci(y.Year), ci(y.BE_Year), ci(y.CS_Year), ci(y.Horakhun), ci(y.Kammacubala), ci(y.Uccabala), ci(y.Avoman), ci(y.Masaken), ci(y.Tithi)}
			r["leap"] = y.Is_Suriya_Leap()
		}
		if has('w') {
			// the large values as pairs of quotient and remainder
			two := func(n, d int) []int64 { return []int64{ci(n / d), ci(n % d)} }
			r["w"] = M{"y": []int64{ci(y.Year), ci(y.BE_Year), ci(y.CS_Year)}, "h": two(y.Horakhun, 20760), "m": two(y.Masaken, 703),
				"v": []int64{ci(y.Kammacubala), ci(y.Uccabala), ci(y.Avoman), ci(y.Tithi)}, "leap": y.Is_Suriya_Leap()}
		}
		if has('m') {
			r["wm"] = y.Would_Be_Adhikamasa()
			r["im"] = y.Is_Adhikamasa()
		}
		if has('v') {
			r["wv"] = y.Would_Be_Adhikavara()
			r["ca"] = y.Has_Carried_Adhikavara()
			r["iv"] = y.Is_Adhikavara()
		}
		if has('l') {
			r["len"] = ci(y.YearLength())
		}
		if has('k') {
			r["kat"] = inst(suriya.CalculatePreviousKattika(ce))
		}
		if has('a') {
			r["asa"] = inst(y.AsalhaPuja())
		}
		if has('d') {
			r["dm"] = ci(y.DeltaAdhikamasa())
			r["dv"] = ci(y.DeltaAdhikavara())
		}
		if has('p') {
			r["pm"] = ci(y.AdhikamasaCyclePos())
			r["pv"] = ci(y.AdhikavaraCyclePos())
		}
		if has('t') {
			r["str"] = esc(y.String())
			var z suriya.SuriyaYear
			b, err := json.Marshal(y)
			if err == nil {
				err = json.Unmarshal(b, &z)
			}
			r["json"] = err == nil && z.FirstDay.Equal(y.FirstDay) && z.Year == y.Year && z.BE_Year == y.BE_Year && z.CS_Year == y.CS_Year &&
				z.Horakhun == y.Horakhun && z.Kammacubala == y.Kammacubala && z.Uccabala == y.Uccabala && z.Avoman == y.Avoman &&
				z.Masaken == y.Masaken && z.Tithi == y.Tithi
			r["vals"] = esc(y.SuriyaValuesString())
		}
		// the same values again: looking at a year does not change it
		if has('e') {
			r["e2"] = []int64{ci(y.Year), ci(y.BE_Year), ci(y.CS_Year), ci(y.Horakhun), ci(y.Kammacubala), ci(y.Uccabala), ci(y.Avoman), ci(y.Masaken), ci(y.Tithi)}
		}
		return r
	}
	doers["day"] = func(s *session, o Op) M {
		var d suriya.SuriyaDay
		ce, n := o.Int("ce"), o.Int("day")
		switch o.Int("dirty") {
		case 1:
			d = suriya.SuriyaDay{Year: 1, BE_Year: 2, CS_Year: 3, Day: 4, Horakhun: 4, Kammacubala: 5, Uccabala: 6, Avoman: 7, Masaken: 8, Tithi: 9, MeanSun: 10, TrueSun: 11, MeanMoon: 12, TrueMoon: 13, Raek: 14}
		case 2:
			d = suriya.SuriyaDay{Year: ce, BE_Year: 2, CS_Year: 3, Day: n, Horakhun: 4, Kammacubala: 5, Uccabala: 6, Avoman: 7, Masaken: 8, Tithi: 9, MeanSun: 10, TrueSun: 11, MeanMoon: 12, TrueMoon: 13, Raek: 14}
		case 3:
			d.Init(ce, n-1)
		case 4:
			d.Init(ce+1, n)
		case 5:
			d.Init(ce, n)
			d.MeanSun, d.TrueSun, d.MeanMoon, d.TrueMoon, d.Raek = 11, 12, 13, 14, 15
		case 6:
			d.Init(ce, n+30)
			d.Day = n
		case 7:
			d.Init(ce, n)
			d.Avoman, d.Tithi, d.Horakhun = 5, 6, d.Horakhun+1
		}
		d.Init(ce, n)
		return M{
			"n":  []int64{ci(d.Year), ci(d.BE_Year), ci(d.CS_Year), ci(d.Day), ci(d.Horakhun), ci(d.Kammacubala), ci(d.Uccabala), ci(d.Avoman), ci(d.Masaken), ci(d.Tithi)},
			"ms": rnd(d.MeanSun, 1e4), "ts": rnd(d.TrueSun, 1e4), "mm": rnd(d.MeanMoon, 6e4),
			"tm": rnd(d.TrueMoon, 1e4), "ra": rnd(d.Raek, 1e4),
			"off": []int64{off(d.MeanSun, 1e4), off(d.TrueSun, 1e4), off(d.TrueMoon, 1e4)},
		}
	}
	// all days of a year from one to another, in one value or each in a fresh one
	doers["days"] = func(s *session, o Op) M {
		v := [][]int64{}
		var d suriya.SuriyaDay
		for n := o.Int("from"); n <= o.Int("to"); n++ {
			if !o.Bool("reuse") {
				d = suriya.SuriyaDay{}
			}
			d.Init(o.Int("ce"), n)
			if o.Str("part") == "n" {
				v = append(v, []int64{ci(d.Year), ci(d.BE_Year), ci(d.CS_Year), ci(d.Day), ci(d.Horakhun), ci(d.Kammacubala), ci(d.Uccabala), ci(d.Avoman), ci(d.Masaken), ci(d.Tithi)})
			} else {
				v = append(v, []int64{rnd(d.MeanSun, 1e4), rnd(d.TrueSun, 1e4), rnd(d.MeanMoon, 6e4), rnd(d.TrueMoon, 1e4), rnd(d.Raek, 1e4),
					off(d.MeanSun, 1e4), off(d.TrueSun, 1e4), off(d.TrueMoon, 1e4)})
			}
		}
		return M{"v": v}
	}
	doers["date"] = func(s *session, o Op) M {
		t := suriya.HorakhunToDate(int64(o.Int("h")))
		return M{"d": inst(t), "zone": t.Location().String()}
	}
	// every date from one count to another, written as runs of dates which are
	// exactly 24 hours apart
	doers["dates"] = func(s *session, o Op) M {
		runs := []interface{}{}
		var first, last time.Time
		n := 0
		flush := func() {
			if n > 0 {
				runs = append(runs, M{"d": inst(first), "n": n})
			}
		}
		for h := o.Int("h"); h <= o.Int("to"); h++ {
			t := suriya.HorakhunToDate(int64(h))
			if n > 0 && offset(t) == 0 && offset(last) == 0 && t.Unix()-last.Unix() == 86400 && t.Nanosecond() == last.Nanosecond() {
				n++
			} else {
				flush()
				first, n = t, 1
			}
			last = t
			if len(runs) > 50 {
				break
			}
		}
		flush()
		return M{"runs": runs}
	}
	doers["ral"] = func(s *session, o Op) M {
		deg := float64(o.Int("n")) / float64(o.Int("den"))
		// just beside it: by the least there is, or by a power of two
		if n := o.Int("beside"); n != 0 {
			if e := o.Int("by"); e != 0 {
				deg += math.Copysign(math.Ldexp(1, -e), float64(n))
			} else {
				deg = math.Nextafter(deg, math.Inf(n))
			}
		}
		x, y, z := suriya.DegreeToRal(deg)
		return M{"x": ci(x), "y": ci(y), "z": ci(z), "s": esc(suriya.DegreeToRalString(deg)),
			"back": rnd(suriya.RalToDegree(x, y, z), 1e4)}
	}
	doers["deg"] = func(s *session, o Op) M {
		d := suriya.RalToDegree(o.Int("x"), o.Int("y"), o.Int("z"))
		return M{"deg": rnd(d, 1e4), "off": off(d, 1e4)}
	}
	// an angle that is already within the circle
	doers["keep"] = func(s *session, o Op) M {
		x := float64(o.Int("n")) / float64(o.Int("den"))
		return M{"same": suriya.NormalizeDegree(x) == x}
	}
	doers["norm"] = func(s *session, o Op) M {
		d := suriya.NormalizeDegree(float64(o.Int("n")) / 64)
		return M{"deg": rnd(d, 64), "off": off(d, 64)}
	}
	doers["label"] = func(s *session, o Op) M {
		r := M{}
		switch o.Str("kind") {
		case "month":
			r["n"] = ci(suriya.MonthToInt(o.Str("name")))
		case "season":
			r["n"] = ci(suriya.SeasonToInt(o.Str("name")))
		case "calendar":
			r["n"] = ci(suriya.CalendarToInt(o.Str("name")))
		case "status":
			r["n"] = ci(suriya.StatusToInt(o.Str("name")))
		case "seasonname":
			r["s"] = esc(suriya.SeasonName(o.Int("num")))
		}
		return r
	}
	// several goroutines at once, each with operations of its own
	doers["par"] = nil
}

func par(o Op, emit func(M)) {
	lists := o.List("lists")
	res := make([][]M, len(lists))
	var wg, ready sync.WaitGroup
	start := make(chan struct{})
	ready.Add(len(lists))
	for i := range lists {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s := newSession()
			ops := lists[i].([]interface{})
			ready.Done()
			<-start
			for _, x := range ops {
				res[i] = append(res[i], s.run(Op(x.(map[string]interface{}))))
			}
		}(i)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	for _, r := range res {
		for _, m := range r {
			emit(m)
		}
	}
}

// what is being done, for the watchdog and the post-mortem
var doing atomic.Value
var lastTick int64

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: drv OPS TRACE")
		os.Exit(3)
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(3)
	}
	outf, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(3)
	}
	w := bufio.NewWriterSize(outf, 1<<20)
	emit := func(m M) {
		b, err := json.Marshal(m)
		if err != nil {
			fmt.Fprintln(os.Stderr, "drv:", err)
			os.Exit(3)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	limit := 60 * time.Second
	atomic.StoreInt64(&lastTick, time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, atomic.LoadInt64(&lastTick))) > limit {
				b := make([]byte, 1<<16)
				n := runtime.Stack(b, true)
				fmt.Fprintf(os.Stderr, "drv: HANG in %v\n%s\n", doing.Load(), b[:n])
				os.Exit(4)
			}
		}
	}()
	s := newSession()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(bytes.TrimSpace(sc.Bytes())) == 0 {
			continue
		}
		var o Op
		if err := json.Unmarshal(sc.Bytes(), &o); err != nil {
			fmt.Fprintln(os.Stderr, "drv:", err)
			os.Exit(3)
		}
		line := sc.Text()
		if len(line) > 2000 {
			line = line[:2000]
		}
		doing.Store(line)
		// the operation under way survives a crash of the process
		if os.Getenv("DRV_JOURNAL") != "" {
			os.WriteFile(os.Getenv("DRV_JOURNAL"), []byte(line), 0644)
		}
		atomic.StoreInt64(&lastTick, time.Now().UnixNano())
		if o.Str("ev") == "par" {
			par(o, emit)
		} else {
			emit(s.run(o))
		}
	}
	if err := sc.Err(); err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(3)
	}
	if w.Flush() != nil || outf.Close() != nil {
		os.Exit(3)
	}
}
