package main

import (
	"fmt"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
)

func init() {
	commands["dates"] = cmdDates
	commands["nanos"] = cmdNanos
	commands["times"] = cmdTimes
}

// ValTrace is validated by ValuesTrace
type ValTrace struct {
	Id     string `json:"id"`
	From   []int  `json:"from"`
	To     []int  `json:"to"`
	Step   int    `json:"step"`
	Events []Ev   `json:"events"`
}

func lastDay(y, m int) int { // for the loop only: what is left out is noticed by the specification
	for d := 31; ; d-- {
		if time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC).Month() == time.Month(m) {
			return d
		}
	}
}

// zone is a random location of fixed offset
func zone(n int) *time.Location {
	if n == 0 {
		return time.UTC
	}
	return time.FixedZone("z", n*977%50400-43200*(n%2))
}

// cmdDates converts every date of the years 1 to 9999 to days and back
func cmdDates(p *Plan) interface{} {
	out := []*ValTrace{}
	rnd := p.rnd(int64(p.Shard))
	for from := 1; from <= 9999; from += 100 {
		if !p.mine(from / 100) {
			continue
		}
		to := from + 100
		if to > 10000 {
			to = 10000
		}
		add := func(id string, each func(f func(y, m, d, n int))) {
			t := &ValTrace{Id: fmt.Sprint(id, " ", from), From: []int{from, 1, 1}, To: []int{to, 1, 1}, Events: []Ev{}}
			var y0, m0, d0, n0, len int
			flush := func() {
				if len > 0 {
					t.Events = append(t.Events, Ev{"op": "dates", "y": y0, "m": m0, "d": d0, "n": n0, "len": len})
				}
			}
			if tr := guard(func() {
				each(func(y, m, d, n int) {
					if len > 0 && y == y0 && m == m0 && d == d0+len && n == n0+len {
						len++
						return
					}
					flush()
					y0, m0, d0, n0, len = y, m, d, n, 1
				})
			}); tr != "" {
				t.Events = append(t.Events, Ev{"op": "trouble", "what": tr})
			}
			flush()
			out = append(out, t)
		}
		add("to days", func(f func(y, m, d, n int)) {
			for y := from; y < to; y++ {
				for m := 1; m <= 12; m++ {
					for d := 1; d <= lastDay(y, m); d++ {
						f(y, m, d, int(api.ToDays(api.NewDate(y, time.Month(m), d))))
					}
				}
			}
		})
		add("times of dates to days", func(f func(y, m, d, n int)) {
			for y := from; y < to; y++ {
				for m := 1; m <= 12; m++ {
					for d := 1; d <= lastDay(y, m); d++ {
						t := time.Date(y, time.Month(m), d, rnd.Intn(24), rnd.Intn(60), rnd.Intn(60), rnd.Intn(1e9), zone(rnd.Intn(1000)))
						f(y, m, d, int(api.ToDays(api.Date(t))))
					}
				}
			}
		})
		add("from days", func(f func(y, m, d, n int)) {
			first := int(time.Date(from, 1, 1, 0, 0, 0, 0, time.UTC).Unix() / 86400)
			last := int(time.Date(to, 1, 1, 0, 0, 0, 0, time.UTC).Unix() / 86400)
			for n := first; n < last; n++ {
				y, m, d := time.Time(api.FromDays(int32(n))).Date()
				f(y, int(m), d, n)
			}
		})
	}
	return out
}

// cmdNanos packs and unpacks nanoseconds: all of them by last digits, or those of every Count-th step
func cmdNanos(p *Plan) interface{} {
	out := []*ValTrace{}
	class := 0
	add := func(n, step, max int) {
		class++
		if !p.mine(class) {
			return
		}
		t := &ValTrace{Id: fmt.Sprint("nanoseconds ", n, " + ", step), From: []int{n}, Step: step, Events: []Ev{}}
		out = append(out, t)
		var n0, e0, e1, estep, d0, d1, dstep, len int
		flush := func() {
			if len > 0 {
				t.Events = append(t.Events, Ev{"op": "nanos", "n": n0, "step": step, "len": len, "enc": limbs(uint64(e0)), "last": limbs(uint64(e1)),
					"estep": clamp(estep), "dec": clamp(d0), "dstep": clamp(dstep)})
			}
		}
		if tr := guard(func() {
			for ; n <= max; n += step {
				e := int(api.EncodingTimestampNanos(uint64(n)))
				d := int(api.DecodingTimestampNanos(uint64(e)))
				if len == 1 {
					estep, dstep = e-e1, d-d1
				}
				if len > 0 && e-e1 == estep && d-d1 == dstep {
					e1, d1 = e, d
					len++
					continue
				}
				flush()
				n0, e0, e1, d0, d1, estep, dstep, len = n, e, e, d, d, 0, 0, 1
				if n > 999999999-step {
					n += step
					break
				}
			}
		}); tr != "" {
			t.Events = append(t.Events, Ev{"op": "trouble", "what": tr})
		}
		flush()
		t.To = []int{n}
	}
	max := 999999999
	for r := 1; r < 100; r++ {
		add(r, 100, max)
	}
	z := 100
	for k := 2; k <= 8; k++ {
		for d := 1; d <= 9; d++ {
			add(d*z, z*10, max)
		}
		z *= 10
	}
	add(0, 1000000000, 0)
	return out
}

func clamp(n int) int {
	if n > 1<<30 || n < -(1<<30) {
		return -(1 << 30)
	}
	return n
}

// cmdTimes converts points in time of many locations
func cmdTimes(p *Plan) interface{} {
	rnd := p.rnd(int64(p.Shard) + 7)
	locs := []*time.Location{}
	for _, n := range []string{"America/New_York", "Asia/Shanghai", "Europe/Berlin", "Asia/Kathmandu", "Pacific/Apia"} {
		if l, err := time.LoadLocation(n); err == nil {
			locs = append(locs, l)
		}
	}
	t := &ValTrace{Id: fmt.Sprint("times ", p.Shard), From: []int{}, To: []int{}, Events: []Ev{}}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		loc := zone(rnd.Intn(1000))
		if len(locs) > 0 && rnd.Intn(3) == 0 {
			loc = locs[rnd.Intn(len(locs))]
		}
		y := 1 + rnd.Intn(9999)
		if rnd.Intn(2) == 0 {
			y = []int{1, 1677, 1678, 1900, 1969, 1970, 2014, 2015, 2016, 2038, 2262, 2263, 9999}[rnd.Intn(13)]
		}
		c := time.Date(y, time.Month(1+rnd.Intn(12)), 1+rnd.Intn(31), rnd.Intn(24), rnd.Intn(60), rnd.Intn(60), int(nanoGen(rnd)()), loc)
		if rnd.Intn(6) == 0 { // around the base
			c = time.Date(2015, 1, 1, 0, 0, rnd.Intn(5)-2, int(nanoGen(rnd)()), loc)
		}
		if c.Year() < 1 || c.Year() > 9999 {
			continue
		}
		civil := func(t time.Time) []int {
			y, m, d := t.Date()
			return []int{y, int(m), d, t.Hour(), t.Minute(), t.Second()}
		}
		_, off := time.Date(2015, 1, 1, 0, 0, 0, 0, loc).Zone()
		_, here := c.Zone()
		if tr := guard(func() {
			s := api.GetTimestamp(c)
			b := s.Time()
			t.Events = append(t.Events, Ev{"op": "time", "civil": civil(c), "ns": c.Nanosecond(), "off": off, "delta": here - off,
				"sec": limbs(uint64(s.Seconds)), "nanos": clamp(int(s.Nanos)), "back": civil(b.In(loc)), "backns": b.Nanosecond(),
				"ms": limbs(uint64(s.GetMilliSeconds())), "msutc": limbs(uint64(s.GetMilliSecondsUtc()))})
		}); tr != "" {
			t.Events = append(t.Events, Ev{"op": "trouble", "what": tr})
		}
	}
	return []*ValTrace{t}
}
