package main

import (
	"fmt"
	"math/rand"
)

func init() {
	commands["tails"] = cmdTails
	commands["stripetails"] = cmdStripeTails
}

// TailPlan is a tail of FileTail
type TailPlan struct {
	Head    bool   `json:"head"`
	Mag     string `json:"mag"`
	Psl     string `json:"psl"`
	Fl      string `json:"fl"`
	Ml      int64  `json:"ml"`
	End     int64  `json:"end"`
	Content int64  `json:"content"`
	Stripes []struct {
		Off  int64 `json:"off"`
		Il   int64 `json:"il"`
		Dl   int64 `json:"dl"`
		Fo   int64 `json:"fo"`
		Rows int64 `json:"rows"`
	} `json:"stripes"`
	Rows  int64 `json:"rows"`
	Types []struct {
		Kind  string `json:"kind"`
		Subs  []int  `json:"subs"`
		Names int    `json:"names"`
	} `json:"types"`
	Stats int `json:"stats"`
}

func (t *TailPlan) bytes(rnd *rand.Rand, zip bool) []byte {
	const meta, absent = 5, -1000
	out := []byte("ORC")
	if !t.Head {
		out[rnd.Intn(3)] ^= 1 << uint(rnd.Intn(8))
	}
	for int64(len(out)) < t.End {
		out = append(out, byte(rnd.Intn(256)))
	}
	out = append(out, make([]byte, meta)...)
	var f []byte
	f = pbNum(f, 1, 3)
	if t.Content != absent {
		f = pbNum(f, 2, uint64(t.Content))
	}
	for _, s := range t.Stripes {
		var b []byte
		for i, v := range []int64{s.Off, s.Il, s.Dl, s.Fo, s.Rows} {
			b = pbNum(b, i+1, uint64(v))
		}
		f = pbBytes(f, 3, b)
	}
	for _, x := range t.Types {
		var b []byte
		b = pbNum(b, 1, map[string]uint64{"struct": 12, "list": 10, "map": 11, "int": 3}[x.Kind])
		if len(x.Subs) > 0 {
			b = pbPacked(b, 2, x.Subs)
		}
		for i := 0; i < x.Names; i++ {
			b = pbBytes(b, 3, []byte(fmt.Sprint("f", i)))
		}
		f = pbBytes(f, 4, b)
	}
	f = pbNum(f, 6, uint64(t.Rows))
	for i := 0; i < t.Stats; i++ {
		f = pbBytes(f, 7, pbNum(nil, 1, uint64(t.Rows)))
	}
	f = pbNum(f, 8, 10000)
	if zip {
		n := len(f)
		if c := deflated(f); len(c) < n && rnd.Intn(2) == 0 {
			f = append([]byte{byte(len(c) << 1), byte(len(c) >> 7), byte(len(c) >> 15)}, c...)
		} else {
			f = append([]byte{byte(n<<1) | 1, byte(n >> 7), byte(n >> 15)}, f...)
		}
	}
	ps := func(fl uint64) []byte {
		var b []byte
		b = pbNum(b, 1, fl)
		if zip {
			b = pbNum(pbNum(b, 2, 1), 3, 262144)
		} else {
			b = pbNum(b, 2, 0)
		}
		b = pbPacked(b, 4, []int{0, 12})
		b = pbNum(b, 5, uint64(t.Ml))
		switch t.Mag {
		case "orc":
			b = pbBytes(b, 8000, []byte("ORC"))
		case "other":
			b = pbBytes(b, 8000, []byte([]string{"ORD", "OR", "", "ORCC", "orc"}[rnd.Intn(5)]))
		}
		return b
	}
	fl := uint64(len(f))
	var p []byte
	for i := 0; i < 3; i++ { // its own length may change with what it says
		p = ps(fl)
		size := uint64(len(out) + len(f) + len(p) + 1)
		switch t.Fl {
		case "over": // with the metadata it says there are
			fl = size - 1 - uint64(len(p)) - 3 + 1 - uint64(t.Ml)
		case "size":
			fl = size
		case "wrap":
			fl = 1<<64 - 8
		}
	}
	out = append(append(out, f...), p...)
	n := len(p)
	switch t.Psl {
	case "over":
		n = len(out) + 1
		if n > 255 {
			n = 255
		}
	case "max":
		n = 255
	}
	return append(out, byte(n))
}

// TailTrace is validated by TailTrace
type TailTrace struct {
	Id     string   `json:"id"`
	N      int      `json:"n"`
	Events []TailEv `json:"events"`
	Info   string   `json:"info"`
}

type TailEv struct {
	Op   string    `json:"op"`
	Tail *TailPlan `json:"tail"`
	Ok   bool      `json:"ok"`
	Rows int       `json:"rows"`
	Err  string    `json:"error"`
	What string    `json:"what,omitempty"`
}

// cmdTails opens files with the tails it is given
func cmdTails(p *Plan) interface{} {
	var plans []*TailPlan
	p.arg(&plans)
	out := []*TailTrace{}
	for k := 0; k*250 < len(plans); k++ {
		if !p.mine(k) {
			continue
		}
		t := &TailTrace{Id: fmt.Sprint("tails ", k), Info: fmt.Sprint("tails ", k*250, " and up, seed ", p.Seed)}
		out = append(out, t)
		for i := k * 250; i < len(plans) && i < k*250+250; i++ {
			rnd := rand.New(rand.NewSource(p.Seed*7 + int64(i)))
			s := newSession(NewDisk(plans[i].bytes(rnd, i%3 == 0)), rnd)
			s.disk.record = false
			e := TailEv{Op: "open", Tail: plans[i]}
			e.Ok = s.open()
			if e.Ok {
				e.Rows = -1
				if n := s.r.NumberOfRows(); n < 1<<31 {
					e.Rows = int(n)
				}
			}
			for _, v := range s.evs {
				if v["op"] == "trouble" {
					e.Op, e.What = "trouble", fmt.Sprint(v["what"])
				}
				if x, ok := v["err"]; ok {
					e.Err = fmt.Sprint(x)
				}
			}
			s.closeAll()
			t.Events = append(t.Events, e)
		}
	}
	return out
}

// StripePlan is a stripe of StripeGen
type StripePlan struct {
	T struct {
		Kinds   []string `json:"kinds"`
		Encs    []int    `json:"encs"`
		Il      int      `json:"il"`
		Dl      int      `json:"dl"`
		Streams []struct {
			Col  int   `json:"col"`
			Kind int   `json:"kind"`
			Len  int64 `json:"len"`
		} `json:"streams"`
		Inc []int `json:"inc"`
	} `json:"t"`
	Sound bool `json:"sound"`
}

type StripeEv struct {
	Op   string      `json:"op"`
	Plan *StripePlan `json:"plan"`
	Ok   bool        `json:"ok"`
	Err  string      `json:"error"`
	What string      `json:"what,omitempty"`
}

type StripeTrace struct {
	Id     string     `json:"id"`
	N      int        `json:"n"`
	Events []StripeEv `json:"events"`
	Info   string     `json:"info"`
}

// file of one stripe with this footer
func (p *StripePlan) bytes(zip bool) []byte {
	const rows = 4
	out := []byte("ORC")
	for i := 0; i < p.T.Il+p.T.Dl; i++ { // an index without entries, again and again
		if zip {
			out = append(out, []byte{9, 0, 0, 0x7a, 2, 0, 0}[i%7])
		} else {
			out = append(out, []byte{0x7a, 5, 0, 0, 0, 0, 0}[i%7])
		}
	}
	wrap := func(b []byte) []byte {
		if zip {
			return append([]byte{byte(len(b)<<1) | 1, byte(len(b) >> 7), byte(len(b) >> 15)}, b...)
		}
		return b
	}
	var sf []byte
	for _, s := range p.T.Streams {
		sf = pbBytes(sf, 1, pbNum(pbNum(pbNum(nil, 1, uint64(s.Kind)), 2, uint64(s.Col)), 3, uint64(s.Len)))
	}
	for _, e := range p.T.Encs {
		b := pbNum(nil, 1, uint64(e))
		if e == 3 {
			b = pbNum(b, 2, 1)
		}
		sf = pbBytes(sf, 2, b)
	}
	sf = wrap(sf)
	out = append(out, sf...)
	end := len(out)
	var f []byte
	f = pbNum(pbNum(f, 1, 3), 2, uint64(end))
	var b []byte
	for i, v := range []int{3, p.T.Il, p.T.Dl, len(sf), rows} {
		b = pbNum(b, i+1, uint64(v))
	}
	f = pbBytes(f, 3, b)
	for i, k := range p.T.Kinds {
		b := pbNum(nil, 1, uint64(kindOf[k]))
		if i == 0 {
			b = pbPacked(b, 2, []int{1, 2})
			b = pbBytes(pbBytes(b, 3, []byte("a")), 3, []byte("b"))
		}
		f = pbBytes(f, 4, b)
	}
	f = pbNum(f, 6, rows)
	f = wrap(pbNum(f, 8, 10000))
	var ps []byte
	ps = pbNum(ps, 1, uint64(len(f)))
	if zip {
		ps = pbNum(pbNum(ps, 2, 1), 3, 262144)
	} else {
		ps = pbNum(ps, 2, 0)
	}
	ps = pbBytes(pbNum(pbPacked(ps, 4, []int{0, 12}), 5, 0), 8000, []byte("ORC"))
	return append(append(append(out, f...), ps...), byte(len(ps)))
}

// cmdStripeTails makes batch readers of files with the stripes it is given
func cmdStripeTails(p *Plan) interface{} {
	var plans []*StripePlan
	p.arg(&plans)
	out := []*StripeTrace{}
	for k := 0; k*250 < len(plans); k++ {
		if !p.mine(k) {
			continue
		}
		t := &StripeTrace{Id: fmt.Sprint("stripes ", k), Info: fmt.Sprint("stripes ", k*250, " and up, seed ", p.Seed)}
		out = append(out, t)
		for i := k * 250; i < len(plans) && i < k*250+250; i++ {
			rnd := rand.New(rand.NewSource(p.Seed*7 + int64(i)))
			s := newSession(NewDisk(plans[i].bytes(i%3 == 0)), rnd)
			s.disk.record = false
			e := StripeEv{Op: "create", Plan: plans[i]}
			if s.open() {
				s.do(Op{Op: "create", Inc: plans[i].T.Inc})
			}
			for _, v := range s.evs {
				switch {
				case v["op"] == "trouble":
					e.Op, e.What = "trouble", fmt.Sprint(v["what"])
				case v["op"] == "create":
					e.Ok = v["ok"].(bool)
				case v["ok"] != true:
					e.Op = "refused"
				}
				if x, ok := v["err"]; ok {
					e.Err = fmt.Sprint(x)
				}
			}
			s.closeAll()
			t.Events = append(t.Events, e)
		}
	}
	return out
}
