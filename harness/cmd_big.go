package main

import (
	"fmt"
	"math/rand"
)

func init() {
	commands["big"] = cmdBig
}

// cmdBig: files of more rows, bytes and distinct strings than 16 bits count; the trace has the cells of some rows only
func cmdBig(p *Plan) interface{} {
	out := []*Trace{}
	var a struct {
		All   int  `json:"all"`   // one of how many is read from start to end
		Index bool `json:"index"` // always
	}
	p.arg(&a)
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*39916801 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		c := bigCase(seed, k+int(p.Seed), p.Rows, rnd)
		c.Opts.WriteIndex = c.Opts.WriteIndex || a.Index
		d, data, wevs, ok := c.make()
		t := newTrace(fmt.Sprintf("big %d", seed), d, c)
		t.Cols = [][]Cell{}
		t.Events = wevs
		out = append(out, t)
		if !ok {
			continue
		}
		s := newSession(NewDisk(data), rnd)
		s.disk.record = false
		s.open()
		s.do(Op{Op: "create"})
		win := func(from, n int) {
			w := Win{From: from}
			if from+n > d.N {
				n = d.N - from
			}
			for _, col := range d.Cells {
				if len(col) > 0 {
					col = col[from : from+n]
				}
				w.Cols = append(w.Cols, col)
			}
			t.Wins = append(t.Wins, w)
		}
		next := func(from int, caps ...int) {
			n := 0
			for _, cap := range caps {
				n += cap
				s.do(Op{Op: "next", Cap: cap})
			}
			win(from, n)
		}
		if (k/8+k)%a.All == 0 { // all of it
			next(0, 1+rnd.Intn(65535), 65536+rnd.Intn(500), c.Rows, c.Rows)
		} else {
			next(0, 1+rnd.Intn(300), 1+rnd.Intn(3000))
		}
		for j := 0; j < 12; j++ {
			to := rnd.Intn(c.Rows)
			switch rnd.Intn(4) {
			case 0:
				to = c.Opts.Stride*rnd.Intn(1+(c.Rows-1)/c.Opts.Stride) + rnd.Intn(3)
			case 1:
				to = 65536 + rnd.Intn(c.Rows-65536)
			case 2:
				to = []int{0, 65535, 65536, 32767, 32768, c.Rows - 1}[rnd.Intn(6)]
			}
			if to >= c.Rows {
				to = c.Rows - 1
			}
			s.do(Op{Op: "seek", K: to})
			next(to, 1+rnd.Intn(200), 1+rnd.Intn(100))
		}
		s.closeAll()
		t.Events = append(t.Events, s.evs...)
	}
	return out
}

// bigCase is a file of 66000 rows or more
func bigCase(seed int64, kind int, rows int, rnd *rand.Rand) Case {
	ke := kindEncs[kind%len(kindEncs)]
	c := Case{Seed: seed, Opts: randomOpts(rnd), Prof: Profile{Unique: rnd.Intn(3) > 0, ShortStr: true}}
	c.Cols = kindCols(ke.kind, ke.enc, rnd.Intn(2) == 0)
	c.Rows = 66000 + rnd.Intn(rows)
	c.Opts.ChunkSize = []int{1000, 30000, 65536, 100000, 262144, 1 << 20}[rnd.Intn(6)]
	c.Opts.StripeSize = []int{1 << 26, 1 << 26, 150000 + rnd.Intn(200000)}[rnd.Intn(3)]
	c.Opts.WriteIndex = rnd.Intn(4) > 0
	c.Opts.Stride = []int{10000, 180 + rnd.Intn(70), 3000 + rnd.Intn(7000), 65536 + rnd.Intn(500), 33000 + rnd.Intn(300)}[rnd.Intn(5)]
	if c.Opts.Stride > 65536 && rnd.Intn(2) == 0 {
		c.Rows = 2*c.Opts.Stride - 1 - rnd.Intn(100)
	}
	if ke.enc == "dictv2" && rnd.Intn(4) > 0 { // that many strings in a stripe
		c.Prof.Unique = true
		c.Rows, c.Opts.StripeSize = 73000+rnd.Intn(rows), 1<<26
		if c.Cols[1].Nullable {
			c.Rows *= 2
		}
	}
	for n := c.Rows; n > 0; {
		b := n
		if rnd.Intn(3) > 0 {
			b = 1 + rnd.Intn(n)
		}
		c.Batches = append(c.Batches, b)
		n -= b
	}
	return c
}
