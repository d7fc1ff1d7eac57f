package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc/api"
)

func init() {
	commands["truncate"] = cmdTruncate
	commands["wfaults"] = cmdWriteFaults
	commands["rfaults"] = cmdReadFaults
	commands["sfaults"] = cmdSeekFaults
}

// smallCase is a file of few rows, in several stripes more often than not
func smallCase(seed int64, k, max int) (Case, *rand.Rand) {
	rnd := rand.New(rand.NewSource(seed))
	c := Case{Seed: seed, Opts: randomOpts(rnd), Prof: Profile{ShortStr: true}}
	if k%2 == 0 {
		ke := kindEncs[(k/2)%len(kindEncs)]
		c.Cols = kindCols(ke.kind, ke.enc, rnd.Intn(2) == 0)
	} else {
		c.Cols = randomCols(rnd, 1+rnd.Intn(5), nil)
	}
	c.Rows = rnd.Intn(1 + max)
	if rnd.Intn(8) == 0 {
		c.Rows = 0
	}
	switch rnd.Intn(3) {
	case 0:
		c.Opts.StripeSize = 1
	case 1:
		c.Opts.StripeSize = 1 + rnd.Intn(20+c.Rows*4)
	}
	if rnd.Intn(2) == 0 {
		c.Opts.Stride = 1 + rnd.Intn(1+c.Rows)
	}
	if c.Opts.Stride < c.Rows/20 {
		c.Opts.Stride = c.Rows / 20
	}
	c.Batches = splitRows(rnd, c.Rows)
	if len(c.Batches) > 12 && c.Opts.StripeSize < 100 {
		c.Batches = []int{c.Rows / 2, 0, c.Rows - c.Rows/2}
	}
	return c, rnd
}

// cmdTruncate opens what is left of files when writing ends early: every prefix of the bytes
func cmdTruncate(p *Plan) interface{} {
	out := []*Trace{}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*6700417 + int64(k)
		c, rnd := smallCase(seed, k, p.Rows)
		d, _ := c.data()
		if k%4 == 3 { // a cell that holds a whole file: a prefix of the outer file ends like a complete one
			var inner []byte
			ic, _ := smallCase(seed+1, k, 20)
			if rnd.Intn(2) == 0 {
				ic = c
			}
			ic.Opts.Compression = []string{"none", "zlib"}[rnd.Intn(2)]
			_, inner, _, _ = ic.make()
			ke := [][2]string{{"binary", "directv2"}, {"string", "directv2"}, {"string", "dictv2"}}[rnd.Intn(3)]
			c.Cols = kindCols(ke[0], ke[1], rnd.Intn(2) == 0)
			c.Opts.Compression = []string{"none", "none", "zlib"}[rnd.Intn(3)]
			d, _ = c.data()
			for r := 0; r < d.N; r++ {
				if !d.Vals[1][r].Null && rnd.Intn(1+d.N/3) == 0 {
					if ke[0] == "binary" {
						d.Vals[1][r] = api.Value{V: inner}
					} else {
						d.Vals[1][r] = api.Value{V: string(inner)}
					}
				}
			}
			d.fillCells()
		}
		disk := NewDisk(nil)
		disk.record = false
		evs, ok := writeFile(d, c.Opts, c.Batches, disk)
		t := newTrace(fmt.Sprintf("truncated %d", seed), d, c)
		t.Cols, t.Vec = [][]Cell{}, []bool{}
		out = append(out, t)
		if !ok {
			t.Events = evs
			continue
		}
		data := disk.data
		// ends worth a look when there are too many: around writes, around magic, some others
		cuts := map[int]bool{}
		if len(data) > 1200 {
			around := func(x int) {
				for y := x - 2; y <= x+2; y++ {
					cuts[y] = true
				}
			}
			for _, w := range disk.writes {
				around(w)
			}
			for x := range data {
				if bytes.HasPrefix(data[x:], []byte("ORC")) {
					around(x + 3)
				}
			}
			for j := 0; j < 400; j++ {
				cuts[rnd.Intn(len(data))] = true
			}
			for x := 0; x < 40; x++ {
				cuts[x], cuts[len(data)-1-x] = true, true
			}
		}
		t.Events = append(t.Events, evs[:len(evs)-1]...)
		t.Events = append(t.Events, Ev{"op": "crash", "flt": false})
		whole := *t
		for n := 0; n < len(data); n++ {
			if len(cuts) > 0 && !cuts[n] {
				continue
			}
			s := newSession(NewDisk(data[:n:n]), rnd)
			s.disk.record = false
			if s.open() {
				s.readAll(0, d.N, func() int { return 1 + d.N })
			}
			for _, e := range s.evs {
				delete(e, "err")
				e["len"] = n
			}
			t.Events = append(t.Events, s.evs...)
			if len(s.evs) > 1 {
				break
			}
		}
		// and the complete file opens
		s := newSession(NewDisk(data), rnd)
		s.disk.record = false
		s.open()
		whole.Id += " not at all"
		whole.Events = append(append([]Ev{}, evs...), s.evs...)
		out = append(out, &whole)
	}
	return out
}

// cmdWriteFaults makes every operation of writing a file fail, one at a time and from one on
func cmdWriteFaults(p *Plan) interface{} {
	out := []*Trace{}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*2971215073 + int64(k)
		c, rnd := smallCase(seed, k, p.Rows)
		d, _ := c.data()
		probe := NewDisk(nil)
		probe.record = false
		if _, ok := writeFile(d, c.Opts, c.Batches, probe); !ok {
			probe.counts = map[string]int{}
		}
		add := func(f *Fault) {
			disk := NewDisk(nil)
			disk.record = false
			disk.fault = f
			evs, _ := writeFile(d, c.Opts, c.Batches, disk)
			t := newTrace(fmt.Sprintf("write faults %d %s", seed, toJson(f)), d, c)
			t.Cols, t.Vec = [][]Cell{}, []bool{}
			t.Events = evs
			if disk.misuse != "" {
				t.Events = append(t.Events, Ev{"op": "trouble", "what": disk.misuse, "flt": false})
			}
			complete := f == nil
			for _, e := range evs {
				complete = complete || e["op"] == "wclose" && e["ok"] == true && disk.faults == 0
			}
			if complete {
				s := newSession(NewDisk(disk.data), rnd)
				s.disk.record = false
				s.open()
				t.Cols, t.Vec = d.Cells, vecFlags(d.Cols)
				s.readAll(0, d.N, func() int { return 1 + d.N/2 })
				t.Events = append(t.Events, s.evs...)
			}
			out = append(out, t)
		}
		add(nil)
		for _, class := range []string{"write", "close", "seek", "size", "clone", "read"} {
			n := probe.counts[class]
			for at := 1; at <= n; at++ {
				if n > 60 && at > 20 && at < n-20 && rnd.Intn(n) > 30 {
					continue
				}
				for _, m := range []string{"err", "partial", "short"} {
					if class != "write" && m != "err" {
						continue
					}
					for _, on := range []bool{false, true} {
						if on && m != "err" && rnd.Intn(3) > 0 {
							continue
						}
						add(&Fault{Class: class, K: at, Mode: m, On: on})
					}
				}
			}
		}
	}
	return out
}

// cmdReadFaults makes every operation of a reading session fail, one at a time and from one on
func cmdReadFaults(p *Plan) interface{} {
	out := []*Trace{}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*433494437 + int64(k)
		c, rnd := smallCase(seed, k, p.Rows)
		if rnd.Intn(3) > 0 {
			c.Opts.WriteIndex = true
			if c.Opts.Stride > c.Rows {
				c.Opts.Stride = 1 + c.Rows/3
			}
		}
		d, data, wevs, ok := c.make()
		// one history, run again with every fault
		ops := []Op{{Op: "create", R: 0}}
		n := 4 + rnd.Intn(8)
		two := rnd.Intn(3) == 0
		if two {
			ops = append(ops, Op{Op: "create", R: 1, Inc: projection(c, 1+rnd.Intn(4))})
		}
		for j := 0; j < n; j++ {
			r := 0
			if two {
				r = rnd.Intn(2)
			}
			if rnd.Intn(3) == 0 {
				ops = append(ops, Op{Op: "seek", R: r, K: rnd.Intn(2 + c.Rows)})
			} else {
				ops = append(ops, Op{Op: "next", R: r, Cap: 1 + rnd.Intn(1+c.Rows/2)})
			}
		}
		run := func(f *Fault) *Disk {
			disk := NewDisk(data)
			disk.record = false
			disk.fault = f
			s := newSession(disk, rand.New(rand.NewSource(seed)))
			t := newTrace(fmt.Sprintf("read faults %d %s", seed, toJson(f)), d, c)
			out = append(out, t)
			if s.open() {
				for _, o := range ops {
					s.do(o)
				}
				// after the fault: a Seek makes it good again
				for r := 0; r < 2; r++ {
					if s.brs[r] != nil {
						s.do(Op{Op: "seek", R: r, K: 0})
						s.drain(r, 1+c.Rows)
					}
				}
			} else if f != nil && !f.On {
				s.open()
			}
			s.closeAll()
			if disk.misuse != "" {
				s.add(Ev{"op": "trouble", "what": disk.misuse})
			}
			for _, e := range s.evs {
				delete(e, "err")
			}
			t.Events = append(append([]Ev{}, wevs...), s.evs...)
			return disk
		}
		if !ok {
			t := newTrace(fmt.Sprintf("read faults %d", seed), d, c)
			t.Events = wevs
			out = append(out, t)
			continue
		}
		probe := run(nil)
		for _, class := range []string{"read", "seek", "size", "clone"} {
			n := probe.counts[class]
			for at := 1; at <= n; at++ {
				if n > 80 && at > 30 && at < n-20 && rnd.Intn(n) > 40 {
					continue
				}
				for _, m := range []string{"err", "eof", "partial"} {
					if class != "read" && m != "err" {
						continue
					}
					f := &Fault{Class: class, K: at, Mode: m, On: rnd.Intn(4) == 0}
					if n > 80 && rnd.Intn(3) > 0 {
						continue
					}
					run(f)
				}
			}
		}
	}
	return out
}

// cmdSeekFaults makes reads of long seeks fail: one stripe of many rows in many small chunks, so that going to a row of
// an index entry reads several chunks of each stream, and what it skips over there spans chunks too
func cmdSeekFaults(p *Plan) interface{} {
	out := []*Trace{}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*1134903170 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		ke := kindEncs[(k+int(p.Seed))%len(kindEncs)]
		c := Case{Seed: seed, Opts: randomOpts(rnd), Prof: Profile{ShortStr: true}}
		c.Cols = kindCols(ke.kind, ke.enc, k%4 != 3)
		c.Opts.WriteIndex = true
		c.Opts.Compression = []string{"zlib", "zlib", "zlib", "none"}[rnd.Intn(4)]
		c.Opts.ChunkSize = 4 + rnd.Intn(60)
		c.Opts.StripeSize = 1 << 24
		c.Rows = 1030 + rnd.Intn(p.Rows)
		switch rnd.Intn(3) {
		case 0:
			c.Opts.Stride = 1024 + rnd.Intn(8)
		case 1:
			c.Opts.Stride = 512 + rnd.Intn(8)
		default:
			c.Opts.Stride = 100 + rnd.Intn(1000)
		}
		c.Batches = []int{c.Rows}
		d, data, wevs, ok := c.make()
		t := newTrace(fmt.Sprintf("seek faults %d", seed), d, c)
		t.Events = wevs
		out = append(out, t)
		if !ok {
			continue
		}
		ops := []Op{}
		for j := 0; j < 2; j++ {
			to := rnd.Intn(c.Rows)
			if rnd.Intn(3) > 0 { // right behind an entry
				to = c.Opts.Stride*rnd.Intn(1+c.Rows/c.Opts.Stride) + rnd.Intn(4)
			}
			ops = append(ops, Op{Op: "seek", K: to}, Op{Op: "next", Cap: 1 + rnd.Intn(8)})
		}
		run := func(f *Fault) (*Disk, int) {
			disk := NewDisk(data)
			disk.record = false
			disk.fault = f
			s := newSession(disk, rand.New(rand.NewSource(seed)))
			before := 0
			if s.open() {
				s.do(Op{Op: "create"})
				before = disk.counts["read"]
				for _, o := range ops {
					s.do(o)
				}
				if s.brs[0] != nil {
					s.do(Op{Op: "seek", K: rnd.Intn(c.Rows)})
					s.do(Op{Op: "next", Cap: 1 + rnd.Intn(4)})
				}
			}
			s.closeAll()
			if disk.misuse != "" {
				s.add(Ev{"op": "trouble", "what": disk.misuse})
			}
			for _, e := range s.evs {
				delete(e, "err")
				e["fault"] = toJson(f)
			}
			t.Events = append(t.Events, s.evs...)
			return disk, before
		}
		probe, first := run(nil)
		n := probe.counts["read"] - first
		for j := 0; j < 24 && n > 0; j++ {
			m := []string{"err", "eof", "partial"}[rnd.Intn(3)]
			run(&Fault{Class: "read", K: first + 1 + rnd.Intn(n), Mode: m, On: rnd.Intn(5) == 0})
		}
	}
	return out
}
