package main

import (
	"fmt"
	"math/rand"
)

func init() { commands["nulls"] = cmdNulls }

// cmdNulls writes and reads every pattern the specification Nulls has made
func cmdNulls(p *Plan) interface{} {
	var pats []struct {
		S     []bool `json:"s"`
		B     []bool `json:"b"`
		Split []int  `json:"split"`
	}
	p.arg(&pats)
	var out []*Trace
	for k, pat := range pats {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*104729 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		x, b := kindEncs[rnd.Intn(len(kindEncs))], kindEncs[k%len(kindEncs)]
		y := kindEncs[rnd.Intn(len(kindEncs))]
		cols := []Col{
			{Id: 0, Kind: "struct", Enc: "direct", Children: []int{1, 5, 6}, Names: []string{"s", "b", "n"}, Parent: -1},
			{Id: 1, Kind: "struct", Enc: "direct", Nullable: true, Children: []int{2, 3}, Names: []string{"x", "t"}, Parent: 0},
			{Id: 2, Kind: x.kind, Enc: x.enc, Children: []int{}, Names: []string{}, Parent: 1},
			{Id: 3, Kind: "struct", Enc: "direct", Children: []int{4}, Names: []string{"y"}, Parent: 1},
			{Id: 4, Kind: y.kind, Enc: y.enc, Children: []int{}, Names: []string{}, Parent: 3},
			{Id: 5, Kind: b.kind, Enc: b.enc, Nullable: true, Children: []int{}, Names: []string{}, Parent: 0},
			{Id: 6, Kind: "int", Enc: "directv2", Children: []int{}, Names: []string{}, Parent: 0},
		}
		c := Case{Seed: seed, Cols: cols, Rows: len(pat.S), Batches: pat.Split, Prof: Profile{ShortStr: true},
			Opts: WOpts{Compression: "zlib", ChunkSize: 40, StripeSize: 1, WriteIndex: rnd.Intn(2) == 0, Stride: 1 + rnd.Intn(3)}}
		if rnd.Intn(4) == 0 {
			c.Opts.StripeSize = 1 << 20
		}
		if rnd.Intn(5) > 0 { // compressing is slow, and is not the subject
			c.Opts.Compression = "none"
		}
		c.Nulls = map[int][]bool{1: pat.S, 5: pat.B}
		d, data, evs, ok := c.make()
		t := newTrace(fmt.Sprintf("nulls %d", k), d, c)
		t.Events = evs
		if ok {
			s := newSession(NewDisk(data), rnd)
			s.reuse = k%3 != 0
			s.disk.record = false
			s.open()
			cap := 1 + rnd.Intn(len(pat.S)+1)
			s.do(Op{Op: "create", R: 0})
			s.drain(0, cap)
			s.do(Op{Op: "seek", R: 0, K: rnd.Intn(len(pat.S))})
			s.drain(0, cap)
			s.closeAll()
			t.Events = append(t.Events, s.evs...)
		}
		out = append(out, t)
	}
	return out
}
