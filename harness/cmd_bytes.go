package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc/encoding"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
)

func init() {
	commands["byteenc"] = cmdByteEnc
	commands["bytedec"] = cmdByteDec
}

func bits(vs []bool) []int {
	r := make([]int, len(vs))
	for i, v := range vs {
		if v {
			r[i] = 1
		}
	}
	return r
}

// readBytes reads n values through a stream reader
func readBytes(b []byte, n int, rnd *rand.Rand) (vs []int, err error) {
	opts, info, start, disk := layStream(b, rnd, pb.Stream_DATA)
	f := disk.Open()
	if _, err = f.Seek(int64(start), 0); err != nil {
		return
	}
	vs = []int{}
	r := stream.NewByteReader(opts, info, start, f)
	for i := 0; i < n; i++ {
		v, err := r.Next()
		if err != nil {
			return vs, err
		}
		vs = append(vs, int(v))
	}
	return
}

func readBools(b []byte, n int, rnd *rand.Rand) (vs []int, err error) {
	opts, info, start, disk := layStream(b, rnd, pb.Stream_PRESENT)
	f := disk.Open()
	if _, err = f.Seek(int64(start), 0); err != nil {
		return
	}
	vs = []int{}
	r := stream.NewBoolReader(opts, info, start, f)
	for i := 0; i < n; i++ {
		v, err := r.Next()
		if err != nil {
			return vs, err
		}
		vs = append(vs, bits([]bool{v})...)
	}
	return
}

func decodeBytes(b []byte) (vs []int, err error) {
	in := bytes.NewReader(b)
	var x []byte
	for in.Len() > 0 {
		if x, err = encoding.DecodeByteRL(in, x); err != nil {
			return ints(x), err
		}
	}
	return ints(x), nil
}

func decodeBools(b []byte, n int) (vs []int, err error) {
	in := bytes.NewReader(b)
	var x []bool
	for in.Len() > 0 {
		if x, err = encoding.DecodeBools(in, x); err != nil {
			return bits(x), err
		}
	}
	if len(x) > n && len(x) < n+8 {
		x = x[:n] // padding
	}
	return bits(x), nil
}

func encodeByteEvents(segs [][]byte, positions bool, rnd *rand.Rand) (evs []Ev) {
	t := guard(func() {
		enc := encoding.NewByteEncoder(positions)
		for _, seg := range segs {
			var out bytes.Buffer
			for _, v := range seg {
				if err := enc.Encode(v, &out); err != nil {
					evs = append(evs, trouble(fmt.Sprint("encode: ", err)))
					return
				}
			}
			if err := enc.Flush(&out); err != nil {
				evs = append(evs, trouble(fmt.Sprint("flush: ", err)))
				return
			}
			dec, err := decodeBytes(out.Bytes())
			if err != nil {
				evs = append(evs, trouble(fmt.Sprint("decode: ", err)))
				return
			}
			evs = append(evs, Ev{"op": "bytes", "bytes": ints(out.Bytes()), "vals": ints(seg), "dec": dec})
		}
	})
	if t != "" {
		evs = append(evs, trouble(t))
	}
	return
}

func encodeBoolEvents(segs [][]bool, positions bool, rnd *rand.Rand) (evs []Ev) {
	t := guard(func() {
		enc := encoding.NewBoolEncoder(positions)
		for _, seg := range segs {
			var out bytes.Buffer
			for _, v := range seg {
				if err := enc.Encode(v, &out); err != nil {
					evs = append(evs, trouble(fmt.Sprint("encode: ", err)))
					return
				}
			}
			if err := enc.Flush(&out); err != nil {
				evs = append(evs, trouble(fmt.Sprint("flush: ", err)))
				return
			}
			dec, err := decodeBools(out.Bytes(), len(seg))
			if err != nil {
				evs = append(evs, trouble(fmt.Sprint("decode: ", err)))
				return
			}
			evs = append(evs, Ev{"op": "bools", "bytes": ints(out.Bytes()), "vals": bits(seg), "dec": dec})
		}
	})
	if t != "" {
		evs = append(evs, trouble(t))
	}
	return
}

// runs of bytes with lengths around the borders of repeat and literal runs
func byteSeg(rnd *rand.Rand, n int) []byte {
	edges := []int{1, 2, 3, 4, 5, 125, 126, 127, 128, 129, 130, 131, 132, 133, 255, 256, 257, 258, 259, 260, 261, 262, 263, 390, 391}
	var b []byte
	for len(b) < n {
		l := edges[rnd.Intn(len(edges))]
		if rnd.Intn(2) == 0 {
			l = 1 + rnd.Intn(6)
		}
		v := byte(rnd.Intn(3))
		if rnd.Intn(3) == 0 {
			v = byte(rnd.Intn(256))
		}
		lit := rnd.Intn(2) == 0
		for i := 0; i < l; i++ {
			if lit {
				b = append(b, byte(rnd.Intn(256)))
			} else {
				b = append(b, v)
			}
		}
	}
	return b[:n]
}

func boolSeg(rnd *rand.Rand, n int) []bool {
	bs := byteSeg(rnd, n/8+1)
	var v []bool
	for _, b := range bs {
		for i := 7; i >= 0; i-- {
			v = append(v, b>>uint(i)&1 == 1)
		}
	}
	return v[:n]
}

func cmdByteEnc(p *Plan) interface{} {
	var a struct {
		Bytes int `json:"bytes"` // every sequence of two letters up to this length
		Bools int `json:"bools"`
	}
	p.arg(&a)
	var out []*Trace
	var t *Trace
	add := func(id string, evs []Ev) {
		if t == nil || len(t.Events) > 200 {
			t = &Trace{Id: id, Cols: [][]Cell{}, Vec: []bool{}, Events: []Ev{}}
			out = append(out, t)
		}
		t.Events = append(t.Events, evs...)
	}
	nth := 0
	for n := 0; n <= a.Bytes; n++ {
		for k := 0; k < 1<<uint(n); k++ {
			if nth++; !p.mine(nth) {
				continue
			}
			seg := make([]byte, n)
			for i := range seg {
				if k>>uint(i)&1 == 1 {
					seg[i] = 200
				}
			}
			add(fmt.Sprintf("all byte sequences, %d on", nth), encodeByteEvents([][]byte{seg, {7}}, nth%2 == 0, nil))
		}
	}
	for n := 0; n <= a.Bools; n++ {
		for k := 0; k < 1<<uint(n); k++ {
			if nth++; !p.mine(nth) {
				continue
			}
			seg := make([]bool, n)
			for i := range seg {
				seg[i] = k>>uint(i)&1 == 1
			}
			add(fmt.Sprintf("all bool sequences, %d on", nth), encodeBoolEvents([][]bool{seg, {true, false}}, nth%2 == 0, nil))
		}
	}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*86028121 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		t := &Trace{Id: fmt.Sprintf("encoder %d", seed), Cols: [][]Cell{}, Vec: []bool{}, Info: fmt.Sprintf(`{"seed":%d}`, seed), Events: []Ev{}}
		left := 1 + rnd.Intn(p.Rows)
		if k%2 == 0 {
			var segs [][]byte
			for left > 0 && len(segs) < 6 {
				n := rnd.Intn(left + 1)
				segs = append(segs, byteSeg(rnd, n))
				left -= n
			}
			t.Events = encodeByteEvents(segs, rnd.Intn(2) == 0, rnd)
		} else {
			var segs [][]bool
			for left > 0 && len(segs) < 6 {
				n := rnd.Intn(left*3 + 1)
				segs = append(segs, boolSeg(rnd, n))
				left -= n / 3
				if n < 3 {
					left--
				}
			}
			t.Events = encodeBoolEvents(segs, rnd.Intn(2) == 0, rnd)
		}
		out = append(out, t)
	}
	return out
}

// every control byte, in sequences of legal runs, read through streams
func cmdByteDec(p *Plan) interface{} {
	var out []*Trace
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*49979687 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		t := &Trace{Id: fmt.Sprintf("legal runs %d", seed), Cols: [][]Cell{}, Vec: []bool{}, Info: fmt.Sprintf(`{"seed":%d}`, seed), Events: []Ev{}}
		out = append(out, t)
		var b []byte
		for j := 0; j < 1+k%3; j++ {
			c := byte(k)
			if j > 0 {
				c = byte(rnd.Intn(256))
			}
			b = append(b, c)
			n := 1
			if c >= 128 {
				n = 256 - int(c)
			}
			same := rnd.Intn(2) == 0
			for i := 0; i < n; i++ {
				if same {
					b = append(b, c)
				} else {
					b = append(b, byte(rnd.Intn(256)))
				}
			}
		}
		if tr := guard(func() {
			vals, err := decodeBytes(b)
			if err != nil {
				t.Events = append(t.Events, trouble(fmt.Sprint("decode: ", err)))
				return
			}
			dec, err := readBytes(b, len(vals), rnd)
			if err != nil {
				t.Events = append(t.Events, trouble(fmt.Sprint("stream: ", err)))
				return
			}
			t.Events = append(t.Events, Ev{"op": "bytes", "bytes": ints(b), "vals": vals, "dec": dec})
			bs, err := decodeBools(b, len(vals)*8-rnd.Intn(8))
			if err != nil {
				t.Events = append(t.Events, trouble(fmt.Sprint("decode: ", err)))
				return
			}
			dec, err = readBools(b, len(bs), rnd)
			if err != nil {
				t.Events = append(t.Events, trouble(fmt.Sprint("stream: ", err)))
				return
			}
			t.Events = append(t.Events, Ev{"op": "bools", "bytes": ints(b), "vals": bs, "dec": dec})
		}); tr != "" {
			t.Events = append(t.Events, trouble(tr))
		}
	}
	return out
}

var _ = io.EOF
