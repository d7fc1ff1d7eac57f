package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
)

func init() { commands["chunks"] = cmdChunks }

// a stream kind: how values are written, read and positioned
type streamKind struct {
	name   string
	writer func(o *config.WriterOptions) stream.Writer
	gen    func(rnd *rand.Rand, n int) []interface{}
	reader func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (next func(i int) (interface{}, error), seek func(p []uint64) error)
}

func same(a, b interface{}) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	if x, ok := a.(float32); ok {
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	}
	return a == b
}

func show(v interface{}) []int {
	switch x := v.(type) {
	case []byte:
		return ints(x)
	case bool:
		return bits([]bool{x})
	case byte:
		return []int{int(x)}
	case int64:
		return limbs(uint64(x))
	case uint64:
		return limbs(x)
	case float32:
		return limbs(uint64(math.Float32bits(x)))
	case float64:
		return limbs(math.Float64bits(x))
	}
	return []int{-1}
}

func wrap(vs []uint64, signed bool) (r []interface{}) {
	for _, v := range vs {
		if signed {
			r = append(r, int64(v))
		} else {
			r = append(r, v)
		}
	}
	return
}

var streamKinds = []streamKind{
	{"content", func(o *config.WriterOptions) stream.Writer {
		return stream.NewStringContentsWriter(1, pb.Stream_DATA, o)
	},
		func(rnd *rand.Rand, n int) (r []interface{}) {
			max := []int{3, 20, 200}[rnd.Intn(3)]
			zip := rnd.Intn(2) == 0
			for n > 0 {
				b := make([]byte, rnd.Intn(max+1))
				rnd.Read(b)
				if zip {
					for i := range b {
						b[i] = 'a' + b[i]%2
					}
				}
				r = append(r, b)
				n -= len(b) + 1
			}
			return
		},
		func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (func(int) (interface{}, error), func([]uint64) error) {
			r := stream.NewStringContentsReader(o, info, start, f)
			return func(i int) (interface{}, error) { return r.NextBytes(uint64(len(vals[i].([]byte)))) },
				func(p []uint64) error { return r.Seek(p[0], p[1]) }
		}},
	{"byte", func(o *config.WriterOptions) stream.Writer { return stream.NewByteWriter(1, pb.Stream_DATA, o) },
		func(rnd *rand.Rand, n int) (r []interface{}) {
			for _, b := range byteSeg(rnd, n) {
				r = append(r, b)
			}
			return
		},
		func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (func(int) (interface{}, error), func([]uint64) error) {
			r := stream.NewByteReader(o, info, start, f)
			return func(int) (interface{}, error) { return r.Next() }, func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }
		}},
	{"bool", func(o *config.WriterOptions) stream.Writer { return stream.NewBoolWriter(1, pb.Stream_DATA, o) },
		func(rnd *rand.Rand, n int) (r []interface{}) {
			for _, b := range boolSeg(rnd, n) {
				r = append(r, b)
			}
			return
		},
		func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (func(int) (interface{}, error), func([]uint64) error) {
			r := stream.NewBoolReader(o, info, start, f)
			return func(int) (interface{}, error) { return r.Next() }, func(p []uint64) error { return r.Seek(p[0], p[1], p[2], p[3]) }
		}},
	{"int", func(o *config.WriterOptions) stream.Writer {
		return stream.NewIntRLV2Writer(1, pb.Stream_DATA, o, true)
	},
		func(rnd *rand.Rand, n int) []interface{} { return wrap(randomSegment(rnd, n, true), true) },
		func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (func(int) (interface{}, error), func([]uint64) error) {
			r := stream.NewIntRLV2Reader(o, info, start, true, f)
			return func(int) (interface{}, error) { return r.NextInt64() }, func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }
		}},
	{"uint", func(o *config.WriterOptions) stream.Writer {
		return stream.NewIntRLV2Writer(1, pb.Stream_DATA, o, false)
	},
		func(rnd *rand.Rand, n int) []interface{} { return wrap(randomSegment(rnd, n, false), false) },
		func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (func(int) (interface{}, error), func([]uint64) error) {
			r := stream.NewIntRLV2Reader(o, info, start, false, f)
			return func(int) (interface{}, error) { return r.NextUInt64() }, func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }
		}},
	{"float", func(o *config.WriterOptions) stream.Writer { return stream.NewFloatWriter(1, pb.Stream_DATA, o, false) },
		func(rnd *rand.Rand, n int) (r []interface{}) {
			for i := 0; i < n/4+1; i++ {
				r = append(r, math.Float32frombits(rnd.Uint32()))
			}
			return
		},
		func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (func(int) (interface{}, error), func([]uint64) error) {
			r := stream.NewFloatReader(o, info, start, f, false)
			return func(int) (interface{}, error) { return r.NextFloat() }, func(p []uint64) error { return r.Seek(p[0], p[1]) }
		}},
	{"double", func(o *config.WriterOptions) stream.Writer { return stream.NewFloatWriter(1, pb.Stream_DATA, o, true) },
		func(rnd *rand.Rand, n int) (r []interface{}) {
			for i := 0; i < n/8+1; i++ {
				r = append(r, float64(rnd.Intn(100)))
			}
			return
		},
		func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (func(int) (interface{}, error), func([]uint64) error) {
			r := stream.NewFloatReader(o, info, start, f, true)
			return func(int) (interface{}, error) { return r.NextDouble() }, func(p []uint64) error { return r.Seek(p[0], p[1]) }
		}},
	{"varint", func(o *config.WriterOptions) stream.Writer { return stream.NewVarint64V2Writer(1, pb.Stream_DATA, o) },
		func(rnd *rand.Rand, n int) []interface{} { return wrap(randomSegment(rnd, n/4+1, true), true) },
		func(o *config.ReaderOptions, info *pb.Stream, start uint64, f *MemFile, vals []interface{}) (func(int) (interface{}, error), func([]uint64) error) {
			r := stream.NewVarIntReader(o, info, start, f)
			return func(int) (interface{}, error) { return r.NextInt64() }, func(p []uint64) error { return r.Seek(p[0], p[1], 0) }
		}},
}

func wopts(comp bool, chunk int) *config.WriterOptions {
	o := config.DefaultWriterOptions()
	o.WriteIndex = true
	o.ChunkSize = chunk
	o.CompressionKind = pb.CompressionKind_NONE
	if comp {
		o.CompressionKind = pb.CompressionKind_ZLIB
	}
	return &o
}

// padSeek: without compression a position has no chunk offset
func padSeek(p []uint64, comp bool) []uint64 {
	if comp {
		return p
	}
	return append([]uint64{p[0], 0}, p[1:]...)
}

type posAt struct {
	i int
	p []uint64
}

// writeStream writes values and notes positions before some of them
func writeStream(w stream.Writer, vals []interface{}, at map[int]bool) (raw []byte, length int, ps []posAt, err error) {
	for i, v := range vals {
		if at[i] {
			ps = append(ps, posAt{i, append([]uint64{}, w.GetPosition()...)})
		}
		if err = w.Write(v); err != nil {
			return
		}
	}
	if err = w.Flush(); err != nil {
		return
	}
	length = int(w.Info().GetLength())
	var b bytes.Buffer
	if _, err = w.WriteOut(&b); err != nil {
		return
	}
	return b.Bytes(), length, ps, nil
}

func cmdChunks(p *Plan) interface{} {
	var out []*Trace
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*67867967 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		kind := streamKinds[k%len(streamKinds)]
		comp := rnd.Intn(4) > 0
		size := []int{1, 2, 3, 5, 8, 13, 64, 100, 257, 1000, 65536}[rnd.Intn(11)]
		t := &Trace{Id: fmt.Sprintf("%s stream %d", kind.name, seed), Cols: [][]Cell{}, Vec: []bool{}, Events: []Ev{},
			Info: fmt.Sprintf(`{"seed":%d,"comp":%v,"size":%d}`, seed, comp, size)}
		out = append(out, t)
		add := func(e Ev) { t.Events = append(t.Events, e) }
		w := kind.writer(wopts(comp, size))
		for round := 0; round < 1+rnd.Intn(3); round++ { // a writer is used again for the next stripe
			max := p.Rows
			if size < 10 {
				max = 200 // compressing a chunk is slow
			}
			vals := kind.gen(rnd, 1+rnd.Intn(max))
			if tr := guard(func() {
				at := map[int]bool{}
				for i := 0; i < 8; i++ {
					at[rnd.Intn(len(vals)+1)] = true
				}
				plain, _, _, err := writeStream(kind.writer(wopts(false, size)), vals, nil)
				if err != nil {
					add(trouble(fmt.Sprint("write without compression: ", err)))
					return
				}
				if kind.name == "content" {
					plain = nil
					for _, v := range vals {
						plain = append(plain, v.([]byte)...)
					}
				}
				raw, length, ps, err := writeStream(w, vals, at)
				w.Reset()
				if err != nil {
					add(trouble(fmt.Sprint("write: ", err)))
					return
				}
				area, err := safeArea(raw, comp)
				if err != nil {
					add(trouble(fmt.Sprint("chunks: ", err)))
					return
				}
				chunks := area.Chunks
				add(Ev{"op": "written", "size": size, "comp": comp, "raw": len(raw), "chunks": chunks, "plain": area.Plain,
					"input": ints(plain), "length": length})
				// read it back, from this layout and from another one of the same bytes
				for lay := 0; lay < 2; lay++ {
					ro := config.DefaultReaderOptions()
					ro.ChunkSize = uint64(size)
					ro.CompressionKind = wopts(comp, size).CompressionKind
					col, l, sk := uint32(1), uint64(len(raw)), pb.Stream_DATA
					info, start, disk := &pb.Stream{Kind: &sk, Column: &col, Length: &l}, uint64(5), NewDisk(append([]byte("ORC\x01\x02"), append(raw, 9, 9, 9)...))
					o := &ro
					if lay == 1 {
						o, info, start, disk = layStream(plain, rnd, pb.Stream_DATA)
					}
					disk.record = false
					f := disk.Open()
					f.Seek(int64(start), 0)
					next, seek := kind.reader(o, info, start, f, vals)
					read := func(i, n int) (got [][]int, err error) {
						got = [][]int{}
						for ; n > 0 && i < len(vals); n-- {
							v, err := next(i)
							if err != nil {
								return got, err
							}
							got = append(got, show(v))
							i++
						}
						return
					}
					want := func(i, n int) [][]int {
						r := [][]int{}
						for ; n > 0 && i < len(vals); n-- {
							r = append(r, show(vals[i]))
							i++
						}
						return r
					}
					got, err := read(0, len(vals))
					if err != nil {
						add(trouble(fmt.Sprint("read: ", err)))
						return
					}
					add(Ev{"op": "read", "input": want(0, len(vals)), "got": got})
					if lay == 1 {
						continue
					}
					rnd.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
					for _, x := range ps {
						n := 1 + rnd.Intn(40)
						if err := seek(padSeek(x.p, comp)); err != nil {
							add(trouble(fmt.Sprint("seek: ", err)))
							return
						}
						got, err := read(x.i, n)
						if err != nil {
							add(trouble(fmt.Sprint("read after seek: ", err)))
							return
						}
						add(Ev{"op": "position", "want": want(x.i, n), "got": got})
					}
				}
			}); tr != "" {
				add(trouble(tr))
				break
			}
		}
	}
	return out
}

func safeArea(b []byte, comp bool) (a *Area, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	return readArea(b, comp), nil
}
