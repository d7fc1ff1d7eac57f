package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
)

func init() { commands["refusals"] = cmdRefusals }

// RefusalTrace is validated by RefusalsTrace.tla
type RefusalTrace struct {
	Id     string `json:"id"`
	Schema []rCol `json:"schema"`
	Events []Ev   `json:"events"`
	Info   string `json:"info"`
}

type rCol struct {
	Kind     string `json:"kind"`
	Nullable bool   `json:"nullable"`
	Kids     []int  `json:"kids"`
}

type rChange struct {
	What string `json:"what"`
	At   int    `json:"at"`
	Row  int    `json:"row"`
}

type rPlan struct {
	Schema []rCol  `json:"schema"`
	N      int     `json:"n"`
	Nul    int     `json:"nul"`
	Change rChange `json:"change"`
	Life   string  `json:"life"`
}

// vectors lists the vectors of a batch in pre-order
func vectors(v *api.ColumnVector) (out []*api.ColumnVector) {
	if v != nil {
		out = append(out, v)
		for _, c := range v.Children {
			out = append(out, vectors(c)...)
		}
	}
	return
}

// described as Refusals.tla has it
func described(v *api.ColumnVector, reading bool) []Ev {
	out := []Ev{}
	var walk func(v *api.ColumnVector) int
	walk = func(v *api.ColumnVector) int {
		e := Ev{"absent": v == nil, "id": 0, "kids": []int{}}
		out = append(out, e)
		at := len(out)
		vals := []Ev{}
		if v != nil {
			e["id"] = int(v.Id)
			for _, x := range v.Vector {
				vals = append(vals, Ev{"null": x.Null, "type": fmt.Sprintf("%T", x.V)})
			}
			kids := []int{}
			for _, c := range v.Children {
				kids = append(kids, walk(c))
			}
			e["kids"] = kids
		}
		if reading {
			e["kind"], e["room"] = "", 0
			if v != nil {
				e["kind"], e["room"] = kindName(v.Kind), cap(v.Vector)
			}
		} else {
			e["vals"] = vals
		}
		return at
	}
	walk(v)
	return out
}

// cells of the columns' vectors, of those that are there
func columnCells(cols []Col, v *api.ColumnVector) [][]Cell {
	out := make([][]Cell, len(cols))
	for i := range out {
		out[i] = []Cell{}
	}
	for _, x := range vectors(v) {
		if int(x.Id) < len(cols) && len(out[x.Id]) == 0 {
			for _, val := range x.Vector {
				out[x.Id] = append(out[x.Id], toCell(cols[x.Id].Kind, val))
			}
		}
	}
	return out
}

// deep text of a batch, to see if it was changed
func batchText(v *api.ColumnVector) string {
	var b bytes.Buffer
	var walk func(v *api.ColumnVector)
	walk = func(v *api.ColumnVector) {
		if v == nil {
			b.WriteString("-")
			return
		}
		fmt.Fprintf(&b, "(%d %d %v %#v", v.Id, v.Kind, v.Vector == nil, v.Vector)
		for _, c := range v.Children {
			walk(c)
		}
		b.WriteString(")")
	}
	walk(v)
	return b.String()
}

// foreign is a value of another type than columns of this kind have
func foreign(kind string, rnd *rand.Rand) interface{} {
	own := fmt.Sprintf("%T", newGen(kind, rnd, Profile{ShortStr: true})(0))
	odd := []interface{}{1, uint16(3), "x", []byte("x"), int32(7), int64(7), int16(7), int8(7), byte(7), true, 1.5, float32(1.5), [1]int{1},
		struct{}{}, &api.Date{}, api.NewDate(2020, 1, 2), api.Timestamp{}, api.Decimal64{}, api.Value{}, fmt.Errorf("x"), []string{"x"}, new(int32)}
	for {
		if v := odd[rnd.Intn(len(odd))]; fmt.Sprintf("%T", v) != own {
			return v
		}
	}
}

// change makes a change, or does not if it cannot be made here; *top may become nil
func change(top **api.ColumnVector, cols []Col, c rChange, rnd *rand.Rand) {
	vs := vectors(*top)
	if c.At > len(vs) {
		return
	}
	v := vs[c.At-1]
	kind := "struct"
	if int(v.Id) < len(cols) {
		kind = cols[v.Id].Kind
	}
	some := func() api.Value {
		if kind == "struct" {
			return api.Value{}
		}
		return api.Value{V: newGen(kind, rnd, Profile{ShortStr: true})(0)}
	}
	switch c.What {
	case "absent":
		if c.At == 1 {
			*top = nil
			return
		}
		for _, p := range vs {
			for j := range p.Children {
				if p.Children[j] == v {
					p.Children[j] = nil
					return
				}
			}
		}
	case "id":
		v.Id += uint32(1 + rnd.Intn(2)*rnd.Intn(1<<16))
	case "more":
		more := []*api.ColumnVector{nil, {}, {Id: v.Id + 1, Kind: pb.Type_INT}, v}[rnd.Intn(3)]
		if len(v.Children) > 0 && rnd.Intn(2) == 0 {
			more = v.Children[rnd.Intn(len(v.Children))]
		}
		v.Children = append(v.Children, more)
	case "less":
		if n := len(v.Children); n > 0 {
			v.Children = v.Children[:n-1]
		}
	case "swap":
		if n := len(v.Children); n > 1 {
			v.Children[0], v.Children[1] = v.Children[1], v.Children[0]
		}
	case "long":
		v.Vector = append(v.Vector, some())
	case "short":
		if n := len(v.Vector); n > 0 {
			v.Vector = v.Vector[:n-1]
		}
	case "null", "type", "nil", "junk":
		if c.Row < 1 || c.Row > len(v.Vector) {
			return
		}
		x := &v.Vector[c.Row-1]
		switch c.What {
		case "null":
			x.Null = true
			if rnd.Intn(2) == 0 {
				x.V = nil
			}
		case "type":
			*x = api.Value{V: foreign(kind, rnd)}
		case "nil":
			*x = api.Value{}
		case "junk": // a null's value is nobody's business
			if x.Null {
				x.V = foreign(kind, rnd)
			}
		}
	case "kind":
		v.Kind = pb.Type_Kind((int(v.Kind) + 1 + rnd.Intn(17)) % 18)
	case "room":
		v.Vector = nil
	case "cut":
		v.Vector = make([]api.Value, 0, 1)
	}
}

var writeChanges = []string{"absent", "id", "more", "less", "swap", "long", "short", "null", "type", "nil", "junk", "type", "null", "nil"}
var readChanges = []string{"absent", "id", "more", "less", "swap", "kind", "room", "cut"}

func cmdRefusals(p *Plan) interface{} {
	var plans []rPlan
	p.arg(&plans)
	out := []*RefusalTrace{}
	for k := 0; k < len(plans)+p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*15487469 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		c := Case{Seed: seed, Opts: randomOpts(rnd), Prof: Profile{ShortStr: true}}
		if rnd.Intn(2) == 0 {
			c.Opts.StripeSize = 1 + rnd.Intn(60)
		}
		life := ""
		var plan rPlan
		if k < len(plans) {
			plan = plans[k]
			life = plan.Life
			c.Cols = planCols(plan.Schema, k+int(p.Seed), rnd)
		} else {
			c.Cols = randomCols(rnd, 1+rnd.Intn(8), nil)
			for j := 1 + rnd.Intn(6); j > 0; j-- {
				life += string("gbbbg"[rnd.Intn(5)])
			}
			plan.N = rnd.Intn(1 + p.Rows)
		}
		// rows of the batches
		sizes := []int{}
		for _, x := range life {
			n := plan.N
			if x == 'g' || k >= len(plans) {
				n = rnd.Intn(4 + plan.N)
			}
			sizes = append(sizes, n)
			c.Rows += n
		}
		c.Batches = sizes
		if k < len(plans) {
			c.Nulls = planNulls(c.Cols, sizes, life, plan.Nul)
		}
		d := newData(c.Cols, c.Rows, rnd, Profile{ShortStr: true, nulls: c.Nulls})
		t := &RefusalTrace{Id: fmt.Sprintf("refusals %d", seed), Schema: []rCol{}, Events: []Ev{}, Info: toJson(c)}
		for _, col := range c.Cols {
			kids := []int{}
			for _, ch := range col.Children {
				kids = append(kids, ch+1)
			}
			t.Schema = append(t.Schema, rCol{col.Kind, col.Nullable, kids})
		}
		out = append(out, t)
		refusals(t, d, c, rnd, func(v **api.ColumnVector) {
			if k < len(plans) {
				change(v, c.Cols, plan.Change, rnd)
				return
			}
			for j := 1 + rnd.Intn(2); j > 0; j-- {
				change(v, c.Cols, rChange{writeChanges[rnd.Intn(len(writeChanges))], 1 + rnd.Intn(len(c.Cols)), 1 + rnd.Intn(1+plan.N)}, rnd)
			}
		}, life)
	}
	return out
}

// planCols: leaves take their turns at kinds
func planCols(schema []rCol, turn int, rnd *rand.Rand) []Col {
	cols := make([]Col, len(schema))
	for i, s := range schema {
		ke := kindEncs[(turn+7*i)%len(kindEncs)]
		cols[i].Id, cols[i].Kind, cols[i].Enc, cols[i].Nullable = i, ke.kind, ke.enc, s.Nullable
		if i == 0 {
			cols[i].Parent = -1
		}
		cols[i].Children, cols[i].Names = []int{}, []string{}
		if s.Kind == "struct" {
			cols[i].Kind, cols[i].Enc = "struct", "direct"
		}
		for _, x := range s.Kids {
			cols[i].Children = append(cols[i].Children, x-1)
			cols[i].Names = append(cols[i].Names, fmt.Sprint("f", x))
		}
	}
	for i := range cols {
		for _, ch := range cols[i].Children {
			cols[ch].Parent = i
		}
	}
	return cols
}

// planNulls: row nul of batches to be changed is null
func planNulls(cols []Col, sizes []int, life string, nul int) map[int][]bool {
	out := map[int][]bool{}
	for i, c := range cols {
		if !c.Nullable {
			continue
		}
		for j, n := range sizes {
			for r := 1; r <= n; r++ {
				out[i] = append(out[i], life[j] == 'b' && r == nul)
			}
		}
	}
	return out
}

func refusals(t *RefusalTrace, d *Data, c Case, rnd *rand.Rand, spoil func(v **api.ColumnVector), life string) {
	add := func(e Ev) { t.Events = append(t.Events, e) }
	// try says whether a call went on without panic
	try := func(what string, f func()) bool {
		if s := guard(f); s != "" {
			add(Ev{"op": "trouble", "what": what + ": " + s})
			return false
		}
		return true
	}
	disk, other := NewDisk(nil), NewDisk(nil)
	var w, twin orc.Writer
	var err error
	if !try("create", func() {
		if w, err = orc.VerifNewWriter(schemaFromCols(d.Cols), c.Opts.opts(), disk.Open()); err == nil {
			twin, err = orc.VerifNewWriter(schemaFromCols(d.Cols), c.Opts.opts(), other.Open())
		}
	}) {
		return
	}
	if err != nil {
		add(Ev{"op": "trouble", "what": "create"})
		return
	}
	write := func(v *api.ColumnVector, good func() *api.ColumnVector) bool {
		desc, cells, text, ops := described(v, false), columnCells(d.Cols, v), batchText(v), len(disk.events)
		was := len(disk.data)
		var err error
		if !try("write", func() { err = w.Write(v) }) {
			return false
		}
		add(Ev{"op": "write", "batch": desc, "cells": cells, "ok": err == nil, "kept": batchText(v) == text,
			"quiet": len(disk.events) == ops && len(disk.data) == was})
		if err != nil {
			return true
		}
		return try("write to the other", func() {
			if err := twin.Write(good()); err != nil {
				panic(fmt.Sprint("refused by the other: ", err))
			}
		})
	}
	at := 0
	make1 := func(j int, changed bool) (*api.ColumnVector, bool) {
		v := ownBytes(d.vector(at, at+c.Batches[j]))
		if changed {
			spoil(&v)
		}
		return v, true
	}
	var last *api.ColumnVector
	for j, x := range life {
		v, _ := make1(j, x == 'b')
		last = v
		if !write(v, func() *api.ColumnVector { return v }) {
			return
		}
		at += c.Batches[j]
	}
	// the end of the writer, twice
	closing := func() bool {
		ops := len(disk.events)
		var err error
		if !try("close", func() { err = w.Close() }) {
			return false
		}
		add(Ev{"op": "wclose", "ok": err == nil, "quiet": len(disk.events) == ops})
		return true
	}
	if !closing() {
		return
	}
	if !try("close the other", func() {
		if err := twin.Close(); err != nil {
			panic(err)
		}
	}) {
		return
	}
	add(Ev{"op": "twin", "same": bytes.Equal(disk.data, other.data)})
	for j := 0; j < 2; j++ {
		if !write(last, func() *api.ColumnVector { return last }) || !closing() {
			return
		}
	}
	add(Ev{"op": "twin", "same": bytes.Equal(disk.data, other.data)})
	readRefusals(t, d, c, rnd, disk)
}

// readRefusals reads the file with calls that fit and calls that do not
func readRefusals(t *RefusalTrace, d *Data, c Case, rnd *rand.Rand, disk *Disk) {
	add := func(e Ev) { t.Events = append(t.Events, e) }
	try := func(what string, f func()) bool {
		if s := guard(f); s != "" {
			add(Ev{"op": "trouble", "what": what + ": " + s})
			return false
		}
		return true
	}
	var r orc.Reader
	var err error
	if !try("open", func() { r, err = orc.VerifNewReader(disk.Open()) }) {
		return
	}
	if err != nil {
		add(Ev{"op": "open", "ok": false, "rows": 0, "nulls": []bool{}})
		return
	}
	_, nulls := flatten(r.GetSchema())
	rows := int(r.NumberOfRows())
	add(Ev{"op": "open", "ok": true, "rows": rows, "nulls": nulls})
	kinds := map[int]string{}
	for _, x := range d.Cols {
		kinds[x.Id] = x.Kind
	}
	create := func(size int, inc []int) (br orc.BatchReader, ok bool) {
		var err error
		if !try("create", func() { br, err = r.CreateBatchReader(&api.BatchOption{RowSize: size, Includes: u32s(inc)}) }) {
			return nil, false
		}
		add(Ev{"op": "create", "size": size, "inc": inc, "ok": err == nil})
		if err != nil {
			br = nil
		}
		return br, true
	}
	next := func(br orc.BatchReader, v *api.ColumnVector) bool {
		desc, text := described(v, true), batchText(v)
		var err error
		if !try("next", func() { _, err = br.Next(v) }) {
			return false
		}
		e := Ev{"op": "next", "vecs": desc, "ok": err == nil, "n": 0, "cols": [][]interface{}{}, "kept": true}
		if err == nil {
			s := &Session{kinds: kinds}
			e["n"], e["cols"] = v.Len(), s.batchCells(v)
		} else {
			// the vectors are as before, or empty
			e["kept"] = batchText(v) == text || v.Len() == 0
		}
		add(e)
		return true
	}
	seek := func(br orc.BatchReader, k uint64) bool {
		var err error
		if !try("seek", func() { err = br.Seek(k) }) {
			return false
		}
		kk := int(k)
		if k > 1<<30 {
			kk = 1 << 30
		}
		add(Ev{"op": "seek", "k": kk, "ok": err == nil})
		return true
	}
	for j := 0; j < 2; j++ {
		size := rnd.Intn(6) - 3
		var v *api.ColumnVector
		var err error
		if !try("vector", func() { v, err = r.GetSchema().CreateVector(&api.BatchOption{RowSize: size}) }) {
			return
		}
		add(Ev{"op": "vector", "size": size, "ok": err == nil && v != nil})
	}
	// readers nobody gets
	for j := 0; j < 3; j++ {
		inc, size := []int{}, 1+rnd.Intn(3)
		for x := rnd.Intn(4); x > 0; x-- {
			inc = append(inc, rnd.Intn(len(d.Cols)+1))
		}
		if rnd.Intn(4) == 0 {
			size = -rnd.Intn(3)
		}
		br, ok := create(size, inc)
		if !ok {
			return
		}
		if br != nil {
			br.Close()
			add(Ev{"op": "bclose"})
		}
	}
	inc := projection(c, rnd.Intn(3))
	if inc == nil {
		inc = []int{}
	}
	br, ok := create(1+rnd.Intn(5), inc)
	if !ok || br == nil {
		return
	}
	opt := &api.BatchOption{RowSize: 1, Includes: u32s(inc)}
	top := findTop(r.GetSchema(), opt)
	vector := func() *api.ColumnVector {
		opt.RowSize = 1 + rnd.Intn(3)
		v, err := top.CreateVector(opt)
		if err != nil {
			panic(err)
		}
		return v
	}
	for j := 0; j < 10; j++ {
		v := vector()
		switch rnd.Intn(7) {
		case 0, 1, 2:
			n := len(vectors(v))
			change(&v, d.Cols, rChange{readChanges[rnd.Intn(len(readChanges))], 1 + rnd.Intn(n), 0}, rnd)
			if rnd.Intn(4) == 0 && v != nil {
				change(&v, d.Cols, rChange{readChanges[rnd.Intn(len(readChanges))], 1 + rnd.Intn(n), 0}, rnd)
			}
		case 3:
			k := uint64(rows + rnd.Intn(3))
			if rnd.Intn(4) == 0 {
				k = ^uint64(0) >> uint(rnd.Intn(34))
			}
			if !seek(br, k) {
				return
			}
		case 4:
			if rows > 0 && !seek(br, uint64(rnd.Intn(rows))) {
				return
			}
		}
		if !next(br, v) {
			return
		}
	}
	try("close", func() { br.Close() })
	add(Ev{"op": "bclose"})
	if !next(br, vector()) || !seek(br, 0) {
		return
	}
	try("close", func() { br.Close(); r.Close(); r.Close() })
	add(Ev{"op": "rclose"})
	create(1, []int{})
}
