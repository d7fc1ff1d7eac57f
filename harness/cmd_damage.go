package main

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/patrickhuang888/goorc/orc/api"
)

func init() {
	commands["damage"] = cmdDamage
	commands["damagesites"] = cmdDamageSites
}

// ---- messages as trees: what is inside one can be changed without breaking what is around it ----

type pnode struct {
	no, wire int
	v        uint64
	b        []byte
	kids     []*pnode
	msg      bool
}

// nested messages of orc_proto.proto, by path from the outermost message
var pbNested = map[string][]int{
	"footer": {3, 4, 5, 7}, "footer/7": {2, 3, 4, 5, 6, 7, 8, 9},
	"stripefooter": {1, 2}, "index": {1}, "index/1": {2}, "index/1/2": {2, 3, 4, 5, 6, 7, 8, 9},
	"meta": {1}, "meta/1": {1}, "meta/1/1": {2, 3, 4, 5, 6, 7, 8, 9}, "ps": {},
}

func pbTree(b []byte, path string) (t []*pnode) {
	for _, f := range pbParse(b) {
		n := &pnode{no: f.no, wire: f.wire, v: f.v, b: f.b}
		for _, x := range pbNested[path] {
			if x == f.no && f.wire == 2 {
				n.msg, n.kids = true, pbTree(f.b, fmt.Sprint(path, "/", x))
			}
		}
		t = append(t, n)
	}
	return
}

func pbPut(t []*pnode) (b []byte) {
	for _, n := range t {
		b = putUvarint(b, uint64(n.no)<<3|uint64(n.wire))
		switch {
		case n.msg:
			k := pbPut(n.kids)
			b = append(putUvarint(b, uint64(len(k))), k...)
		case n.wire == 2:
			b = append(putUvarint(b, uint64(len(n.b))), n.b...)
		case n.wire == 0:
			b = putUvarint(b, n.v)
		default:
			w := 8
			if n.wire == 5 {
				w = 4
			}
			for i := 0; i < w; i++ {
				b = append(b, byte(n.v>>uint(8*i)))
			}
		}
	}
	return
}

func pbSet(t []*pnode, no int, v uint64) []*pnode {
	for _, n := range t {
		if n.no == no && n.wire == 0 {
			n.v = v
			return t
		}
	}
	return append(t, &pnode{no: no, v: v})
}

var hugeNums = []uint64{0, 1, 2, 3, 7, 64, 127, 128, 255, 1000, 1 << 16, 1<<23 - 1, 1 << 23, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 + 5,
	1 << 48, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}

func hurtNum(rnd *rand.Rand, v uint64) uint64 {
	if rnd.Intn(5) == 0 {
		return uint64(rnd.Intn(20))
	}
	switch rnd.Intn(4) {
	case 0:
		return v + 1 + uint64(rnd.Intn(3))
	case 1:
		return v - 1 - uint64(rnd.Intn(3))
	case 2:
		return uint64(rnd.Intn(300))
	}
	return hugeNums[rnd.Intn(len(hugeNums))]
}

// hurtTree changes one thing in a tree of fields and says what
func hurtTree(rnd *rand.Rand, t []*pnode, what string) ([]*pnode, string) {
	if len(t) == 0 {
		return append(t, &pnode{no: 1 + rnd.Intn(9), v: hurtNum(rnd, 1)}), what + " gets a field"
	}
	i := rnd.Intn(len(t))
	n := t[i]
	name := fmt.Sprint(what, ".", n.no)
	switch k := rnd.Intn(12); {
	case k == 0: // left out
		return append(append([]*pnode{}, t[:i]...), t[i+1:]...), name + " left out"
	case k == 1: // twice
		return append(append([]*pnode{}, t[:i+1]...), t[i:]...), name + " twice"
	case k == 2: // another of them
		j := rnd.Intn(len(t))
		r := append([]*pnode{}, t...)
		r[i], r[j] = r[j], r[i]
		return r, name + " moved"
	case n.msg:
		n.kids, name = hurtTree(rnd, n.kids, name)
		return t, name
	case n.wire == 2:
		if len(n.b) == 0 || rnd.Intn(6) == 0 {
			n.b = append(append([]byte{}, n.b...), byte(rnd.Intn(256)))
			return t, name + " longer"
		}
		if rnd.Intn(6) == 0 {
			n.b = n.b[:rnd.Intn(len(n.b))]
			return t, name + " shorter"
		}
		if rnd.Intn(2) == 0 { // packed numbers
			var vs []uint64
			ok := func() (ok bool) {
				defer func() { recover() }()
				for _, f := range pbInts([]pbField{{no: 1, wire: 2, b: n.b}}, 1) {
					vs = append(vs, uint64(f))
				}
				return true
			}()
			if ok && len(vs) > 0 {
				vs[rnd.Intn(len(vs))] = hurtNum(rnd, vs[0])
				n.b = nil
				for _, v := range vs {
					n.b = putUvarint(n.b, v)
				}
				return t, name + " number"
			}
		}
		n.b = append([]byte{}, n.b...)
		n.b[rnd.Intn(len(n.b))] = byte(rnd.Intn(256))
		return t, name + " byte"
	case n.wire == 0:
		n.v = hurtNum(rnd, n.v)
		return t, fmt.Sprint(name, " = ", n.v)
	}
	n.v = rnd.Uint64()
	return t, name + " changed"
}

// hurtPlain changes bytes of a stream before it is cut into chunks
func hurtPlain(rnd *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + rnd.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			b = append(b, byte(rnd.Intn(256)))
			continue
		}
		i := rnd.Intn(len(b))
		if rnd.Intn(3) == 0 {
			i = 0
		}
		switch rnd.Intn(8) {
		case 0:
			b[i] ^= 1 << uint(rnd.Intn(8))
		case 1:
			b[i] = []byte{0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x4f, 0xc1, 0x8f, 0x5e, 0x7e}[rnd.Intn(11)]
		case 2:
			b = append(append(append([]byte{}, b[:i]...), byte(rnd.Intn(256)), byte(rnd.Intn(256))), b[i:]...)
		case 3:
			b = b[:i]
		case 4:
			b = append(b, b[i:]...)
		case 5: // a run of one's own
			r := make([]byte, 1+rnd.Intn(30))
			rnd.Read(r)
			b = append(append(append([]byte{}, b[:i]...), r...), b[i:]...)
		case 6: // a long number
			b = append(append(append([]byte{}, b[:i]...), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f), b[i:]...)
		default:
			b[i] = byte(rnd.Intn(256))
		}
	}
	return b
}

// hurtArea changes bytes of a stream as it is on disk
func hurtArea(rnd *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	for k := 1 + rnd.Intn(3); k > 0; k-- {
		i := rnd.Intn(len(b))
		if rnd.Intn(2) == 0 {
			i = rnd.Intn(1 + (len(b)-1)%4)
		}
		b[i] = []byte{b[i] ^ 1<<uint(rnd.Intn(8)), 0, 0xff, byte(rnd.Intn(256))}[rnd.Intn(4)]
	}
	return b
}

type damaged struct {
	data []byte
	what string
	// columns whose content is hurt; nil and meta if what is hurt says how the file is laid out
	cols []int
	meta bool
}

// rebuild writes a file anew from its parts with one part hurt; everything else fits
func rebuild(m *FileMeta, data []byte, rnd *rand.Rand) (d damaged) {
	zip := m.Comp == 1
	wrap := func(b []byte) []byte {
		if !zip {
			return b
		}
		var out []byte
		for len(b) > 0 {
			n := len(b)
			if m.Block > 0 && n > m.Block {
				n = m.Block
			}
			out = append(out, byte(n<<1)|1, byte(n>>7), byte(n>>15))
			out = append(out, b[:n]...)
			b = b[n:]
		}
		return out
	}
	part := []string{"stream", "stream", "stream", "area", "stripefooter", "stripefooter", "index", "index", "footer", "footer", "ps", "meta", "bomb"}[rnd.Intn(13)]
	if len(m.Stripes) == 0 && part != "footer" && part != "meta" {
		part = "ps"
	}
	at := 0
	if len(m.Stripes) > 0 {
		at = rnd.Intn(len(m.Stripes))
	}
	body := append([]byte{}, data[:3]...)
	foot := pbTree(m.Foot.bytes, "footer")
	var sinfo []*pnode
	for _, n := range foot {
		if n.no == 3 && n.msg {
			sinfo = append(sinfo, n)
		}
	}
	d.meta = true
	for i, s := range m.Stripes {
		sf := pbTree(s.Foot.bytes, "stripefooter")
		var sn []*pnode
		for _, n := range sf {
			if n.no == 1 && n.msg {
				sn = append(sn, n)
			}
		}
		start, ilen := len(body), 0
		var pick []int
		for j, st := range s.Streams {
			if (st.Kind == 6) == (part == "index") {
				pick = append(pick, j)
			}
		}
		chosen := -1
		if i == at && len(pick) > 0 {
			chosen = pick[rnd.Intn(len(pick))]
		}
		for j, st := range s.Streams {
			raw := data[st.offset : st.offset+st.Len]
			if j == chosen {
				k := fmt.Sprint("stripe ", i, " column ", st.Col, " stream ", st.Kind)
				switch part {
				case "stream":
					raw = wrap(hurtPlain(rnd, st.Area.bytes))
					d.what, d.cols, d.meta = k, []int{st.Col}, false
				case "area":
					raw = hurtArea(rnd, raw)
					d.what, d.cols, d.meta = k+" raw", []int{st.Col}, false
				case "bomb":
					if zip {
						c := deflated(make([]byte, 1<<uint(20+rnd.Intn(7))))
						if len(c) <= m.Block {
							raw = append([]byte{byte(len(c) << 1), byte(len(c) >> 7), byte(len(c) >> 15)}, c...)
							d.what, d.cols, d.meta = k+" bomb", []int{st.Col}, false
						}
					}
				case "index":
					t, what := hurtTree(rnd, pbTree(st.Area.bytes, "index"), k)
					raw = wrap(pbPut(t))
					d.what = what
				}
			}
			sn[j].kids = pbSet(sn[j].kids, 3, uint64(len(raw)))
			body = append(body, raw...)
			if st.Kind == 6 {
				ilen = len(body) - start
			}
		}
		dlen := len(body) - start - ilen
		if part == "stripefooter" && i == at {
			sf, d.what = hurtTree(rnd, sf, "stripe footer")
		}
		f := wrap(pbPut(sf))
		body = append(body, f...)
		for no, v := range []int{start, ilen, dlen, len(f)} {
			sinfo[i].kids = pbSet(sinfo[i].kids, no+1, uint64(v))
		}
	}
	foot = pbSet(foot, 2, uint64(len(body)))
	tail := m.Size - 1 - m.PsLen
	meta := data[tail-m.FootLen-m.MetaLen : tail-m.FootLen]
	if part == "meta" {
		t, what := hurtTree(rnd, pbTree(m.Meta.bytes, "meta"), "metadata")
		meta, d.what = wrap(pbPut(t)), what
	}
	if part == "footer" {
		foot, d.what = hurtTree(rnd, foot, "footer")
	}
	f := wrap(pbPut(foot))
	ps := pbTree(data[tail:m.Size-1], "ps")
	ps = pbSet(pbSet(ps, 1, uint64(len(f))), 5, uint64(len(meta)))
	if part == "ps" {
		ps, d.what = hurtTree(rnd, ps, "postscript")
	}
	p := pbPut(ps)
	body = append(append(append(body, meta...), f...), p...)
	d.data = append(body, byte(len(p)))
	return
}

// hurtBytes changes bytes anywhere
func hurtBytes(data []byte, rnd *rand.Rand) damaged {
	b := append([]byte{}, data...)
	at := func() int {
		if rnd.Intn(3) == 0 {
			n := 300
			if n > len(b) {
				n = len(b)
			}
			return len(b) - 1 - rnd.Intn(n)
		}
		return rnd.Intn(len(b))
	}
	for k := 1 + rnd.Intn(3); k > 0; k-- {
		switch rnd.Intn(5) {
		case 0:
			b[at()] ^= 1 << uint(rnd.Intn(8))
		case 1:
			b[at()] = []byte{0, 1, 0x7f, 0x80, 0xff, 0xfe}[rnd.Intn(6)]
		case 2:
			i := at()
			v := []byte{0, 0x80, 0xff}[rnd.Intn(3)]
			for j := i; j < len(b) && j < i+1+rnd.Intn(12); j++ {
				b[j] = v
			}
		case 3:
			b[at()] = byte(rnd.Intn(256))
		case 4:
			i, j := at(), at()
			n := 1 + rnd.Intn(20)
			if i+n <= len(b) && j+n <= len(b) {
				copy(b[i:i+n], append([]byte{}, b[j:j+n]...))
			}
		}
	}
	return damaged{data: b, what: "bytes", meta: true}
}

// HurtTrace is validated by DamageTrace
type HurtTrace struct {
	Id     string   `json:"id"`
	What   string   `json:"what"`
	N      int      `json:"n"`
	Meta   bool     `json:"meta"`
	Hurt   []int    `json:"hurt"`
	Cols   [][]Cell `json:"cols"`
	Vec    []bool   `json:"vec"`
	Events []Ev     `json:"events"`
	Info   string   `json:"info"`
}

// below: a column and the ones inside it
func below(cols []Col, at []int) (out []int) {
	hurt := map[int]bool{}
	for _, c := range at {
		hurt[c] = true
	}
	for _, c := range cols {
		if hurt[c.Parent] && c.Id != 0 {
			hurt[c.Id] = true
		}
	}
	for c := range hurt {
		out = append(out, c)
	}
	sort.Ints(out)
	return
}

func treeIds(t *api.TypeDescription) []int {
	ids := []int{int(t.Id)}
	for _, c := range t.Children {
		ids = append(ids, treeIds(c)...)
	}
	return ids
}

func hurtSession(b []byte, seed int64) *Session {
	rnd := rand.New(rand.NewSource(seed))
	s := newSession(NewDisk(b), rnd)
	s.disk.record = false
	s.meter = true
	lastPanic = ""
	if s.open() {
		n := int(s.r.NumberOfRows())
		if n > 200 || n < 0 {
			n = 200
		}
		var inc []int
		if k := len(s.r.GetSchema().Children); k > 1 && rnd.Intn(3) == 0 {
			inc = append([]int{0}, treeIds(s.r.GetSchema().Children[rnd.Intn(k)])...)
		}
		s.do(Op{Op: "create", R: 0, Inc: inc, Cap: 20})
		for i := 0; i <= n+2 && !s.broken; i++ {
			s.do(Op{Op: "next", R: 0, Cap: 1 + rnd.Intn(20)})
			e := s.evs[len(s.evs)-1]
			if e["op"] != "next" || e["end"] == true {
				break
			}
			if e["ok"] == false && rnd.Intn(3) > 0 {
				break
			}
		}
		for i := 0; i < 5; i++ {
			s.do(Op{Op: "seek", R: 0, K: rnd.Intn(1 + n)})
			for j := 1 + rnd.Intn(2); j > 0; j-- {
				s.do(Op{Op: "next", R: 0, Cap: 1 + rnd.Intn(10)})
			}
		}
		s.closeAll()
	}
	return s
}

func hurtCase(p *Plan, k int, f func(c *Case, d *Data, x damaged, j int, seed int64)) {
	seed := p.Seed*6700417 + int64(k)
	c, rnd := smallCase(seed, k, p.Rows)
	d, data, _, ok := c.make()
	if !ok {
		return
	}
	m, err := parseOrc(data)
	if err != nil {
		return
	}
	for j := 0; j < 60; j++ {
		x := damaged{}
		if j%4 == 0 {
			x = hurtBytes(data, rnd)
		} else if x = rebuild(m, data, rnd); x.what == "" {
			continue
		}
		f(&c, d, x, j, rnd.Int63())
	}
}

func cmdDamage(p *Plan) interface{} {
	// what runs away dies here, not in the machine
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	if err := syscall.Setrlimit(syscall.RLIMIT_AS, &lim); err != nil {
		fmt.Fprintln(os.Stderr, "no limit:", err)
	}
	out := []*HurtTrace{}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		hurtCase(p, k, func(c *Case, d *Data, x damaged, j int, seed int64) {
			s, again := hurtSession(x.data, seed), hurtSession(x.data, seed)
			t := &HurtTrace{Id: fmt.Sprint("file ", k, " damage ", j), What: x.what, N: d.N, Meta: x.meta, Events: s.evs,
				Hurt: []int{}, Cols: [][]Cell{}, Vec: []bool{}, Info: toJson(map[string]interface{}{"case": c, "k": k, "j": j, "what": x.what})}
			for i, e := range s.evs {
				e["same"] = i < len(again.evs) && len(again.evs) == len(s.evs) && sameEv(e, again.evs[i])
			}
			for _, e := range s.evs {
				delete(e, "flt")
				if n, ok := e["rows"].(int); ok && (n > 1<<30 || n < 0) {
					e["rows"] = 1 << 30
				}
				if cols, ok := e["cols"].([][]interface{}); ok {
					lens := []int{}
					for _, c := range cols {
						lens = append(lens, len(c[1].([]Cell)))
					}
					e["lens"] = lens
					if x.meta {
						delete(e, "cols")
					}
				}
			}
			if !x.meta {
				t.Hurt, t.Cols, t.Vec = below(d.Cols, x.cols), d.Cells, vecFlags(d.Cols)
			}
			out = append(out, t)
		})
	}
	return out
}

func sameEv(a, b Ev) bool {
	for k, v := range a {
		if k != "mb" && k != "same" && fmt.Sprint(v) != fmt.Sprint(b[k]) {
			return false
		}
	}
	return true
}

var reLine = regexp.MustCompile(`(?m)^\t(\S*/(?:repo|wt|orc|pb)/\S+\.go:\d+)`)

// cmdDamageSites counts where reading damaged files goes wrong; for looking around, no check uses it
func cmdDamageSites(p *Plan) interface{} {
	sites, eg := map[string]int{}, map[string]string{}
	nerr, nok, total := 0, 0, 0
	top := 0
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		hurtCase(p, k, func(c *Case, d *Data, x damaged, j int, seed int64) {
			total++
			s := hurtSession(x.data, seed)
			bad := ""
			for _, e := range s.evs {
				if e["op"] == "trouble" {
					bad = fmt.Sprint(e["what"])
				}
				if e["ok"] == false {
					nerr++
				} else {
					nok++
				}
				if n, ok := e["mb"].(int); ok {
					if n > top {
						top = n
					}
					if n > 40 && bad == "" {
						bad = fmt.Sprint("alloc ", n, "MB by ", e["op"])
						lastPanic = ""
					}
				}
			}
			if bad == "" && j%5 == 0 {
				again := hurtSession(x.data, seed)
				for i, e := range s.evs {
					if len(again.evs) != len(s.evs) || !sameEv(e, again.evs[i]) {
						bad = "another time differs"
					}
				}
			}
			if bad != "" {
				ls := reLine.FindAllStringSubmatch(lastPanic, -1)
				key := regexp.MustCompile(`\d+`).ReplaceAllString(bad, "N")
				for i := 0; i < len(ls) && i < 9; i++ {
					if strings.Contains(ls[i][1], "verifharness") || strings.Contains(ls[i][1], "/harness/") {
						continue
					}
					if strings.Count(key, " | ") < 3 {
						key += " | " + ls[i][1][strings.LastIndex(ls[i][1][:strings.LastIndex(ls[i][1], "/")], "/")+1:]
					}
				}
				sites[key]++
				eg[key] = fmt.Sprint(bad, "; ", x.what, "; seed ", p.Seed, " k ", k, " j ", j)
			}
		})
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	keys := []string{}
	for k := range sites {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool { return sites[keys[a]] > sites[keys[b]] })
	fmt.Fprintln(os.Stderr, "total", total, "ok", nok, "err", nerr, "max mb per call", top)
	for _, k := range keys {
		fmt.Fprintln(os.Stderr, sites[k], k, "    ", eg[k])
	}
	return nil
}
