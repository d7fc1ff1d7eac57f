package main

import (
	"errors"
	"io"
	"sync"

	orcio "github.com/patrickhuang888/goorc/orc/io"
)

// A stand-in for the file system: one in-memory file with any number of handles. Every operation is
// counted, may be made to fail by a fault plan, and is recorded for the handle and i/o specifications.

type FsEvent struct {
	Op   string `json:"op"` // open clone close read seek size write
	H    int    `json:"h"`
	Err  bool   `json:"err"`
	From int    `json:"from"` // handle cloned from
	At   int64  `json:"-"`    // of a read: where, and how many bytes it got
	N    int    `json:"-"`
}

type Fault struct {
	// the k-th operation (1-based, counted per class) of class fails
	Class string // write read seek size clone close
	K     int
	Mode  string // err, short (less bytes, no error), partial (less bytes and an error), eof
	On    bool   // and all later ones
}

type Disk struct {
	free   bool   // read-only, without locks, counts and faults: nothing that would order goroutines
	path   string // a real file instead
	reuse  bool   // one vector for all Write calls
	mu     sync.Mutex
	data   []byte
	next   int
	open   map[int]bool
	events []FsEvent
	record bool
	counts map[string]int
	fault  *Fault
	faults int // operations that failed
	// legal short reads: at most this many bytes for a read, 0 means all
	maxRead int
	writes  []int // length of file after every write
	misuse  string
	rnd     func(n int) int
	eofWith bool // last bytes are returned together with io.EOF
}

func NewDisk(data []byte) *Disk {
	return &Disk{data: data, open: map[int]bool{}, counts: map[string]int{}, record: true}
}

var errInjected = errors.New("injected fault")

type MemFile struct {
	d   *Disk
	h   int
	off int64
}

func (d *Disk) Open() *MemFile {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.next++
	d.open[d.next] = true
	d.ev(FsEvent{Op: "open", H: d.next})
	return &MemFile{d: d, h: d.next}
}

func (d *Disk) ev(e FsEvent) {
	if d.record {
		d.events = append(d.events, e)
	}
}

func (d *Disk) hit(class string) string {
	d.counts[class]++
	if f := d.fault; f != nil && f.Class == class && (f.K == d.counts[class] || f.On && f.K < d.counts[class]) {
		d.faults++
		return f.Mode
	}
	return ""
}

func (d *Disk) use(f *MemFile, op string) {
	if !d.open[f.h] && d.misuse == "" {
		d.misuse = op + " on a closed handle"
	}
}

func (d *Disk) OpenHandles() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.open)
}

func (f *MemFile) Read(p []byte) (n int, err error) {
	d := f.d
	if d.free {
		if f.off >= int64(len(d.data)) {
			return 0, io.EOF
		}
		n = copy(p, d.data[f.off:])
		f.off += int64(n)
		return n, nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.use(f, "read")
	mode := d.hit("read")
	d.ev(FsEvent{Op: "read", H: f.h, Err: mode != ""})
	switch mode {
	case "err":
		return 0, errInjected
	case "eof":
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(d.data)) {
		return 0, io.EOF
	}
	m := len(p)
	if d.maxRead > 0 && m > d.maxRead {
		m = d.maxRead
		if d.rnd != nil {
			m = 1 + d.rnd(d.maxRead)
		}
	}
	n = copy(p[:m], d.data[f.off:])
	if mode == "partial" {
		n = n / 2
		f.off += int64(n)
		return n, errInjected
	}
	f.off += int64(n)
	if k := len(d.events); k > 0 && d.record {
		d.events[k-1].At, d.events[k-1].N = f.off-int64(n), n
	}
	if d.eofWith && f.off >= int64(len(d.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (f *MemFile) Seek(offset int64, whence int) (int64, error) {
	d := f.d
	if d.free {
		if whence == io.SeekCurrent {
			offset += f.off
		} else if whence == io.SeekEnd {
			offset += int64(len(d.data))
		}
		if offset < 0 {
			return 0, errors.New("negative offset")
		}
		f.off = offset
		return offset, nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.use(f, "seek")
	mode := d.hit("seek")
	d.ev(FsEvent{Op: "seek", H: f.h, Err: mode != ""})
	if mode != "" {
		return 0, errInjected
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		offset += f.off
	case io.SeekEnd:
		offset += int64(len(d.data))
	}
	if offset < 0 {
		return 0, errors.New("negative offset")
	}
	f.off = offset
	return offset, nil
}

func (f *MemFile) Close() error {
	d := f.d
	if d.free {
		return nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	mode := d.hit("close")
	d.ev(FsEvent{Op: "close", H: f.h, Err: mode != ""})
	if !d.open[f.h] && d.misuse == "" {
		d.misuse = "close of a closed handle"
	}
	delete(d.open, f.h)
	if mode != "" {
		return errInjected
	}
	return nil
}

func (f *MemFile) Write(p []byte) (n int, err error) {
	d := f.d
	d.mu.Lock()
	defer d.mu.Unlock()
	d.use(f, "write")
	mode := d.hit("write")
	d.ev(FsEvent{Op: "write", H: f.h, Err: mode != ""})
	switch mode {
	case "err":
		return 0, errInjected
	case "partial":
		n = len(p) / 2
		d.data = append(d.data, p[:n]...)
		return n, errInjected
	case "short":
		n = len(p) - 1
		if n < 0 {
			n = 0
		}
		if len(p) > 0 {
			d.data = append(d.data, p[:n]...)
			return n, nil
		}
		d.faults--
		return 0, nil
	}
	d.data = append(d.data, p...)
	d.writes = append(d.writes, len(d.data))
	return len(p), nil
}

func (f *MemFile) Size() (int64, error) {
	d := f.d
	if d.free {
		return int64(len(d.data)), nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.use(f, "size")
	mode := d.hit("size")
	d.ev(FsEvent{Op: "size", H: f.h, Err: mode != ""})
	if mode != "" {
		return 0, errInjected
	}
	return int64(len(d.data)), nil
}

func (f *MemFile) Clone() (orcio.File, error) {
	d := f.d
	if d.free {
		return &MemFile{d: d, off: f.off}, nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.use(f, "clone")
	mode := d.hit("clone")
	if mode != "" {
		d.ev(FsEvent{Op: "clone", H: 0, From: f.h, Err: true})
		return nil, errInjected
	}
	d.next++
	d.open[d.next] = true
	d.ev(FsEvent{Op: "clone", H: d.next, From: f.h})
	return &MemFile{d: d, h: d.next, off: f.off}, nil
}
