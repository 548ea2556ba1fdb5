package main

import "sort"

// The simulated disk: what programs see (cur) and what would survive a loss of
// power (durable, and of what came since whatever the crash lets through).

type pendOp struct {
	off   int64
	data  []byte // nil: truncation to off
	trunc bool
}

type inode struct {
	id      int64
	cur     []byte
	durable []byte
	pend    []pendOp
	shared  map[int64]bool // handles holding SHARED or more
	resv    int64          // the handle holding RESERVED, PENDING or EXCLUSIVE
	level   int            // of that handle
}

type dirOp struct {
	name string
	ino  *inode // nil: removal
}

type handle struct {
	id    int64
	ino   *inode
	proc  int
	name  string
	del   bool // delete on close
	level int
}

type disk struct {
	names   map[string]*inode // as seen
	durable map[string]*inode
	pend    []dirOp
	handles map[int64]*handle
	nextH   int64
	nextI   int64
}

func newDisk() *disk {
	return &disk{names: map[string]*inode{}, durable: map[string]*inode{}, handles: map[int64]*handle{}}
}

// image is a disk at rest.
type image map[string][]byte

func (d *disk) load(im image) {
	var names []string
	for n := range im {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d.nextI++
		b := append([]byte{}, im[n]...)
		i := &inode{id: d.nextI, cur: b, durable: append([]byte{}, b...), shared: map[int64]bool{}}
		d.names[n] = i
		d.durable[n] = i
	}
}

func (d *disk) save() image {
	im := image{}
	for n, i := range d.names {
		im[n] = append([]byte{}, i.cur...)
	}
	return im
}

// SQLite's result codes.
const (
	sqlOK        = 0
	sqlBusy      = 5
	sqlIOErr     = 10
	sqlFull      = 13
	sqlCantOpen  = 14
	sqlShortRead = 522
)

const (
	openCreate        = 4
	openDeleteOnClose = 8
	openExclusive     = 16
)

func (d *disk) open(proc int, name string, flags int64) (int64, int64) {
	d.nextH++
	h := &handle{id: d.nextH, proc: proc, name: name}
	if name == "" {
		d.nextI++
		h.ino = &inode{id: d.nextI, shared: map[int64]bool{}}
	} else {
		i, ok := d.names[name]
		if ok && flags&openExclusive != 0 && flags&openCreate != 0 {
			return sqlCantOpen, 0
		}
		if !ok {
			if flags&openCreate == 0 {
				return sqlCantOpen, 0
			}
			d.nextI++
			i = &inode{id: d.nextI, shared: map[int64]bool{}}
			d.names[name] = i
			d.pend = append(d.pend, dirOp{name, i})
		}
		h.ino = i
		h.del = flags&openDeleteOnClose != 0
	}
	d.handles[h.id] = h
	return sqlOK, h.id
}

func (d *disk) close(id int64) {
	h := d.handles[id]
	if h == nil {
		return
	}
	d.unlock(h, 0)
	delete(d.handles, id)
	if h.del {
		d.remove(h.name, false)
	}
}

func (d *disk) read(h *handle, off, n int64) ([]byte, int64) {
	c := h.ino.cur
	if off >= int64(len(c)) {
		return nil, sqlShortRead
	}
	end := off + n
	rc := int64(sqlOK)
	if end > int64(len(c)) {
		end, rc = int64(len(c)), sqlShortRead
	}
	return append([]byte{}, c[off:end]...), rc
}

func apply(c []byte, p pendOp) []byte {
	if p.trunc {
		if int64(len(c)) > p.off {
			return c[:p.off:p.off]
		}
		return c
	}
	if end := p.off + int64(len(p.data)); int64(len(c)) < end {
		c = append(c, make([]byte, end-int64(len(c)))...)
	}
	copy(c[p.off:], p.data)
	return c
}

func (d *disk) write(h *handle, off int64, data []byte) {
	p := pendOp{off: off, data: append([]byte{}, data...)}
	h.ino.pend = append(h.ino.pend, p)
	h.ino.cur = apply(h.ino.cur, p)
}

func (d *disk) truncate(h *handle, n int64) {
	p := pendOp{off: n, trunc: true}
	h.ino.pend = append(h.ino.pend, p)
	h.ino.cur = append([]byte{}, apply(h.ino.cur, p)...)
}

// sync makes a file and, as journalling file systems do, the names made up to
// now durable.
func (d *disk) sync(h *handle) {
	h.ino.durable = append([]byte{}, h.ino.cur...)
	h.ino.pend = nil
	d.syncDir()
}

func (d *disk) syncDir() {
	for _, o := range d.pend {
		if o.ino == nil {
			delete(d.durable, o.name)
		} else {
			d.durable[o.name] = o.ino
		}
	}
	d.pend = nil
}

func (d *disk) remove(name string, sync bool) bool {
	if _, ok := d.names[name]; !ok {
		return false
	}
	delete(d.names, name)
	d.pend = append(d.pend, dirOp{name, nil})
	if sync {
		d.syncDir()
	}
	return true
}

// lock follows SQLite's protocol: 1 SHARED, 2 RESERVED, 3 PENDING, 4 EXCLUSIVE.
func (d *disk) lock(h *handle, l int) int64 {
	i := h.ino
	if l <= h.level {
		return sqlOK
	}
	other := i.resv != 0 && i.resv != h.id
	switch l {
	case 1:
		if other && i.level >= 3 {
			return sqlBusy
		}
		i.shared[h.id] = true
		h.level = 1
	case 2:
		if other {
			return sqlBusy
		}
		i.resv, i.level, h.level = h.id, 2, 2
	case 4:
		if other {
			return sqlBusy
		}
		i.resv, i.level, h.level = h.id, 3, 3
		for s := range i.shared {
			if s != h.id {
				return sqlBusy // PENDING is kept
			}
		}
		i.level, h.level = 4, 4
	}
	return sqlOK
}

func (d *disk) unlock(h *handle, l int) {
	i := h.ino
	if l >= h.level {
		return
	}
	if i.resv == h.id {
		i.resv, i.level = 0, 0
	}
	if l == 0 {
		delete(i.shared, h.id)
	}
	h.level = l
}

func (d *disk) reserved(h *handle) int64 {
	if h.ino.resv != 0 && h.ino.level >= 2 {
		return 1
	}
	return 0
}

// drop is the end of a process: its handles close, its writes stay.
func (d *disk) drop(proc int) {
	var ids []int64
	for id, h := range d.handles {
		if h.proc == proc {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		d.close(id)
	}
}

func (d *disk) open4(proc int) int {
	n := 0
	for _, h := range d.handles {
		if h.proc == proc {
			n++
		}
	}
	return n
}

const sector = 512

// crash is a loss of power. How much of what was not synced survives is drawn
// from r: mode 0 nothing, 1 everything, 2 a prefix, 3 each sector on its own.
func (d *disk) crash(r *prng, mode int) {
	keepDir := len(d.pend)
	switch mode {
	case 0:
		keepDir = 0
	case 2, 3:
		keepDir = r.n(len(d.pend) + 1)
	}
	for _, o := range d.pend[:keepDir] {
		if o.ino == nil {
			delete(d.durable, o.name)
		} else {
			d.durable[o.name] = o.ino
		}
	}
	d.pend = nil
	d.handles = map[int64]*handle{}
	names := make([]string, 0, len(d.durable))
	for n := range d.durable {
		names = append(names, n)
	}
	sort.Strings(names)
	d.names = map[string]*inode{}
	for _, n := range names {
		i := d.durable[n]
		c := append([]byte{}, i.durable...)
		k := len(i.pend)
		if mode == 2 {
			k = r.n(len(i.pend) + 1)
		}
		for x, p := range i.pend {
			switch mode {
			case 0:
				continue
			case 2:
				if x > k {
					continue
				}
				if x == k && !p.trunc { // torn
					n := int64(r.n(len(p.data) + 1))
					p.data = p.data[:max((p.off+n)/sector*sector-p.off, 0)]
				} else if x == k {
					continue
				}
			case 3:
				if p.trunc {
					if r.chance(50) {
						c = apply(c, p)
					}
					continue
				}
				if r.chance(30) {
					continue
				}
				if r.chance(50) {
					c = apply(c, p)
					continue
				}
				for o := int64(0); o < int64(len(p.data)); {
					e := (p.off+o)/sector*sector + sector - p.off
					if e > int64(len(p.data)) {
						e = int64(len(p.data))
					}
					if r.chance(50) {
						c = apply(c, pendOp{off: p.off + o, data: p.data[o:e]})
					}
					o = e
				}
				continue
			}
			c = apply(c, p)
		}
		i.cur, i.durable, i.pend = c, append([]byte{}, c...), nil
		i.shared, i.resv, i.level = map[int64]bool{}, 0, 0
		d.names[n] = i
	}
}
