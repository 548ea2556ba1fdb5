package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
)

// A MongoDB server for the simulated clients: as much of the wire protocol,
// of BSON and of the commands as a program that drops, inserts and finds sees.

type belem struct {
	k string
	v interface{}
}
type bdoc []belem
type boid [12]byte
type bregex struct{ p, o string }
type bdate int64
type bstamp uint64
type bbin struct {
	sub byte
	b   []byte
}

func (d bdoc) get(k string) interface{} {
	for _, e := range d {
		if e.k == k {
			return e.v
		}
	}
	return nil
}

func (d bdoc) path(p string) interface{} {
	var v interface{} = d
	for _, k := range strings.Split(p, ".") {
		x, ok := v.(bdoc)
		if !ok {
			return nil
		}
		v = x.get(k)
	}
	return v
}

type breader struct {
	b   []byte
	bad bool
}

func (r *breader) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		r.bad = true
		return make([]byte, max(0, min(n, 64)))
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *breader) i32() int32 { return int32(binary.LittleEndian.Uint32(r.take(4))) }
func (r *breader) i64() int64 { return int64(binary.LittleEndian.Uint64(r.take(8))) }

func (r *breader) cstr() string {
	for i, c := range r.b {
		if c == 0 {
			return string(r.take(i + 1)[:i])
		}
	}
	r.bad = true
	return ""
}

func (r *breader) doc() (d bdoc) {
	n := int(r.i32())
	if r.bad || n < 5 || n-4 > len(r.b) {
		r.bad = true
		return
	}
	in := &breader{b: r.take(n - 4)}
	for !in.bad {
		t := in.take(1)[0]
		if t == 0 {
			break
		}
		k := in.cstr()
		var v interface{}
		switch t {
		case 1:
			v = math.Float64frombits(uint64(in.i64()))
		case 2:
			s := in.take(int(in.i32()))
			if len(s) == 0 {
				in.bad = true
				break
			}
			v = string(s[:len(s)-1])
		case 3:
			v = in.doc()
		case 4:
			l := []interface{}{}
			for _, e := range in.doc() {
				l = append(l, e.v)
			}
			v = l
		case 5:
			n := int(in.i32())
			s := in.take(1)[0]
			v = bbin{s, append([]byte{}, in.take(n)...)}
		case 7:
			var o boid
			copy(o[:], in.take(12))
			v = o
		case 8:
			v = in.take(1)[0] != 0
		case 9:
			v = bdate(in.i64())
		case 10:
		case 11:
			v = bregex{in.cstr(), in.cstr()}
		case 16:
			v = in.i32()
		case 17:
			v = bstamp(in.i64())
		case 18:
			v = in.i64()
		default:
			in.bad = true
		}
		d = append(d, belem{k, v})
	}
	r.bad = r.bad || in.bad
	return
}

func (d bdoc) bytes() []byte {
	var b []byte
	for _, e := range d {
		put := func(t byte) { b = append(append(append(b, t), e.k...), 0) }
		switch v := e.v.(type) {
		case float64:
			put(1)
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
		case string:
			put(2)
			b = binary.LittleEndian.AppendUint32(b, uint32(len(v)+1))
			b = append(append(b, v...), 0)
		case bdoc:
			put(3)
			b = append(b, v.bytes()...)
		case []interface{}:
			put(4)
			var l bdoc
			for i, x := range v {
				l = append(l, belem{fmt.Sprint(i), x})
			}
			b = append(b, l.bytes()...)
		case bbin:
			put(5)
			b = binary.LittleEndian.AppendUint32(b, uint32(len(v.b)))
			b = append(append(b, v.sub), v.b...)
		case boid:
			put(7)
			b = append(b, v[:]...)
		case bool:
			put(8)
			if v {
				b = append(b, 1)
			} else {
				b = append(b, 0)
			}
		case bdate:
			put(9)
			b = binary.LittleEndian.AppendUint64(b, uint64(v))
		case nil:
			put(10)
		case bregex:
			put(11)
			b = append(append(append(append(b, v.p...), 0), v.o...), 0)
		case int32:
			put(16)
			b = binary.LittleEndian.AppendUint32(b, uint32(v))
		case bstamp:
			put(17)
			b = binary.LittleEndian.AppendUint64(b, uint64(v))
		case int64:
			put(18)
			b = binary.LittleEndian.AppendUint64(b, uint64(v))
		default:
			simFail("no BSON for %T", v)
		}
	}
	out := binary.LittleEndian.AppendUint32(nil, uint32(len(b)+5))
	return append(append(out, b...), 0)
}

func bnum(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// bcompare orders two values of one kind, as the server does.
func bcompare(a, b interface{}) (int, bool) {
	if x, ok := bnum(a); ok {
		y, ok := bnum(b)
		switch {
		case x < y:
			return -1, ok
		case x > y:
			return 1, ok
		}
		return 0, ok && x == y
	}
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return strings.Compare(x, y), ok
	case bool:
		y, ok := b.(bool)
		switch {
		case x == y:
			return 0, ok
		case y:
			return -1, ok
		}
		return 1, ok
	case bdate:
		y, ok := b.(bdate)
		switch {
		case x < y:
			return -1, ok
		case x > y:
			return 1, ok
		}
		return 0, ok
	case nil:
		return 0, b == nil
	}
	return 0, false
}

// bmatch says whether a document matches a filter; err is what a server says
// of a filter it does not take.
func bmatch(d, f bdoc) (ok bool, err string) {
	for _, e := range f {
		switch {
		case e.k == "$and" || e.k == "$or":
			l, isList := e.v.([]interface{})
			if !isList || len(l) == 0 {
				return false, e.k + " must be a nonempty array"
			}
			any, all := false, true
			for _, x := range l {
				sub, isDoc := x.(bdoc)
				if !isDoc {
					return false, e.k + " entries need to be full objects"
				}
				m, err := bmatch(d, sub)
				if err != "" {
					return false, err
				}
				any, all = any || m, all && m
			}
			if e.k == "$and" && !all || e.k == "$or" && !any {
				return false, ""
			}
		case strings.HasPrefix(e.k, "$"):
			return false, "unknown top level operator: " + e.k
		default:
			m, err := bfield(d, e.k, e.v)
			if err != "" || !m {
				return false, err
			}
		}
	}
	return true, ""
}

func bfield(d bdoc, field string, cond interface{}) (bool, string) {
	v := d.path(field)
	ops, isDoc := cond.(bdoc)
	if re, ok := cond.(bregex); ok {
		return bregexp(v, re)
	}
	if !isDoc || len(ops) == 0 || !strings.HasPrefix(ops[0].k, "$") {
		c, ok := bcompare(v, cond)
		return ok && c == 0, ""
	}
	for _, o := range ops {
		c, same := bcompare(v, o.v)
		m := false
		switch o.k {
		case "$eq":
			m = same && c == 0
		case "$ne":
			m = !(same && c == 0)
		case "$lt":
			m = same && c < 0
		case "$lte":
			m = same && c <= 0
		case "$gt":
			m = same && c > 0
		case "$gte":
			m = same && c >= 0
		case "$in", "$nin":
			l, ok := o.v.([]interface{})
			if !ok {
				return false, o.k + " needs an array"
			}
			for _, x := range l {
				if c, ok := bcompare(v, x); ok && c == 0 {
					m = true
				}
			}
			m = m == (o.k == "$in")
		case "$exists":
			b, _ := o.v.(bool)
			m = (v != nil) == b
		case "$regex":
			re, ok := o.v.(bregex)
			if s, isText := o.v.(string); isText {
				re, ok = bregex{p: s}, true
			}
			if !ok {
				return false, "$regex has to be a string"
			}
			var err string
			if m, err = bregexp(v, re); err != "" {
				return false, err
			}
		case "$not":
			var err string
			if re, ok := o.v.(bregex); ok {
				m, err = bregexp(v, re)
			} else if x, ok := o.v.(bdoc); ok {
				m, err = bfield(d, field, x)
			} else {
				err = "$not needs a regex or a document"
			}
			if err != "" {
				return false, err
			}
			m = !m
		default:
			return false, "unknown operator: " + o.k
		}
		if !m {
			return false, ""
		}
	}
	return true, ""
}

func bregexp(v interface{}, re bregex) (bool, string) {
	flags := ""
	if re.o != "" {
		flags = "(?" + re.o + ")"
	}
	x, err := regexp.Compile(flags + re.p)
	if err != nil {
		return false, "Regular expression is invalid: " + err.Error()
	}
	s, ok := v.(string)
	return ok && x.MatchString(s), ""
}

type mcursor struct {
	ns   string
	rest []bdoc
	dead bool
}

// mseen is what the server has done for one program.
type mseen struct {
	finds    [][]bdoc // what each find had before it
	complete []bool   // and whether all of its answer was handed over
	cursors  map[int64]int
	inserted []bdoc
	cleared  int // how often it removed all there was
	refused  int // commands it answered with an error
	touched  map[string]bool
}

// mcoll is a collection.
type mcoll struct {
	docs   []bdoc
	exists bool
}

// mongoSpaces are the collections there are to begin with, and the options
// that name them.
var mongoSpaces = []struct {
	ns   string
	args []string
}{{"tsl.books", nil}, {"tsl.archive", []string{"-c", "archive"}}, {"shop.books", []string{"-d", "shop"}}}

type mconn struct {
	pid  int
	dead bool
}

type mongod struct {
	m        *machine
	rs       bool
	batch    int
	colls    map[string]*mcoll
	cursors  map[int64]*mcursor
	nextCur  int64
	conns    map[int64]*mconn
	nextConn int64
	txns     map[string]bdoc
	by       map[int]*mseen
	restarts []int64
}

func newMongod(m *machine) *mongod {
	s := &mongod{m: m, cursors: map[int64]*mcursor{}, conns: map[int64]*mconn{}, txns: map[string]bdoc{}, colls: map[string]*mcoll{}, by: map[int]*mseen{}, nextCur: 1000, batch: 101}
	var docs, batch int
	fmt.Sscan(m.p.Opts["mdocs"], &docs)
	if fmt.Sscan(m.p.Opts["mbatch"], &batch); batch > 0 {
		s.batch = batch
	}
	s.rs = m.p.Opts["mrs"] != ""
	r := newPrng("mdocs", m.p.Seed)
	for j, sp := range mongoSpaces {
		c := &mcoll{exists: docs > 0}
		s.colls[sp.ns] = c
		for i := 0; i < docs; i++ {
			spec := bdoc{{"pages", int32(r.n(40) * 15)}}
			if r.chance(70) {
				spec = append(spec, belem{"rating", int64(1 + r.n(5))})
			}
			var id boid
			id[0], id[1], id[11] = 0xee, byte(j), byte(i)
			c.docs = append(c.docs, bdoc{{"_id", id}, {"title", r.pick("Book", "Old Book", "An Other Book", "My Big Book", "Zed")}, {"author", r.pick("Joe", "Jane", "O'Neill")}, {"spec", spec}, {"on-loan", r.chance(50)}})
		}
	}
	return s
}

func (s *mongod) of(pid int) *mseen {
	if s.by[pid] == nil {
		s.by[pid] = &mseen{cursors: map[int64]int{}, touched: map[string]bool{}}
	}
	return s.by[pid]
}

// parse reads a message: the command and the documents it brings.
func (s *mongod) parse(b []byte) (cmd bdoc, legacy, more bool, ok bool) {
	r := &breader{b: b}
	r.take(12)
	switch r.i32() {
	case 2004:
		r.i32()
		r.cstr()
		r.take(8)
		cmd, legacy = r.doc(), true
		if q, isDoc := cmd.get("$query").(bdoc); isDoc {
			cmd = q
		}
	case 2013:
		flags := r.i32()
		more = flags&2 != 0
		for len(r.b) > 0 && !r.bad {
			switch r.take(1)[0] {
			case 0:
				cmd = append(r.doc(), cmd...)
			case 1:
				n := int(r.i32())
				sec := &breader{b: r.take(n - 4)}
				name := sec.cstr()
				l := []interface{}{}
				for len(sec.b) > 0 && !sec.bad {
					l = append(l, sec.doc())
				}
				r.bad = r.bad || sec.bad
				cmd = append(cmd, belem{name, l})
			default:
				r.bad = true
			}
		}
	default:
		r.bad = true
	}
	return cmd, legacy, more, !r.bad && len(cmd) > 0
}

// frame makes an answer to a message.
func (s *mongod) frame(req []byte, legacy bool, d bdoc) []byte {
	var b []byte
	if legacy {
		b = binary.LittleEndian.AppendUint32(b, 8)
		b = append(b, make([]byte, 12)...)
		b = binary.LittleEndian.AppendUint32(b, 1)
	} else {
		b = append(b, 0, 0, 0, 0, 0)
	}
	b = append(b, d.bytes()...)
	h := binary.LittleEndian.AppendUint32(nil, uint32(len(b)+16))
	h = binary.LittleEndian.AppendUint32(h, 77)
	h = append(h, req[4:8]...)
	op := uint32(2013)
	if legacy {
		op = 1
	}
	return append(binary.LittleEndian.AppendUint32(h, op), b...)
}

func cmdName(b []byte) string {
	c, _, _, ok := (&mongod{}).parse(b)
	if !ok {
		return "?"
	}
	return strings.ToLower(c[0].k)
}

func merr(code int32, name, msg string) bdoc {
	return bdoc{{"ok", 0.0}, {"errmsg", msg}, {"code", code}, {"codeName", name}}
}

func (s *mongod) hello() bdoc {
	d := bdoc{{"ismaster", true}, {"maxBsonObjectSize", int32(16777216)}, {"maxMessageSizeBytes", int32(48000000)}, {"maxWriteBatchSize", int32(100000)}, {"localTime", bdate(1704067200000)}, {"logicalSessionTimeoutMinutes", int32(30)}, {"minWireVersion", int32(0)}, {"maxWireVersion", int32(8)}, {"readOnly", false}}
	if s.rs {
		d = append(d, bdoc{{"setName", "rs0"}, {"setVersion", int32(1)}, {"secondary", false}, {"hosts", []interface{}{"localhost:27017"}}, {"primary", "localhost:27017"}, {"me", "localhost:27017"}}...)
	}
	return append(d, belem{"ok", 1.0})
}

// command does what a client asks. most is how many documents an insert
// stores before it fails, negative when it does not.
func (s *mongod) command(pid int, c bdoc, most int) bdoc {
	seen := s.of(pid)
	db, _ := c.get("$db").(string)
	name, _ := c[0].v.(string)
	ns := db + "." + name
	coll := s.colls[ns]
	switch kind := strings.ToLower(c[0].k); kind {
	case "drop", "insert", "find", "count", "delete", "aggregate", "create", "createindexes":
		if coll == nil {
			coll = &mcoll{}
			s.colls[ns] = coll
		}
		seen.touched[ns] = true
	}
	refuse := func(code int32, name, msg string) bdoc {
		seen.refused++
		return merr(code, name, msg)
	}
	switch strings.ToLower(c[0].k) {
	case "ismaster", "hello":
		return s.hello()
	case "ping", "endsessions":
		return bdoc{{"ok", 1.0}}
	case "drop":
		seen.cleared++
		if !coll.exists {
			return merr(26, "NamespaceNotFound", "ns not found")
		}
		coll.exists, coll.docs = false, nil
		for _, k := range s.cursors {
			k.dead = k.dead || k.ns == ns
		}
		return bdoc{{"nIndexesWas", int32(1)}, {"ns", ns}, {"ok", 1.0}}
	case "insert":
		key := ""
		if n, ok := c.get("txnNumber").(int64); ok {
			if !s.rs {
				return refuse(20, "IllegalOperation", "Transaction numbers are only allowed on a replica set member or mongos")
			}
			key = fmt.Sprint(c.get("lsid"), n)
			if d, ok := s.txns[key]; ok {
				return d
			}
		}
		docs, _ := c.get("documents").([]interface{})
		if len(coll.docs) == 0 {
			seen.cleared++ // there is nothing old
		}
		coll.exists = true
		n := int32(0)
		var werr []interface{}
		for i, x := range docs {
			d := x.(bdoc)
			if i == most {
				werr = append(werr, bdoc{{"index", int32(i)}, {"code", int32(14031)}, {"errmsg", "No space left on device"}})
				break
			}
			dup := false
			for _, o := range coll.docs {
				dup = dup || fmt.Sprint(o.get("_id")) == fmt.Sprint(d.get("_id"))
			}
			if dup {
				werr = append(werr, bdoc{{"index", int32(i)}, {"code", int32(11000)}, {"errmsg", "E11000 duplicate key error collection: " + ns}})
				if o, ok := c.get("ordered").(bool); ok && !o {
					continue
				}
				break
			}
			coll.docs = append(coll.docs, d)
			seen.inserted = append(seen.inserted, d)
			n++
		}
		d := bdoc{{"n", n}}
		if len(werr) > 0 {
			seen.refused++
			d = append(d, belem{"writeErrors", werr})
		}
		d = append(d, belem{"ok", 1.0})
		if key != "" {
			s.txns[key] = d
		}
		return d
	case "find":
		f, _ := c.get("filter").(bdoc)
		var hit []bdoc
		for _, d := range coll.docs {
			ok, err := bmatch(d, f)
			if err != "" {
				return refuse(2, "BadValue", err)
			}
			if ok {
				hit = append(hit, d)
			}
		}
		if len(coll.docs) == 0 {
			if _, err := bmatch(bdoc{}, f); err != "" {
				return refuse(2, "BadValue", err)
			}
		}
		if n, ok := bnum(c.get("skip")); ok && n > 0 {
			hit = hit[min(int(n), len(hit)):]
		}
		if n, ok := bnum(c.get("limit")); ok && n > 0 {
			hit = hit[:min(int(n), len(hit))]
		}
		seen.finds = append(seen.finds, append([]bdoc{}, coll.docs...))
		seen.complete = append(seen.complete, false)
		k := len(seen.finds) - 1
		n := s.batch
		if x, ok := bnum(c.get("batchSize")); ok && x > 0 {
			n = min(n, int(x))
		}
		if one, _ := c.get("singleBatch").(bool); one {
			n = len(hit)
		}
		first, id := s.part(ns, hit, n)
		if id == 0 {
			seen.complete[k] = true
		}
		seen.cursors[id] = k
		return bdoc{{"cursor", bdoc{{"firstBatch", first}, {"id", id}, {"ns", ns}}}, {"ok", 1.0}}
	case "getmore":
		id, _ := c[0].v.(int64)
		k := s.cursors[id]
		if k == nil {
			return refuse(43, "CursorNotFound", fmt.Sprintf("cursor id %d not found", id))
		}
		if k.dead {
			delete(s.cursors, id)
			return refuse(175, "QueryPlanKilled", "collection dropped")
		}
		delete(s.cursors, id)
		n := s.batch
		if x, ok := bnum(c.get("batchSize")); ok && x > 0 {
			n = min(n, int(x))
		}
		next, id2 := s.part(k.ns, k.rest, n)
		if id2 != 0 {
			s.cursors[id] = s.cursors[id2]
			delete(s.cursors, id2)
			id2 = id
		} else {
			seen.complete[seen.cursors[id]] = true
		}
		return bdoc{{"cursor", bdoc{{"nextBatch", next}, {"id", id2}, {"ns", k.ns}}}, {"ok", 1.0}}
	case "killcursors":
		l, _ := c.get("cursors").([]interface{})
		for _, x := range l {
			if id, ok := x.(int64); ok {
				delete(s.cursors, id)
			}
		}
		return bdoc{{"cursorsKilled", l}, {"cursorsNotFound", []interface{}{}}, {"cursorsAlive", []interface{}{}}, {"cursorsUnknown", []interface{}{}}, {"ok", 1.0}}
	}
	// commands tsl_mongo has no need of, but could have
	once := func(do func() bdoc) bdoc {
		n, ok := c.get("txnNumber").(int64)
		if !ok {
			return do()
		}
		if !s.rs {
			return refuse(20, "IllegalOperation", "Transaction numbers are only allowed on a replica set member or mongos")
		}
		key := fmt.Sprint(c.get("lsid"), n)
		if _, ok := s.txns[key]; !ok {
			s.txns[key] = do()
		}
		return s.txns[key]
	}
	switch strings.ToLower(c[0].k) {
	case "buildinfo":
		return bdoc{{"version", "4.2.0"}, {"versionArray", []interface{}{int32(4), int32(2), int32(0), int32(0)}}, {"ok", 1.0}}
	case "count":
		q, _ := c.get("query").(bdoc)
		n := int32(0)
		for _, d := range coll.docs {
			ok, err := bmatch(d, q)
			if err != "" {
				return refuse(2, "BadValue", err)
			}
			if ok {
				n++
			}
		}
		return bdoc{{"n", n}, {"ok", 1.0}}
	case "delete":
		return once(func() bdoc {
			n := int32(0)
			l, _ := c.get("deletes").([]interface{})
			for _, x := range l {
				one, _ := x.(bdoc)
				q, _ := one.get("q").(bdoc)
				limit, _ := bnum(one.get("limit"))
				var rest []bdoc
				for _, d := range coll.docs {
					ok, err := bmatch(d, q)
					if err != "" {
						return refuse(2, "BadValue", err)
					}
					if ok && (limit == 0 || n < 1) {
						n++
						continue
					}
					rest = append(rest, d)
				}
				coll.docs = rest
			}
			if len(coll.docs) == 0 {
				seen.cleared++
			}
			return bdoc{{"n", n}, {"ok", 1.0}}
		})
	case "aggregate":
		docs := append([]bdoc{}, coll.docs...)
		l, _ := c.get("pipeline").([]interface{})
		for _, x := range l {
			st, _ := x.(bdoc)
			if len(st) != 1 {
				return refuse(40323, "Location40323", "A pipeline stage specification object must contain exactly one field.")
			}
			switch st[0].k {
			case "$match":
				q, _ := st[0].v.(bdoc)
				var hit []bdoc
				for _, d := range docs {
					ok, err := bmatch(d, q)
					if err != "" {
						return refuse(2, "BadValue", err)
					}
					if ok {
						hit = append(hit, d)
					}
				}
				docs = hit
			case "$group":
				if len(docs) > 0 { // only what CountDocuments sends
					docs = []bdoc{{{"_id", int32(1)}, {"n", int32(len(docs))}}}
				}
			case "$count":
				name, _ := st[0].v.(string)
				if len(docs) > 0 {
					docs = []bdoc{{{name, int32(len(docs))}}}
				}
			default:
				return refuse(40324, "Location40324", "Unrecognized pipeline stage name: '"+st[0].k+"'")
			}
		}
		first, id := s.part(ns, docs, s.batch)
		return bdoc{{"cursor", bdoc{{"firstBatch", first}, {"id", id}, {"ns", ns}}}, {"ok", 1.0}}
	case "create":
		if coll.exists {
			return refuse(48, "NamespaceExists", "a collection '"+ns+"' already exists")
		}
		coll.exists = true
		return bdoc{{"ok", 1.0}}
	case "createindexes":
		coll.exists = true
		return bdoc{{"numIndexesBefore", int32(1)}, {"numIndexesAfter", int32(2)}, {"ok", 1.0}}
	case "listcollections":
		var names []string
		for k, v := range s.colls {
			if d, name, _ := strings.Cut(k, "."); v.exists && d == db {
				names = append(names, name)
			}
		}
		sort.Strings(names)
		q, _ := c.get("filter").(bdoc)
		var docs []bdoc
		for _, name := range names {
			d := bdoc{{"name", name}, {"type", "collection"}, {"options", bdoc{}}}
			if ok, _ := bmatch(d, q); ok {
				docs = append(docs, d)
			}
		}
		first, id := s.part(ns, docs, len(docs))
		return bdoc{{"cursor", bdoc{{"firstBatch", first}, {"id", id}, {"ns", db + ".$cmd.listCollections"}}}, {"ok", 1.0}}
	}
	s.m.rep.Probes["commands-the-server-does-not-know"]++
	return refuse(59, "CommandNotFound", "no such command: '"+c[0].k+"'")
}

// part hands out the next n documents and keeps the rest behind a cursor.
func (s *mongod) part(ns string, l []bdoc, n int) ([]interface{}, int64) {
	out := []interface{}{}
	for i := 0; i < n && i < len(l); i++ {
		out = append(out, l[i])
	}
	if len(l) <= n {
		return out, 0
	}
	s.nextCur += 7
	s.cursors[s.nextCur] = &mcursor{ns: ns, rest: l[n:]}
	return out, s.nextCur
}

// restart is the server going down and coming up: connections and cursors are
// gone, what is stored stays.
func (s *mongod) restart() {
	for _, c := range s.conns {
		c.dead = true
	}
	s.cursors = map[int64]*mcursor{}
	s.restarts = append(s.restarts, s.m.step)
}

// dial and send are what the network makes of a client's wishes; f is the
// fault that hits, if any.
func (s *mongod) dial(p *proc, f *fault) (rc, val int64) {
	if f != nil {
		switch f.kind {
		case "refused":
			return 111, 1 << 32
		case "unreachable":
			return 110, 20_000 << 32
		case "slowdial":
			val = 3000 << 32
		}
	}
	s.nextConn++
	s.conns[s.nextConn] = &mconn{pid: p.id}
	return 0, val | s.nextConn
}

const (
	mReset  = 1
	mPieces = 2
)

func (s *mongod) send(p *proc, q *request, f *fault) (rc, ms int64, data []byte) {
	c := s.conns[q.a]
	if c == nil || c.dead || c.pid != p.id {
		return mReset, 1, nil
	}
	cmd, legacy, more, ok := s.parse(q.data)
	if !ok {
		simFail("%s sends what is no message: %x", s.m.who(p), q.data[:min(len(q.data), 200)])
	}
	kind := ""
	if f != nil {
		kind = f.kind
	}
	most := -1
	ms = 1
	switch kind {
	case "reset-before":
		c.dead = true
		return mReset, 1, nil
	case "restart":
		s.restart()
		return mReset, 1, nil
	case "blackhole": // lost; the connection is given up by and by
		c.dead = true
		return mReset, 600_000, nil
	case "cmderr":
		s.of(p.id).refused++
		e := [][]interface{}{{int32(11600), "InterruptedAtShutdown"}, {int32(10107), "NotMaster"}, {int32(8000), "AtlasError"}, {int32(50), "MaxTimeMSExpired"}, {int32(13), "Unauthorized"}, {int32(91), "ShutdownInProgress"}}[s.m.r.n(6)]
		return 0, 1, s.frame(q.data, legacy, merr(e[0].(int32), e[1].(string), "simulated: "+e[1].(string)))
	case "writeerr":
		most = s.m.r.n(8)
	case "lostcursor":
		s.cursors = map[int64]*mcursor{}
	}
	d := s.command(p.id, cmd, most)
	if more {
		return 0, 0, nil
	}
	if kind == "wcerr" && strings.EqualFold(cmd[0].k, "insert") {
		d = append(append(bdoc{}, d...), belem{"writeConcernError", bdoc{{"code", int32(64)}, {"codeName", "WriteConcernFailed"}, {"errmsg", "waiting for replication timed out"}}})
	}
	data = s.frame(q.data, legacy, d)
	switch kind {
	case "reset-after":
		c.dead = true
		return mReset, 1, nil
	case "lag":
		ms = int64(1 + s.m.r.n(2_000))
	case "late":
		ms = int64(1 + s.m.r.n(25_000))
	case "pieces":
		rc = mPieces
	case "torn":
		c.dead = true
		return mReset, 1, data[:s.m.r.n(len(data))]
	}
	return rc, ms, data
}
