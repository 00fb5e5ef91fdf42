package mongodb_test

// A small MongoDB server, enough for the commands of the engine: one database,
// one collection, commands are atomic. It can reject commands, act like a
// sharded deployment, and let "other clients" change the collection before a
// command is executed.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"reflect"
	"sort"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/bsontype"
	"go.mongodb.org/mongo-driver/bson/primitive"

	"github.com/hyperonym/ratus"
)

type fakeIndex struct {
	Name    string
	Keys    bson.D
	Partial bson.D
	Expire  *int64
}

// fakeCmd is a command that was executed.
type fakeCmd struct {
	Name     string
	Doc      bson.D
	Pre      map[string]bson.D
	Post     map[string]bson.D
	Rejected int32 // error code of the reply or of its first write error that is not a duplicate
	Dups     int
	Injected bool
	Clock    int64
}

type fakeMongo struct {
	mu      sync.Mutex
	l       net.Listener
	docs    map[string]bson.D
	order   []string
	indexes []fakeIndex
	log     []fakeCmd
	// shard is the shard key, if the deployment is sharded.
	shard string
	// before is called before a command is executed, with the lock held.
	before func(f *fakeMongo, name string)
	// reject returns an error code for a command, or 0.
	reject func(name string, n int) (int32, string)
	// rejectDoc returns an error code for a document of an insert, or 0.
	rejectDoc func(i int) int32
	// wce reports a write concern error with every insert.
	wce   bool
	conns map[net.Conn]bool
}

func newFakeMongo() (*fakeMongo, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	f := &fakeMongo{l: l, docs: map[string]bson.D{}, conns: map[net.Conn]bool{}}
	f.indexes = []fakeIndex{{Name: "_id_", Keys: bson.D{{Key: "_id", Value: int32(1)}}}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			f.conns[c] = true
			f.mu.Unlock()
			go f.serve(c)
		}
	}()
	return f, nil
}

func (f *fakeMongo) uri() string {
	return "mongodb://" + f.l.Addr().String() + "/?directConnection=true&retryWrites=false&retryReads=false&serverSelectionTimeoutMS=5000"
}

func (f *fakeMongo) close() {
	f.l.Close()
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		c.Close()
	}
}

func (f *fakeMongo) serve(c net.Conn) {
	defer c.Close()
	for {
		h := make([]byte, 16)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(h))
		id := binary.LittleEndian.Uint32(h[4:])
		op := binary.LittleEndian.Uint32(h[12:])
		b := make([]byte, n-16)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		var out []byte
		switch op {
		case 2004: // OP_QUERY, only used to say hello
			i := 4 + bytes.IndexByte(b[4:], 0) + 1 + 8
			var q bson.D
			if bson.Unmarshal(b[i:], &q) != nil {
				return
			}
			r, _ := bson.Marshal(f.hello())
			out = make([]byte, 20)
			binary.LittleEndian.PutUint32(out[16:], 1)
			out = append(out, r...)
			op = 1
		case 2013: // OP_MSG
			q, err := parseMsg(b)
			if err != nil {
				return
			}
			r, err := bson.Marshal(f.exec(q))
			if err != nil {
				panic(err)
			}
			out = append([]byte{0, 0, 0, 0, 0}, r...)
		default:
			return
		}
		m := make([]byte, 16, 16+len(out))
		binary.LittleEndian.PutUint32(m, uint32(16+len(out)))
		binary.LittleEndian.PutUint32(m[4:], id+1000000)
		binary.LittleEndian.PutUint32(m[8:], id)
		binary.LittleEndian.PutUint32(m[12:], op)
		if _, err := c.Write(append(m, out...)); err != nil {
			return
		}
	}
}

func parseMsg(b []byte) (bson.D, error) {
	b = b[4:]
	var q bson.D
	var seqs []bson.E
	for len(b) > 0 {
		k := b[0]
		b = b[1:]
		if len(b) < 4 {
			break
		}
		n := int(binary.LittleEndian.Uint32(b))
		if n > len(b) {
			break
		}
		if k == 0 {
			if err := bson.Unmarshal(b[:n], &q); err != nil {
				return nil, err
			}
			b = b[n:]
			continue
		}
		s := b[4:n]
		b = b[n:]
		i := bytes.IndexByte(s, 0)
		name := string(s[:i])
		s = s[i+1:]
		var a bson.A
		for len(s) > 0 {
			m := int(binary.LittleEndian.Uint32(s))
			var d bson.D
			if err := bson.Unmarshal(s[:m], &d); err != nil {
				return nil, err
			}
			a = append(a, d)
			s = s[m:]
		}
		seqs = append(seqs, bson.E{Key: name, Value: a})
	}
	return append(q, seqs...), nil
}

func (f *fakeMongo) hello() bson.D {
	return bson.D{{"ismaster", true}, {"helloOk", true}, {"maxBsonObjectSize", int32(16777216)}, {"maxMessageSizeBytes", int32(48000000)}, {"maxWriteBatchSize", int32(100000)},
		{"minWireVersion", int32(0)}, {"maxWireVersion", int32(21)}, {"ok", 1.0}}
}

// get returns a field of a document.
func get(d bson.D, k string) any {
	for _, e := range d {
		if e.Key == k {
			return e.Value
		}
	}
	return nil
}

func has(d bson.D, k string) bool {
	for _, e := range d {
		if e.Key == k {
			return true
		}
	}
	return false
}

func doc(v any) bson.D {
	d, _ := v.(bson.D)
	return d
}

func num(v any) (float64, bool) {
	switch v := v.(type) {
	case int32:
		return float64(v), true
	case int64:
		return float64(v), true
	case float64:
		return v, true
	}
	return 0, false
}

func integer(v any) int {
	n, _ := num(v)
	return int(n)
}

func truth(v any) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	n, ok := num(v)
	return ok && n != 0
}

// rank is the position of the type of a value in the order of the database.
func rank(v any) int {
	switch v.(type) {
	case nil:
		return 1
	case int32, int64, float64:
		return 2
	case string:
		return 3
	case bson.D:
		return 4
	case bson.A:
		return 5
	case bool:
		return 8
	case primitive.DateTime:
		return 9
	}
	return 20
}

func compare(a, b any) int {
	if r, s := rank(a), rank(b); r != s {
		return r - s
	}
	less := func(x, y bool) int {
		if x {
			return -1
		} else if y {
			return 1
		}
		return 0
	}
	switch x := a.(type) {
	case nil:
		return 0
	case string:
		return less(x < b.(string), x > b.(string))
	case primitive.DateTime:
		return less(x < b.(primitive.DateTime), x > b.(primitive.DateTime))
	case bool:
		return less(!x && b.(bool), x && !b.(bool))
	case int32, int64, float64:
		m, _ := num(a)
		n, _ := num(b)
		return less(m < n, m > n)
	}
	return bytes.Compare(rawDoc(bson.D{{"v", a}}), rawDoc(bson.D{{"v", b}}))
}

func rawDoc(d bson.D) []byte {
	b, err := bson.Marshal(d)
	if err != nil {
		panic(err)
	}
	return b
}

// matches evaluates a filter. Unknown operators are an error.
func matches(d, q bson.D) (bool, error) {
	for _, e := range q {
		switch e.Key {
		case "$and", "$or":
			a, _ := e.Value.(bson.A)
			any, all := false, true
			for _, s := range a {
				ok, err := matches(d, doc(s))
				if err != nil {
					return false, err
				}
				any, all = any || ok, all && ok
			}
			if e.Key == "$and" && !all || e.Key == "$or" && !any {
				return false, nil
			}
			continue
		}
		v := get(d, e.Key)
		c, ok := e.Value.(bson.D)
		if !ok || len(c) == 0 || c[0].Key == "" || c[0].Key[0] != '$' {
			if compare(v, e.Value) != 0 {
				return false, nil
			}
			continue
		}
		for _, o := range c {
			same := rank(v) == rank(o.Value)
			r := false
			switch o.Key {
			case "$eq":
				r = compare(v, o.Value) == 0
			case "$ne":
				r = compare(v, o.Value) != 0
			case "$lt":
				r = same && compare(v, o.Value) < 0
			case "$lte":
				r = same && compare(v, o.Value) <= 0
			case "$gt":
				r = same && compare(v, o.Value) > 0
			case "$gte":
				r = same && compare(v, o.Value) >= 0
			case "$exists":
				r = has(d, e.Key) == truth(o.Value)
			case "$in", "$nin":
				a, _ := o.Value.(bson.A)
				for _, x := range a {
					r = r || compare(v, x) == 0
				}
				r = r == (o.Key == "$in")
			default:
				return false, fmt.Errorf("unknown operator: %s", o.Key)
			}
			if !r {
				return false, nil
			}
		}
	}
	return true, nil
}

type fakeErr struct {
	code int32
	name string
	msg  string
}

func (e *fakeErr) Error() string { return e.msg }

func bad(code int32, name, msg string) error { return &fakeErr{code, name, msg} }

// equality: the filter requires a field to have one value.
func equality(q bson.D, k string) bool {
	if !has(q, k) {
		return false
	}
	c, ok := get(q, k).(bson.D)
	return !ok || len(c) == 1 && c[0].Key == "$eq"
}

// find returns the IDs of the matching documents in sorted order.
func (f *fakeMongo) find(q, s bson.D, hint any) ([]string, error) {
	if hint != nil {
		var ix *fakeIndex
		for i := range f.indexes {
			if h, ok := hint.(string); ok && f.indexes[i].Name == h {
				ix = &f.indexes[i]
			} else if h, ok := hint.(bson.D); ok && bytes.Equal(rawDoc(h), rawDoc(f.indexes[i].Keys)) {
				ix = &f.indexes[i]
			}
		}
		if ix == nil {
			return nil, bad(2, "BadValue", "hint provided does not correspond to an existing index")
		}
		for _, e := range ix.Partial {
			if compare(get(q, e.Key), e.Value) != 0 {
				return nil, bad(291, "NoQueryExecutionPlans", "the hinted index does not cover the query")
			}
		}
	}
	var r []string
	for _, id := range f.order {
		ok, err := matches(f.docs[id], q)
		if err != nil {
			return nil, bad(2, "BadValue", err.Error())
		}
		if ok {
			r = append(r, id)
		}
	}
	sort.SliceStable(r, func(i, j int) bool {
		for _, e := range s {
			if c := compare(get(f.docs[r[i]], e.Key), get(f.docs[r[j]], e.Key)); c != 0 {
				return c*integer(e.Value) < 0
			}
		}
		return false
	})
	return r, nil
}

func (f *fakeMongo) put(id string, d bson.D) {
	if _, ok := f.docs[id]; !ok {
		f.order = append(f.order, id)
	}
	f.docs[id] = d
}

func (f *fakeMongo) remove(id string) {
	delete(f.docs, id)
	for i, o := range f.order {
		if o == id {
			f.order = append(append([]string{}, f.order[:i]...), f.order[i+1:]...)
			return
		}
	}
}

func (f *fakeMongo) snapshot() map[string]bson.D {
	m := map[string]bson.D{}
	for k, v := range f.docs {
		m[k] = v
	}
	return m
}

// update applies an update or a replacement to a document.
func update(d, u bson.D) (bson.D, error) {
	if len(u) == 0 || u[0].Key == "" || u[0].Key[0] != '$' {
		r := bson.D{{"_id", get(d, "_id")}}
		for _, e := range u {
			if e.Key != "_id" {
				r = append(r, e)
			} else if compare(e.Value, get(d, "_id")) != 0 {
				return nil, bad(66, "ImmutableField", "the _id of a document cannot change")
			}
		}
		return r, nil
	}
	r := append(bson.D{}, d...)
	set := func(k string, v any) {
		for i := range r {
			if r[i].Key == k {
				r[i].Value = v
				return
			}
		}
		r = append(r, bson.E{Key: k, Value: v})
	}
	for _, o := range u {
		for _, e := range doc(o.Value) {
			if e.Key == "_id" && compare(e.Value, get(d, "_id")) != 0 {
				return nil, bad(66, "ImmutableField", "the _id of a document cannot change")
			}
			switch o.Key {
			case "$set":
				set(e.Key, e.Value)
			case "$unset":
				for i := range r {
					if r[i].Key == e.Key {
						r = append(append(bson.D{}, r[:i]...), r[i+1:]...)
						break
					}
				}
			case "$inc":
				a, b := integer(get(r, e.Key)), integer(e.Value)
				set(e.Key, int32(a+b))
			default:
				return nil, bad(9, "FailedToParse", "unknown update operator: "+o.Key)
			}
		}
	}
	return r, nil
}

func project(d, p bson.D) bson.D {
	if len(p) == 0 {
		return d
	}
	inc := false
	for _, e := range p {
		inc = inc || e.Key != "_id" && truth(e.Value)
	}
	var r bson.D
	for _, e := range d {
		on := !inc
		if e.Key == "_id" {
			on = true
		}
		if has(p, e.Key) {
			on = truth(get(p, e.Key))
		}
		if on {
			r = append(r, e)
		}
	}
	return r
}

// sharded: a change of one document needs the shard key.
func (f *fakeMongo) needKey(q bson.D, alsoID bool) error {
	if f.shard == "" || equality(q, f.shard) || alsoID && equality(q, "_id") {
		return nil
	}
	return bad(61, "ShardKeyNotFound", "Query for sharded findAndModify must contain the shard key")
}

func (f *fakeMongo) moved(a, b bson.D) error {
	if f.shard != "" && compare(get(a, f.shard), get(b, f.shard)) != 0 {
		return bad(31025, "Location31025", "Shard key update is not allowed without specifying the full shard key in the query")
	}
	return nil
}

func (f *fakeMongo) exec(q bson.D) bson.D {
	f.mu.Lock()
	defer f.mu.Unlock()
	name := q[0].Key
	switch name {
	case "hello", "isMaster", "ismaster":
		return f.hello()
	case "ping", "endSessions", "killCursors", "getMore":
		if name == "ping" && f.reject != nil {
			if c, n := f.reject(name, len(f.log)); c != 0 {
				return bson.D{{"ok", 0.0}, {"errmsg", "rejected"}, {"code", c}, {"codeName", n}}
			}
		}
		return bson.D{{"ok", 1.0}}
	}
	if f.before != nil {
		f.before(f, name)
	}
	l := fakeCmd{Name: name, Doc: q, Pre: f.snapshot()}
	var r bson.D
	err := error(nil)
	if f.reject != nil {
		if c, n := f.reject(name, len(f.log)); c != 0 {
			err = bad(c, n, "rejected")
			l.Injected = true
		}
	}
	if err == nil {
		r, err = f.run(name, q, &l)
	}
	if err != nil {
		e, ok := err.(*fakeErr)
		if !ok {
			e = &fakeErr{8, "UnknownError", err.Error()}
		}
		l.Rejected = e.code
		r = bson.D{{"ok", 0.0}, {"errmsg", e.msg}, {"code", e.code}, {"codeName", e.name}}
	}
	l.Post = f.snapshot()
	f.log = append(f.log, l)
	return r
}

func (f *fakeMongo) run(name string, q bson.D, l *fakeCmd) (bson.D, error) {
	writeErr := func(errs *bson.A, i int, err error) {
		e, ok := err.(*fakeErr)
		if !ok {
			e = &fakeErr{8, "UnknownError", err.Error()}
		}
		if e.code == 11000 {
			l.Dups++
		} else if l.Rejected == 0 {
			l.Rejected = e.code
		}
		*errs = append(*errs, bson.D{{"index", int32(i)}, {"code", e.code}, {"codeName", e.name}, {"errmsg", e.msg}})
	}
	ordered := !has(q, "ordered") || truth(get(q, "ordered"))
	ns := "ratus.tasks"
	arr := func(k string) bson.A { a, _ := get(q, k).(bson.A); return a }
	switch name {
	case "find":
		ids, err := f.find(doc(get(q, "filter")), doc(get(q, "sort")), get(q, "hint"))
		if err != nil {
			return nil, err
		}
		if s := integer(get(q, "skip")); s > 0 {
			ids = ids[min(s, len(ids)):]
		}
		if n := integer(get(q, "limit")); n != 0 {
			if n < 0 {
				n = -n
			}
			ids = ids[:min(n, len(ids))]
		}
		a := bson.A{}
		for _, id := range ids {
			a = append(a, project(f.docs[id], doc(get(q, "projection"))))
		}
		return bson.D{{"cursor", bson.D{{"id", int64(0)}, {"ns", ns}, {"firstBatch", a}}}, {"ok", 1.0}}, nil
	case "findAndModify":
		fl := doc(get(q, "query"))
		if err := f.needKey(fl, false); err != nil {
			return nil, err
		}
		ids, err := f.find(fl, doc(get(q, "sort")), get(q, "hint"))
		if err != nil {
			return nil, err
		}
		if len(ids) == 0 {
			if truth(get(q, "upsert")) {
				d, err := upserted(fl, doc(get(q, "update")))
				if err != nil {
					return nil, err
				}
				f.put(fmt.Sprint(get(d, "_id")), d)
				return bson.D{{"lastErrorObject", bson.D{{"n", int32(1)}, {"updatedExisting", false}, {"upserted", get(d, "_id")}}}, {"value", d}, {"ok", 1.0}}, nil
			}
			return bson.D{{"lastErrorObject", bson.D{{"n", int32(0)}, {"updatedExisting", false}}}, {"value", nil}, {"ok", 1.0}}, nil
		}
		old := f.docs[ids[0]]
		if truth(get(q, "remove")) {
			f.remove(ids[0])
			return bson.D{{"lastErrorObject", bson.D{{"n", int32(1)}}}, {"value", old}, {"ok", 1.0}}, nil
		}
		d, err := update(old, doc(get(q, "update")))
		if err != nil {
			return nil, err
		}
		if f.shard != "" && f.shard != "topic" {
			if err := f.moved(old, d); err != nil {
				return nil, err
			}
		}
		f.put(ids[0], d)
		v := old
		if truth(get(q, "new")) {
			v = d
		}
		return bson.D{{"lastErrorObject", bson.D{{"n", int32(1)}, {"updatedExisting", true}}}, {"value", project(v, doc(get(q, "fields")))}, {"ok", 1.0}}, nil
	case "insert":
		errs, n := bson.A{}, 0
		for i, v := range arr("documents") {
			d := doc(v)
			id := fmt.Sprint(get(d, "_id"))
			if f.rejectDoc != nil {
				if c := f.rejectDoc(i); c != 0 {
					writeErr(&errs, i, bad(c, "DocumentValidationFailure", "document failed validation"))
					if ordered {
						break
					}
					continue
				}
			}
			if _, ok := f.docs[id]; ok {
				writeErr(&errs, i, bad(11000, "DuplicateKey", "E11000 duplicate key error"))
				if ordered {
					break
				}
				continue
			}
			f.put(id, d)
			n++
		}
		r := bson.D{{"n", int32(n)}, {"ok", 1.0}}
		if len(errs) > 0 {
			r = append(r, bson.E{Key: "writeErrors", Value: errs})
		}
		if f.wce {
			l.Rejected = 64
			r = append(r, bson.E{Key: "writeConcernError", Value: bson.D{{"code", int32(64)}, {"codeName", "WriteConcernFailed"}, {"errmsg", "waiting for replication timed out"}}})
		}
		return r, nil
	case "update":
		errs, ups, n, m := bson.A{}, bson.A{}, 0, 0
		for i, v := range arr("updates") {
			o := doc(v)
			fl, u := doc(get(o, "q")), doc(get(o, "u"))
			one := func() error {
				if !truth(get(o, "multi")) {
					if err := f.needKey(fl, !truth(get(o, "upsert"))); err != nil {
						return err
					}
				}
				ids, err := f.find(fl, nil, get(o, "hint"))
				if err != nil {
					return err
				}
				if len(ids) == 0 && truth(get(o, "upsert")) {
					d, err := upserted(fl, u)
					if err != nil {
						return err
					}
					f.put(fmt.Sprint(get(d, "_id")), d)
					ups = append(ups, bson.D{{"index", int32(i)}, {"_id", get(d, "_id")}})
					n++
					return nil
				}
				if !truth(get(o, "multi")) && len(ids) > 1 {
					ids = ids[:1]
				}
				for _, id := range ids {
					d, err := update(f.docs[id], u)
					if err != nil {
						return err
					}
					if err := f.moved(f.docs[id], d); err != nil {
						return err
					}
					n++
					if !bytes.Equal(rawDoc(d), rawDoc(f.docs[id])) {
						m++
					}
					f.put(id, d)
				}
				return nil
			}
			if err := one(); err != nil {
				writeErr(&errs, i, err)
				if ordered {
					break
				}
			}
		}
		r := bson.D{{"n", int32(n)}, {"nModified", int32(m)}, {"ok", 1.0}}
		if len(ups) > 0 {
			r = append(r, bson.E{Key: "upserted", Value: ups})
		}
		if len(errs) > 0 {
			r = append(r, bson.E{Key: "writeErrors", Value: errs})
		}
		return r, nil
	case "delete":
		errs, n := bson.A{}, 0
		for i, v := range arr("deletes") {
			o := doc(v)
			fl := doc(get(o, "q"))
			ids, err := f.find(fl, nil, get(o, "hint"))
			if err != nil {
				writeErr(&errs, i, err)
				if ordered {
					break
				}
				continue
			}
			if integer(get(o, "limit")) == 1 && len(ids) > 1 {
				ids = ids[:1]
			}
			for _, id := range ids {
				f.remove(id)
				n++
			}
		}
		r := bson.D{{"n", int32(n)}, {"ok", 1.0}}
		if len(errs) > 0 {
			r = append(r, bson.E{Key: "writeErrors", Value: errs})
		}
		return r, nil
	case "aggregate":
		var ds []bson.D
		ids, err := f.find(bson.D{}, nil, get(q, "hint"))
		if err != nil {
			return nil, err
		}
		for _, id := range ids {
			ds = append(ds, f.docs[id])
		}
		for _, s := range arr("pipeline") {
			st := doc(s)
			switch st[0].Key {
			case "$match":
				var r []bson.D
				for _, d := range ds {
					ok, err := matches(d, doc(st[0].Value))
					if err != nil {
						return nil, bad(2, "BadValue", err.Error())
					}
					if ok {
						r = append(r, d)
					}
				}
				ds = r
			case "$group":
				g := doc(st[0].Value)
				var r []bson.D
				for _, d := range ds {
					k := get(g, "_id")
					if s, ok := k.(string); ok && len(s) > 1 && s[0] == '$' {
						k = get(d, s[1:])
					}
					at := -1
					for i := range r {
						if compare(get(r[i], "_id"), k) == 0 {
							at = i
						}
					}
					if at < 0 {
						at = len(r)
						n := bson.D{{"_id", k}}
						for _, e := range g {
							if e.Key != "_id" {
								n = append(n, bson.E{Key: e.Key, Value: int32(0)})
							}
						}
						r = append(r, n)
					}
					for i, e := range r[at] {
						if e.Key != "_id" {
							r[at][i].Value = int32(integer(e.Value) + integer(get(doc(get(g, e.Key)), "$sum")))
						}
					}
				}
				ds = r
			case "$skip":
				ds = ds[min(integer(st[0].Value), len(ds)):]
			case "$limit":
				if integer(st[0].Value) <= 0 {
					return nil, bad(15958, "Location15958", "the limit must be positive")
				}
				ds = ds[:min(integer(st[0].Value), len(ds))]
			case "$sort":
				s := doc(st[0].Value)
				sort.SliceStable(ds, func(i, j int) bool {
					for _, e := range s {
						if c := compare(get(ds[i], e.Key), get(ds[j], e.Key)); c != 0 {
							return c*integer(e.Value) < 0
						}
					}
					return false
				})
			case "$project":
				for i := range ds {
					ds[i] = project(ds[i], doc(st[0].Value))
				}
			default:
				return nil, bad(40324, "Location40324", "unknown stage: "+st[0].Key)
			}
		}
		a := bson.A{}
		for _, d := range ds {
			a = append(a, d)
		}
		return bson.D{{"cursor", bson.D{{"id", int64(0)}, {"ns", ns}, {"firstBatch", a}}}, {"ok", 1.0}}, nil
	case "count":
		ids, err := f.find(doc(get(q, "query")), nil, get(q, "hint"))
		if err != nil {
			return nil, err
		}
		return bson.D{{"n", int32(len(ids))}, {"ok", 1.0}}, nil
	case "drop":
		f.docs, f.order = map[string]bson.D{}, nil
		return bson.D{{"ok", 1.0}}, nil
	case "createIndexes":
		for _, v := range arr("indexes") {
			d := doc(v)
			n := fakeIndex{Name: get(d, "name").(string), Keys: doc(get(d, "key")), Partial: doc(get(d, "partialFilterExpression"))}
			if has(d, "expireAfterSeconds") {
				e := int64(integer(get(d, "expireAfterSeconds")))
				n.Expire = &e
			}
			known := false
			for _, o := range f.indexes {
				if o.Name == n.Name {
					known = true
					if !reflect.DeepEqual(o, n) {
						return nil, bad(85, "IndexOptionsConflict", "an equivalent index already exists with different options")
					}
				}
			}
			if !known {
				f.indexes = append(f.indexes, n)
			}
		}
		return bson.D{{"ok", 1.0}}, nil
	case "collMod":
		d := doc(get(q, "index"))
		for i := range f.indexes {
			if bytes.Equal(rawDoc(f.indexes[i].Keys), rawDoc(doc(get(d, "keyPattern")))) && f.indexes[i].Expire != nil {
				e := int64(integer(get(d, "expireAfterSeconds")))
				f.indexes[i].Expire = &e
				return bson.D{{"ok", 1.0}}, nil
			}
		}
		return nil, bad(27, "IndexNotFound", "cannot find the index")
	}
	return nil, bad(59, "CommandNotFound", "no such command: "+name)
}

// upserted is the document that an upsert inserts.
func upserted(q, u bson.D) (bson.D, error) {
	d := bson.D{}
	for _, e := range q {
		if equality(q, e.Key) {
			d = append(d, e)
		}
	}
	if len(u) > 0 && u[0].Key != "" && u[0].Key[0] != '$' {
		if !has(u, "_id") {
			return update(d, u)
		}
		return u, nil
	}
	return update(d, u)
}

// task decodes a stored document the way the engine presents it.
func task(d bson.D) *ratus.Task {
	if d == nil {
		return nil
	}
	r := bson.NewRegistry()
	r.RegisterTypeMapEntry(bsontype.EmbeddedDocument, reflect.TypeOf(bson.M{}))
	var t ratus.Task
	if err := bson.UnmarshalWithRegistry(r, rawDoc(d), &t); err != nil {
		panic(err)
	}
	return &t
}

// stored is the document of a task.
func storedDoc(t *ratus.Task) bson.D {
	b, err := bson.Marshal(t)
	if err != nil {
		panic(err)
	}
	var d bson.D
	if err := bson.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return d
}
