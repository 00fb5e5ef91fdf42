package memdb_test

// Concrete search for inputs that violate a contract of the in-memory engine.
// Bounded: it never counts as proof. Every expectation below is the contract
// of /verif/contracts/memdb.go evaluated on concrete values; the state of the
// database is read directly from the go-memdb tables.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	gomemdb "github.com/hashicorp/go-memdb"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
)

var ctx = context.Background()

// database finds the go-memdb instance behind an engine.
func database(g *memdb.Engine) *gomemdb.MemDB {
	v := reflect.ValueOf(g).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*gomemdb.MemDB)(nil)) {
			return *(**gomemdb.MemDB)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}

func table(db *gomemdb.MemDB) string {
	for n := range db.DBSchema().Tables {
		return n
	}
	return ""
}

type dbState map[string]ratus.Task

func dump(g *memdb.Engine) dbState {
	db := database(g)
	if db == nil {
		return nil
	}
	txn := db.Txn(false)
	defer txn.Abort()
	it, err := txn.Get(table(db), "id")
	if err != nil {
		panic(err)
	}
	m := dbState{}
	for r := it.Next(); r != nil; r = it.Next() {
		t := r.(*ratus.Task)
		m[t.ID] = *t
	}
	return m
}

func put(g *memdb.Engine, ts ...ratus.Task) {
	db := database(g)
	txn := db.Txn(true)
	for i := range ts {
		t := ts[i]
		if err := txn.Insert(table(db), &t); err != nil {
			panic(err)
		}
	}
	txn.Commit()
}

func eqTime(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Equal(*b)
}

func eqTask(a, b ratus.Task) bool {
	return a.ID == b.ID && a.Topic == b.Topic && a.State == b.State && a.Nonce == b.Nonce && a.Producer == b.Producer && a.Consumer == b.Consumer &&
		eqTime(a.Produced, b.Produced) && eqTime(a.Scheduled, b.Scheduled) && eqTime(a.Consumed, b.Consumed) && eqTime(a.Deadline, b.Deadline) &&
		reflect.DeepEqual(a.Payload, b.Payload) && a.Defer == b.Defer
}

func eqState(a, b dbState) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("task %q is missing, want %s", k, str(v))
		}
		if !eqTask(v, w) {
			return fmt.Sprintf("task %q is %s, want %s", k, str(w), str(v))
		}
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("task %q exists unexpectedly: %s", k, str(w))
		}
	}
	return ""
}

func (s dbState) clone() dbState {
	m := dbState{}
	for k, v := range s {
		m[k] = v
	}
	return m
}

func ts(t *time.Time) string {
	if t == nil {
		return "nil"
	}
	return t.UTC().Format(time.RFC3339Nano)
}

func str(t ratus.Task) string {
	return fmt.Sprintf("{id=%q topic=%q state=%d nonce=%q producer=%q consumer=%q produced=%s scheduled=%s consumed=%s deadline=%s payload=%#v defer=%q}", t.ID, t.Topic, t.State, t.Nonce, t.Producer, t.Consumer, ts(t.Produced), ts(t.Scheduled), ts(t.Consumed), ts(t.Deadline), t.Payload, t.Defer)
}

func alnum(s string) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z') {
			return false
		}
	}
	return true
}

type hist struct {
	h   *verifH
	log []string
}

func (s *hist) add(f string, a ...any) { s.log = append(s.log, fmt.Sprintf(f, a...)) }
func (s *hist) check(ok bool, props string, f string, a ...any) bool {
	return s.h.check(ok, props, func() string { return fmt.Sprintf(f, a...) + "\n    history:\n      " + strings.Join(s.log, "\n      ") })
}

// call runs an operation, watching for panics and for operations that hang.
func (s *hist) call(name string, f func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprint("panics: ", r)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case m := <-done:
		return s.check(m == "", "C10", "%s %s", name, m)
	case <-time.After(20 * time.Second):
		s.check(false, "C10", "%s does not return: the engine was left unusable", name)
		return false
	}
}

func newEngine(c *memdb.Config) *memdb.Engine {
	g, err := memdb.New(c)
	if err != nil {
		panic(err)
	}
	return g
}

var topics = []string{"a", "b", "ab", "a ", "c", "A", "a"}
var ids = []string{"1", "2", "3", "12", "4", "x y", "1 "}

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

func instant(r *rand.Rand) *time.Time {
	now := time.Now()
	var t time.Time
	switch r.Intn(14) {
	case 0, 1:
		return nil
	case 2:
		t = now.Add(-time.Hour)
	case 3:
		t = now.Add(time.Hour)
	case 4:
		t = now.Add(-time.Duration(r.Intn(5000)) * time.Microsecond)
	case 5:
		t = now.Add(time.Duration(r.Intn(5000)) * time.Microsecond)
	case 6:
		t = time.Date(1960, 1, 1, 0, 0, r.Intn(3), r.Intn(1e9), time.UTC)
	case 7:
		t = time.Date(1, 1, 1, 0, 0, 0, r.Intn(2), time.UTC)
	case 8:
		t = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
	case 9:
		t = time.Unix(0, int64(r.Intn(4))*500000)
	case 10:
		t = time.Date(1969, 12, 31, 23, 59, 59, r.Intn(1e9), time.UTC)
	case 11:
		t = now.Add(-time.Duration(r.Intn(100)) * time.Minute)
	case 12:
		t = now.Add(-time.Duration(r.Intn(1000)) * time.Hour)
	default:
		t = now.Add(-time.Duration(r.Intn(3000)) * time.Millisecond)
	}
	return &t
}

func randTask(r *rand.Rand) ratus.Task {
	t := ratus.Task{ID: pick(r, ids), Topic: pick(r, topics), State: ratus.TaskState(r.Intn(4)), Producer: pick(r, []string{"", "p"}), Produced: instant(r), Scheduled: instant(r), Consumed: instant(r), Deadline: instant(r)}
	if r.Intn(2) == 0 {
		t.Nonce = pick(r, []string{"n1", "n2"})
		t.Consumer = "w"
	}
	if r.Intn(2) == 0 {
		t.Payload = pick(r, []any{"s", 1.5, map[string]any{"k": "v"}, []any{"x"}, true})
	}
	return t
}

func randPromise(r *rand.Rand) ratus.Promise {
	return ratus.Promise{ID: pick(r, ids), Consumer: pick(r, []string{"", "w1", "w2"}), Deadline: instant(r)}
}

func claimed(t ratus.Task, p ratus.Promise, at *time.Time, nonce string) ratus.Task {
	t.State = ratus.TaskStateActive
	t.Nonce = nonce
	t.Consumer = p.Consumer
	t.Consumed = at
	t.Deadline = p.Deadline
	return t
}

func released(t ratus.Task) ratus.Task {
	t.State = ratus.TaskStatePending
	t.Nonce = ""
	return t
}

func ms(t time.Time) int64 { return t.UnixMilli() }

func (s *hist) claim(pre, post dbState, res *ratus.Task, p ratus.Promise, t0, t1 time.Time, poll bool) {
	if !s.check(res != nil, "C01", "claim returns neither a task nor an error") {
		return
	}
	old, ok := pre[res.ID]
	if !s.check(ok, "C01", "claim returns task %q, which did not exist", res.ID) {
		return
	}
	s.check(len(res.Nonce) == ratus.NonceLength && alnum(res.Nonce), "C01", "nonce of the claim is %q", res.Nonce)
	s.check(res.Nonce != old.Nonce, "C01", "the nonce %q of the claim is the one that %s already had", res.Nonce, str(old))
	s.check(res.Consumed != nil && !res.Consumed.Before(t0) && !res.Consumed.After(t1), "C01", "time of the claim is %s, not within [%s, %s]", ts(res.Consumed), ts(&t0), ts(&t1))
	w := claimed(old, p, res.Consumed, res.Nonce)
	s.check(eqTask(*res, w), "C01", "claim returns %s, want %s", str(*res), str(w))
	want := pre.clone()
	want[res.ID] = w
	d := eqState(want, post)
	s.check(d == "", "C01", "after a claim: %s", d)
}

// scribble changes every field of a task that the caller owns.
func scribble(t *ratus.Task) {
	if t == nil {
		return
	}
	id := t.ID
	*t = ratus.Task{ID: id + "!", Topic: "scribbled", State: 3, Nonce: "scribbled", Consumer: "scribbled"}
}

func (s *hist) private(g *memdb.Engine, what string, f func()) {
	a := dump(g)
	f()
	d := eqState(a, dump(g))
	s.check(d == "", "C10", "changing a field of the task %s changes the database: %s", what, d)
}

func (s *hist) failFrame(props string, err error, pre, post dbState, what string) {
	if err != nil {
		d := eqState(pre, post)
		s.check(d == "", props+",C10", "%s failed (%v) but changed the database: %s", what, err, d)
	}
}

func (s *hist) step(g *memdb.Engine, cfg *memdb.Config, r *rand.Rand) bool {
	pre := dump(g)
	is := errors.Is
	now := time.Now
	var err error
	switch op := r.Intn(24); op {
	case 0, 1, 2:
		topic := pick(r, topics)
		p := randPromise(r)
		p.ID = ""
		q := p
		s.add("Poll(%q, %+v)", topic, p)
		var res *ratus.Task
		t0 := now()
		if !s.call("Poll", func() { res, err = g.Poll(ctx, topic, &q) }) {
			return false
		}
		t1 := now()
		post := dump(g)
		s.failFrame("C01", err, pre, post, "Poll")
		if err != nil {
			s.check(is(err, ratus.ErrNotFound), "C01,C02", "Poll: %v", err)
			for _, t := range pre {
				s.check(!(t.Topic == topic && t.State == 0 && t.Scheduled != nil && ms(*t.Scheduled) < ms(t0)), "C02", "Poll(%q) found nothing, but %s is due", topic, str(t))
			}
			return true
		}
		s.claim(pre, post, res, p, t0, t1, true)
		if res == nil {
			return true
		}
		o := pre[res.ID]
		s.check(o.State == ratus.TaskStatePending, "C01,C02", "Poll takes %s", str(o))
		s.check(o.Topic == topic, "C02", "Poll(%q) takes %s", topic, str(o))
		if s.check(o.Scheduled != nil && !o.Scheduled.After(t1), "C02", "Poll takes %s at %s", str(o), ts(&t1)) {
			for _, t := range pre {
				s.check(!(t.Topic == topic && t.State == 0 && t.Scheduled != nil && ms(*t.Scheduled) < ms(*o.Scheduled)), "C02", "Poll takes %s before %s", str(o), str(t))
			}
		}
		s.private(g, "returned by Poll", func() { scribble(res) })
	case 3, 4, 5:
		id := pick(r, ids)
		m := ratus.Commit{}
		if r.Intn(3) > 0 {
			m.Nonce = pick(r, []string{"n1", "n2", pre[id].Nonce, pre[id].Nonce})
		}
		if r.Intn(2) == 0 {
			m.Topic = pick(r, topics)
		}
		if r.Intn(2) == 0 {
			st := ratus.TaskState(r.Intn(4))
			m.State = &st
		}
		if r.Intn(2) == 0 {
			m.Scheduled = instant(r)
		}
		if r.Intn(2) == 0 {
			m.Payload = pick(r, []any{"q", 2.5, false})
		}
		c := m
		st := "nil"
		if m.State != nil {
			st = fmt.Sprint(*m.State)
		}
		s.add("Commit(%q, nonce=%q topic=%q state=%s scheduled=%s payload=%v)", id, m.Nonce, m.Topic, st, ts(m.Scheduled), m.Payload)
		var res *ratus.Task
		if !s.call("Commit", func() { res, err = g.Commit(ctx, id, &c) }) {
			return false
		}
		post := dump(g)
		s.failFrame("C03", err, pre, post, "Commit")
		o, has := pre[id]
		switch {
		case !has:
			s.check(is(err, ratus.ErrNotFound), "C03", "Commit of a missing task: %v", err)
		case m.Nonce != "" && m.Nonce != o.Nonce:
			s.check(is(err, ratus.ErrConflict), "C03", "Commit with nonce %q on %s: %v", m.Nonce, str(o), err)
		default:
			if s.check(err == nil && res != nil, "C03", "Commit on %s: %v", str(o), err) {
				w := o
				w.Nonce = ""
				if m.Topic != "" {
					w.Topic = m.Topic
				}
				if m.State != nil {
					w.State = *m.State
				}
				if m.Scheduled != nil {
					w.Scheduled = m.Scheduled
				}
				if m.Payload != nil {
					w.Payload = m.Payload
				}
				s.check(eqTask(*res, w), "C03", "Commit returns %s, want %s", str(*res), str(w))
				want := pre.clone()
				want[id] = w
				d := eqState(want, post)
				s.check(d == "", "C03", "after Commit: %s", d)
			}
		}
		if err == nil {
			s.private(g, "returned by Commit", func() { scribble(res) })
		}
	case 6, 7, 8:
		s.add("Chore()")
		t0 := now()
		if !s.call("Chore", func() { err = g.Chore(ctx) }) {
			return false
		}
		t1 := now()
		post := dump(g)
		s.check(err == nil, "C04,C06,C11", "Chore: %v", err)
		s.checkChore(cfg, pre, post, t0, t1)
	case 9:
		id := pick(r, ids)
		s.add("GetPromise(%q)", id)
		var res *ratus.Promise
		if !s.call("GetPromise", func() { res, err = g.GetPromise(ctx, id) }) {
			return false
		}
		if o, ok := pre[id]; ok && o.State == ratus.TaskStateActive {
			s.check(err == nil && res != nil && res.ID == id && res.Consumer == o.Consumer && eqTime(res.Deadline, o.Deadline), "C05", "GetPromise of %s: %+v, %v", str(o), res, err)
		} else {
			s.check(res == nil && is(err, ratus.ErrNotFound), "C05", "GetPromise(%q) without a promise: %+v, %v", id, res, err)
		}
		d := eqState(pre, dump(g))
		s.check(d == "", "C05", "GetPromise changes the database: %s", d)
	case 10:
		id := pick(r, ids)
		s.add("DeletePromise(%q)", id)
		var res *ratus.Deleted
		if !s.call("DeletePromise", func() { res, err = g.DeletePromise(ctx, id) }) {
			return false
		}
		s.checkReleased(pre, dump(g), res, err, func(t ratus.Task) bool { return t.ID == id }, "DeletePromise")
	case 11:
		topic := pick(r, topics)
		s.add("DeletePromises(%q)", topic)
		var res *ratus.Deleted
		if !s.call("DeletePromises", func() { res, err = g.DeletePromises(ctx, topic) }) {
			return false
		}
		s.checkReleased(pre, dump(g), res, err, func(t ratus.Task) bool { return t.Topic == topic }, "DeletePromises")
	case 12, 13:
		p := randPromise(r)
		q := p
		force := op == 13
		name := "InsertPromise"
		if force {
			name = "UpsertPromise"
		}
		s.add("%s(%+v)", name, p)
		var res *ratus.Task
		t0 := now()
		if !s.call(name, func() {
			if force {
				res, err = g.UpsertPromise(ctx, &q)
			} else {
				res, err = g.InsertPromise(ctx, &q)
			}
		}) {
			return false
		}
		t1 := now()
		post := dump(g)
		s.failFrame("C01", err, pre, post, name)
		o, has := pre[p.ID]
		switch {
		case !has:
			s.check(is(err, ratus.ErrNotFound), "C01", "%s of a missing task: %v", name, err)
		case !force && o.State != ratus.TaskStatePending:
			s.check(is(err, ratus.ErrConflict), "C01", "%s of %s: %v", name, str(o), err)
		default:
			if s.check(err == nil, "C01", "%s of %s: %v", name, str(o), err) {
				s.claim(pre, post, res, p, t0, t1, false)
				s.check(res != nil && res.ID == p.ID, "C01", "%s(%q) takes another task", name, p.ID)
				s.private(g, "returned by "+name, func() { scribble(res) })
			}
		}
	case 14, 15:
		t := randTask(r)
		if r.Intn(12) == 0 {
			t.Topic = ""
		}
		if r.Intn(12) == 0 {
			t.ID = ""
		}
		q := t
		ups := op == 15
		name := "InsertTask"
		if ups {
			name = "UpsertTask"
		}
		s.add("%s(%s)", name, str(t))
		var res *ratus.Updated
		if !s.call(name, func() {
			if ups {
				res, err = g.UpsertTask(ctx, &q)
			} else {
				res, err = g.InsertTask(ctx, &q)
			}
		}) {
			return false
		}
		post := dump(g)
		s.failFrame("C07", err, pre, post, name)
		_, has := pre[t.ID]
		valid := t.ID != "" && t.Topic != ""
		if !ups && has {
			s.check(is(err, ratus.ErrConflict), "C07", "InsertTask of an existing ID: %v", err)
		} else if valid {
			if s.check(err == nil && res != nil, "C07", "%s: %v", name, err) {
				c, u := int64(1), int64(0)
				if has {
					c, u = 0, 1
				}
				s.check(res.Created == c && res.Updated == u, "C07", "%s reports %+v, want created %d updated %d", name, *res, c, u)
				want := pre.clone()
				want[t.ID] = t
				d := eqState(want, post)
				s.check(d == "", "C07", "after %s: %s", name, d)
				s.private(g, "given to "+name, func() { scribble(&q) })
			}
		}
	case 16, 17:
		n := r.Intn(5)
		var in []ratus.Task
		var q []*ratus.Task
		valid := true
		for i := 0; i < n; i++ {
			t := randTask(r)
			if r.Intn(15) == 0 {
				t.Topic, valid = "", false
			}
			in = append(in, t)
			c := t
			q = append(q, &c)
		}
		ups := op == 17
		name := "InsertTasks"
		if ups {
			name = "UpsertTasks"
		}
		s.add("%s(%d tasks):", name, n)
		for _, t := range in {
			s.add("    %s", str(t))
		}
		var res *ratus.Updated
		if !s.call(name, func() {
			if ups {
				res, err = g.UpsertTasks(ctx, q)
			} else {
				res, err = g.InsertTasks(ctx, q)
			}
		}) {
			return false
		}
		post := dump(g)
		s.failFrame("C07", err, pre, post, name)
		if !ups && !valid {
			// the invalid element is only looked at if its ID is unused
			return true
		}
		if !valid {
			s.check(err != nil, "C07", "%s accepts an invalid element", name)
			return true
		}
		want := pre.clone()
		var c, u int64
		for _, t := range in {
			if _, ok := want[t.ID]; ok {
				if ups {
					want[t.ID] = t
					u++
				}
			} else {
				want[t.ID] = t
				c++
			}
		}
		if s.check(err == nil && res != nil, "C07", "%s: %v", name, err) {
			s.check(res.Created == c && res.Updated == u, "C07", "%s reports %+v, want created %d updated %d", name, *res, c, u)
			d := eqState(want, post)
			s.check(d == "", "C07", "after %s: %s", name, d)
			s.private(g, "given to "+name, func() {
				for _, t := range q {
					scribble(t)
				}
			})
		}
	case 18, 19, 20:
		var res *ratus.Deleted
		var match func(t ratus.Task) bool
		var name string
		topic := pick(r, topics)
		id := pick(r, ids)
		k := r.Intn(9)
		var f func()
		switch {
		case k < 4:
			name = fmt.Sprintf("DeleteTask(%q)", id)
			match = func(t ratus.Task) bool { return t.ID == id }
			f = func() { res, err = g.DeleteTask(ctx, id) }
		case k < 6:
			name = fmt.Sprintf("DeleteTasks(%q)", topic)
			match = func(t ratus.Task) bool { return t.Topic == topic }
			f = func() { res, err = g.DeleteTasks(ctx, topic) }
		case k < 8:
			name = fmt.Sprintf("DeleteTopic(%q)", topic)
			match = func(t ratus.Task) bool { return t.Topic == topic }
			f = func() { res, err = g.DeleteTopic(ctx, topic) }
		default:
			name = "DeleteTopics()"
			match = func(t ratus.Task) bool { return true }
			f = func() { res, err = g.DeleteTopics(ctx) }
		}
		s.add("%s", name)
		if !s.call(name, f) {
			return false
		}
		want := dbState{}
		n := int64(0)
		for k, t := range pre {
			if match(t) {
				n++
			} else {
				want[k] = t
			}
		}
		if s.check(err == nil && res != nil, "C08", "%s: %v", name, err) {
			s.check(res.Deleted == n, "C08", "%s reports %d, want %d", name, res.Deleted, n)
			d := eqState(want, dump(g))
			s.check(d == "", "C08", "after %s: %s", name, d)
		}
	default:
		s.reads(g, pre, r)
		d := eqState(pre, dump(g))
		s.check(d == "", "C09", "reads change the database: %s", d)
	}
	return true
}

func (s *hist) checkChore(cfg *memdb.Config, pre, post dbState, t0, t1 time.Time) {
	ret := cfg.RetentionPeriod
	for k, o := range pre {
		n, ok := post[k]
		same := ok && eqTask(o, n)
		switch {
		case o.State == ratus.TaskStateActive && o.Deadline != nil && ms(*o.Deadline) < ms(t0):
			s.check(ok && eqTask(n, released(o)), "C04", "Chore at %s leaves the timed-out task %s as %s (exists: %v)", ts(&t0), str(o), str(n), ok)
		case o.State == ratus.TaskStateActive && o.Deadline != nil && !o.Deadline.After(t1):
			s.check(same || ok && eqTask(n, released(o)), "C04", "Chore turns %s into %s", str(o), str(n))
		case o.State == ratus.TaskStateCompleted && o.Consumed != nil && !o.Consumed.Add(ret+time.Millisecond).After(t0):
			s.check(!ok, "C06", "Chore at %s with retention %v keeps the expired task %s", ts(&t0), ret, str(o))
		case o.State == ratus.TaskStateCompleted && o.Consumed != nil && !o.Consumed.Add(ret).After(t1):
			s.check(same || !ok, "C06", "Chore turns %s into %s", str(o), str(n))
		case o.State == ratus.TaskStateActive:
			s.check(ok, "C06", "Chore deletes %s", str(o))
			s.check(!ok || same, "C04", "Chore at %s turns %s into %s", ts(&t1), str(o), str(n))
		default:
			s.check(ok, "C06", "Chore at %s with retention %v deletes %s", ts(&t1), ret, str(o))
			s.check(!ok || same, "C04", "Chore turns %s into %s", str(o), str(n))
		}
	}
	for k := range post {
		_, ok := pre[k]
		s.check(ok, "C04,C06", "Chore creates task %q", k)
	}
}

func (s *hist) checkReleased(pre, post dbState, res *ratus.Deleted, err error, match func(ratus.Task) bool, name string) {
	want := pre.clone()
	n := int64(0)
	for k, t := range pre {
		if match(t) && t.State == ratus.TaskStateActive {
			want[k] = released(t)
			n++
		}
	}
	if s.check(err == nil && res != nil, "C05", "%s: %v", name, err) {
		s.check(res.Deleted == n, "C05", "%s reports %d, want %d", name, res.Deleted, n)
		d := eqState(want, post)
		s.check(d == "", "C05", "after %s: %s", name, d)
	}
}

func pages[T any](list func(limit, offset int) ([]T, error), size int) ([]T, string) {
	var all []T
	for o := 0; ; o += size {
		p, err := list(size, o)
		if err != nil {
			return nil, err.Error()
		}
		if len(p) > size {
			return nil, fmt.Sprintf("a page of limit %d at offset %d has %d items", size, o, len(p))
		}
		all = append(all, p...)
		if len(p) < size || o > 1000 {
			return all, ""
		}
	}
}

func (s *hist) reads(g *memdb.Engine, pre dbState, r *rand.Rand) {
	var err error
	id := pick(r, ids)
	s.add("reads")
	var t *ratus.Task
	if !s.call("GetTask", func() { t, err = g.GetTask(ctx, id) }) {
		return
	}
	if o, ok := pre[id]; ok {
		if s.check(err == nil && t != nil && eqTask(*t, o), "C09", "GetTask(%q) returns %v, %v, want %s", id, t, err, str(o)) {
			s.private(g, "returned by GetTask", func() { scribble(t) })
		}
	} else {
		s.check(t == nil && errors.Is(err, ratus.ErrNotFound), "C09", "GetTask(%q) of a missing task: %v, %v", id, t, err)
	}
	topic := pick(r, topics)
	in := map[string]ratus.Task{}
	act := map[string]ratus.Task{}
	names := map[string]bool{}
	for _, o := range pre {
		names[o.Topic] = true
		if o.Topic == topic {
			in[o.ID] = o
			if o.State == ratus.TaskStateActive {
				act[o.ID] = o
			}
		}
	}
	var tp *ratus.Topic
	if !s.call("GetTopic", func() { tp, err = g.GetTopic(ctx, topic) }) {
		return
	}
	if len(in) > 0 {
		s.check(err == nil && tp != nil && tp.Name == topic && tp.Count == int64(len(in)), "C09", "GetTopic(%q) returns %+v, %v, want %d tasks", topic, tp, err, len(in))
	} else {
		s.check(tp == nil && errors.Is(err, ratus.ErrNotFound), "C09", "GetTopic(%q) of an empty topic: %+v, %v", topic, tp, err)
	}
	size := 1 + r.Intn(4)
	s.call("ListTasks", func() {
		l, m := pages(func(a, b int) ([]*ratus.Task, error) { return g.ListTasks(ctx, topic, a, b) }, size)
		s.check(m == "", "C09", "ListTasks(%q): %s", topic, m)
		full, err := g.ListTasks(ctx, topic, 100, 0)
		s.check(err == nil && len(full) == len(in), "C09", "ListTasks(%q, 100, 0): %d items, %v, want %d", topic, len(full), err, len(in))
		ok := len(l) == len(full)
		seen := map[string]bool{}
		for i, t := range full {
			o, has := in[t.ID]
			s.check(has && eqTask(*t, o) && !seen[t.ID], "C09", "ListTasks(%q) shows %s", topic, str(*t))
			seen[t.ID] = true
			ok = ok && l[i].ID == t.ID
		}
		s.check(ok, "C09", "pages of %d of ListTasks(%q) do not partition the listing", size, topic)
		z, err := g.ListTasks(ctx, topic, 0, 0)
		s.check(err == nil && len(z) == 0, "C09", "ListTasks(%q, 0, 0): %d items, %v", topic, len(z), err)
		for _, t := range full {
			s.private(g, "returned by ListTasks", func() { scribble(t) })
			break
		}
	})
	s.call("ListPromises", func() {
		l, m := pages(func(a, b int) ([]*ratus.Promise, error) { return g.ListPromises(ctx, topic, a, b) }, size)
		s.check(m == "", "C05,C09", "ListPromises(%q): %s", topic, m)
		full, err := g.ListPromises(ctx, topic, 100, 0)
		s.check(err == nil && len(full) == len(act), "C05,C09", "ListPromises(%q, 100, 0): %d items, %v, want %d", topic, len(full), err, len(act))
		ok := len(l) == len(full)
		seen := map[string]bool{}
		for i, p := range full {
			o, has := act[p.ID]
			s.check(has && p.Consumer == o.Consumer && eqTime(p.Deadline, o.Deadline) && !seen[p.ID], "C05,C09", "ListPromises(%q) shows %+v", topic, *p)
			seen[p.ID] = true
			ok = ok && l[i].ID == p.ID
		}
		s.check(ok, "C05,C09", "pages of %d of ListPromises(%q) do not partition the listing", size, topic)
	})
	s.call("ListTopics", func() {
		l, m := pages(func(a, b int) ([]*ratus.Topic, error) { return g.ListTopics(ctx, a, b) }, size)
		s.check(m == "", "C09", "ListTopics: %s", m)
		full, err := g.ListTopics(ctx, 100, 0)
		s.check(err == nil && len(full) == len(names), "C09", "ListTopics(100, 0): %d items, %v, want %d", len(full), err, len(names))
		ok := len(l) == len(full)
		seen := map[string]bool{}
		for i, t := range full {
			s.check(names[t.Name] && !seen[t.Name], "C09", "ListTopics shows %+v", *t)
			seen[t.Name] = true
			ok = ok && l[i].Name == t.Name
		}
		s.check(ok, "C09", "pages of %d of ListTopics do not partition the listing", size)
	})
}

func TestVerifSequences(t *testing.T) {
	h := newVerifH(t, "memdb sequences")
	defer h.done()
	n := h.n(300)
	for i := 0; i < n && h.ok(); i++ {
		r := h.rand(i)
		cfg := &memdb.Config{RetentionPeriod: pick(r, []time.Duration{time.Hour, 0, 72 * time.Hour, 40 * time.Minute, 24 * 365 * 90 * time.Hour, -time.Hour})}
		g := newEngine(cfg)
		if err := g.Open(ctx); err != nil {
			t.Fatal(err)
		}
		s := &hist{h: h}
		s.add("engine with retention %v", cfg.RetentionPeriod)
		for k := r.Intn(7); k > 0; k-- {
			x := randTask(r)
			s.add("stored: %s", str(x))
			put(g, x)
		}
		for k := 0; k < 25 && h.ok(); k++ {
			h.caseDone(func() string { return strings.Join(s.log, "; ") })
			if !s.step(g, cfg, r) {
				break
			}
		}
	}
}

// Every claim, commit and batch is one atomic step for concurrent callers.
func TestVerifConcurrent(t *testing.T) {
	h := newVerifH(t, "memdb schedules")
	defer h.done()
	n := h.n(60)
	for i := 0; i < n && h.ok(); i++ {
		r := h.rand(i)
		g := newEngine(&memdb.Config{RetentionPeriod: time.Hour})
		if err := g.Open(ctx); err != nil {
			t.Fatal(err)
		}
		s := &hist{h: h}
		past := time.Now().Add(-time.Hour)
		future := time.Now().Add(time.Hour)
		const m, w = 6, 8
		for k := 0; k < m; k++ {
			put(g, ratus.Task{ID: fmt.Sprint(k), Topic: "a", Scheduled: &past})
		}
		kind := i % 6
		s.add("kind %d with %d tasks and %d workers", kind, m, w)
		h.caseDone(func() string { return s.log[0] })
		var mu sync.Mutex
		count := map[string]int{}
		okc := map[string]int{}
		run := func(f func(k int)) bool {
			var wg sync.WaitGroup
			start := make(chan bool)
			for k := 0; k < w; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					f(k)
				}()
			}
			return s.call("concurrent operations", func() { close(start); wg.Wait() })
		}
		switch kind {
		case 0: // polls
			if !run(func(int) {
				for j := 0; j < 3; j++ {
					v, err := g.Poll(ctx, "a", &ratus.Promise{Deadline: &future})
					mu.Lock()
					if err == nil {
						count[v.ID]++
					}
					mu.Unlock()
				}
			}) {
				return
			}
			for k := 0; k < m; k++ {
				s.check(count[fmt.Sprint(k)] == 1, "C01,C10", "task %d was handed out %d times to concurrent polls", k, count[fmt.Sprint(k)])
			}
		case 1: // promises on one task
			if !run(func(int) {
				_, err := g.InsertPromise(ctx, &ratus.Promise{ID: "0", Deadline: &future})
				mu.Lock()
				if err == nil {
					count["0"]++
				}
				mu.Unlock()
			}) {
				return
			}
			s.check(count["0"] == 1, "C01,C10", "%d of %d concurrent promises on one task succeeded", count["0"], w)
		case 2: // commits under one nonce
			v, err := g.Poll(ctx, "a", &ratus.Promise{Deadline: &future})
			if err != nil {
				continue
			}
			if !run(func(k int) {
				st := ratus.TaskStatePending
				_, err := g.Commit(ctx, v.ID, &ratus.Commit{Nonce: v.Nonce, State: &st, Payload: k})
				mu.Lock()
				if err == nil {
					count["0"]++
				}
				mu.Unlock()
			}) {
				return
			}
			s.check(count["0"] == 1, "C03,C10", "%d of %d concurrent commits under one nonce succeeded", count["0"], w)
		case 3: // inserts of one ID
			if !run(func(k int) {
				_, err := g.InsertTask(ctx, &ratus.Task{ID: "new", Topic: "a", Payload: k})
				mu.Lock()
				if err == nil {
					count["new"]++
				}
				mu.Unlock()
			}) {
				return
			}
			s.check(count["new"] == 1, "C07,C10", "%d of %d concurrent inserts of one ID succeeded", count["new"], w)
		case 4: // deletes win against everything that follows
			if !run(func(k int) {
				id := fmt.Sprint(k % 2)
				switch k {
				case 0, 1:
					g.DeleteTask(ctx, id)
				case 2, 3:
					g.Commit(ctx, id, &ratus.Commit{Payload: "x"})
				case 4, 5:
					g.InsertPromise(ctx, &ratus.Promise{ID: id, Deadline: &past})
				default:
					g.Chore(ctx)
				}
			}) {
				return
			}
			d := dump(g)
			for _, id := range []string{"0", "1"} {
				_, ok := d[id]
				s.check(!ok, "C08,C10", "task %s, deleted while other operations ran, exists again", id)
			}
		case 5: // batches are seen entirely or not at all
			if !run(func(k int) {
				if k < 2 {
					for j := 0; j < 40; j++ {
						var b []*ratus.Task
						for q := 0; q < 4; q++ {
							b = append(b, &ratus.Task{ID: fmt.Sprint("b", q), Topic: "batch", Payload: fmt.Sprint(k, "-", j)})
						}
						g.UpsertTasks(ctx, b)
					}
					return
				}
				for j := 0; j < 60; j++ {
					l, err := g.ListTasks(ctx, "batch", 10, 0)
					if err != nil {
						continue
					}
					p := map[any]bool{}
					for _, t := range l {
						p[t.Payload] = true
					}
					mu.Lock()
					if len(p) > 1 || len(l) != 0 && len(l) != 4 {
						okc["mixed"]++
					}
					mu.Unlock()
				}
			}) {
				return
			}
			s.check(okc["mixed"] == 0, "C10", "a batch upsert was seen half-way by %d concurrent listings", okc["mixed"])
		}
		_ = r
	}
}

func inode(p string) (os.FileInfo, []byte) {
	fi, err := os.Stat(p)
	if err != nil {
		return nil, nil
	}
	b, _ := os.ReadFile(p)
	return fi, b
}

func listDir(d string) []string {
	es, _ := os.ReadDir(d)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	sort.Strings(r)
	return r
}

// gob drops pointers to the zero time: recorded as a known finding.
func zeroTime(t ratus.Task) bool {
	z := func(p *time.Time) bool { return p != nil && p.IsZero() }
	return z(t.Produced) || z(t.Scheduled) || z(t.Consumed) || z(t.Deadline)
}

func TestVerifSnapshots(t *testing.T) {
	h := newVerifH(t, "memdb snapshots")
	defer h.done()
	n := h.n(60)
	for i := 0; i < n && h.ok(); i++ {
		r := h.rand(i)
		dir := t.TempDir()
		path := filepath.Join(dir, "snap.db")
		s := &hist{h: h}
		cfg := &memdb.Config{SnapshotPath: path, SnapshotInterval: pick(r, []time.Duration{0, time.Hour, time.Minute}), RetentionPeriod: 24 * 365 * 250 * time.Hour}
		g := newEngine(cfg)
		err := g.Open(ctx)
		s.check(err == nil && len(dump(g)) == 0, "C11", "Open without a snapshot: %v, %d tasks", err, len(dump(g)))
		s.check(len(listDir(dir)) == 0, "C11", "Open creates files: %v", listDir(dir))
		for k := r.Intn(7); k > 0; k-- {
			x := randTask(r)
			if zeroTime(x) {
				continue
			}
			s.add("stored: %s", str(x))
			put(g, x)
		}
		h.caseDone(func() string { return strings.Join(s.log, "; ") })
		pre := dump(g)
		if r.Intn(2) == 0 {
			s.add("Chore() with interval %v", cfg.SnapshotInterval)
			if !s.call("Chore", func() { err = g.Chore(ctx) }) {
				return
			}
			s.check(err == nil, "C11", "Chore: %v", err)
			pre = dump(g)
			s.check(reflect.DeepEqual(listDir(dir), []string{"snap.db"}), "C11", "files after the first Chore: %v", listDir(dir))
			f1, b1 := inode(path)
			if f1 != nil {
				old, _ := os.Open(path)
				put(g, ratus.Task{ID: "added later", Topic: "z", State: 3})
				if !s.call("Chore", func() { err = g.Chore(ctx) }) {
					return
				}
				s.check(err == nil, "C11", "second Chore: %v", err)
				f2, _ := inode(path)
				s.check(f2 != nil, "C11", "the snapshot is gone after the second Chore")
				if cfg.SnapshotInterval == 0 {
					s.check(f2 == nil || !os.SameFile(f1, f2), "C11", "Chore after the interval did not put a new snapshot in place (written in place or not at all)")
				} else {
					s.check(f2 != nil && os.SameFile(f1, f2), "C11", "Chore wrote a snapshot before the interval %v had passed", cfg.SnapshotInterval)
				}
				var buf bytes.Buffer
				buf.ReadFrom(old)
				old.Close()
				s.check(bytes.Equal(buf.Bytes(), b1), "C11", "the previous snapshot was overwritten in place")
				s.check(reflect.DeepEqual(listDir(dir), []string{"snap.db"}), "C11", "files after the second Chore: %v", listDir(dir))
				pre = dump(g)
			}
		}
		if r.Intn(4) == 0 {
			// a snapshot that cannot be encoded leaves the previous one
			f1, b1 := inode(path)
			put(g, ratus.Task{ID: "0bad", Topic: "z", State: 3, Payload: make(chan int)})
			put(g, ratus.Task{ID: "zbad", Topic: "z", State: 3, Payload: make(chan int)})
			s.add("stored: a task that cannot be encoded; Close()")
			if !s.call("Close", func() { err = g.Close(ctx) }) {
				return
			}
			s.check(err != nil, "C11", "Close reports success for a database that cannot be encoded")
			f2, b2 := inode(path)
			s.check((f1 == nil) == (f2 == nil) && (f1 == nil || os.SameFile(f1, f2)) && bytes.Equal(b1, b2), "C11", "a failed snapshot changed the previous one")
			want := []string(nil)
			if f1 != nil {
				want = []string{"snap.db"}
			}
			s.check(reflect.DeepEqual(listDir(dir), want), "C11", "files after a failed snapshot: %v", listDir(dir))
			cfg.SnapshotInterval = 0
			if !s.call("Chore", func() { err = g.Chore(ctx) }) {
				return
			}
			s.check(err != nil, "C11", "Chore reports success for a database that cannot be encoded")
			g.DeleteTask(ctx, "0bad")
			g.DeleteTask(ctx, "zbad")
			cfg.SnapshotInterval = time.Hour
			if f1 == nil {
				if !s.call("Chore", func() { err = g.Chore(ctx) }) {
					return
				}
				f3, _ := inode(path)
				s.check(err == nil && f3 != nil, "C11", "after a failed snapshot the next Chore does not write one (error %v)", err)
			}
			pre = dump(g)
		}
		s.add("Close()")
		if !s.call("Close", func() { err = g.Close(ctx) }) {
			return
		}
		s.check(err == nil, "C11", "Close: %v", err)
		s.check(reflect.DeepEqual(listDir(dir), []string{"snap.db"}), "C11", "files after Close: %v", listDir(dir))
		g2 := newEngine(cfg)
		s.add("Open()")
		if !s.call("Open", func() { err = g2.Open(ctx) }) {
			return
		}
		if s.check(err == nil, "C11", "Open of a complete snapshot: %v", err) {
			d := eqState(pre, dump(g2))
			s.check(d == "", "C11", "restored: %s", d)
		}
		// damaged snapshots
		b, _ := os.ReadFile(path)
		if len(b) > 40 {
			cut := 1 + r.Intn(5)
			os.WriteFile(path, b[:len(b)-cut], 0o644)
			g3 := newEngine(cfg)
			if !s.call("Open", func() { err = g3.Open(ctx) }) {
				return
			}
			s.check(err != nil, "C11", "Open accepts a snapshot that lacks its last %d bytes", cut)
			s.check(database(g3) == nil && g3.Ready(ctx) != nil, "C11", "Open exposes a partial database after an error")
			// a damaged length prefix that gob reports as the end of the file
			for _, x := range []byte{0, 4, 7, 33} {
				bad := append([]byte{}, b...)
				bad[0] = x
				os.WriteFile(path, bad, 0o644)
				g4 := newEngine(cfg)
				if !s.call("Open", func() { err = g4.Open(ctx) }) {
					return
				}
				s.check(err != nil, "C11", "Open accepts a snapshot with a damaged first byte (%d instead of %d)", x, b[0])
				s.check(database(g4) == nil, "C11", "Open exposes a partial database after an error")
			}
			os.WriteFile(path, b, 0o644)
		}
		// a target that cannot be replaced
		if r.Intn(3) == 0 {
			sub := filepath.Join(dir, "target")
			os.MkdirAll(filepath.Join(sub, "x"), 0o755)
			g5 := newEngine(&memdb.Config{SnapshotPath: filepath.Join(dir, "none"), RetentionPeriod: time.Hour})
			g5.Open(ctx)
			setPath(g5, sub)
			before := listDir(dir)
			if !s.call("Close", func() { err = g5.Close(ctx) }) {
				return
			}
			s.check(err != nil, "C11", "Close reports success although the snapshot could not be put in place")
			s.check(reflect.DeepEqual(before, listDir(dir)), "C11", "files after a snapshot that could not be put in place: %v, before %v", listDir(dir), before)
			setPath(g5, filepath.Join(dir, "no", "such", "dir"))
			if !s.call("Close", func() { err = g5.Close(ctx) }) {
				return
			}
			s.check(err != nil, "C11", "Close reports success although the snapshot could not be created")
		}
		// Destroy
		if r.Intn(3) == 0 {
			if !s.call("Destroy", func() { err = g2.Destroy(ctx) }) {
				return
			}
			s.check(err == nil && len(dump(g2)) == 0, "C08,C11", "Destroy: %v, %d tasks left", err, len(dump(g2)))
			_, e := os.Stat(path)
			s.check(errors.Is(e, os.ErrNotExist), "C11", "the snapshot exists after Destroy")
		}
	}
	// known finding F8: gob leaves out pointers to the zero time
	{
		z := time.Time{}
		c := &memdb.Config{SnapshotPath: filepath.Join(t.TempDir(), "snap.db")}
		g := newEngine(c)
		g.Open(ctx)
		put(g, ratus.Task{ID: "1", Topic: "a", Scheduled: &z})
		g.Close(ctx)
		g2 := newEngine(c)
		g2.Open(ctx)
		if d := dump(g2); d["1"].Scheduled == nil && len(d) == 1 {
			h.known("zero-time", "C11", "a task scheduled at the zero time is restored without a scheduled time")
		}
	}
	// no path: no files
	dir := t.TempDir()
	old, _ := os.Getwd()
	os.Chdir(dir)
	defer os.Chdir(old)
	s := &hist{h: h}
	g := newEngine(&memdb.Config{RetentionPeriod: time.Hour})
	e1 := g.Open(ctx)
	put(g, ratus.Task{ID: "1", Topic: "a"})
	e2 := g.Chore(ctx)
	e3 := g.Close(ctx)
	s.check(e1 == nil && e2 == nil && e3 == nil, "C11", "engine without a snapshot path: %v, %v, %v", e1, e2, e3)
	s.check(len(listDir(dir)) == 0, "C11", "engine without a snapshot path touched %v", listDir(dir))
	var ng = newEngine(&memdb.Config{})
	s.check(errors.Is(ng.Ready(ctx), ratus.ErrServiceUnavailable), "C18", "an engine that is not open is ready")
	s.check(g.Ready(ctx) == nil, "C18", "an open engine is not ready")
	var _ engine.Engine = g
}

func setPath(g *memdb.Engine, p string) {
	v := reflect.ValueOf(g).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*memdb.Config)(nil)) {
			(*(**memdb.Config)(unsafe.Pointer(f.UnsafeAddr()))).SnapshotPath = p
		}
	}
}

// Readers of the snapshot path see complete snapshots at all times.
func TestVerifSnapshotReaders(t *testing.T) {
	h := newVerifH(t, "memdb snapshot readers")
	defer h.done()
	dir := t.TempDir()
	path := filepath.Join(dir, "snap.db")
	s := &hist{h: h}
	g := newEngine(&memdb.Config{SnapshotPath: path, RetentionPeriod: 24 * time.Hour})
	g.Open(ctx)
	for i := 0; i < 200; i++ {
		put(g, ratus.Task{ID: fmt.Sprint("t", i), Topic: "a", State: 3, Payload: strings.Repeat("x", 100)})
	}
	g.Chore(ctx)
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				g.Chore(ctx)
			}
		}
	}()
	for i := 0; i < h.n(20) && h.ok(); i++ {
		h.caseDone(func() string { return "reader while snapshots are written" })
		g2 := newEngine(&memdb.Config{SnapshotPath: path})
		err := g2.Open(ctx)
		s.check(err == nil && len(dump(g2)) == 200, "C11", "a snapshot read while another one is written: %v, %d of 200 tasks", err, len(dump(g2)))
	}
	close(stop)
	wg.Wait()
}

func TestVerifIndexers(t *testing.T) {
	h := newVerifH(t, "memdb indexers")
	defer h.done()
	s := &hist{h: h}
	ti := &memdb.TimeFieldIndex{Field: "Scheduled"}
	rt := func(r *rand.Rand) time.Time {
		switch r.Intn(5) {
		case 0:
			return time.UnixMilli(r.Int63() - r.Int63())
		case 1:
			return time.UnixMilli(int64(r.Intn(7) - 3))
		case 2:
			return time.UnixMilli(-(1 << uint(r.Intn(45))) + int64(r.Intn(3)-1))
		case 3:
			return time.UnixMilli(1<<uint(r.Intn(45)) + int64(r.Intn(3)-1))
		}
		if p := instant(r); p != nil {
			return *p
		}
		return time.Now()
	}
	type T struct{ Scheduled any }
	for i := 0; i < h.n(2000) && h.ok(); i++ {
		r := h.rand(i)
		a, b := rt(r), rt(r)
		if r.Intn(4) == 0 {
			b = a.Add(time.Duration(r.Intn(4000)-2000) * time.Microsecond)
		}
		h.caseDone(func() string { return fmt.Sprint(a, " vs ", b) })
		ka, e1 := ti.FromArgs(a)
		kb, e2 := ti.FromArgs(&b)
		if !s.check(e1 == nil && e2 == nil, "C12", "FromArgs of times: %v, %v", e1, e2) {
			continue
		}
		want := 0
		if ms(a) < ms(b) {
			want = -1
		} else if ms(a) > ms(b) {
			want = 1
		}
		s.check(bytes.Compare(ka, kb) == want, "C12", "keys %x of %s (%d ms) and %x of %s (%d ms) compare as %d", ka, ts(&a), ms(a), kb, ts(&b), ms(b), bytes.Compare(ka, kb))
		ok, kf, err := ti.FromObject(&ratus.Task{Scheduled: &a})
		s.check(ok && err == nil && bytes.Equal(kf, ka), "C12", "FromObject key %x (%v, %v) differs from FromArgs key %x for %s", kf, ok, err, ka, ts(&a))
	}
	ok, _, err := ti.FromObject(&ratus.Task{})
	s.check(!ok && err == nil, "C12", "FromObject of a missing time: %v, %v", ok, err)
	for _, bad := range []any{"x", 1, int64(5), nil, struct{}{}, (*time.Time)(nil)} {
		_, err := ti.FromArgs(bad)
		s.check(err != nil, "C12", "TimeFieldIndex.FromArgs(%#v) is accepted", bad)
	}
	_, err = ti.FromArgs()
	s.check(err != nil, "C12", "TimeFieldIndex.FromArgs() is accepted")
	_, err = ti.FromArgs(time.Now(), time.Now())
	s.check(err != nil, "C12", "TimeFieldIndex.FromArgs with two arguments is accepted")
	type S struct{ Scheduled string }
	_, _, err = ti.FromObject(&S{"x"})
	s.check(err != nil, "C12", "TimeFieldIndex.FromObject of a string field is accepted")
	for f := ratus.TaskState(0); f < 4; f++ {
		si := &memdb.StateFieldIndex{Field: "State", Filter: f}
		for st := ratus.TaskState(0); st < 8; st++ {
			ok, k, err := si.FromObject(&ratus.Task{State: st})
			s.check(err == nil && ok == (st == f), "C12", "StateFieldIndex{%d}.FromObject(state %d): %v, %v", f, st, ok, err)
			ka, ea := si.FromArgs(st)
			s.check((ea == nil) == (st == f), "C12", "StateFieldIndex{%d}.FromArgs(%d): %v", f, st, ea)
			s.check(st != f || bytes.Equal(k, ka), "C12", "StateFieldIndex{%d}: keys %x and %x", f, k, ka)
		}
		for _, bad := range []any{"x", int64(f), int(f), uint8(f), nil, float64(f)} {
			_, err := si.FromArgs(bad)
			s.check(err != nil, "C12", "StateFieldIndex{%d}.FromArgs(%#v) is accepted", f, bad)
		}
		_, err := si.FromArgs()
		s.check(err != nil, "C12", "StateFieldIndex.FromArgs() is accepted")
		_, err = si.FromArgs(f, f)
		s.check(err != nil, "C12", "StateFieldIndex.FromArgs with two arguments is accepted")
		type S struct{ State int64 }
		_, _, err = si.FromObject(&S{int64(f)})
		s.check(err != nil, "C12", "StateFieldIndex.FromObject of an int64 field is accepted")
	}
}

// Many tasks at once: nothing depends on how many there are.
func TestVerifBulk(t *testing.T) {
	h := newVerifH(t, "memdb bulk")
	defer h.done()
	const n = 2600
	s := &hist{h: h}
	cfg := &memdb.Config{RetentionPeriod: time.Hour}
	g := newEngine(cfg)
	g.Open(ctx)
	s.add("%d timed-out active tasks, %d expired completed tasks, %d pending tasks", n, n, n)
	h.caseDone(func() string { return s.log[0] })
	past, old := time.Now().Add(-time.Minute), time.Now().Add(-2*time.Hour)
	var all []*ratus.Task
	for i := 0; i < n; i++ {
		p, o := past.Add(time.Duration(i)*time.Microsecond), old.Add(-time.Duration(i)*time.Second)
		all = append(all, &ratus.Task{ID: fmt.Sprint("a", i), Topic: "active", State: 1, Nonce: "n", Deadline: &p},
			&ratus.Task{ID: fmt.Sprint("c", i), Topic: "completed", State: 2, Consumed: &o},
			&ratus.Task{ID: fmt.Sprint("p", i), Topic: "pending", Scheduled: &p})
	}
	var err error
	var up *ratus.Updated
	if !s.call("UpsertTasks", func() { up, err = g.UpsertTasks(ctx, all) }) {
		return
	}
	s.check(err == nil && up.Created == 3*n && up.Updated == 0 && len(dump(g)) == 3*n, "C07", "UpsertTasks of %d tasks: %+v, %v", 3*n, up, err)
	pre := dump(g)
	t0 := time.Now()
	if !s.call("Chore", func() { err = g.Chore(ctx) }) {
		return
	}
	s.check(err == nil, "C04,C06", "Chore: %v", err)
	s.checkChore(cfg, pre, dump(g), t0, time.Now())
	for i := 0; i < n; i++ {
		put(g, ratus.Task{ID: fmt.Sprint("a", i), Topic: "active", State: 1, Nonce: "n"})
	}
	pre = dump(g)
	lp, err := g.ListPromises(ctx, "active", 10*n, 0)
	s.check(err == nil && len(lp) == n, "C05,C09", "ListPromises: %d of %d promises, %v", len(lp), n, err)
	lt, err := g.ListTasks(ctx, "pending", 10*n, 0)
	s.check(err == nil && len(lt) == n, "C09", "ListTasks: %d of %d tasks, %v", len(lt), n, err)
	tp, err := g.GetTopic(ctx, "pending")
	s.check(err == nil && tp != nil && tp.Count == n, "C09", "GetTopic: %+v, %v", tp, err)
	var d *ratus.Deleted
	if !s.call("DeletePromises", func() { d, err = g.DeletePromises(ctx, "active") }) {
		return
	}
	s.checkReleased(pre, dump(g), d, err, func(t ratus.Task) bool { return t.Topic == "active" }, "DeletePromises")
	d, err = g.DeleteTasks(ctx, "pending")
	s.check(err == nil && d != nil && d.Deleted == n, "C08", "DeleteTasks: %+v, %v", d, err)
	d, err = g.DeleteTopic(ctx, "active")
	s.check(err == nil && d != nil && d.Deleted == n && len(dump(g)) == 0, "C08", "DeleteTopic: %+v, %v, %d tasks left", d, err, len(dump(g)))
}
