// drv_nosql runs cases (one JSON object per line) on the in-memory document store and records
// what every call did. Usage: drv_nosql OUT IN simple|mongo
// With mongo, the store is the MongoDB plugin connected to a stand-in for the server.
//
// A case is {"threads": [[op, ...], ...]}; each thread runs its operations in order. Values travel
// as ["z"], ["b",true], ["i",1] (int), ["j",1] (int32), ["l",1] (int64), ["f",1.5], ["s","x"],
// ["o","hex"], ["d",[[key,value],...]], ["a",[value,...]], ["m",[[key,value],...]] (bson.M).
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/mongodb"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"verif.local/harness/hist"
	"verif.local/harness/standin"
	"verif.local/harness/yield"
)

type op struct {
	Op     string   `json:"op"`
	Filter any      `json:"filter"`
	Update any      `json:"update"`
	Docs   []any    `json:"docs"`
	Hold   int      `json:"hold"`
	Dump   bool     `json:"dump"`
	Coll   string   `json:"coll"` // database/collection pair
	As     string   `json:"as"`
	Proj   []string `json:"proj"`
}

func decode(x any) any {
	a := x.([]any)
	switch a[0].(string) {
	case "z":
		return nil
	case "b":
		return a[1].(bool)
	case "i":
		return int(a[1].(float64))
	case "j":
		return int32(a[1].(float64))
	case "l":
		return int64(a[1].(float64))
	case "f":
		return a[1].(float64)
	case "s":
		return a[1].(string)
	case "o":
		return hist.Must(primitive.ObjectIDFromHex(a[1].(string)))
	case "d":
		d := bson.D{}
		for _, kv := range a[1].([]any) {
			p := kv.([]any)
			d = append(d, bson.E{Key: p[0].(string), Value: decode(p[1])})
		}
		return d
	case "m":
		d := bson.M{}
		for _, kv := range a[1].([]any) {
			p := kv.([]any)
			d[p[0].(string)] = decode(p[1])
		}
		return d
	case "a":
		l := bson.A{}
		for _, v := range a[1].([]any) {
			l = append(l, decode(v))
		}
		return l
	case "ints": // a slice of Go integers, as allowed for $in
		l := []int{}
		for _, v := range a[1].([]any) {
			l = append(l, int(v.(float64)))
		}
		return l
	}
	hist.Fail(fmt.Sprint("bad value ", x))
	return nil
}

func chars(s string) []string {
	out := []string{}
	for _, c := range s {
		out = append(out, string(c))
	}
	return out
}

type V struct {
	T string       `json:"t"`
	S []string     `json:"s"`
	N int64        `json:"n"`
	D map[string]V `json:"d"`
	O []string     `json:"o"` // the fields of a document in order
	A []V          `json:"a"`
}

func enc(x any) V {
	v := V{S: []string{}, D: map[string]V{}, O: []string{}, A: []V{}}
	switch y := x.(type) {
	case nil:
		v.T = "z"
	case bool:
		v.T = "b"
		if y {
			v.N = 1
		}
	case int32:
		v.T, v.N = "i", 2*int64(y)
	case int64:
		v.T, v.N = "i", 2*y
	case float64:
		v.T, v.N = "f", int64(2*y)
		if float64(v.N) != 2*y {
			v.T = "f?" + strconv.FormatFloat(y, 'g', -1, 64)
		}
	case string:
		v.T, v.S = "s", chars(y)
	case primitive.ObjectID:
		v.T, v.S = "o", chars(y.Hex())
	case bson.D:
		v.T = "d"
		for _, e := range y {
			if _, dup := v.D[e.Key]; dup {
				v.T = "d-with-a-field-twice"
			}
			v.D[e.Key] = enc(e.Value)
			v.O = append(v.O, e.Key)
		}
	case bson.A:
		v.T = "a"
		for _, e := range y {
			v.A = append(v.A, enc(e))
		}
	default:
		v.T = fmt.Sprintf("%T", x)
	}
	return v
}

func encs(ds []bson.D) []V {
	out := []V{}
	for _, d := range ds {
		out = append(out, enc(d))
	}
	return out
}

var bg = context.Background()

type world struct {
	mu      sync.Mutex
	db      backend.NoSQLDatabase
	cursors map[int]backend.NoSQLCursor
	kept    []any // values inserted into or read from the store
	handles map[string]backend.NoSQLCollection
	uses    int
	suffix  string // of the names of databases
}

// open gets handles of the collections that will be used before anything is in them.
func (w *world) open(threads [][]op) {
	for _, t := range threads {
		for _, o := range t {
			if w.handles[o.Coll] == nil {
				w.handles[o.Coll] = w.coll(o.Coll)
			}
		}
	}
}

func (w *world) coll(name string) backend.NoSQLCollection {
	if name == "" {
		name = "a/a"
	}
	w.mu.Lock()
	w.uses++
	h := w.handles[name]
	old := w.uses%3 == 0
	w.mu.Unlock()
	if h != nil && old {
		return h
	}
	return hist.Must(w.db.GetCollection(bg, name[:1]+w.suffix, name[2:]))
}

func (w *world) keep(xs ...any) {
	w.mu.Lock()
	w.kept = append(w.kept, xs...)
	w.mu.Unlock()
}

// scribble changes the value in place, as deeply as it can.
func scribble(x any) {
	switch y := x.(type) {
	case bson.D:
		for i := range y {
			scribble(y[i].Value)
			if y[i].Key != "_id" {
				y[i].Value = "scribbled"
			}
		}
	case bson.M:
		for k := range y {
			scribble(y[k])
			if k != "_id" {
				y[k] = "scribbled"
			}
		}
	case bson.A:
		for i := range y {
			scribble(y[i])
			y[i] = "scribbled"
		}
	}
}

func (w *world) run(o op) (got hist.M) {
	got = hist.M{"err": false, "n": 0, "docs": []V{}, "ids": []V{}, "dumped": o.Dump, "coll": []V{}, "panic": ""}
	c := w.coll(o.Coll)
	var filter, update bson.D
	if o.Filter != nil {
		filter = decode(o.Filter).(bson.D)
	}
	if o.Update != nil {
		update = decode(o.Update).(bson.D)
	}
	var docs []any
	for _, d := range o.Docs {
		docs = append(docs, decode(d))
	}
	w.keep(docs...)
	err := func() (err error) {
		switch o.Op {
		case "insert":
			if len(docs) == 1 && o.As != "many" {
				return c.InsertOne(bg, docs[0])
			}
			return c.InsertMany(bg, docs)
		case "find", "findone":
			var cur backend.NoSQLCursor
			var proj []bson.D
			if len(o.Proj) > 0 {
				proj = []bson.D{{}}
				for _, k := range o.Proj {
					proj[0] = append(proj[0], bson.E{Key: k, Value: 1})
				}
			}
			if o.Op == "find" {
				cur, err = c.FindMany(bg, filter, proj...)
			} else {
				cur, err = c.FindOne(bg, filter, proj...)
			}
			if err != nil {
				return err
			}
			if o.Hold > 0 {
				w.mu.Lock()
				w.cursors[o.Hold] = cur
				w.mu.Unlock()
				return nil
			}
			return w.read(cur, o, got)
		case "read", "one":
			w.mu.Lock()
			cur := w.cursors[o.Hold]
			w.mu.Unlock()
			if o.Op == "one" {
				o.As = "one"
			}
			return w.read(cur, o, got)
		case "scribble":
			w.mu.Lock()
			for _, x := range w.kept {
				scribble(x)
			}
			w.kept = nil
			w.mu.Unlock()
		case "updateOne":
			got["n"], err = c.UpdateOne(bg, filter, update)
		case "updateMany":
			got["n"], err = c.UpdateMany(bg, filter, update)
		case "deleteOne":
			err = c.DeleteOne(bg, filter)
		case "deleteMany":
			err = c.DeleteMany(bg, filter)
		case "replaceOne":
			got["n"], err = c.ReplaceOne(bg, filter, docs[0])
		case "replaceMany":
			got["n"], err = c.ReplaceMany(bg, filter, docs...)
		case "upsert", "upsertID":
			var ok bool
			if o.Op == "upsert" {
				ok, err = c.Upsert(bg, filter, docs[0])
			} else {
				ok, err = c.UpsertID(bg, filter[0].Value.(primitive.ObjectID), docs[0])
			}
			if ok {
				got["n"] = 1
			}
		default:
			hist.Fail("bad op " + o.Op)
		}
		return err
	}()
	got["err"] = err != nil
	if o.Dump {
		cur, err := c.FindMany(bg, bson.D{})
		if err != nil {
			got["panic"] = "dump: " + err.Error()
			return
		}
		var ds []bson.D
		if err := cur.All(bg, &ds); err != nil {
			got["panic"] = "dump: " + err.Error()
			return
		}
		got["coll"] = encs(ds)
		if o.Op == "insert" || o.Op == "upsert" || o.Op == "upsertID" {
			ids := []V{}
			for i := range docs {
				j := len(ds) - len(docs) + i
				id := V{T: "none", S: []string{}, D: map[string]V{}, O: []string{}, A: []V{}}
				if j >= 0 {
					for _, e := range ds[j] {
						if e.Key == "_id" {
							id = enc(e.Value)
						}
					}
				}
				ids = append(ids, id)
			}
			got["ids"] = ids
		}
	}
	return
}

// read takes the results out of the cursor in one of several ways.
func (w *world) read(cur backend.NoSQLCursor, o op, got hist.M) error {
	var ds []bson.D
	switch o.As {
	case "one":
		var d bson.D
		ok, err := cur.One(bg, &d)
		if err != nil {
			return err
		}
		if ok {
			ds = append(ds, d)
		} else if d != nil {
			ds = append(ds, bson.D{{Key: "_id", Value: "set although nothing was found"}})
		}
	case "m":
		var ms []bson.M
		if err := cur.All(bg, &ms); err != nil {
			return err
		}
		for _, m := range ms {
			b := hist.Must(bson.Marshal(m))
			var d bson.D
			if err := bson.Unmarshal(b, &d); err != nil {
				hist.Fail(err)
			}
			ds = append(ds, d)
			w.keep(m)
		}
	default:
		ds = []bson.D{{{Key: "stale", Value: true}}, {{Key: "stale", Value: true}}, {{Key: "stale", Value: true}}}
		if err := cur.All(bg, &ds); err != nil {
			return err
		}
	}
	got["docs"] = encs(ds)
	for _, d := range ds {
		w.keep(d)
	}
	return nil
}

func main() {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	out := hist.Must(os.Create(os.Args[1]))
	defer out.Close()
	bw := bufio.NewWriter(out)
	defer bw.Flush()
	sc := bufio.NewScanner(hist.Must(os.Open(os.Args[2])))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	n := 0
	var mongo backend.NoSQLDatabase
	if os.Args[3] == "mongo" {
		s := hist.Must(standin.Documents())
		mongo = hist.Must(mongodb.NewMongoDB(bg, s.Addr))
	}
	for !hist.Enough() && sc.Scan() {
		var cs struct {
			Threads [][]op `json:"threads"`
		}
		if err := json.Unmarshal(sc.Bytes(), &cs); err != nil {
			hist.Fail(err)
		}
		n++
		yield.Enable(uint64(seed)*1000003 + uint64(n))
		if len(cs.Threads) == 1 {
			yield.Disable()
		}
		w := &world{db: mongo, suffix: fmt.Sprint(n), cursors: map[int]backend.NoSQLCursor{}, handles: map[string]backend.NoSQLCollection{}}
		if mongo == nil {
			w.db, w.suffix = hist.Must(simplenosqldb.NewSimpleNoSQLDB(bg)), ""
		}
		w.open(cs.Threads)
		var mu sync.Mutex
		events := []hist.M{}
		add := func(m hist.M) { mu.Lock(); events = append(events, m); mu.Unlock() }
		var wg sync.WaitGroup
		for t, ops := range cs.Threads {
			f := func() {
				for i, o := range ops {
					add(hist.M{"e": "call", "t": t, "i": i})
					got := w.run(o)
					add(hist.M{"e": "ret", "t": t, "i": i, "got": got})
				}
			}
			if t == 0 { // the first thread runs before the others
				f()
				continue
			}
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		if !hist.WaitOr(&wg, 30*time.Second) {
			add(hist.M{"e": "env", "what": "stuck", "t": 0})
		}
		mu.Lock()
		bw.Write(hist.Must(json.Marshal(events)))
		bw.WriteByte('\n')
		mu.Unlock()
	}
}
