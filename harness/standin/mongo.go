package standin

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"reflect"
	"sync"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"verif.local/harness/standin/docdb"
)

// Mongo is a server of the MongoDB protocol over a document store. Every command on a database whose
// name begins with f is answered with an error. Results come in batches of two documents.
type Mongo struct {
	*Listener
	mu      sync.Mutex
	db      *docdb.SimpleNoSQLDB
	cursors map[int64][]bson.D
	next    int64
}

func Documents() (*Mongo, error) {
	db, err := docdb.NewSimpleNoSQLDB(context.Background())
	if err != nil {
		return nil, err
	}
	m := &Mongo{db: db, cursors: map[int64][]bson.D{}}
	m.Listener, err = listen(m.serve)
	return m, err
}

func le32(b []byte) int { return int(int32(binary.LittleEndian.Uint32(b))) }

func (m *Mongo) serve(c net.Conn) {
	for {
		h := make([]byte, 16)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		b := make([]byte, le32(h)-16)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		id := h[4:8]
		var out []byte
		switch le32(h[12:]) {
		case 2004: // OP_QUERY, for the handshake
			i := 4
			for b[i] != 0 {
				i++
			}
			var cmd bson.D
			if bson.Unmarshal(b[i+9:], &cmd) != nil {
				return
			}
			r, err := bson.Marshal(m.command(cmd, nil))
			if err != nil {
				return
			}
			out = append(make([]byte, 4+8+4), 1, 0, 0, 0)
			out = append(out, r...)
			out = m.header(out, id, 1)
		case 2013: // OP_MSG
			flags := le32(b)
			if flags&1 != 0 {
				b = b[:len(b)-4]
			}
			var cmd bson.D
			seqs := map[string][]bson.D{}
			for p := b[4:]; len(p) > 0; {
				kind := p[0]
				p = p[1:]
				n := le32(p)
				if kind == 0 {
					if bson.Unmarshal(p[:n], &cmd) != nil {
						return
					}
				} else {
					s := p[4:n]
					i := 0
					for s[i] != 0 {
						i++
					}
					name := string(s[:i])
					for s = s[i+1:]; len(s) > 0; {
						k := le32(s)
						var d bson.D
						if bson.Unmarshal(s[:k], &d) != nil {
							return
						}
						seqs[name] = append(seqs[name], d)
						s = s[k:]
					}
				}
				p = p[n:]
			}
			reply := m.command(cmd, seqs)
			if flags&2 != 0 { // no reply wanted
				continue
			}
			r, err := bson.Marshal(reply)
			if err != nil {
				return
			}
			out = m.header(append([]byte{0, 0, 0, 0, 0}, r...), id, 2013)
		default:
			return
		}
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func (m *Mongo) header(body, id []byte, op uint32) []byte {
	h := binary.LittleEndian.AppendUint32(nil, uint32(len(body)+16))
	h = append(h, 0, 0, 0, 0)
	h = append(h, id...)
	h = binary.LittleEndian.AppendUint32(h, op)
	return append(h, body...)
}

func get(d bson.D, k string) any {
	for _, e := range d {
		if e.Key == k {
			return e.Value
		}
	}
	return nil
}

func sub(d bson.D, k string) bson.D {
	r, _ := get(d, k).(bson.D)
	if r == nil {
		r = bson.D{}
	}
	return r
}

func num(x any) int {
	switch y := x.(type) {
	case int32:
		return int(y)
	case int64:
		return int(y)
	case float64:
		return int(y)
	case bool:
		if y {
			return 1
		}
	}
	return 0
}

func failed(code int, msg string) bson.D {
	return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: msg}, {Key: "code", Value: int32(code)}, {Key: "codeName", Value: "Error"}}
}

func list(cmd bson.D, seqs map[string][]bson.D, k string) []bson.D {
	if s, ok := seqs[k]; ok {
		return s
	}
	var out []bson.D
	a, _ := get(cmd, k).(bson.A)
	for _, x := range a {
		if d, ok := x.(bson.D); ok {
			out = append(out, d)
		}
	}
	return out
}

func (m *Mongo) all(c backend.NoSQLCollection, q bson.D) ([]bson.D, error) {
	cur, err := c.FindMany(context.Background(), q)
	if err != nil {
		return nil, err
	}
	var ds []bson.D
	err = cur.All(context.Background(), &ds)
	return ds, err
}

// idFirst puts the _id where the server keeps it.
func idFirst(d bson.D) bson.D {
	for i, e := range d {
		if e.Key == "_id" {
			out := bson.D{e}
			out = append(out, d[:i]...)
			return append(out, d[i+1:]...)
		}
	}
	return append(bson.D{{Key: "_id", Value: primitive.NewObjectID()}}, d...)
}

func project(d, p bson.D) bson.D {
	if len(p) == 0 {
		return d
	}
	include := false
	for _, e := range p {
		if e.Key != "_id" || len(p) == 1 {
			include = num(e.Value) != 0
		}
	}
	out := bson.D{}
	for _, e := range d {
		v := get(p, e.Key)
		keep := v != nil && num(v) != 0
		if v == nil {
			keep = !include || e.Key == "_id"
		}
		if keep {
			out = append(out, e)
		}
	}
	return out
}

func (m *Mongo) command(cmd bson.D, seqs map[string][]bson.D) bson.D {
	if len(cmd) == 0 {
		return failed(9, "no command")
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	bg := context.Background()
	ok := bson.E{Key: "ok", Value: 1.0}
	name := cmd[0].Key
	switch name {
	case "hello", "isMaster", "ismaster":
		return bson.D{{Key: "ismaster", Value: true}, {Key: "isWritablePrimary", Value: true}, {Key: "helloOk", Value: true},
			{Key: "maxBsonObjectSize", Value: int32(16777216)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: int32(100000)},
			{Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(17)}, {Key: "readOnly", Value: false}, ok}
	case "ping", "endSessions", "killCursors":
		return bson.D{ok}
	}
	db, _ := get(cmd, "$db").(string)
	coll, _ := cmd[0].Value.(string)
	if name == "getMore" {
		id, _ := cmd[0].Value.(int64)
		coll, _ = get(cmd, "collection").(string)
		ds, open := m.cursors[id]
		if !open {
			return failed(43, "cursor not found")
		}
		delete(m.cursors, id)
		return bson.D{{Key: "cursor", Value: m.batch(db+"."+coll, ds, "nextBatch", id)}, ok}
	}
	if len(db) > 0 && db[0] == 'f' {
		return failed(8, "something is wrong")
	}
	c, err := m.db.GetCollection(bg, db, coll)
	if err != nil {
		return failed(8, err.Error())
	}
	wrong := func(i, code int, msg string) bson.D {
		return bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: int32(code)}, {Key: "errmsg", Value: msg}}
	}
	switch name {
	case "find":
		ds, err := m.all(c, sub(cmd, "filter"))
		if err != nil {
			return failed(2, err.Error())
		}
		if n := num(get(cmd, "skip")); n > 0 {
			ds = ds[min(n, len(ds)):]
		}
		single := num(get(cmd, "singleBatch")) != 0
		n := num(get(cmd, "limit"))
		if n < 0 {
			single, n = true, -n
		}
		if n > 0 && n < len(ds) {
			ds = ds[:n]
		}
		for i := range ds {
			ds[i] = project(ds[i], sub(cmd, "projection"))
		}
		if single && len(ds) > 2 {
			ds = ds[:2]
		}
		return bson.D{{Key: "cursor", Value: m.batch(db+"."+coll, ds, "firstBatch", 0)}, ok}
	case "insert":
		n, errs := 0, bson.A{}
		for i, d := range list(cmd, seqs, "documents") {
			d = idFirst(d)
			if same, err := m.all(c, bson.D{d[0]}); err != nil || len(same) > 0 {
				errs = append(errs, wrong(i, 11000, "E11000 duplicate key error"))
				break
			}
			if err := c.InsertOne(bg, d); err != nil {
				errs = append(errs, wrong(i, 2, err.Error()))
				break
			}
			n++
		}
		r := bson.D{{Key: "n", Value: int32(n)}}
		if len(errs) > 0 {
			r = append(r, bson.E{Key: "writeErrors", Value: errs})
		}
		return append(r, ok)
	case "update":
		n, modified := 0, 0
		errs, ups := bson.A{}, bson.A{}
		for i, u := range list(cmd, seqs, "updates") {
			q, multi, upsert := sub(u, "q"), num(get(u, "multi")) != 0, num(get(u, "upsert")) != 0
			op := sub(u, "u")
			before, err := m.all(c, bson.D{})
			var hit []bson.D
			if err == nil {
				hit, err = m.all(c, q)
			}
			if err == nil {
				replace := len(op) == 0 || op[0].Key[0] != '$'
				if len(hit) == 0 && upsert {
					d := bson.D{}
					for _, e := range q {
						if _, isDoc := e.Value.(bson.D); !isDoc && e.Key[0] != '$' && (e.Key == "_id" || !replace) {
							d = append(d, e)
						}
					}
					if replace {
						for _, e := range op {
							if get(d, e.Key) == nil {
								d = append(d, e)
							}
						}
						err = c.InsertOne(bg, idFirst(d))
					} else {
						d = idFirst(d)
						if err = c.InsertOne(bg, d); err == nil {
							_, err = c.UpdateOne(bg, bson.D{d[0]}, op)
						}
					}
					if err == nil {
						n++
						ups = append(ups, bson.D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: idFirst(d)[0].Value}})
					}
				} else if replace {
					if len(hit) > 0 {
						if id := get(op, "_id"); id != nil && !reflect.DeepEqual(id, get(hit[0], "_id")) {
							err = fmt.Errorf("the _id field cannot be changed")
						} else {
							_, err = c.ReplaceOne(bg, bson.D{{Key: "_id", Value: get(hit[0], "_id")}}, op)
							n++
						}
					}
				} else {
					// also when nothing matches, as the update may be malformed
					f := c.UpdateOne
					if multi {
						f = c.UpdateMany
					}
					k, e := f(bg, q, op)
					n, err = n+k, e
				}
			}
			if err != nil {
				errs = append(errs, wrong(i, 9, err.Error()))
				break
			}
			after, _ := m.all(c, bson.D{})
			for j := range before {
				if j < len(after) && !reflect.DeepEqual(before[j], after[j]) {
					modified++
				}
			}
		}
		r := bson.D{{Key: "n", Value: int32(n)}, {Key: "nModified", Value: int32(modified)}}
		if len(ups) > 0 {
			r = append(r, bson.E{Key: "upserted", Value: ups})
		}
		if len(errs) > 0 {
			r = append(r, bson.E{Key: "writeErrors", Value: errs})
		}
		return append(r, ok)
	case "delete":
		n := 0
		for i, d := range list(cmd, seqs, "deletes") {
			q := sub(d, "q")
			hit, err := m.all(c, q)
			if err == nil {
				if num(get(d, "limit")) == 1 {
					err = c.DeleteOne(bg, q)
					n += min(1, len(hit))
				} else {
					err = c.DeleteMany(bg, q)
					n += len(hit)
				}
			}
			if err != nil {
				return bson.D{{Key: "n", Value: int32(n)}, {Key: "writeErrors", Value: bson.A{wrong(i, 2, err.Error())}}, ok}
			}
		}
		return bson.D{{Key: "n", Value: int32(n)}, ok}
	}
	return failed(59, "no such command: "+name)
}

func (m *Mongo) batch(ns string, ds []bson.D, field string, id int64) bson.D {
	b := bson.A{}
	for _, d := range ds[:min(2, len(ds))] {
		b = append(b, d)
	}
	rest := ds[len(b):]
	if len(rest) == 0 {
		id = 0
	} else {
		if id == 0 {
			m.next++
			id = m.next
		}
		m.cursors[id] = rest
	}
	return bson.D{{Key: field, Value: b}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}
}
