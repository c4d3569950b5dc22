package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
)

// Values of any type: made from a seed, and written down. Nil and empty slices and maps are the same.

func short(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

func brief(s string) string {
	if len(s) <= 300 {
		return s
	}
	return s[:250] + "... " + short(s)
}

func show(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%+q", v.String())
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			show(b, v.Index(i))
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var x strings.Builder
			show(&x, k)
			x.WriteString(":")
			show(&x, v.MapIndex(k))
			es = append(es, x.String())
		}
		sort.Strings(es)
		b.WriteString("map[" + strings.Join(es, " ") + "]")
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString("&")
			show(b, v.Elem())
		}
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + "=")
			show(b, v.Field(i))
			b.WriteString(" ")
		}
		b.WriteString("}")
	default:
		fail("a value of kind", v.Kind())
	}
}

var texts = []string{"", "a", " ", "a b+c%20&d=e;f#g?h/i\\j", "\"quoted\" 'x'", "ümläut 日本 \U0001f600", "null", "0", "\x00\x01\x7f", "line\nbreak\r\n\ttab", "<script>&amp;\u2028", "{\"C\":1}", "%zz", strings.Repeat("long ", 60)}
var ints = []int64{0, 1, -1, 2, 100, 127, 128, -128, 255, 256, 32767, -32768, 65535, 1 << 31, 1<<31 - 1, -(1 << 31), 1<<53 + 1, math.MaxInt64, math.MinInt64}
var floats = []float64{0, 1, -1.5, 0.1, 1e-300, 1e300, 123456789.123456789, 1 << 53, math.MaxFloat64, math.SmallestNonzeroFloat64}

func make1(r *rand.Rand, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(ints[r.Intn(len(ints))])
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(ints[r.Intn(len(ints))]))
	case reflect.Float32:
		v.SetFloat(float64(float32([]float64{0, 1, -1.5, 0.1, 1e30, 16777217}[r.Intn(6)])))
	case reflect.Float64:
		v.SetFloat(floats[r.Intn(len(floats))])
	case reflect.String:
		v.SetString(texts[r.Intn(len(texts))])
	case reflect.Slice:
		n := r.Intn(4)
		if depth <= 0 {
			n = 0
		}
		if n > 0 || r.Intn(2) == 0 {
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				make1(r, v.Index(i), depth-1)
			}
		}
	case reflect.Map:
		n := r.Intn(4)
		if depth <= 0 {
			n = 0
		}
		if n > 0 || r.Intn(2) == 0 {
			v.Set(reflect.MakeMap(v.Type()))
			for i := 0; i < n; i++ {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				make1(r, k, depth-1)
				make1(r, e, depth-1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Pointer:
		if depth > 0 && r.Intn(3) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			make1(r, v.Elem(), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			make1(r, v.Field(i), depth-1)
		}
	default:
		fail("a type of kind", v.Kind())
	}
}

// fillWith makes a value of v's type; 0 makes the zero value.
func fillWith(v reflect.Value, seed int64) {
	if seed != 0 {
		make1(rand.New(rand.NewSource(seed)), v, 4)
	}
}

// fill sets what outs point to and describes it.
func fill(outs []any, seed int64) string {
	var b strings.Builder
	for i, o := range outs {
		v := reflect.ValueOf(o).Elem()
		if seed != 0 {
			fillWith(v, seed+int64(i)*7919)
		}
		show(&b, v)
		b.WriteString("|")
	}
	return brief(b.String())
}

func describe(method string, at int, plan string, args []any) string {
	var b strings.Builder
	b.WriteString(method + "(")
	for i, a := range args {
		if i == at {
			b.WriteString(short(plan) + ",")
		}
		show(&b, reflect.ValueOf(a))
		b.WriteString(",")
	}
	if at == len(args) {
		b.WriteString(short(plan))
	}
	return brief(b.String())
}

// callTyped calls a method of a dependency with arguments made from a seed.
func callTyped(ctx context.Context, dep any, how Typed, plan string, ev map[string]any) (val string, err error) {
	m := reflect.ValueOf(dep).MethodByName(how.Method)
	if !m.IsValid() {
		fail("no method", how.Method)
	}
	in := []reflect.Value{reflect.ValueOf(ctx)}
	var args []any
	for i := 1; i < m.Type().NumIn(); i++ {
		v := reflect.New(m.Type().In(i)).Elem()
		if i-1 == how.At {
			v.SetString(plan)
		} else {
			if how.Seed != 0 {
				fillWith(v, how.Seed+int64(i))
			}
			args = append(args, v.Interface())
		}
		in = append(in, v)
	}
	ev["arg"] = describe(how.Method, how.At, plan, args)
	record(ev)
	out := m.Call(in)
	var b strings.Builder
	for _, o := range out[:len(out)-1] {
		show(&b, o)
		b.WriteString("|")
	}
	if e := out[len(out)-1]; !e.IsNil() {
		err = e.Interface().(error)
	}
	return brief(b.String()), err
}
