package core

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash"
	"reflect"
	"sort"
	"unsafe"

	"google.golang.org/protobuf/proto"
)

var protoType = reflect.TypeOf((*proto.Message)(nil)).Elem()

// access makes an unexported field readable and settable.
func access(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	c := reflect.New(v.Type()).Elem()
	return c
}

// DeepClone copies a value with everything reachable from it. Protocol buffers are
// cloned as such; functions and channels are shared.
func DeepClone[T any](x T) T {
	src := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	src.Set(reflect.ValueOf(&x).Elem())
	return cloneValue(src, map[unsafe.Pointer]reflect.Value{}).Interface().(T)
}

func cloneValue(v reflect.Value, memo map[unsafe.Pointer]reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		p := v.UnsafePointer()
		if c, ok := memo[p]; ok && c.Type() == v.Type() {
			return c
		}
		if v.Type().Implements(protoType) {
			c := reflect.ValueOf(proto.Clone(v.Interface().(proto.Message)))
			memo[p] = c
			return c
		}
		c := reflect.New(v.Type().Elem())
		memo[p] = c
		c.Elem().Set(cloneValue(v.Elem(), memo))
		return c
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		e := reflect.New(v.Elem().Type()).Elem()
		e.Set(v.Elem())
		out.Set(cloneValue(e, memo))
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			access(out.Field(i)).Set(cloneValue(access(v.Field(i)), memo))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out = reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if isPlain(v.Type().Elem().Kind()) {
			reflect.Copy(out, v)
			return out
		}
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(cloneValue(v.Index(i), memo))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(cloneValue(v.Index(i), memo))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out = reflect.MakeMapWithSize(v.Type(), v.Len())
		for it := v.MapRange(); it.Next(); {
			k := reflect.New(v.Type().Key()).Elem()
			k.Set(it.Key())
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			out.SetMapIndex(cloneValue(k, memo), cloneValue(e, memo))
		}
	default:
		out.Set(v)
	}
	return out
}

func isPlain(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Complex128 && k != reflect.Uintptr || k == reflect.String
}

// Digest hashes a value with everything reachable from it, by content.
func Digest(xs ...any) [32]byte {
	h := sha256.New()
	for i := range xs {
		v := reflect.New(reflect.TypeOf(&xs[i]).Elem()).Elem()
		v.Set(reflect.ValueOf(&xs[i]).Elem())
		digestValue(h, v, 0)
	}
	var d [32]byte
	h.Sum(d[:0])
	return d
}

func put(h hash.Hash, n uint64) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], n)
	h.Write(b[:])
}

func digestValue(h hash.Hash, v reflect.Value, depth int) {
	if depth > 60 {
		panic("digest: too deep")
	}
	put(h, uint64(v.Kind()))
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			put(h, 0)
			return
		}
		put(h, 1)
		if v.Type().Implements(protoType) {
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(v.Interface().(proto.Message))
			if err != nil {
				panic(err)
			}
			put(h, uint64(len(b)))
			h.Write(b)
			return
		}
		digestValue(h, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			put(h, 0)
			return
		}
		e := reflect.New(v.Elem().Type()).Elem()
		e.Set(v.Elem())
		h.Write([]byte(e.Type().String()))
		digestValue(h, e, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			digestValue(h, access(v.Field(i)), depth+1)
		}
	case reflect.Slice:
		// nil and empty are equal: both mean "nothing".
		put(h, uint64(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			h.Write(v.Bytes())
			return
		}
		for i := 0; i < v.Len(); i++ {
			digestValue(h, v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			digestValue(h, v.Index(i), depth+1)
		}
	case reflect.Map:
		var ds []string
		for it := v.MapRange(); it.Next(); {
			k := reflect.New(v.Type().Key()).Elem()
			k.Set(it.Key())
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			s := sha256.New()
			digestValue(s, k, depth+1)
			digestValue(s, e, depth+1)
			ds = append(ds, string(s.Sum(nil)))
		}
		sort.Strings(ds)
		put(h, uint64(len(ds)))
		for _, d := range ds {
			h.Write([]byte(d))
		}
	case reflect.String:
		put(h, uint64(v.Len()))
		h.Write([]byte(v.String()))
	case reflect.Bool:
		if v.Bool() {
			put(h, 1)
		} else {
			put(h, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		put(h, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		put(h, v.Uint())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		put(h, 0)
	default:
		h.Write([]byte(fmt.Sprint(v)))
	}
}

// Dump collects the bytes of everything reachable from the values.
func Dump(xs ...any) []byte {
	d := &dumper{seen: map[unsafe.Pointer]bool{}}
	for i := range xs {
		v := reflect.New(reflect.TypeOf(&xs[i]).Elem()).Elem()
		v.Set(reflect.ValueOf(&xs[i]).Elem())
		d.walk(v)
	}
	return d.out
}

type dumper struct {
	out  []byte
	seen map[unsafe.Pointer]bool
}

func (d *dumper) add(b []byte) {
	d.out = append(append(d.out, b...), 0xfe, 0xfd)
}

func (d *dumper) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if p := v.UnsafePointer(); d.seen[p] {
			return
		} else {
			d.seen[p] = true
		}
		if v.Type().Implements(protoType) {
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(v.Interface().(proto.Message))
			if err != nil {
				panic(err)
			}
			d.add(b)
			return
		}
		d.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := reflect.New(v.Elem().Type()).Elem()
		e.Set(v.Elem())
		d.walk(e)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			d.walk(access(v.Field(i)))
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			d.add(b)
			return
		}
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i))
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			for _, x := range []reflect.Value{it.Key(), it.Value()} {
				e := reflect.New(x.Type()).Elem()
				e.Set(x)
				d.walk(e)
			}
		}
	case reflect.String:
		d.add([]byte(v.String()))
	}
}
