package vharness

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/bifurcation/mint/syntax"
)

// C15: the presentation codec against an independent one.  Types are built by
// reflection from a grid of shapes; the reference codec below works on the
// type and on options the grid hands it directly (it never parses a tag).

type c15Opt struct {
	head     int // 0 absent, >0 bytes, -1 none, -2 varint
	min, max int
	varint   bool
	optional bool
	omit     bool
}

func (o c15Opt) tag() string {
	var p []string
	switch {
	case o.head == -1:
		p = append(p, "head=none")
	case o.head == -2:
		p = append(p, "head=varint")
	case o.head > 0:
		p = append(p, fmt.Sprintf("head=%d", o.head))
	}
	if o.min != 0 {
		p = append(p, fmt.Sprintf("min=%d", o.min))
	}
	if o.max != 0 {
		p = append(p, fmt.Sprintf("max=%d", o.max))
	}
	if o.varint {
		p = append(p, "varint")
	}
	if o.optional {
		p = append(p, "optional")
	}
	if o.omit {
		p = append(p, "omit")
	}
	return strings.Join(p, ",")
}

// types that bring their own encoding or their own validity

type C15Valid uint8

func (v C15Valid) ValidForTLS() error {
	if v >= 0x80 {
		return fmt.Errorf("too big")
	}
	return nil
}

type C15Range struct{ A, B uint8 }

func (v C15Range) ValidForTLS() error {
	if v.A > v.B {
		return fmt.Errorf("not a range")
	}
	return nil
}

type C15Own struct{ N uint16 }

func (v C15Own) MarshalTLS() ([]byte, error) {
	if v.N == 0xffff {
		return nil, fmt.Errorf("cannot encode")
	}
	return []byte{0x40, byte(v.N >> 8), byte(v.N)}, nil
}

func (v *C15Own) UnmarshalTLS(d []byte) (int, error) {
	if len(d) < 3 || d[0] != 0x40 {
		return 0, fmt.Errorf("cannot decode")
	}
	v.N = uint16(d[1])<<8 | uint16(d[2])
	return 3, nil
}

// C15Var has its own encoding of varying length, and a validity rule.
type C15Var struct{ D []byte }

func (v C15Var) MarshalTLS() ([]byte, error) {
	return append([]byte{byte(len(v.D))}, v.D...), nil
}

func (v *C15Var) UnmarshalTLS(d []byte) (int, error) {
	if len(d) == 0 || len(d) < 1+int(d[0]) {
		return 0, fmt.Errorf("cannot decode")
	}
	v.D = append([]byte{}, d[1:1+int(d[0])]...)
	return 1 + int(d[0]), nil
}

func (v C15Var) ValidForTLS() error {
	if len(v.D) == 2 {
		return fmt.Errorf("two is not a valid length")
	}
	return nil
}

var (
	c15U8    = reflect.TypeOf(uint8(0))
	c15U16   = reflect.TypeOf(uint16(0))
	c15U32   = reflect.TypeOf(uint32(0))
	c15U64   = reflect.TypeOf(uint64(0))
	c15tV    = reflect.TypeOf(C15Valid(0))
	c15tR    = reflect.TypeOf(C15Range{})
	c15tOwn  = reflect.TypeOf(C15Own{})
	c15tVar  = reflect.TypeOf(C15Var{})
	c15Empty = reflect.TypeOf(struct{}{})
)

// the field options of the struct types the grid builds
var c15Fields = map[reflect.Type][]c15Opt{
	c15tR: {{}, {}}, c15Empty: {},
}

type c15Field struct {
	t reflect.Type
	o c15Opt
}

func c15Struct(fs ...c15Field) reflect.Type {
	var sf []reflect.StructField
	var os []c15Opt
	for i, f := range fs {
		sf = append(sf, reflect.StructField{Name: string(rune('A' + i)), Type: f.t, Tag: reflect.StructTag(`tls:"` + f.o.tag() + `"`)})
		os = append(os, f.o)
	}
	t := reflect.StructOf(sf)
	c15Fields[t] = os
	return t
}

// reference codec

func c15Varint(u uint64) []byte {
	switch {
	case u < 1<<6:
		return []byte{byte(u)}
	case u < 1<<14:
		return []byte{0x40 | byte(u>>8), byte(u)}
	case u < 1<<30:
		return []byte{0x80 | byte(u>>24), byte(u >> 16), byte(u >> 8), byte(u)}
	}
	b := be(u, 8)
	b[0] |= 0xc0
	return b
}

func be(u uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(u)
		u >>= 8
	}
	return b
}

func c15Head(o c15Opt, n int) ([]byte, bool) {
	if n < o.min || (o.max > 0 && n > o.max) {
		return nil, false
	}
	switch {
	case o.head == -1:
		return nil, true
	case o.head == -2:
		return c15Varint(uint64(n)), true
	case o.head > 0:
		if o.head < 8 && n >= 1<<(8*uint(o.head)) {
			return nil, false
		}
		return be(uint64(n), o.head), true
	}
	return nil, false
}

func c15Valids(v reflect.Value) bool {
	switch x := v.Interface().(type) {
	case C15Valid:
		return x < 0x80
	case C15Range:
		return x.A <= x.B
	case C15Var:
		return len(x.D) != 2
	}
	return true
}

func c15Enc(v reflect.Value, o c15Opt) ([]byte, bool) {
	if !c15Valids(v) {
		return nil, false
	}
	switch x := v.Interface().(type) {
	case C15Own:
		return append([]byte{0x40}, be(uint64(x.N), 2)...), x.N != 0xffff
	case C15Var:
		return append([]byte{byte(len(x.D))}, x.D...), true
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if o.varint {
			return c15Varint(v.Uint()), v.Uint() < 1<<62
		}
		return be(v.Uint(), int(v.Type().Size())), true
	case reflect.Array, reflect.Slice:
		var b []byte
		for i := 0; i < v.Len(); i++ {
			e, ok := c15Enc(v.Index(i), o)
			if !ok {
				return nil, false
			}
			b = append(b, e...)
		}
		if v.Kind() == reflect.Array {
			return b, true
		}
		h, ok := c15Head(o, len(b))
		return append(h, b...), ok
	case reflect.Map:
		var kv [][]byte
		for _, k := range v.MapKeys() {
			a, ok := c15Enc(k, c15Opt{})
			e, ok2 := c15Enc(v.MapIndex(k), c15Opt{})
			if !ok || !ok2 {
				return nil, false
			}
			kv = append(kv, append(a, e...))
		}
		sort.Slice(kv, func(i, j int) bool { return bytes.Compare(kv[i], kv[j]) < 0 })
		b := bytes.Join(kv, nil)
		h, ok := c15Head(o, len(b))
		return append(h, b...), ok
	case reflect.Struct:
		var b []byte
		for i, fo := range c15Fields[v.Type()] {
			if fo.omit {
				continue
			}
			e, ok := c15Enc(v.Field(i), fo)
			if !ok {
				return nil, false
			}
			b = append(b, e...)
		}
		return b, true
	case reflect.Ptr:
		if v.IsNil() {
			return []byte{0}, o.optional
		}
		e, ok := c15Enc(v.Elem(), o)
		if o.optional {
			e = append([]byte{1}, e...)
		}
		return e, ok
	}
	return nil, false
}

type c15Info struct {
	loose bool // a non-minimal varint, or a map not in canonical form, was read
}

func c15GetVarint(d []byte, inf *c15Info) (uint64, int, bool) {
	if len(d) == 0 {
		return 0, 0, false
	}
	n := 1 << (d[0] >> 6)
	if len(d) < n {
		return 0, 0, false
	}
	u := uint64(d[0] & 0x3f)
	for _, b := range d[1:n] {
		u = u<<8 | uint64(b)
	}
	if len(c15Varint(u)) != n {
		inf.loose = true
	}
	return u, n, true
}

func c15Vec(d []byte, o c15Opt, inf *c15Info) (body []byte, n int, ok bool) {
	var l uint64
	switch {
	case o.head == -1:
		l = uint64(len(d))
	case o.head == -2:
		if l, n, ok = c15GetVarint(d, inf); !ok {
			return
		}
	case o.head > 0:
		if len(d) < o.head {
			return nil, 0, false
		}
		for _, b := range d[:o.head] {
			if l>>56 != 0 {
				return nil, 0, false
			}
			l = l<<8 | uint64(b)
		}
		n = o.head
	default:
		return nil, 0, false
	}
	if l > uint64(len(d)-n) || int(l) < o.min || (o.max > 0 && int(l) > o.max) {
		return nil, 0, false
	}
	return d[n : n+int(l)], n, true
}

func c15Dec(t reflect.Type, o c15Opt, d []byte, inf *c15Info) (v reflect.Value, n int, ok bool) {
	v = reflect.New(t).Elem()
	switch t {
	case c15tOwn:
		if len(d) < 3 || d[0] != 0x40 {
			return v, 0, false
		}
		v.Field(0).SetUint(uint64(d[1])<<8 | uint64(d[2]))
		if v.Field(0).Uint() == 0xffff {
			inf.loose = true // its own encoder refuses it
		}
		return v, 3, true
	case c15tNil:
		return v, 0, true
	case c15tVar:
		if len(d) == 0 || len(d) < 1+int(d[0]) || d[0] == 2 {
			return v, 0, false
		}
		v.Field(0).SetBytes(append([]byte{}, d[1:1+int(d[0])]...))
		return v, 1 + int(d[0]), true
	}
	switch t.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		size := int(t.Size())
		var u uint64
		if o.varint {
			if u, n, ok = c15GetVarint(d, inf); !ok || n > size {
				return v, 0, false
			}
		} else {
			if len(d) < size {
				return v, 0, false
			}
			for _, b := range d[:size] {
				u = u<<8 | uint64(b)
			}
			n = size
		}
		v.SetUint(u)
		return v, n, c15Valids(v)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			e, k, ok := c15Dec(t.Elem(), o, d[n:], inf)
			if !ok {
				return v, 0, false
			}
			v.Index(i).Set(e)
			n += k
		}
		return v, n, true
	case reflect.Slice:
		body, h, ok := c15Vec(d, o, inf)
		if !ok {
			return v, 0, false
		}
		n = h + len(body)
		v.Set(reflect.MakeSlice(t, 0, 0))
		for len(body) > 0 {
			e, k, ok := c15Dec(t.Elem(), o, body, inf)
			if !ok || k == 0 {
				return v, 0, false
			}
			v.Set(reflect.Append(v, e))
			body = body[k:]
		}
		return v, n, true
	case reflect.Map:
		body, h, ok := c15Vec(d, o, inf)
		if !ok {
			return v, 0, false
		}
		n = h + len(body)
		v.Set(reflect.MakeMap(t))
		var last []byte
		for len(body) > 0 {
			key, k, ok := c15Dec(t.Key(), c15Opt{}, body, inf)
			if !ok {
				return v, 0, false
			}
			val, k2, ok := c15Dec(t.Elem(), c15Opt{}, body[k:], inf)
			if !ok || k+k2 == 0 {
				return v, 0, false
			}
			if last != nil && bytes.Compare(last, body[:k]) >= 0 {
				inf.loose = true
			}
			last = body[:k]
			v.SetMapIndex(key, val)
			body = body[k+k2:]
		}
		return v, n, true
	case reflect.Struct:
		for i, fo := range c15Fields[t] {
			if fo.omit {
				continue
			}
			e, k, ok := c15Dec(t.Field(i).Type, fo, d[n:], inf)
			if !ok {
				return v, 0, false
			}
			v.Field(i).Set(e)
			n += k
		}
		return v, n, c15Valids(v)
	case reflect.Ptr:
		if o.optional {
			if len(d) == 0 || d[0] > 1 {
				return v, 0, false
			}
			if d[0] == 0 {
				return v, 1, true
			}
			n = 1
		}
		e, k, ok := c15Dec(t.Elem(), o, d[n:], inf)
		if !ok {
			return v, 0, false
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(e)
		v.Set(p)
		return v, n + k, true
	}
	return v, 0, false
}

// c15Same compares values; nil and empty vectors are the same.
func c15Same(a, b reflect.Value, skipOmitted bool) bool {
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !c15Same(a.Index(i), b.Index(i), skipOmitted) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			e := b.MapIndex(k)
			if !e.IsValid() || !c15Same(a.MapIndex(k), e, skipOmitted) {
				return false
			}
		}
		return true
	case reflect.Struct:
		os := c15Fields[a.Type()]
		for i := 0; i < a.NumField(); i++ {
			if skipOmitted && i < len(os) && os[i].omit {
				continue
			}
			if !c15Same(a.Field(i), b.Field(i), skipOmitted) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return c15Same(a.Elem(), b.Elem(), skipOmitted)
	}
	return a.Uint() == b.Uint()
}

// c15Values enumerates values of a type: everything over a small domain, with
// the number of choices falling with depth; at most limit of them, evenly
// spread over the whole enumeration.
func c15Values(t reflect.Type, o c15Opt, depth, limit int) []reflect.Value {
	var out []reflect.Value
	add := func(v reflect.Value) { out = append(out, v) }
	mk := func(u uint64) {
		v := reflect.New(t).Elem()
		v.SetUint(u)
		add(v)
	}
	switch t {
	case c15tOwn:
		for _, u := range []uint16{0, 0x4041, 0xfffe, 0xffff} {
			add(reflect.ValueOf(C15Own{u}))
		}
		return out
	case c15tVar:
		for _, n := range []int{0, 1, 2, 3} {
			add(reflect.ValueOf(C15Var{bytes.Repeat([]byte{0x41}, n)}))
		}
		return out
	}
	switch t.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := uint(8 * t.Size())
		dom := []uint64{0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xff, 0x100, 0x0102, 0x3fff, 0x4000, 0x7fff, 0xffff, 0x10000, 0x01020304, 1<<30 - 1, 1 << 30, 1<<32 - 1, 1 << 32, 0x0102030405060708, 1<<62 - 1, 1 << 62, 1<<64 - 1}
		if depth >= 1 {
			dom = []uint64{0, 0x41, 0xff, 0x4102, 0x41020304}
		}
		if depth >= 3 {
			dom = []uint64{1, 0x4102}
		}
		for _, u := range dom {
			if bits == 64 || u < 1<<bits {
				mk(u)
			}
		}
	case reflect.Array:
		for _, l := range c15Lists(c15Values(t.Elem(), o, depth+1, limit), t.Len(), limit) {
			v := reflect.New(t).Elem()
			for i, e := range l {
				v.Index(i).Set(e)
			}
			add(v)
		}
	case reflect.Slice:
		max := 3
		if depth >= 2 {
			max = 2
		}
		el := c15Values(t.Elem(), o, depth+1, limit)
		for n := 0; n <= max; n++ {
			for _, l := range c15Lists(el, n, limit) {
				v := reflect.MakeSlice(t, n, n)
				for i, e := range l {
					v.Index(i).Set(e)
				}
				add(v)
			}
		}
		if depth == 0 {
			add(reflect.Zero(t))
		}
	case reflect.Map:
		ks := c15Values(t.Key(), c15Opt{}, depth+1, 6)
		vs := c15Values(t.Elem(), c15Opt{}, depth+1, limit)
		for m := 0; m < 1<<uint(len(ks)); m++ {
			for s := 0; s < len(vs) && s < 3; s++ {
				v := reflect.MakeMap(t)
				j := s
				for i, k := range ks {
					if m>>uint(i)&1 == 1 {
						v.SetMapIndex(k, vs[j%len(vs)])
						j++
					}
				}
				add(v)
				if m == 0 {
					break
				}
			}
		}
	case reflect.Struct:
		os := c15Fields[t]
		cur := []reflect.Value{reflect.New(t).Elem()}
		for i := 0; i < t.NumField(); i++ {
			vs := c15Values(t.Field(i).Type, os[i], depth+1, limit)
			if t.NumField() == 1 {
				vs = c15Values(t.Field(i).Type, os[i], depth, limit)
			}
			var nx []reflect.Value
			for _, c := range cur {
				for _, f := range vs {
					v := reflect.New(t).Elem()
					v.Set(c)
					v.Field(i).Set(f)
					nx = append(nx, v)
				}
			}
			cur = c15Thin(nx, limit)
		}
		out = cur
	case reflect.Ptr:
		add(reflect.Zero(t))
		for _, e := range c15Values(t.Elem(), o, depth+1, limit) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			add(p)
		}
	}
	return c15Thin(out, limit)
}

func c15Thin(in []reflect.Value, limit int) []reflect.Value {
	if len(in) <= limit {
		return in
	}
	var out []reflect.Value
	for i := 0; i < limit; i++ {
		out = append(out, in[i*len(in)/limit])
	}
	return out
}

func c15Lists(el []reflect.Value, n, limit int) [][]reflect.Value {
	out := [][]reflect.Value{nil}
	for i := 0; i < n; i++ {
		var nx [][]reflect.Value
		for _, l := range out {
			for _, e := range el {
				nx = append(nx, append(append([]reflect.Value{}, l...), e))
			}
		}
		if len(nx) > limit {
			var th [][]reflect.Value
			for i := 0; i < limit; i++ {
				th = append(th, nx[i*len(nx)/limit])
			}
			nx = th
		}
		out = nx
	}
	return out
}

// dirty fills a value with things a decoder has to replace.
func c15Dirty(v reflect.Value) {
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(0x5a)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c15Dirty(v.Index(i))
		}
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 5, 9)
		for i := 0; i < 5; i++ {
			c15Dirty(s.Index(i))
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		c15Dirty(k)
		c15Dirty(e)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c15Dirty(v.Field(i))
		}
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		c15Dirty(p.Elem())
		v.Set(p)
	}
}

func c15Marshal(c *Case, v reflect.Value) (b []byte, err error) {
	if p := recovered(func() { b, err = syntax.Marshal(v.Interface()) }); p != "" {
		c.Fail("panic", "Marshal(%s %#v) panics: %s", v.Type(), v.Interface(), p)
	}
	return
}

func c15Unmarshal(c *Case, d []byte, p interface{}) (n int, err error) {
	if m := recovered(func() { n, err = syntax.Unmarshal(d, p) }); m != "" {
		c.Fail("panic", "Unmarshal(%x) into %T panics: %s", d, p, m)
	}
	return
}

func c15HasOmit(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array, reflect.Slice, reflect.Ptr:
		return c15HasOmit(t.Elem())
	case reflect.Map:
		return c15HasOmit(t.Elem())
	case reflect.Struct:
		for i, o := range c15Fields[t] {
			if o.omit || c15HasOmit(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// c15Try decodes one byte string and compares with the reference.
func c15Try(c *Case, t reflect.Type, d []byte) {
	keep := append([]byte{}, d...)
	var inf c15Info
	want, wn, ok := c15Dec(t, c15Opt{}, d, &inf)
	for pass := 0; pass < 2; pass++ {
		p := reflect.New(t)
		if pass == 1 {
			c15Dirty(p.Elem())
		}
		n, err := c15Unmarshal(c, d, p.Interface())
		if !bytes.Equal(d, keep) {
			c.Fail("input", "Unmarshal changed its input %x to %x", keep, d)
		}
		if (err == nil) != ok {
			c.Fail("accept", "Unmarshal(%x) into %s: error %v, want accepted=%v", keep, t, err, ok)
		}
		if !ok {
			return
		}
		if n != wn {
			c.Fail("consumed", "Unmarshal(%x) into %s consumed %d bytes, want %d", keep, t, n, wn)
		}
		for i := range d {
			d[i] ^= 0xa5
		}
		same := c15Same(p.Elem(), want, true)
		copy(d, keep)
		if !same {
			c.Fail("value", "Unmarshal(%x) into %s (previously used: %v) gives %+v, want %+v", keep, t, pass == 1, p.Elem().Interface(), want.Interface())
		}
		if pass == 0 && !inf.loose {
			b, err := c15Marshal(c, p.Elem())
			if err != nil || !bytes.Equal(b, keep[:n]) {
				c.Fail("reencode", "%x decodes into %s but encodes again as %x (%v)", keep[:n], t, b, err)
			}
		}
	}
}

func c15Value(c *Case, t reflect.Type, v reflect.Value, deep bool) {
	want, ok := c15Enc(v, c15Opt{})
	got, err := c15Marshal(c, v)
	if (err == nil) != ok {
		c.Fail("encode", "Marshal(%s %+v): error %v, want encoded=%v (%x)", t, v.Interface(), err, ok, want)
	}
	if !ok {
		return
	}
	if !bytes.Equal(got, want) {
		c.Fail("bytes", "Marshal(%s %+v) = %x, want %x", t, v.Interface(), got, want)
	}
	var inf c15Info
	back, n, ok := c15Dec(t, c15Opt{}, want, &inf)
	if !ok || n != len(want) || !c15Same(back, v, true) {
		// the type does not have a faithful encoding (elements of no size)
		return
	}
	p := reflect.New(t)
	k, err := c15Unmarshal(c, got, p.Interface())
	if err != nil || k != len(got) || !c15Same(p.Elem(), v, true) {
		c.Fail("roundtrip", "%s %+v encodes as %x and decodes as %+v (%d bytes, %v)", t, v.Interface(), got, p.Elem().Interface(), k, err)
	}
	if pv := reflect.New(t); true {
		pv.Elem().Set(v)
		b, err := c15Marshal(c, pv)
		if err != nil || !bytes.Equal(b, want) {
			c.Fail("pointer", "Marshal(&%s) = %x, %v, want %x", t, b, err, want)
		}
	}
	if !deep {
		return
	}
	k = 0
	for i := 0; i <= len(want); i++ {
		c15Try(c, t, append([]byte{}, want[:i]...))
		k++
		if i == len(want) || len(want) > 24 && i > 12 && i < len(want)-4 {
			continue
		}
		for _, m := range []byte{1, 2, 0x3f, 0x40, 0x80, 0xc0, 0xff, 0x7f} {
			d := append([]byte{}, want...)
			d[i] ^= m
			c15Try(c, t, d)
			k++
		}
	}
	for _, tail := range [][]byte{{0}, {1}, {0xff, 0xff, 0xff}} {
		c15Try(c, t, append(append([]byte{}, want...), tail...))
		k++
	}
	c.Count(k)
}

func init() { register("C15", "exploration", checkC15) }

func checkC15(x *Ctx) {
	cs := &Cases{}
	x.Rule("a grid of types (integers, varints, arrays, vectors with every header form and bounds, maps, structs, pointers, optional pointers, omitted fields, types with their own codec or validity rule; nested up to 3) built by reflection; per type every value over a boundary domain (encoded, decoded, decoded into a used destination), every truncation, byte alteration and extension of each encoding, and every byte string up to the bound over a boundary alphabet, all compared with an independent codec; every combination of tag tokens on every kind of field")
	x.Assume("decoding of maps is not claimed to reject unsorted or repeated keys; types with elements of no size are only claimed not to hang")

	f := func(t reflect.Type, o c15Opt) c15Field { return c15Field{t, o} }
	// level 0: single fields
	var leaves []c15Field
	for _, t := range []reflect.Type{c15U8, c15U16, c15U32, c15U64} {
		leaves = append(leaves, f(t, c15Opt{}), f(t, c15Opt{varint: true}), f(t, c15Opt{omit: true}))
	}
	for n := 0; n <= 3; n++ {
		leaves = append(leaves, f(reflect.ArrayOf(n, c15U8), c15Opt{}))
	}
	leaves = append(leaves, f(reflect.ArrayOf(2, c15U16), c15Opt{}), f(reflect.ArrayOf(2, c15tV), c15Opt{}))
	leaves = append(leaves, f(c15tV, c15Opt{}), f(c15tR, c15Opt{}), f(c15tOwn, c15Opt{}), f(c15tVar, c15Opt{}))
	heads := []int{1, 2, 3, 4, 7, 8, -1, -2}
	bounds := [][2]int{{0, 0}, {1, 0}, {0, 1}, {0, 2}, {2, 2}, {1, 3}, {3, 4}}
	elems := []reflect.Type{c15U8, c15U16, c15U32, c15tV, c15tR, c15tOwn, c15tVar, reflect.ArrayOf(2, c15U8), reflect.PtrTo(c15U8)}
	for _, e := range elems {
		for _, h := range heads {
			for bi, b := range bounds {
				if bi > 0 && e != c15U8 && e != c15U16 {
					continue
				}
				leaves = append(leaves, f(reflect.SliceOf(e), c15Opt{head: h, min: b[0], max: b[1]}))
			}
		}
	}
	leaves = append(leaves, f(reflect.SliceOf(c15U8), c15Opt{omit: true}), f(reflect.SliceOf(c15U8), c15Opt{}), f(reflect.SliceOf(c15U8), c15Opt{max: 3}))
	maps := []reflect.Type{reflect.MapOf(c15U8, c15U8), reflect.MapOf(c15U16, c15U8), reflect.MapOf(c15U32, c15tR), reflect.MapOf(reflect.ArrayOf(2, c15U8), c15U16), reflect.MapOf(c15tV, c15tOwn), reflect.MapOf(c15tR, c15tVar), reflect.MapOf(c15U8, reflect.PtrTo(c15U16))}
	for _, m := range maps {
		for _, h := range heads {
			leaves = append(leaves, f(m, c15Opt{head: h}))
		}
		leaves = append(leaves, f(m, c15Opt{head: 1, min: 2, max: 6}), f(m, c15Opt{}), f(m, c15Opt{omit: true}))
	}
	for _, t := range []reflect.Type{c15U8, c15U16, c15U64, c15tV, c15tR, c15tOwn, c15tVar, reflect.ArrayOf(2, c15U8), reflect.ArrayOf(0, c15U8)} {
		leaves = append(leaves, f(reflect.PtrTo(t), c15Opt{}), f(reflect.PtrTo(t), c15Opt{optional: true}), f(reflect.PtrTo(t), c15Opt{omit: true}))
	}
	leaves = append(leaves, f(reflect.PtrTo(reflect.PtrTo(c15U8)), c15Opt{}))

	var types []reflect.Type
	seen := map[reflect.Type]bool{}
	add := func(t reflect.Type) {
		if !seen[t] {
			seen[t] = true
			types = append(types, t)
		}
	}
	for _, t := range []reflect.Type{c15U8, c15U16, c15U32, c15U64, c15tV, c15tR, c15tOwn, c15tVar, reflect.ArrayOf(3, c15U8), reflect.ArrayOf(2, c15U32), reflect.ArrayOf(2, reflect.ArrayOf(2, c15U8)), reflect.PtrTo(c15U16), reflect.PtrTo(c15tR), reflect.SliceOf(c15U8), reflect.MapOf(c15U8, c15U8), c15Empty, reflect.ArrayOf(0, c15U8)} {
		add(t)
	}
	for _, l := range leaves {
		add(c15Struct(l))
	}
	// level 1: pairs of representative fields, and vectors of one-field structs
	rep := []c15Field{
		f(c15U8, c15Opt{}), f(c15U16, c15Opt{varint: true}), f(c15U64, c15Opt{varint: true}), f(c15U32, c15Opt{}), f(c15U8, c15Opt{omit: true}),
		f(reflect.ArrayOf(2, c15U8), c15Opt{}),
		f(reflect.SliceOf(c15U8), c15Opt{head: 1}), f(reflect.SliceOf(c15U16), c15Opt{head: 2, min: 2}), f(reflect.SliceOf(c15U8), c15Opt{head: -2, max: 3}), f(reflect.SliceOf(c15U8), c15Opt{head: -1}),
		f(reflect.MapOf(c15U8, c15U8), c15Opt{head: 1}),
		f(reflect.PtrTo(c15U8), c15Opt{}), f(reflect.PtrTo(c15U16), c15Opt{optional: true}), f(reflect.PtrTo(c15tR), c15Opt{optional: true}),
		f(c15tV, c15Opt{}), f(c15tOwn, c15Opt{}), f(c15tVar, c15Opt{}),
	}
	var l1 []reflect.Type
	for i, a := range rep {
		for j, b := range rep {
			t := c15Struct(a, b)
			add(t)
			if j == (i+3)%len(rep) || j == (i+8)%len(rep) {
				l1 = append(l1, t)
			}
		}
		l1 = append(l1, c15Struct(a))
	}
	wrap := func(t reflect.Type) []reflect.Type {
		var o []reflect.Type
		for _, h := range []int{1, 2, -1, -2} {
			o = append(o, c15Struct(f(reflect.SliceOf(t), c15Opt{head: h})))
		}
		o = append(o, c15Struct(f(reflect.SliceOf(t), c15Opt{head: 1, min: 2, max: 5})))
		o = append(o, c15Struct(f(reflect.PtrTo(t), c15Opt{optional: true})), c15Struct(f(t, c15Opt{}), f(c15U8, c15Opt{})), reflect.ArrayOf(2, t), c15Struct(f(reflect.MapOf(c15U8, t), c15Opt{head: 1})))
		return o
	}
	var l2 []reflect.Type
	for i, t := range l1 {
		for j, w := range wrap(t) {
			add(w)
			if x.Thorough() || j == i%9 || j == (i+4)%9 {
				l2 = append(l2, w)
			}
		}
	}
	for i, t := range l2 {
		for j, w := range wrap(t) {
			if j == i%9 || x.Thorough() && j == (i+5)%9 {
				add(w)
			}
		}
	}
	// vectors of vectors: the options hold for both
	for _, e := range []reflect.Type{reflect.SliceOf(reflect.SliceOf(c15U8)), reflect.SliceOf(reflect.ArrayOf(2, reflect.SliceOf(c15U8)))} {
		for _, o := range []c15Opt{{head: 1}, {head: 2}, {head: -2}, {head: 1, max: 4}} {
			add(c15Struct(f(e, o)))
		}
	}

	alpha := []byte{0, 1, 2, 3, 4, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0xc0, 0xff}
	maxLen := x.Pick(4, 5)
	limit := x.Pick(150, 600)
	for ti, t := range types {
		t := t
		name := fmt.Sprintf("type%04d/%s", ti, t)
		if len(name) > 150 {
			name = name[:150]
		}
		cs.Add(name+"/values", func(c *Case) {
			vs := c15Values(t, c15Opt{}, 0, limit)
			for i, v := range vs {
				c15Value(c, t, v, i < 12 || len(vs) < 30 || i%(1+len(vs)/30) == 0)
			}
			c.Count(len(vs))
			c.Outcome(fmt.Sprintf("kind %s", t.Kind()))
		})
		cs.Add(name+"/bytes", func(c *Case) {
			d := make([]byte, 0, maxLen+1)
			n := 0
			var rec func(d []byte)
			rec = func(d []byte) {
				c15Try(c, t, append([]byte{}, d...))
				n++
				if len(d) == maxLen {
					return
				}
				for _, a := range alpha {
					rec(append(d, a))
				}
			}
			rec(d)
			c.Count(n)
		})
	}
	// sizes around the limits of every header
	for _, h := range []int{1, 2, 3, 4, -1, -2} {
		for _, e := range []reflect.Type{c15U8, c15U16} {
			for _, n := range []int{62, 63, 64, 65, 126, 127, 128, 254, 255, 256, 257, 16382, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24} {
				if n > 70000 && (e != c15U8 || h != 3 || !x.Thorough()) {
					continue
				}
				h, e, n := h, e, n
				st := c15Struct(f(reflect.SliceOf(e), c15Opt{head: h}), f(c15U8, c15Opt{}))
				if h == -1 {
					st = c15Struct(f(reflect.SliceOf(e), c15Opt{head: h}))
				}
				cs.Add(fmt.Sprintf("size/head%d/%s/%d", h, e, n), func(c *Case) {
					v := reflect.New(st).Elem()
					s := reflect.MakeSlice(reflect.SliceOf(e), n, n)
					for i := 0; i < n; i += 1 + n/100 {
						s.Index(i).SetUint(uint64(i & 0xff))
					}
					v.Field(0).Set(s)
					c15Value(c, st, v, false)
					if b, ok := c15Enc(v, c15Opt{}); ok {
						c15Try(c, st, b)
						c15Try(c, st, b[:len(b)-1])
						c15Try(c, st, append(b, 7))
					}
				})
			}
		}
	}
	for _, b := range []int{63, 64, 255, 256, 16383, 16384} {
		for _, d := range []int{-1, 0, 1} {
			for _, minmax := range []bool{false, true} {
				for _, h := range []int{2, -1, -2} {
					o := c15Opt{head: h, max: b}
					if minmax {
						o = c15Opt{head: h, min: b}
					}
					n := b + d
					st := c15Struct(f(reflect.SliceOf(c15U8), o))
					cs.Add(fmt.Sprintf("bound/%d/%d/min=%v/head%d", b, n, minmax, h), func(c *Case) {
						v := reflect.New(st).Elem()
						v.Field(0).SetBytes(make([]byte, n))
						c15Value(c, st, v, false)
						free := o
						free.min, free.max = 0, 0
						enc, _ := c15Enc(v.Field(0), free)
						c15Try(c, st, enc)
					})
				}
			}
		}
	}
	// every value of the one- and two-byte varints and integers
	for _, t := range []reflect.Type{c15U8, c15U16, c15U32, c15U64} {
		t := t
		st := c15Struct(f(t, c15Opt{varint: true}))
		cs.Add(fmt.Sprintf("varint/%s", t), func(c *Case) {
			for i := 0; i < 1<<16; i++ {
				c15Try(c, st, []byte{byte(i >> 8), byte(i), byte(i >> 3), 9, 8, 7, 6, 5})
				v := reflect.New(st).Elem()
				v.Field(0).SetUint(uint64(i) & (1<<(8*uint64(t.Size())-1)<<1 - 1))
				c15Value(c, st, v, false)
			}
			for i := uint(0); i < 64; i++ {
				for d := -2; d <= 2; d++ {
					v := reflect.New(st).Elem()
					v.Field(0).SetUint((uint64(1)<<i + uint64(d)) & (1<<(8*uint64(t.Size())-1)<<1 - 1))
					c15Value(c, st, v, true)
				}
			}
			c.Count(1 << 17)
		})
	}
	c15Tags(x, cs)
	c15Odd(x, cs)
	x.Run(cs, 0)
}

// tags: every sequence of up to three tokens on every kind of field
func c15Tags(x *Ctx, cs *Cases) {
	type tok struct {
		s   string
		set func(o *c15Opt, bad *bool, forms map[string]bool)
	}
	head := func(s, form string, h int) tok {
		return tok{s, func(o *c15Opt, bad *bool, forms map[string]bool) { o.head = h; forms[form] = true }}
	}
	malformed := func(s string) tok {
		return tok{s, func(o *c15Opt, bad *bool, forms map[string]bool) { *bad = true }}
	}
	toks := []tok{
		head("head=1", "n1", 1), head("head=2", "n2", 2), head("head=none", "none", -1), head("head=varint", "varint", -2),
		{"min=2", func(o *c15Opt, bad *bool, f map[string]bool) { o.min = 2 }},
		{"max=1", func(o *c15Opt, bad *bool, f map[string]bool) { o.max = 1 }},
		{"max=3", func(o *c15Opt, bad *bool, f map[string]bool) { o.max = 3 }},
		{"varint", func(o *c15Opt, bad *bool, f map[string]bool) { o.varint = true }},
		{"optional", func(o *c15Opt, bad *bool, f map[string]bool) { o.optional = true }},
		{"omit", func(o *c15Opt, bad *bool, f map[string]bool) { o.omit = true }},
		{"other", func(o *c15Opt, bad *bool, f map[string]bool) {}},
		malformed("head="), malformed("=1"), malformed("head=x"), malformed("min=x"), malformed("max=1=2"), malformed("max=none"),
	}
	kinds := []struct {
		name string
		t    reflect.Type
		v    func() []reflect.Value
	}{
		{"u8", c15U8, nil}, {"u64", c15U64, nil}, {"array", reflect.ArrayOf(2, c15U8), nil}, {"slice", reflect.SliceOf(c15U8), nil},
		{"map", reflect.MapOf(c15U8, c15U8), nil}, {"ptr", reflect.PtrTo(c15U8), nil}, {"struct", c15tR, nil}, {"own", c15tOwn, nil},
	}
	run := func(c *Case, ts []tok, t reflect.Type) {
		o, bad, forms := c15Opt{}, false, map[string]bool{}
		var names []string
		for _, k := range ts {
			k.set(&o, &bad, forms)
			names = append(names, k.s)
		}
		tag := strings.Join(names, ",")
		for _, a := range []string{"max=1", "max=3", "head=1", "head=2"} {
			for _, b := range []string{"max=1", "max=3", "head=1", "head=2"} {
				if a != b && a[:4] == b[:4] && strings.Contains(tag, a) && strings.Contains(tag, b) {
					return // one option given twice: no verdict
				}
			}
		}
		vec := t.Kind() == reflect.Slice || t.Kind() == reflect.Map
		hdr := o.head != 0 || o.min != 0 || o.max != 0
		n := 0
		for _, s := range []bool{hdr, o.varint, o.optional, o.omit} {
			if s {
				n++
			}
		}
		bad = bad || len(forms) > 1 || n > 1 || (o.max > 0 && o.min > o.max) || (hdr && !vec) ||
			(o.varint && t.Kind() > reflect.Uint64) || (o.optional && t.Kind() != reflect.Ptr)
		if o.varint && (t.Kind() < reflect.Uint8 || t.Kind() > reflect.Uint64) {
			bad = true
		}
		st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: reflect.StructTag(`tls:"` + tag + `"`)}})
		for _, fv := range c15Values(t, o, 0, 12) {
			v := reflect.New(st).Elem()
			v.Field(0).Set(fv)
			got, err := c15Marshal(c, v)
			if bad {
				if err == nil {
					c.Fail("tag", "the contradictory or malformed tag %q on %s is accepted (encodes as %x)", tag, t, got)
				}
				continue
			}
			var want []byte
			ok := true
			if !o.omit {
				want, ok = c15Enc(fv, o)
			}
			if (err == nil) != ok || ok && !bytes.Equal(got, want) {
				c.Fail("tagenc", "tag %q on %s: %+v encodes as %x, %v; want %x, %v", tag, t, fv.Interface(), got, err, want, ok)
			}
		}
		for _, d := range [][]byte{{}, {0}, {1}, {1, 7}, {2, 1, 7}, {0, 2, 1, 7}, {0x40, 1, 2}, {3, 3, 3, 3, 3, 3, 3, 3}, {0, 0, 0, 0, 0, 0, 0, 1}} {
			p := reflect.New(st)
			n, err := c15Unmarshal(c, d, p.Interface())
			if bad {
				if err == nil {
					c.Fail("tag", "the contradictory or malformed tag %q on %s is accepted (decodes %x)", tag, t, d)
				}
				continue
			}
			if o.omit {
				if err != nil || n != 0 {
					c.Fail("tagdec", "an omitted field consumed %d bytes of %x (%v)", n, d, err)
				}
				continue
			}
			var inf c15Info
			want, wn, ok := c15Dec(t, o, d, &inf)
			if (err == nil) != ok || ok && (n != wn || !c15Same(p.Elem().Field(0), want, true)) {
				c.Fail("tagdec", "tag %q on %s: %x decodes as %+v (%d bytes, %v); want %+v (%d, %v)", tag, t, d, p.Elem().Interface(), n, err, want.Interface(), wn, ok)
			}
		}
		c.Count(20)
	}
	for _, k := range kinds {
		k := k
		cs.Add("tags/"+k.name, func(c *Case) {
			run(c, nil, k.t)
			for _, a := range toks {
				run(c, []tok{a}, k.t)
				for _, b := range toks {
					run(c, []tok{a, b}, k.t)
					for _, d := range toks {
						run(c, []tok{a, b, d}, k.t)
					}
				}
			}
		})
	}
}

// odd inputs: unsupported types, nil, non-pointers, elements of no size
func c15Odd(x *Ctx, cs *Cases) {
	cs.Add("odd/unsupported", func(c *Case) {
		type withInt struct{ A int }
		type withStr struct {
			A uint8
			B string
		}
		type withIface struct{ A interface{} }
		type withSlice struct {
			A []int `tls:"head=1"`
		}
		type withMap struct {
			A map[string]uint8 `tls:"head=1"`
		}
		var iface interface{}
		for _, v := range []interface{}{int(1), int8(1), int64(1), uint(1), true, "s", 1.5, make(chan int), func() {}, withInt{}, withStr{}, withIface{}, withIface{uint8(1)}, withSlice{}, withSlice{[]int{1}}, withMap{}, withMap{map[string]uint8{"a": 1}}, []string{}, iface, uintptr(1), complex64(1)} {
			v := v
			var err error
			if p := recovered(func() { _, err = syntax.Marshal(v) }); p != "" || err == nil {
				c.Fail("unsupported", "Marshal(%T): error %v panic %q", v, err, p)
			}
			if v == nil {
				continue
			}
			if p := recovered(func() { _, err = syntax.Unmarshal([]byte{1, 1, 1}, v) }); p != "" || err == nil {
				c.Fail("unsupported", "Unmarshal into %T (no pointer): error %v panic %q", v, err, p)
			}
			d := reflect.New(reflect.TypeOf(v)).Interface()
			if p := recovered(func() { _, err = syntax.Unmarshal([]byte{1, 1, 1}, d) }); p != "" || err == nil {
				c.Fail("unsupported", "Unmarshal into %T: error %v panic %q", d, err, p)
			}
		}
	})
	cs.Add("odd/target", func(c *Case) {
		var np *uint8
		for _, v := range []interface{}{nil, uint8(1), np, struct{ A uint8 }{}} {
			v := v
			var err error
			if p := recovered(func() { _, err = syntax.Unmarshal([]byte{1, 1}, v) }); p != "" || err == nil {
				c.Fail("target", "Unmarshal into %T %v: error %v panic %q", v, v, err, p)
			}
		}
		var err error
		if p := recovered(func() { _, err = syntax.Marshal(np) }); p != "" || err == nil {
			c.Fail("target", "Marshal(nil pointer): error %v panic %q", err, p)
		}
	})
	empties := []reflect.Type{c15Empty, reflect.ArrayOf(0, c15U8), reflect.ArrayOf(3, c15Empty), c15Struct(c15Field{c15U8, c15Opt{omit: true}}), reflect.PtrTo(c15Empty)}
	for i, e := range empties {
		for _, h := range []int{1, 2, -1, -2} {
			for _, m := range []bool{false, true} {
				t := c15Struct(c15Field{reflect.SliceOf(e), c15Opt{head: h}})
				if m {
					if e.Kind() == reflect.Ptr {
						continue
					}
					t = c15Struct(c15Field{reflect.MapOf(e, reflect.ArrayOf(0, c15U16)), c15Opt{head: h}})
				}
				t, name := t, fmt.Sprintf("odd/nosize%d/head%d/map=%v", i, h, m)
				nt := c15Struct(c15Field{reflect.SliceOf(c15tNil), c15Opt{head: h}})
				if m {
					nt = c15Struct(c15Field{reflect.MapOf(reflect.ArrayOf(0, c15U8), c15tNil), c15Opt{head: h}})
				}
				cs.Add(name, func(c *Case) {
					for _, d := range [][]byte{{}, {0}, {1, 0}, {0, 1, 0}, {2, 1, 1}, {0, 0}, {5}} {
						// an element whose own codec reads nothing gives up after
						// a while, so a decoder that never ends can be told
						atomic.StoreInt64(&c15NilCalls, 0)
						var inf c15Info
						_, _, ok := c15Dec(nt, c15Opt{}, d, &inf)
						_, err := c15Unmarshal(c, d, reflect.New(nt).Interface())
						if atomic.LoadInt64(&c15NilCalls) >= 1<<20 {
							c.Fail("hang", "decoding %x into %s does not end", d, nt)
						}
						if (err == nil) != ok {
							c.Fail("nosize", "decoding %x into %s: error %v, want accepted=%v", d, nt, err, ok)
						}
						_, _, ok = c15Dec(t, c15Opt{}, d, &inf)
						_, err = c15Unmarshal(c, d, reflect.New(t).Interface())
						if (err == nil) != ok {
							c.Fail("nosize", "decoding %x into %s: error %v, want accepted=%v", d, t, err, ok)
						}
					}
				})
			}
		}
	}
}

// C15Nil is encoded as nothing at all.
type C15Nil struct{ X [0]uint8 }

var (
	c15NilCalls int64
	c15tNil     = reflect.TypeOf(C15Nil{})
)

func (C15Nil) MarshalTLS() ([]byte, error) { return nil, nil }

func (*C15Nil) UnmarshalTLS([]byte) (int, error) {
	if atomic.AddInt64(&c15NilCalls, 1) >= 1<<20 {
		return 0, fmt.Errorf("too many")
	}
	return 0, nil
}
