package interp

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"gosym/term"
)

// Documents (JSON and BSON) are encoded as opaque tokens that remember the value tree.

type jk int

const (
	jNull jk = iota
	jBool
	jInt // v with width w
	jFloat
	jStr
	jBytes
	jArr
	jObj
)

type jnode struct {
	kind   jk
	v      value // scalar, string, or []value for bytes
	w      uint8
	signed bool
	names  []value
	elems  []*jnode
	oid    bool
}

type jsonToken struct {
	format byte
	n      *jnode
	size   int
	offs   map[*jnode]int // where binary content is kept
}

// lay puts the binary content of n into b, from offset at on.
func (t *jsonToken) lay(n *jnode, b []value, at int) int {
	for _, e := range n.elems {
		if e.kind == jBytes && !e.oid {
			t.offs[e] = at
			at += copy(b[at:], e.v.([]value))
		}
		at = t.lay(e, b, at)
	}
	return at
}

// bsonLen is the length of n as a BSON document.
func bsonLen(n *jnode) int {
	size := 5
	for i, e := range n.elems {
		name := len(fmt.Sprint(i))
		if n.kind == jObj {
			name = strLen(n.names[i])
		}
		size += 2 + name
		switch e.kind {
		case jBool:
			size++
		case jInt:
			if e.w == 32 && e.signed {
				size += 4
			} else {
				size += 8
			}
		case jFloat:
			size += 8
		case jStr:
			size += 5 + strLen(e.v)
		case jBytes:
			size += len(e.v.([]value))
			if !e.oid {
				size += 5
			}
		case jArr, jObj:
			size += bsonLen(e)
		}
	}
	return size
}

func (p *path) mkToken(format byte, n *jnode) []value {
	id := len(p.tokens)
	size := 6 // of JSON text only the presence is modelled
	if format == 'B' {
		size = bsonLen(n)
	}
	tok := &jsonToken{format, n, size, map[*jnode]int{}}
	p.tokens = append(p.tokens, tok)
	b := []value{uint64(0xF6), uint64(format)}
	for i := 2; i >= 0; i-- {
		b = append(b, uint64(byte(id>>(8*i))))
	}
	for len(b) < size {
		b = append(b, uint64(0))
	}
	if format == 'B' {
		tok.lay(n, b, 5)
	}
	return b
}

func (p *path) tokenOf(format byte, b []value) (*jnode, bool) {
	if len(b) < 5 {
		return nil, false
	}
	id := 0
	for i, x := range b[:5] {
		c, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		switch {
		case i == 0:
			if c != 0xF6 {
				return nil, false
			}
		case i == 1:
			if byte(c) != format {
				return nil, false
			}
		default:
			id = id<<8 | int(c)
		}
	}
	if id >= len(p.tokens) || len(b) != p.tokens[id].size {
		return nil, false
	}
	return p.tokens[id].n, true
}

type jfield struct {
	name      string
	idx       []int
	t         types.Type
	omitempty bool
}

func jfields(t types.Type, format byte) []jfield {
	var out []jfield
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		key := "json"
		if format == 'B' {
			key = "bson"
		}
		tag := reflect.StructTag(st.Tag(i)).Get(key)
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		inline := strings.Contains(opts, "inline")
		if f.Anonymous() && name == "" && (format == 'J' || inline) {
			ft := f.Type()
			if _, ok := under(ft).(*types.Struct); ok {
				for _, sf := range jfields(ft, format) {
					sf.idx = append([]int{i}, sf.idx...)
					out = append(out, sf)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
			if format == 'B' {
				name = strings.ToLower(name)
			}
		}
		out = append(out, jfield{name, []int{i}, f.Type(), strings.Contains(opts, "omitempty")})
	}
	return out
}

func isRaw(t types.Type) bool { return typeName(t) == "encoding/json.RawMessage" }

// encode builds the tree for v of type t.
func (fr *frame) encode(format byte, t types.Type, v value, depth int) *jnode {
	p := fr.p
	if depth > 40 {
		p.abort(Limit, "encoding recursion")
	}
	if isRaw(t) {
		b := v.([]value)
		if b == nil {
			return &jnode{kind: jNull}
		}
		if n, ok := p.tokenOf(format, b); ok {
			return n
		}
		if n, ok := p.parseConcrete(b); ok {
			return n
		}
		p.unsupported("RawMessage with unknown content")
	}
	if n, ok := under(t).(*types.Interface); ok {
		_ = n
		i := v.(iface)
		if i.t == nil {
			return &jnode{kind: jNull}
		}
		return fr.encode(format, i.t, i.v, depth+1)
	}
	if typeName(t) == "go.mongodb.org/mongo-driver/bson/primitive.ObjectID" {
		return &jnode{kind: jBytes, v: append([]value(nil), []value(v.(array))...), oid: true}
	}
	if p.e.hasMethod(t, "MarshalJSON") || p.e.hasMethod(t, "MarshalText") || format == 'B' && (p.e.hasMethod(t, "MarshalBSON") || p.e.hasMethod(t, "MarshalBSONValue")) {
		p.unsupported("marshalling %s with its own marshaller", t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &jnode{kind: jBool, v: v}
		case u.Info()&types.IsString != 0:
			return &jnode{kind: jStr, v: v}
		}
		k, ok := intKind(t)
		if !ok {
			break
		}
		if k.float {
			return &jnode{kind: jFloat, v: v, w: k.w}
		}
		w := k.w
		if format == 'B' && k.w == 64 && k.signed && u.Kind() == types.Int {
			// int is stored as int32 when it fits
			x := p.T(v, 64)
			lo := p.tab.Extract(x, 0, 32)
			if p.branch(V(p.tab.Eq(p.tab.SExt(lo, 64), x))) {
				return &jnode{kind: jInt, v: V(lo), w: 32, signed: true}
			}
		}
		if format == 'B' && k.w < 32 {
			w = 32
			v = fr.convNum(ikind{32, true, false, true}, k, v)
		}
		return &jnode{kind: jInt, v: v, w: w, signed: k.signed}
	case *types.Pointer:
		if isNilPtr(v) {
			return &jnode{kind: jNull}
		}
		return fr.encode(format, u.Elem(), *(v.(*value)), depth+1)
	case *types.Slice:
		s := v.([]value)
		if s == nil {
			return &jnode{kind: jNull}
		}
		if k, ok := intKind(u.Elem()); ok && k.w == 8 && !k.signed {
			return &jnode{kind: jBytes, v: append([]value{}, s...)}
		}
		if format == 'B' && typeName(t) == "go.mongodb.org/mongo-driver/bson/primitive.D" {
			n := &jnode{kind: jObj}
			for _, e := range s {
				st := e.(structure)
				n.names = append(n.names, st[0])
				n.elems = append(n.elems, fr.encode(format, types.NewInterfaceType(nil, nil), st[1], depth+1))
			}
			return n
		}
		n := &jnode{kind: jArr}
		for _, e := range s {
			n.elems = append(n.elems, fr.encode(format, u.Elem(), e, depth+1))
		}
		return n
	case *types.Array:
		n := &jnode{kind: jArr}
		for _, e := range v.(array) {
			n.elems = append(n.elems, fr.encode(format, u.Elem(), e, depth+1))
		}
		return n
	case *types.Map:
		m := v.(*mapv)
		if m == nil {
			if format == 'B' && depth == 0 {
				return &jnode{kind: jObj}
			}
			return &jnode{kind: jNull}
		}
		n := &jnode{kind: jObj}
		for _, i := range m.liveIdx() {
			kv := m.keys[i]
			if k, ok := intKind(u.Key()); ok {
				c, ok := kv.(uint64)
				if !ok {
					// decimal text of a symbolic key
					kv = p.formatInt(widen(p, kv.(*term.Term), k))
				} else if k.signed {
					kv = fmt.Sprint(sx(c, k.w))
				} else {
					kv = fmt.Sprint(c)
				}
			}
			n.names = append(n.names, kv)
			n.elems = append(n.elems, fr.encode(format, u.Elem(), m.vals[i], depth+1))
		}
		return n
	case *types.Struct:
		n := &jnode{kind: jObj}
		for _, f := range jfields(t, format) {
			x := v
			for _, i := range f.idx {
				x = x.(structure)[i]
			}
			if f.omitempty && fr.isEmpty(f.t, x) {
				continue
			}
			n.names = append(n.names, f.name)
			n.elems = append(n.elems, fr.encode(format, f.t, x, depth+1))
		}
		return n
	case *types.Signature, *types.Chan:
		panic(&encodeErr{"unsupported type: " + typeName(t)})
	}
	p.unsupported("encoding of %s", t)
	return nil
}

type encodeErr struct{ msg string }

func widen(p *path, x *term.Term, k ikind) *term.Term {
	if k.signed {
		return p.tab.SExt(x, 64)
	}
	return p.tab.ZExt(x, 64)
}

func (fr *frame) isEmpty(t types.Type, v value) bool {
	switch x := v.(type) {
	case []value:
		return len(x) == 0
	case *mapv:
		return x == nil || x.n == 0
	case string, *symstr:
		return strLen(x) == 0
	case iface:
		return x.t == nil
	case *value:
		return x == nil
	case bool:
		return !x
	case uint64:
		return x == 0
	case *term.Term:
		if x.W == 0 {
			return !fr.p.branch(x)
		}
		return fr.p.branch(V(fr.p.tab.Eq(x, fr.p.tab.Const(x.W, 0))))
	}
	return false
}

// parseConcrete parses concrete JSON text into a tree.
func (p *path) parseConcrete(b []value) (*jnode, bool) {
	bs, ok := concreteBytes(b)
	if !ok {
		return nil, false
	}
	var x interface{}
	d := json.NewDecoder(strings.NewReader(string(bs)))
	d.UseNumber()
	if d.Decode(&x) != nil {
		return nil, false
	}
	return fromNative(x), true
}

func fromNative(x interface{}) *jnode {
	switch x := x.(type) {
	case nil:
		return &jnode{kind: jNull}
	case bool:
		return &jnode{kind: jBool, v: x}
	case string:
		return &jnode{kind: jStr, v: x}
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return &jnode{kind: jInt, v: uint64(i), w: 64, signed: true}
		}
		f, _ := x.Float64()
		return &jnode{kind: jFloat, v: math.Float64bits(f), w: 64}
	case []interface{}:
		n := &jnode{kind: jArr}
		for _, e := range x {
			n.elems = append(n.elems, fromNative(e))
		}
		return n
	case map[string]interface{}:
		n := &jnode{kind: jObj}
		for k, e := range x {
			n.names = append(n.names, k)
			n.elems = append(n.elems, fromNative(e))
		}
		return n
	}
	return &jnode{kind: jNull}
}

// decode stores tree n into *dst of type t; returns an error text or "".
func (fr *frame) decode(format byte, n *jnode, t types.Type, dst *value, depth int) string {
	p := fr.p
	if depth > 40 {
		p.abort(Limit, "decoding recursion")
	}
	if isRaw(t) {
		if n.kind == jNull {
			*dst = bytesVal([]byte("null"))
			return ""
		}
		*dst = p.mkToken(format, n)
		return ""
	}
	if typeName(t) == "go.mongodb.org/mongo-driver/bson/primitive.ObjectID" {
		if n.oid {
			*dst = array(append([]value(nil), n.v.([]value)...))
			return ""
		}
		return "cannot decode into an ObjectID"
	}
	mism := func(what string) string {
		return fmt.Sprintf("json: cannot unmarshal %s into Go value of type %s", what, typeName(t))
	}
	if ut, ok := under(t).(*types.Pointer); ok {
		if n.kind == jNull {
			*dst = (*value)(nil)
			return ""
		}
		if isNilPtr(*dst) {
			c := new(value)
			*c = zero(ut.Elem())
			*dst = c
		}
		return fr.decode(format, n, ut.Elem(), (*dst).(*value), depth+1)
	}
	if p.e.hasMethod(p.e.ptrTo(t), "UnmarshalJSON") || p.e.hasMethod(p.e.ptrTo(t), "UnmarshalText") {
		p.unsupported("unmarshalling %s with its own unmarshaller", t)
	}
	if it, ok := under(t).(*types.Interface); ok {
		if n.kind == jNull {
			*dst = iface{}
			return ""
		}
		if it.NumMethods() > 0 {
			return mism("object")
		}
		*dst = fr.natural(format, n)
		return ""
	}
	if n.kind == jNull {
		switch under(t).(type) {
		case *types.Slice, *types.Map:
			*dst = zero(t)
		default:
			if format == 'B' {
				storeInto(dst, zero(t))
			}
		}
		return ""
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.kind != jBool {
				return mism("value")
			}
			*dst = n.v
			return ""
		case u.Info()&types.IsString != 0:
			if n.kind != jStr {
				return mism("value")
			}
			*dst = n.v
			return ""
		}
		k, ok := intKind(t)
		if !ok {
			break
		}
		if k.float {
			if n.kind == jFloat && n.w == k.w {
				*dst = n.v
				return ""
			}
			if n.kind == jInt {
				*dst = fr.convNum(k, ikind{n.w, n.signed, false, true}, n.v)
				return ""
			}
			return mism("value")
		}
		if n.kind != jInt {
			return mism("value")
		}
		nk := ikind{n.w, n.signed, false, true}
		if nk.w == k.w && nk.signed == k.signed {
			*dst = n.v
			return ""
		}
		x := fr.convNum(k, nk, n.v)
		back := fr.convNum(nk, k, x)
		fits := V(p.tab.Eq(p.T(back, nk.w), p.T(n.v, nk.w)))
		if nk.signed != k.signed {
			// sign must survive as well
			var neg value
			if nk.signed {
				neg = V(p.tab.Slt(p.T(n.v, nk.w), p.tab.Const(nk.w, 0)))
			} else {
				neg = V(p.tab.Slt(p.T(x, k.w), p.tab.Const(k.w, 0)))
			}
			fits = p.and(fits, p.not(neg))
		}
		if !p.branch(fits) {
			return mism("number")
		}
		*dst = x
		return ""
	case *types.Slice:
		if k, ok := intKind(u.Elem()); ok && k.w == 8 && !k.signed {
			if n.kind != jBytes {
				return mism("value")
			}
			*dst = p.binary(n)
			return ""
		}
		if format == 'B' && typeName(t) == "go.mongodb.org/mongo-driver/bson/primitive.D" {
			p.unsupported("decoding into bson.D")
		}
		if n.kind != jArr {
			return mism("value")
		}
		out := make([]value, len(n.elems))
		for i, e := range n.elems {
			out[i] = zero(u.Elem())
			if s := fr.decode(format, e, u.Elem(), &out[i], depth+1); s != "" {
				return s
			}
		}
		*dst = out
		return ""
	case *types.Map:
		if n.kind != jObj {
			return mism("value")
		}
		m := (*dst).(*mapv)
		if m == nil {
			m = newMap(u.Key())
			*dst = m
		}
		for i, e := range n.elems {
			c := zero(u.Elem())
			// a bson document nested in bson.M becomes bson.M
			if s := fr.decode(format, e, u.Elem(), &c, depth+1); s != "" {
				return s
			}
			key := n.names[i]
			if k, ok := intKind(u.Key()); ok {
				r := fr.parseInt(key, 10, int64(k.w), "ParseInt").(tuple)
				if r[1].(iface).t != nil {
					return mism("number key")
				}
				key = fr.convNum(k, ikind{64, true, false, true}, r[0])
			}
			p.mapSet(m, key, c)
		}
		return ""
	case *types.Struct:
		if n.kind != jObj {
			return mism("value")
		}
		fs := jfields(t, format)
		for i, e := range n.elems {
			nm, ok := n.names[i].(string)
			if !ok {
				p.unsupported("symbolic field name")
			}
			for _, f := range fs {
				if f.name == nm || format == 'J' && strings.EqualFold(f.name, nm) {
					c := dst
					for _, j := range f.idx {
						c = &(*c).(structure)[j]
					}
					if s := fr.decode(format, e, f.t, c, depth+1); s != "" {
						return s
					}
					break
				}
			}
		}
		return ""
	case *types.Array:
		if n.kind != jArr {
			return mism("value")
		}
		a := (*dst).(array)
		for i := range a {
			a[i] = zero(u.Elem())
			if i < len(n.elems) {
				if s := fr.decode(format, n.elems[i], u.Elem(), &a[i], depth+1); s != "" {
					return s
				}
			}
		}
		return ""
	}
	p.unsupported("decoding into %s", t)
	return ""
}

// binary is the content of n: for BSON the part of the decoded buffer that holds it.
func (p *path) binary(n *jnode) []value {
	if p.bsrc != nil {
		if off, ok := p.btok.offs[n]; ok {
			return p.bsrc[off : off+len(n.v.([]value))]
		}
	}
	return append([]value{}, n.v.([]value)...)
}

// natural is the value stored into an empty interface.
func (fr *frame) natural(format byte, n *jnode) iface {
	p := fr.p
	switch n.kind {
	case jNull:
		return iface{}
	case jBool:
		return iface{types.Typ[types.Bool], n.v}
	case jStr:
		return iface{types.Typ[types.String], n.v}
	case jFloat:
		return iface{types.Typ[types.Float64], n.v}
	case jInt:
		if format == 'B' {
			if n.w == 32 {
				return iface{types.Typ[types.Int32], n.v}
			}
			return iface{types.Typ[types.Int64], n.v}
		}
		c, ok := n.v.(uint64)
		if !ok {
			p.unsupported("symbolic JSON number into interface{}")
		}
		return iface{types.Typ[types.Float64], math.Float64bits(float64(sx(c, n.w)))}
	case jBytes:
		if n.oid {
			t := p.e.lookupType("go.mongodb.org/mongo-driver/bson/primitive", "ObjectID")
			return iface{t, array(append([]value(nil), n.v.([]value)...))}
		}
		if format == 'B' {
			t := p.e.lookupType("go.mongodb.org/mongo-driver/bson/primitive", "Binary")
			return iface{t, structure{uint64(0), p.binary(n)}}
		}
		p.unsupported("base64 into interface{}")
	case jArr:
		var et types.Type = types.NewInterfaceType(nil, nil)
		var t types.Type = types.NewSlice(et)
		if format == 'B' {
			t = p.e.lookupType("go.mongodb.org/mongo-driver/bson/primitive", "A")
		}
		out := make([]value, len(n.elems))
		for i, e := range n.elems {
			out[i] = fr.natural(format, e)
		}
		return iface{t, out}
	case jObj:
		var t types.Type
		if format == 'B' {
			t = p.e.lookupType("go.mongodb.org/mongo-driver/bson/primitive", "M")
		} else {
			t = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
		}
		m := newMap(types.Typ[types.String])
		for i, e := range n.elems {
			p.mapSet(m, n.names[i], fr.natural(format, e))
		}
		return iface{t, m}
	}
	panic("natural")
}

func (fr *frame) marshal(format byte, v value) (r value) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(*encodeErr); ok {
				r = tup([]value(nil), fr.p.mkError(e.msg))
				return
			}
			panic(x)
		}
	}()
	i := v.(iface)
	if i.t == nil {
		if format == 'B' {
			return tup([]value(nil), fr.p.mkError("Marshal called on nil"))
		}
		return tup(bytesVal([]byte("null")), nilErr)
	}
	if format == 'B' {
		b := under(i.t)
		if pt, ok := b.(*types.Pointer); ok {
			b = under(pt.Elem())
		}
		switch b.(type) {
		case *types.Struct, *types.Map:
		case *types.Slice:
			if typeName(i.t) != "go.mongodb.org/mongo-driver/bson/primitive.D" {
				return tup([]value(nil), fr.p.mkError("WriteArray can only write an Array while positioned on an Element or Value"))
			}
		default:
			return tup([]value(nil), fr.p.mkError("can only write while positioned on an Element or Value but is positioned on a TopLevel"))
		}
	}
	n := fr.encode(format, i.t, i.v, 0)
	if n.kind == jNull && format == 'J' {
		return tup(bytesVal([]byte("null")), nilErr)
	}
	return tup(fr.p.mkToken(format, n), nilErr)
}

func (fr *frame) unmarshal(format byte, data value, target value) value {
	p := fr.p
	if b := data.([]value); format == 'B' {
		if _, ok := p.tokenOf(format, b); ok {
			p.bsrc, p.btok = b, p.tokens[int(b[2].(uint64))<<16|int(b[3].(uint64))<<8|int(b[4].(uint64))]
			defer func() { p.bsrc, p.btok = nil, nil }()
		}
	}
	i := target.(iface)
	pt, ok := under0(i.t).(*types.Pointer)
	if !ok || isNilPtr(i.v) {
		if format == 'B' {
			// maps may be decoded into directly
			if _, isMap := under0(i.t).(*types.Map); isMap {
				b := data.([]value)
				n, ok := p.tokenOf(format, b)
				if !ok {
					return p.badDoc(fr, format, b)
				}
				c := new(value)
				*c = i.v
				if i.v.(*mapv) == nil {
					return p.mkError("cannot decode into a nil map")
				}
				if s := fr.decode(format, n, i.t, c, 0); s != "" {
					return p.mkError(s)
				}
				return nilErr
			}
		}
		return p.mkError("Unmarshal: non-pointer target")
	}
	b := data.([]value)
	n, ok := p.tokenOf(format, b)
	if !ok && format == 'J' {
		n, ok = p.parseConcrete(b)
	}
	if !ok {
		return p.badDoc(fr, format, b)
	}
	if s := fr.decode(format, n, pt.Elem(), i.v.(*value), 0); s != "" {
		return p.mkError(s)
	}
	return nilErr
}

func under0(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (p *path) badDoc(fr *frame, format byte, b []value) value {
	if bs, ok := concreteBytes(b); ok {
		return p.mkError(fmt.Sprintf("invalid document text %q", bs))
	}
	if len(b) < 5 && format == 'B' {
		return p.mkError("EOF")
	}
	p.unsupported("unmarshalling symbolic bytes")
	return nil
}

func regJSON(reg func(string, intrinsic)) {
	reg("encoding/json.Marshal", func(fr *frame, a []value) value { return fr.marshal('J', a[0]) })
	reg("encoding/json.Unmarshal", func(fr *frame, a []value) value { return fr.unmarshal('J', a[0], a[1]) })
	reg("go.mongodb.org/mongo-driver/bson.Marshal", func(fr *frame, a []value) value { return fr.marshal('B', a[0]) })
	reg("go.mongodb.org/mongo-driver/bson.Unmarshal", func(fr *frame, a []value) value { return fr.unmarshal('B', a[0], a[1]) })
}

// ---- reflect

type rval struct {
	t    types.Type
	v    value
	cell *value // addressable storage
}

func (r *rval) get() value {
	if r.cell != nil {
		return *r.cell
	}
	return r.v
}

func (fr *frame) rtype(t types.Type) value {
	e := fr.p.e
	return iface{e.ptrTo(e.lookupType("reflect", "rtype")), &opaque{"rtype", t}}
}

func rv(fr *frame, v value) *rval {
	o, ok := v.(*opaque)
	if !ok || o.kind != "rvalue" {
		fr.p.unsupported("reflect.Value of %T", v)
	}
	return o.v.(*rval)
}

func mkrv(r *rval) value { return &opaque{"rvalue", r} }

func (fr *frame) opaqueCall(o *opaque, name string, args []value) value {
	if o.kind == "rtype" {
		t := o.v.(types.Type)
		switch name {
		case "Elem":
			switch u := under(t).(type) {
			case *types.Pointer:
				return fr.rtype(u.Elem())
			case *types.Slice:
				return fr.rtype(u.Elem())
			case *types.Array:
				return fr.rtype(u.Elem())
			case *types.Map:
				return fr.rtype(u.Elem())
			}
			panic(&targetPanic{v: fr.p.runtimeError("reflect: Elem of invalid type " + typeName(t)), tr: fr.where()})
		case "Kind":
			return rkind(t)
		case "String", "Name":
			return typeName(t)
		}
	}
	fr.p.unsupported("reflect method %s on %s", name, o.kind)
	return nil
}

func rkind(t types.Type) value {
	switch u := under(t).(type) {
	case *types.Pointer:
		return uint64(reflect.Ptr)
	case *types.Slice:
		return uint64(reflect.Slice)
	case *types.Struct:
		return uint64(reflect.Struct)
	case *types.Map:
		return uint64(reflect.Map)
	case *types.Interface:
		return uint64(reflect.Interface)
	case *types.Array:
		return uint64(reflect.Array)
	case *types.Signature:
		return uint64(reflect.Func)
	case *types.Chan:
		return uint64(reflect.Chan)
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return uint64(reflect.Bool)
		case types.String:
			return uint64(reflect.String)
		case types.Int:
			return uint64(reflect.Int)
		case types.Int64:
			return uint64(reflect.Int64)
		case types.Int32:
			return uint64(reflect.Int32)
		case types.Float64:
			return uint64(reflect.Float64)
		case types.Uint8:
			return uint64(reflect.Uint8)
		}
	}
	return uint64(0)
}

func regReflect(reg func(string, intrinsic)) {
	reg("reflect.TypeOf", func(fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return fr.rtype(i.t)
	})
	reg("reflect.ValueOf", func(fr *frame, a []value) value {
		i := a[0].(iface)
		return mkrv(&rval{t: i.t, v: i.v})
	})
	elem := func(fr *frame, r *rval) value {
		switch u := under(r.t).(type) {
		case *types.Pointer:
			c := r.get().(*value)
			if c == nil {
				panic(&targetPanic{v: fr.p.runtimeError("reflect: Elem of nil pointer"), tr: fr.where()})
			}
			return mkrv(&rval{t: u.Elem(), cell: c})
		case *types.Interface:
			i := r.get().(iface)
			return mkrv(&rval{t: i.t, v: i.v})
		}
		panic(&targetPanic{v: fr.p.runtimeError("reflect: call of reflect.Value.Elem on " + typeName(r.t)), tr: fr.where()})
	}
	reg("reflect.Indirect", func(fr *frame, a []value) value {
		r := rv(fr, a[0])
		if _, ok := under(r.t).(*types.Pointer); !ok {
			return a[0]
		}
		return elem(fr, r)
	})
	reg("(reflect.Value).Elem", func(fr *frame, a []value) value { return elem(fr, rv(fr, a[0])) })
	reg("reflect.New", func(fr *frame, a []value) value {
		t := a[0].(iface).v.(*opaque).v.(types.Type)
		c := new(value)
		*c = zero(t)
		return mkrv(&rval{t: fr.p.e.ptrTo(t), v: c})
	})
	reg("reflect.MakeSlice", func(fr *frame, a []value) value {
		t := a[0].(iface).v.(*opaque).v.(types.Type)
		s := make([]value, fr.i64(a[1]), fr.i64(a[2]))
		fill(s, under(t).(*types.Slice).Elem())
		return mkrv(&rval{t: t, v: s})
	})
	reg("reflect.Append", func(fr *frame, a []value) value {
		r := rv(fr, a[0])
		var xs []value
		for _, x := range a[1].([]value) {
			xs = append(xs, copyVal(rv(fr, x).get()))
		}
		return mkrv(&rval{t: r.t, v: fr.p.appendVals(r.get().([]value), xs, under(r.t).(*types.Slice).Elem())})
	})
	reg("reflect.Zero", func(fr *frame, a []value) value {
		t := a[0].(iface).v.(*opaque).v.(types.Type)
		return mkrv(&rval{t: t, v: zero(t)})
	})
	reg("(reflect.Value).Set", func(fr *frame, a []value) value {
		r := rv(fr, a[0])
		if r.cell == nil {
			panic(&targetPanic{v: fr.p.runtimeError("reflect: Set using unaddressable value"), tr: fr.where()})
		}
		storeInto(r.cell, copyVal(rv(fr, a[1]).get()))
		return nil
	})
	reg("(reflect.Value).SetLen", func(fr *frame, a []value) value {
		r := rv(fr, a[0])
		*r.cell = (*r.cell).([]value)[:fr.i64(a[1])]
		return nil
	})
	reg("(reflect.Value).Interface", func(fr *frame, a []value) value {
		r := rv(fr, a[0])
		if _, ok := under(r.t).(*types.Interface); ok {
			return r.get()
		}
		return iface{r.t, copyVal(r.get())}
	})
	reg("(reflect.Value).Len", func(fr *frame, a []value) value { return uint64(len(rv(fr, a[0]).get().([]value))) })
	reg("(reflect.Value).Kind", func(fr *frame, a []value) value { return rkind(rv(fr, a[0]).t) })
	reg("(reflect.Value).Type", func(fr *frame, a []value) value { return fr.rtype(rv(fr, a[0]).t) })
	reg("(reflect.Value).IsNil", func(fr *frame, a []value) value {
		switch x := rv(fr, a[0]).get().(type) {
		case *value:
			return x == nil
		case []value:
			return x == nil
		case *mapv:
			return x == nil
		case iface:
			return x.t == nil
		}
		return false
	})
	reg("(reflect.Value).Index", func(fr *frame, a []value) value {
		r := rv(fr, a[0])
		s := r.get().([]value)
		i := fr.i64(a[1])
		if i < 0 || i >= int64(len(s)) {
			fr.rtPanic("reflect: slice index out of range")
		}
		return mkrv(&rval{t: under(r.t).(*types.Slice).Elem(), cell: &s[i]})
	})
	reg("reflect.DeepEqual", func(fr *frame, a []value) value { return fr.deepEqual(a[0], a[1], 0) })
}

// deepEqual is reflect.DeepEqual as a term (structure resolved by forking where needed).
func (fr *frame) deepEqual(x, y value, d int) value {
	xi, yi := x.(iface), y.(iface)
	if xi.t == nil || yi.t == nil {
		return xi.t == nil && yi.t == nil
	}
	if !identical(xi.t, yi.t) {
		return false
	}
	return fr.deepEq(xi.t, xi.v, yi.v, d)
}

func (fr *frame) deepEq(t types.Type, x, y value, d int) value {
	p := fr.p
	if d > 30 {
		p.abort(Limit, "DeepEqual recursion")
	}
	switch u := under(t).(type) {
	case *types.Interface:
		return fr.deepEqual(x, y, d+1)
	case *types.Pointer:
		if isNilPtr(x) || isNilPtr(y) {
			return isNilPtr(x) && isNilPtr(y)
		}
		if x == y {
			return true
		}
		return fr.deepEq(u.Elem(), *(x.(*value)), *(y.(*value)), d+1)
	case *types.Slice:
		xs, ys := x.([]value), y.([]value)
		if (xs == nil) != (ys == nil) || len(xs) != len(ys) {
			return false
		}
		if k, ok := intKind(u.Elem()); ok && k.w == 8 {
			return p.bytesEq(xs, ys)
		}
		var acc value = true
		for i := range xs {
			acc = p.and(acc, fr.deepEq(u.Elem(), xs[i], ys[i], d+1))
			if acc == false {
				return false
			}
		}
		return acc
	case *types.Struct:
		var acc value = true
		xs, ys := x.(structure), y.(structure)
		for i := range xs {
			acc = p.and(acc, fr.deepEq(u.Field(i).Type(), xs[i], ys[i], d+1))
			if acc == false {
				return false
			}
		}
		return acc
	case *types.Map:
		xm, ym := x.(*mapv), y.(*mapv)
		if (xm == nil) != (ym == nil) {
			return false
		}
		if xm == nil {
			return true
		}
		if xm.n != ym.n {
			return false
		}
		var acc value = true
		for _, i := range xm.liveIdx() {
			j := p.mapFind(ym, xm.keys[i])
			if j < 0 {
				return false
			}
			acc = p.and(acc, fr.deepEq(u.Elem(), xm.vals[i], ym.vals[j], d+1))
			if acc == false {
				return false
			}
		}
		return acc
	case *types.Signature:
		return isNilFunc(x) && isNilFunc(y)
	}
	return p.equals(t, x, y)
}
