package interp

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"gosym/term"
)

// verb is one formatting directive f[start:end].
type verb struct {
	start, end int
	flags      string
	c          byte
}

// parseFormat splits a format string into its directives, ok is false if it uses
// argument indexes or stars.
func parseFormat(f string) (vs []verb, ok bool) {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j == len(f) || f[j] == '*' || f[j] == '[' {
			return nil, false
		}
		if f[j] != '%' {
			vs = append(vs, verb{i, j + 1, f[i+1 : j], f[j]})
		}
		i = j
	}
	return vs, true
}

func textOf(v value) []value {
	switch v := v.(type) {
	case string:
		return litBytes(v)
	case *symstr:
		return v.b
	}
	return litBytes("<text>")
}

func litBytes(s string) (out []value) {
	for i := 0; i < len(s); i++ {
		out = append(out, uint64(s[i]))
	}
	return
}

// ownText is the text of a value that has an Error or String method.
func (fr *frame) ownText(i iface) ([]value, bool) {
	for _, m := range []string{"Error", "String"} {
		if fr.p.e.hasMethod(i.t, m) {
			if isNilPtr(i.v) {
				return litBytes("<nil>"), true
			}
			if r, ok := fr.callMethod(i, m); ok {
				switch r.(type) {
				case string, *symstr:
					return textOf(r), true
				}
			}
		}
	}
	return nil, false
}

// render gives the text %v (or %+v) prints for a value, symbolic parts included.
func (fr *frame) render(t types.Type, v value, plus bool, depth int) []value {
	if depth > 12 {
		return litBytes("...")
	}
	if i, ok := v.(iface); ok {
		if i.t == nil {
			return litBytes("<nil>")
		}
		return fr.render(i.t, i.v, plus, depth)
	}
	if b, ok := fr.ownText(iface{t, v}); ok {
		return b
	}
	list := func(et func(int) types.Type, vs []value, l, r string, name func(int) string) []value {
		o := litBytes(l)
		for k, x := range vs {
			if k > 0 {
				o = append(o, uint64(' '))
			}
			if name != nil {
				o = append(o, litBytes(name(k)+":")...)
			}
			o = append(o, fr.render(et(k), x, plus, depth+1)...)
		}
		return append(o, litBytes(r)...)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch x := v.(type) {
		case uint64:
			k, _ := intKind(t)
			switch {
			case k.float && k.w == 64:
				return litBytes(fmt.Sprint(math.Float64frombits(x)))
			case k.float:
				return litBytes(fmt.Sprint(math.Float32frombits(uint32(x))))
			case k.signed:
				return litBytes(strconv.FormatInt(sx(x, k.w), 10))
			}
			return litBytes(strconv.FormatUint(x, 10))
		case bool:
			return litBytes(strconv.FormatBool(x))
		case string, *symstr:
			return textOf(x)
		case *term.Term:
			if x.W == 0 {
				return litBytes(strconv.FormatBool(fr.p.branch(x)))
			}
			if k, ok := intKind(t); ok && !k.float && (k.signed || k.w < 64) {
				return textOf(fr.p.formatInt(widen(fr.p, x, k)))
			}
			return fr.render(t, fr.p.concretize(x, "formatted number"), plus, depth)
		}
	case *types.Slice:
		if s, ok := v.([]value); ok {
			return list(func(int) types.Type { return u.Elem() }, s, "[", "]", nil)
		}
	case *types.Array:
		if s, ok := v.(array); ok {
			return list(func(int) types.Type { return u.Elem() }, s, "[", "]", nil)
		}
	case *types.Struct:
		if s, ok := v.(structure); ok {
			var name func(int) string
			if plus {
				name = func(k int) string { return u.Field(k).Name() }
			}
			return list(func(k int) types.Type { return u.Field(k).Type() }, s, "{", "}", name)
		}
	case *types.Map:
		if m, ok := v.(*mapv); ok && m != nil {
			type kv struct{ k, v []value }
			var es []kv
			plain := true
			for n, k := range m.keys {
				if !m.live[n] {
					continue
				}
				if _, ok := concreteBytes2(fr.render(u.Key(), k, plus, depth+1)); !ok {
					plain = false
				}
				es = append(es, kv{fr.render(u.Key(), k, plus, depth+1), fr.render(u.Elem(), m.vals[n], plus, depth+1)})
			}
			if plain {
				sort.SliceStable(es, func(i, j int) bool {
					a, _ := concreteBytes2(es[i].k)
					b, _ := concreteBytes2(es[j].k)
					x, e1 := strconv.ParseFloat(string(a), 64)
					y, e2 := strconv.ParseFloat(string(b), 64)
					if e1 == nil && e2 == nil {
						return x < y
					}
					return string(a) < string(b)
				})
			}
			o := litBytes("map[")
			for k, e := range es {
				if k > 0 {
					o = append(o, uint64(' '))
				}
				o = append(append(append(o, e.k...), uint64(':')), e.v...)
			}
			return append(o, uint64(']'))
		}
		return litBytes("map[]")
	case *types.Pointer:
		if isNilPtr(v) {
			return litBytes("<nil>")
		}
		if c, ok := v.(*value); ok && depth == 0 {
			switch under(u.Elem()).(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return append(litBytes("&"), fr.render(u.Elem(), *c, plus, 1)...)
			}
		}
		return litBytes("0xc000010000")
	}
	return litBytes("<" + show(v, 0) + ">")
}

// sprintfData formats text that is used as data: symbolic strings are spliced in, the
// decimal text of a symbolic integer is a token or, unless the whole format is one plain
// verb or the harness allows it, the integer is resolved to constants.
func (fr *frame) sprintfData(format value, args value) value {
	f, ok := format.(string)
	if !ok {
		fr.p.unsupported("symbolic format string")
	}
	var o []interface{}
	syms := map[string][]value{}
	vs, _ := parseFormat(f)
	tokens := fr.p.e.Cfg.NumText || f == "%d" || f == "%v"
	verbs := []byte(f)
	for n, x := range args.([]value) {
		i, ok := x.(iface)
		if !ok || i.t == nil {
			o = append(o, fr.fmtArg(x))
			continue
		}
		var d verb
		if n < len(vs) {
			d = vs[n]
		}
		var b []value
		if d.c == 'T' {
			verbs[d.end-1] = 's'
			b = litBytes(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
		} else if own, ok := fr.ownText(i); ok && d.c != 'd' {
			if _, plain := concreteBytes2(own); plain {
				o = append(o, fr.fmtArg(x))
				continue
			}
			b = own
		} else {
			switch v := i.v.(type) {
			case *term.Term:
				k, isInt := intKind(i.t)
				if v.W == 0 {
					i.v = fr.p.branch(v)
				} else if isInt && !k.float && (k.signed || k.w < 64) && tokens && d.flags == "" && (d.c == 'd' || d.c == 'v') {
					b = textOf(fr.p.formatInt(widen(fr.p, v, k)))
					verbs[d.end-1] = 's'
				} else {
					i.v = fr.p.concretize(v, "formatted number")
				}
				x = i
			case *symstr:
				b = v.b
			case uint64, bool, string:
			default:
				bytesArg := false
				if s, isS := under(i.t).(*types.Slice); isS {
					if k, ok := intKind(s.Elem()); ok && k.w == 8 {
						bytesArg = true
					}
				}
				switch {
				case bytesArg:
					if s, ok := v.([]value); ok {
						if _, ok := concreteBytes2(s); !ok {
							b = s
						}
					}
				case d.c == 'v' || d.c == 's' || d.c == 'd':
					b = fr.render(i.t, i.v, strings.Contains(d.flags, "+"), 0)
				}
			}
		}
		if b != nil {
			ph := fmt.Sprintf("<symbolic#%d>", n)
			syms[ph] = b
			o = append(o, symText(ph))
			continue
		}
		o = append(o, fr.fmtArg(x))
	}
	return splice(fmt.Sprintf(string(verbs), o...), syms)
}

func splice(r string, syms map[string][]value) value {
	if len(syms) == 0 {
		return r
	}
	var out []value
	for len(r) > 0 {
		hit := false
		if r[0] == '<' {
			for ph, b := range syms {
				if strings.HasPrefix(r, ph) {
					out = append(out, b...)
					r = r[len(ph):]
					hit = true
					break
				}
			}
		}
		if !hit {
			out = append(out, uint64(r[0]))
			r = r[1:]
		}
	}
	return mkStr(out)
}

// sprintData is fmt.Sprint (or fmt.Sprintln) of its operands.
func (fr *frame) sprintData(args value, line bool) value {
	var out []value
	prevStr := true
	for n, x := range args.([]value) {
		i, _ := x.(iface)
		isStr := false
		if i.t != nil {
			b, ok := i.t.Underlying().(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
		}
		if n > 0 && (line || !isStr && !prevStr) {
			out = append(out, uint64(' '))
		}
		prevStr = isStr
		if i.t == nil {
			out = append(out, litBytes("<nil>")...)
		} else {
			out = append(out, fr.render(i.t, i.v, false, 0)...)
		}
	}
	if line {
		out = append(out, uint64('\n'))
	}
	return mkStr(out)
}

// fprint hands text to a writer, except to the files of the process.
func (fr *frame) fprint(w value, text func() value) value {
	i, ok := w.(iface)
	if !ok || i.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	if s := typeName(i.t); strings.HasPrefix(s, "*os.") || strings.HasPrefix(s, "io.") || strings.HasPrefix(s, "*log.") {
		return tup(uint64(0), nilErr)
	}
	r, ok := fr.callMethod(i, "Write", append([]value(nil), strBytes(text())...))
	if !ok {
		fr.p.unsupported("printing to a %s", typeName(i.t))
	}
	return r
}
