package main

// Model of encoding/json.Marshal over executor values (struct tags, embedding, omitempty, sorted maps).

import (
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

func (m *M) fromFloat64(v V, ti *TI) float64 {
	if ti.w == 32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}
	return math.Float64frombits(v.n)
}

type jsonErr struct{ msg string }

func (m *M) jsonMarshal(x V) (ret V) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				ret = tuple(V{}, m.errorV(e.msg))
				return
			}
			panic(r)
		}
	}()
	var out *Str
	if x.o == nil {
		out = &Str{s: "null"}
	} else {
		i := x.o.(*Iface)
		var bs []V
		m.jsonVal(&bs, i.v, i.ti, 0)
		o := m.newObj(len(bs))
		copy(o.s, bs)
		return tuple(V{o: &Slice{obj: o, len: len(bs), cap: len(bs)}}, V{})
	}
	o := m.newObj(len(out.s))
	for j := range o.s {
		o.s[j] = out.at(j)
	}
	return tuple(V{o: &Slice{obj: o, len: len(out.s), cap: len(out.s)}}, V{})
}

func js(bs *[]V, s string) {
	for i := 0; i < len(s); i++ {
		*bs = append(*bs, V{n: uint64(s[i])})
	}
}

func (m *M) jsonStr(bs *[]V, s *Str) {
	const hex = "0123456789abcdef"
	js(bs, `"`)
	for i := 0; i < len(s.s); {
		b := s.at(i)
		ascii := b.n < 0x80
		if b.o != nil {
			ascii = m.decideTerm(m.ts.Bin(OpUlt, b.o.(*Term), m.ts.Const(8, 0x80)))
		}
		if ascii {
			if b.o != nil {
				t := b.o.(*Term)
				ts := m.ts
				eq := func(c byte) *Term { return ts.Bin(OpEq, t, ts.Const(8, uint64(c))) }
				special := ts.Bin(OpUlt, t, ts.Const(8, 0x20))
				for _, c := range []byte{'\\', '"', '<', '>', '&', 0x7f} {
					special = ts.BOr(special, eq(c))
				}
				if !m.decideTerm(special) {
					*bs = append(*bs, b)
					i++
					continue
				}
				b = V{n: m.concretize(t)}
			}
			c := byte(b.n)
			switch {
			case c == '\\' || c == '"':
				js(bs, "\\"+string(c))
			case c == '\b':
				js(bs, `\b`)
			case c == '\f':
				js(bs, `\f`)
			case c == '\n':
				js(bs, `\n`)
			case c == '\r':
				js(bs, `\r`)
			case c == '\t':
				js(bs, `\t`)
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				js(bs, `\u00`+string(hex[c>>4])+string(hex[c&0xF]))
			default:
				*bs = append(*bs, V{n: uint64(c)})
			}
			i++
			continue
		}
		r, n := m.decodeRune(s, i)
		if r.o == nil && n == 1 {
			js(bs, `\ufffd`)
			i++
			continue
		}
		if r.o == nil && (r.n == 0x2028 || r.n == 0x2029) {
			js(bs, `\u202`+string(hex[r.n&0xF]))
			i += n
			continue
		}
		for j := 0; j < n; j++ {
			*bs = append(*bs, s.at(i+j))
		}
		i += n
	}
	js(bs, `"`)
}

func jsonFloat(f float64, bits int) string {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		panic(jsonErr{"json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, bits)})
	}
	abs := math.Abs(f)
	fm := byte('f')
	if abs != 0 {
		if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			fm = 'e'
		}
	}
	b := strconv.FormatFloat(f, fm, -1, bits)
	if fm == 'e' {
		if n := len(b); n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b = b[:n-2] + b[n-1:]
		}
	}
	return b
}

func (m *M) jsonVal(bs *[]V, v V, ti *TI, depth int) {
	if depth > 20000 {
		panic(jsonErr{"json: unsupported value: encountered a cycle"})
	}
	if ti.name == "time.Time" {
		t, _ := goTime(v)
		b, err := t.MarshalJSON()
		if err != nil {
			panic(jsonErr{"json: error calling MarshalJSON for type time.Time: " + err.Error()})
		}
		js(bs, string(b))
		return
	}
	if ti.kind != kIface {
		for _, name := range []string{"MarshalJSON", "MarshalText"} {
			if ti.kind == kPtr && v.o == nil {
				continue
			}
			buildMu.Lock()
			sel := m.w.e.prog.MethodSets.MethodSet(ti.t).Lookup(nil, name)
			buildMu.Unlock()
			if sel == nil {
				continue
			}
			r := m.invoke(V{o: &Iface{ti, v}}, sel.Obj().(*types.Func), nil).o.(*Agg).f
			if r[1].o != nil {
				panic(jsonErr{"json: error calling " + name})
			}
			if name == "MarshalText" {
				m.jsonStr(bs, m.bstr(r[0]))
			} else {
				*bs = append(*bs, m.bytesOf(r[0])...)
			}
			return
		}
	}
	switch ti.kind {
	case kBool:
		if m.branch(v) {
			js(bs, "true")
		} else {
			js(bs, "false")
		}
	case kInt:
		v = m.concV(v)
		if ti.sgn {
			js(bs, strconv.FormatInt(sx(v.n, ti.w), 10))
		} else {
			js(bs, strconv.FormatUint(v.n, 10))
		}
	case kFloat:
		js(bs, jsonFloat(m.fromFloat64(v, ti), int(ti.w)))
	case kString:
		m.jsonStr(bs, m.str(v))
	case kIface:
		if v.o == nil {
			js(bs, "null")
			return
		}
		i := v.o.(*Iface)
		m.jsonVal(bs, i.v, i.ti, depth+1)
	case kPtr:
		if v.o == nil {
			js(bs, "null")
			return
		}
		m.jsonVal(bs, m.load(v, ti.el()), ti.el(), depth+1)
	case kSlice:
		if v.o == nil {
			js(bs, "null")
			return
		}
		e := ti.el()
		if e.kind == kInt && e.w == 8 && !e.sgn {
			m.unsupported("json of []byte")
		}
		s := v.o.(*Slice)
		js(bs, "[")
		for i := 0; i < s.len; i++ {
			if i > 0 {
				js(bs, ",")
			}
			m.jsonVal(bs, m.load(V{n: uint64(s.off + i*e.slots), o: s.obj}, e), e, depth+1)
		}
		js(bs, "]")
	case kArray:
		js(bs, "[")
		for i := 0; i < ti.alen; i++ {
			if i > 0 {
				js(bs, ",")
			}
			m.jsonVal(bs, subV(v.o.(*Agg).f, i*ti.elem.slots, ti.elem), ti.elem, depth+1)
		}
		js(bs, "]")
	case kMap:
		if v.o == nil {
			js(bs, "null")
			return
		}
		mp := v.o.(*Map)
		if ti.keyT().kind != kString {
			m.unsupported("json map key %s", ti.keyT().name)
		}
		var ord []int
		for i := range mp.keys {
			if !mp.dead[i] {
				ord = append(ord, i)
			}
		}
		for i := 1; i < len(ord); i++ {
			for j := i; j > 0 && m.strCmp(m.str(mp.keys[ord[j]]), m.str(mp.keys[ord[j-1]])) < 0; j-- {
				ord[j], ord[j-1] = ord[j-1], ord[j]
			}
		}
		js(bs, "{")
		for n, i := range ord {
			if n > 0 {
				js(bs, ",")
			}
			m.jsonStr(bs, m.str(mp.keys[i]))
			js(bs, ":")
			m.jsonVal(bs, mp.vals[i], ti.el(), depth+1)
		}
		js(bs, "}")
	case kStruct:
		js(bs, "{")
		first := true
		var f []V
		if ti.slots > 0 {
			f = v.o.(*Agg).f
		}
		for _, fd := range m.jsonFields(ti) {
			x, xt, ok := m.jsonWalk(f, ti, fd.path)
			if !ok {
				continue
			}
			if fd.omit && m.jsonEmpty(x, xt) {
				continue
			}
			if !first {
				js(bs, ",")
			}
			first = false
			m.jsonStr(bs, &Str{s: fd.name})
			js(bs, ":")
			m.jsonVal(bs, x, xt, depth+1)
		}
		js(bs, "}")
	default:
		panic(jsonErr{"json: unsupported type: " + ti.name})
	}
}

func subV(f []V, o int, ti *TI) V {
	if ti.agg() {
		return V{o: &Agg{f[o : o+ti.slots]}}
	}
	return f[o]
}

func (m *M) jsonWalk(f []V, ti *TI, path []int) (V, *TI, bool) {
	var x V
	cur := ti
	for i, p := range path {
		ft := cur.fldT[p]
		x = subV(f, cur.fldO[p], ft)
		cur = ft
		if i == len(path)-1 {
			break
		}
		if cur.kind == kPtr {
			if x.o == nil {
				return V{}, nil, false
			}
			x = m.load(x, cur.el())
			cur = cur.el()
		}
		f = nil
		if cur.slots > 0 {
			f = x.o.(*Agg).f
		}
	}
	return x, cur, true
}

func (m *M) jsonEmpty(v V, ti *TI) bool {
	switch ti.kind {
	case kBool:
		return !m.branch(v)
	case kInt:
		return m.concV(v).n == 0
	case kFloat:
		return m.fromFloat64(v, ti) == 0
	case kString:
		return len(m.str(v).s) == 0
	case kIface, kPtr:
		return v.o == nil
	case kSlice:
		return v.o == nil || v.o.(*Slice).len == 0
	case kMap:
		return v.o == nil || v.o.(*Map).live == 0
	case kArray:
		return ti.alen == 0
	}
	return false
}

type jsonField struct {
	name   string
	path   []int
	omit   bool
	tagged bool
}

// jsonFields lists the exported fields with embedding resolved like encoding/json.
func (m *M) jsonFields(ti *TI) []jsonField {
	if r, ok := m.w.jfields[ti.id]; ok {
		return r
	}
	var all []jsonField
	var walk func(t *TI, path []int, seen map[int]bool)
	walk = func(t *TI, path []int, seen map[int]bool) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		st := t.u.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			p := append(append([]int(nil), path...), i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			ft := t.fldT[i]
			if fd.Embedded() {
				et := ft
				if et.kind == kPtr {
					et = et.el()
				}
				if !fd.Exported() && et.kind != kStruct {
					continue
				}
				if name == "" && et.kind == kStruct {
					walk(et, p, seen)
					continue
				}
			} else if !fd.Exported() {
				continue
			}
			if name == "" {
				name = fd.Name()
				all = append(all, jsonField{name, p, strings.Contains(opts, "omitempty"), false})
			} else {
				all = append(all, jsonField{name, p, strings.Contains(opts, "omitempty"), true})
			}
		}
		delete(seen, t.id)
	}
	walk(ti, nil, map[int]bool{})
	byName := map[string][]jsonField{}
	for _, f := range all {
		byName[f.name] = append(byName[f.name], f)
	}
	var out []jsonField
	for _, fs := range byName {
		sort.SliceStable(fs, func(i, j int) bool {
			if len(fs[i].path) != len(fs[j].path) {
				return len(fs[i].path) < len(fs[j].path)
			}
			return fs[i].tagged && !fs[j].tagged
		})
		if len(fs) > 1 && len(fs[0].path) == len(fs[1].path) && fs[0].tagged == fs[1].tagged {
			continue
		}
		out = append(out, fs[0])
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].path, out[j].path
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	m.w.jfields[ti.id] = out
	return out
}

var _ = time.Now
