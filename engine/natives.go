package main

// Concrete fast paths: pure library functions called natively when every argument is concrete.
// With symbolic arguments the library's own source is executed symbolically instead.

import (
	"bytes"
	"errors"
	"fmt"
	"go/types"
	"html"
	"math"
	"math/bits"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var _ = bytes.Equal
var _ = errors.New
var _ = sort.Strings
var _ = time.Now

type native struct {
	fn   reflect.Value
	in   []*TI
	out  []*TI
	ok   bool
	prep bool
	f32  bool
}

var natives = map[string]*native{}

var natMu sync.Mutex

func regNat(name string, f any) { natives[name] = &native{fn: reflect.ValueOf(f)} }

func init() {
	for n, f := range map[string]any{
		"strings.Count": strings.Count, "strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex,
		"strings.IndexByte": strings.IndexByte, "strings.LastIndexByte": strings.LastIndexByte,
		"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
		"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Repeat": strings.Repeat,
		"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.TrimSpace": strings.TrimSpace,
		"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
		"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Fields": strings.Fields,
		"strings.EqualFold": strings.EqualFold, "strings.ContainsRune": strings.ContainsRune, "strings.IndexRune": strings.IndexRune,
		"strings.IndexAny": strings.IndexAny, "strings.ContainsAny": strings.ContainsAny, "strings.Join": strings.Join,
		"strings.Compare": strings.Compare,
		"strconv.Itoa":    strconv.Itoa, "strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatInt": strconv.FormatInt,
		"strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool,
		"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower,
		"unicode.ToUpper": unicode.ToUpper, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl,
		"utf8.RuneLen": utf8.RuneLen, "unicode/utf8.RuneLen": utf8.RuneLen,
		"unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
		"unicode/utf8.ValidRune": utf8.ValidRune,
		"math.Abs":               math.Abs, "math.Floor": math.Floor, "math.Trunc": math.Trunc, "math.Ceil": math.Ceil,
		"math.Pow": math.Pow, "math.Mod": math.Mod, "math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits,
		"math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Inf": math.Inf, "math.Round": math.Round,
		"math/bits.Len": bits.Len, "math/bits.Len64": bits.Len64, "math/bits.TrailingZeros64": bits.TrailingZeros64,
		"math/bits.TrailingZeros": bits.TrailingZeros, "math/bits.LeadingZeros64": bits.LeadingZeros64,
		"math/bits.Mul64": bits.Mul64, "math/bits.Add64": bits.Add64,
		"html.EscapeString": html.EscapeString, "path.Base": path.Base,
		"strconv.ParseFloat": strconv.ParseFloat, "strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt,
	} {
		regNat(n, f)
	}
}

func (n *native) prepare(f *ssa.Function) {
	natMu.Lock()
	defer natMu.Unlock()
	if n.prep {
		return
	}
	n.prep = true
	sig := f.Signature
	t := n.fn.Type()
	if t.NumIn() != sig.Params().Len() || t.NumOut() != sig.Results().Len() {
		return
	}
	for i := 0; i < sig.Params().Len(); i++ {
		n.in = append(n.in, tiOf(sig.Params().At(i).Type()))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		n.out = append(n.out, tiOf(sig.Results().At(i).Type()))
	}
	n.ok = true
}

func (m *M) toGo(v V, ti *TI, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.o != nil {
			return r, false
		}
		r.SetInt(sx(v.n, ti.w))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.o != nil {
			return r, false
		}
		r.SetUint(v.n)
	case reflect.Bool:
		if v.o != nil {
			return r, false
		}
		r.SetBool(v.n != 0)
	case reflect.Float64:
		r.SetFloat(math.Float64frombits(v.n))
	case reflect.Float32:
		r.SetFloat(float64(math.Float32frombits(uint32(v.n))))
	case reflect.String:
		s := m.str(v)
		if s.sym() {
			return r, false
		}
		r.SetString(s.s)
	case reflect.Slice:
		if v.o == nil {
			return r, true
		}
		s := v.o.(*Slice)
		et := ti.el()
		if et.agg() {
			return r, false
		}
		out := reflect.MakeSlice(t, s.len, s.len)
		for i := 0; i < s.len; i++ {
			e, ok := m.toGo(s.obj.s[s.off+i], et, t.Elem())
			if !ok {
				return r, false
			}
			out.Index(i).Set(e)
		}
		r.Set(out)
	default:
		return r, false
	}
	return r, true
}

func (m *M) fromGo(v reflect.Value, ti *TI) V {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return V{n: uint64(v.Int()) & mask(ti.w)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return V{n: v.Uint()}
	case reflect.Bool:
		return mkBool(v.Bool())
	case reflect.Float64:
		return V{n: math.Float64bits(v.Float())}
	case reflect.Float32:
		return V{n: uint64(math.Float32bits(float32(v.Float())))}
	case reflect.String:
		return mkStr(v.String())
	case reflect.Slice:
		if v.IsNil() {
			return V{}
		}
		o := m.newObj(v.Len())
		for i := range o.s {
			o.s[i] = m.fromGo(v.Index(i), ti.el())
		}
		return V{o: &Slice{obj: o, len: v.Len(), cap: v.Len()}}
	}
	panic(fmt.Sprintf("fromGo %s", v.Type()))
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func (n *native) tryCall(m *M, args []V) (V, bool) {
	if !n.ok {
		return V{}, false
	}
	t := n.fn.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		g, ok := m.toGo(a, n.in[i], t.In(i))
		if !ok {
			return V{}, false
		}
		in[i] = g
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				out = nil
			}
		}()
		if t.IsVariadic() {
			out = n.fn.CallSlice(in)
		} else {
			out = n.fn.Call(in)
		}
	}()
	if out == nil {
		return V{}, false // panicked natively: let the source be interpreted to get the same panic
	}
	res := make([]V, len(out))
	for i, o := range out {
		if o.Type() == errType {
			if !o.IsNil() {
				return V{}, false // interpret, to get an error value of the right type
			}
			continue
		}
		res[i] = m.fromGo(o, n.out[i])
	}
	if len(res) == 1 {
		return res[0], true
	}
	return V{o: &Agg{res}}, true
}

func sizeofTI(ti *TI) int64 {
	return stdSizes.Sizeof(ti.t)
}

var stdSizes = types.SizesFor("gc", "amd64")
