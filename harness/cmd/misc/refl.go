package main

import (
	"fmt"
	htmpl "html/template"
	"math"
	stdreflect "reflect"
	"strings"
	tmpl "text/template"
	stdunsafe "unsafe"

	"github.com/vipally/gx/factory"
	"github.com/vipally/gx/reflect"
	"vp/mon"
)

type (
	nInt   int
	nStr   string
	nF64   float64
	nBytes []byte
	nBool  bool
	rec    struct {
		A int
		B string
		c *rec
		D []interface{}
		E map[string]int
		F func()
		G interface{}
	}
	emb struct {
		rec
		X [3]nInt
	}
	empty struct{}
)

var baseTypes = []stdreflect.Type{}

// Types that print alike and are not the same.
func twin1() interface{} { type rec struct{ A int }; return rec{1} }
func twin2() interface{} { type rec struct{ A int }; return rec{1} }
func twin3() interface{} { type nInt int; return nInt(1) }
func twin4() interface{} { type nInt int8; return nInt(1) }

func init() {
	for _, v := range []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0),
		float32(0), float64(0), complex64(0), complex128(0), "", false, nInt(0), nStr(""), nF64(0), nBytes(nil), nBool(false), rec{}, emb{}, empty{}, twin1(), twin2(), twin3(), twin4(), (*tmpl.Template)(nil), (*htmpl.Template)(nil), tmpl.FuncMap(nil), htmpl.FuncMap(nil), (*rec)(nil), func(int) {}, make(chan int), stdunsafe.Pointer(nil)} {
		baseTypes = append(baseTypes, stdreflect.TypeOf(v))
	}
}

func genType(r *mon.Rand, depth int) stdreflect.Type {
	if depth <= 0 {
		return baseTypes[r.Intn(len(baseTypes))]
	}
	switch r.Intn(10) {
	case 8:
		var in, out []stdreflect.Type
		for i := r.Intn(3); i > 0; i-- {
			in = append(in, genType(r, 0))
		}
		for i := r.Intn(3); i > 0; i-- {
			out = append(out, genType(r, 0))
		}
		return stdreflect.FuncOf(in, out, false)
	case 0:
		return stdreflect.SliceOf(genType(r, depth-1))
	case 1:
		return stdreflect.ArrayOf(r.Intn(4), genType(r, depth-1))
	case 2:
		return stdreflect.PtrTo(genType(r, depth-1))
	case 3:
		k := baseTypes[r.Intn(17)]
		return stdreflect.MapOf(k, genType(r, depth-1))
	case 4:
		n := r.Intn(4)
		var fs []stdreflect.StructField
		for i := 0; i < n; i++ {
			fs = append(fs, stdreflect.StructField{Name: fmt.Sprintf("F%d", i), Type: genType(r, depth-1)})
		}
		return stdreflect.StructOf(fs)
	case 5:
		return stdreflect.ChanOf([]stdreflect.ChanDir{stdreflect.BothDir, stdreflect.RecvDir, stdreflect.SendDir}[r.Intn(3)], genType(r, depth-1))
	}
	return baseTypes[r.Intn(len(baseTypes))]
}

// fill gives v a value that is not zero where it can.
func fill(r *mon.Rand, v stdreflect.Value, depth int) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case stdreflect.Bool:
		v.SetBool(true)
	case stdreflect.Int, stdreflect.Int8, stdreflect.Int16, stdreflect.Int32, stdreflect.Int64:
		v.SetInt(int64(r.Range(1, 100)))
		if r.Intn(4) == 0 {
			v.SetInt([]int64{-1, math.MinInt64 >> (64 - v.Type().Bits()), math.MaxInt64 >> (64 - v.Type().Bits())}[r.Intn(3)])
		}
	case stdreflect.Uint, stdreflect.Uint8, stdreflect.Uint16, stdreflect.Uint32, stdreflect.Uint64, stdreflect.Uintptr:
		v.SetUint(uint64(r.Range(1, 100)))
		if r.Intn(4) == 0 {
			v.SetUint(math.MaxUint64 >> (64 - v.Type().Bits()))
		}
	case stdreflect.Float32, stdreflect.Float64:
		v.SetFloat(float64(r.Range(1, 100)))
		if r.Intn(2) == 0 {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1), -1, math.SmallestNonzeroFloat32, math.MaxFloat32}[r.Intn(6)])
		}
	case stdreflect.Complex64, stdreflect.Complex128:
		v.SetComplex(complex(1, 2))
	case stdreflect.String:
		v.SetString([]string{"x", "x", "\x00", "\xff\xfe", "世界", strings.Repeat("long ", 1000)}[r.Intn(6)])
	case stdreflect.Slice:
		v.Set(stdreflect.MakeSlice(v.Type(), 2, 3))
		if depth > 0 {
			fill(r, v.Index(0), depth-1)
		}
	case stdreflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), depth-1)
		}
	case stdreflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, v.Field(i), depth-1)
		}
	case stdreflect.Map:
		v.Set(stdreflect.MakeMap(v.Type()))
	case stdreflect.Chan:
		if v.Type().ChanDir() == stdreflect.BothDir {
			v.Set(stdreflect.MakeChan(v.Type(), 1))
		}
	case stdreflect.Ptr:
		v.Set(stdreflect.New(v.Type().Elem()))
	}
}

func genValue(r *mon.Rand) interface{} {
	t := genType(r, r.Intn(4))
	if r.Chance(1, 40) { // a big one
		t = stdreflect.ArrayOf(r.Range(100, 5000), baseTypes[r.Intn(21)])
	}
	v := stdreflect.New(t).Elem()
	if r.Intn(4) != 0 {
		fill(r, v, 3)
	}
	return v.Interface()
}

var plain = map[stdreflect.Type]bool{}

func init() {
	for _, v := range []interface{}{int(0), uint(0), int8(0), uint8(0), int16(0), uint16(0), int32(0), uint32(0), int64(0), uint64(0), "", float32(0), float64(0)} {
		plain[stdreflect.TypeOf(v)] = true
	}
}

func reflRun(c *mon.Case) {
	r := c.R
	for k := 0; k < 10; k++ {
		s := genValue(r)
		t := stdreflect.TypeOf(s)
		before := fmt.Sprintf("%#v", s)
		c.Logf("sample of type %v", t)
		n := reflect.New(s)
		nt := stdreflect.TypeOf(n)
		c.Assert(nt == stdreflect.PtrTo(t), "New of a %v gives a %v", t, nt)
		nv := stdreflect.ValueOf(n)
		c.Assert(!nv.IsNil() && nv.Elem().IsZero(), "New of a %v gives no zero value", t)
		m := reflect.New(s)
		if t.Size() > 0 {
			c.Assert(nv.Pointer() != stdreflect.ValueOf(m).Pointer(), "two calls of New of a %v give one object", t)
		}
		fill(r, nv.Elem(), 3)
		c.Assert(stdreflect.ValueOf(m).Elem().IsZero(), "a write to one New(%v) shows in another", t)
		c.Assert(fmt.Sprintf("%#v", s) == before, "a write to New(%v) shows in the sample", t)
		c.Assert(reflect.Kind(s) == t.Kind(), "Kind of a %v is %v", t, reflect.Kind(s))
		o := genValue(r)
		if r.Intn(3) == 0 { // another type that prints alike
			for _, b := range baseTypes {
				if b != t && b.String() == t.String() {
					o = stdreflect.New(b).Elem().Interface()
					c.Count("types that print alike", 1)
				}
			}
		}
		if r.Intn(3) == 0 {
			z := stdreflect.New(t).Elem()
			fill(r, z, 2)
			o = z.Interface()
		}
		c.Assert(reflect.IsSameType(s, o) == (stdreflect.TypeOf(o) == t), "IsSameType of a %v and a %T is %v", t, o, reflect.IsSameType(s, o))
		c.Assert(reflect.IsSameType(o, s) == reflect.IsSameType(s, o), "IsSameType of a %v and a %T is not symmetric", t, o)
		c.Assert(!reflect.IsSameType(s, nil) && !reflect.IsSameType(nil, s) && reflect.IsSameType(nil, nil), "IsSameType of a %v and nil", t)
		c.Assert(reflect.IsCmpableInnterType(s) == plain[t], "IsCmpableInnterType of a %v is %v", t, reflect.IsCmpableInnterType(s))
		c.Seen(mon.HashInit.Str(t.String()))
		c.Sample("%v", t)
	}
	c.Assert(!reflect.IsCmpableInnterType(nil), "IsCmpableInnterType(nil) is true")
	c.Eval(10 * 6)
}

//-----------------------------------------------------------------------------

type made struct {
	by  *maker
	seq int
	arg []interface{}
}
type maker struct {
	id, n int
	null  bool
	val   bool // added as a valMaker
	boom  interface{}
	inner func() // uses the factory from within
}

func (m *maker) Create(arg ...interface{}) interface{} {
	m.n++
	if m.inner != nil {
		m.inner()
	}
	if m.boom != nil {
		panic(m.boom)
	}
	if m.null {
		return nil
	}
	return &made{m, m.n, append([]interface{}(nil), arg...)}
}

type valMaker struct{ m *maker }

func (v valMaker) Create(arg ...interface{}) interface{} { return v.m.Create(arg...) }

type fac struct {
	name   string
	add    func(k int, c factory.Creater) error
	remove func(k int) error
	create func(k int, arg ...interface{}) interface{}
	model  map[int]*maker
}

func facRun(c *mon.Case) {
	r := c.R
	keyI := func(k int) int { return []int{k, -k, 1 << 40 * (k + 1), k * 7919}[k%4] }
	keyS := func(k int) string {
		if k == 0 {
			return ""
		}
		return []string{"t", "T", "typ\x00", "类型", " t", strings.Repeat("long/", 900)}[k%6] + fmt.Sprint(k/6)
	}
	fi, fi2, fs, fs2 := factory.NewFactoryI(), factory.NewFactoryI(), factory.NewFactoryS(), factory.NewFactoryS()
	pre := ""
	if r.Bool() {
		pre = fmt.Sprintf("case%d/%d/", c.Idx, r.U64())
	}
	facs := []*fac{
		{"FactoryI", func(k int, cr factory.Creater) error { return fi.AddCreater(keyI(k), cr) }, func(k int) error { return fi.RemoveCreater(keyI(k)) },
			func(k int, a ...interface{}) interface{} { return fi.Create(keyI(k), a...) }, map[int]*maker{}},
		{"another FactoryI", func(k int, cr factory.Creater) error { return fi2.AddCreater(keyI(k), cr) }, func(k int) error { return fi2.RemoveCreater(keyI(k)) },
			func(k int, a ...interface{}) interface{} { return fi2.Create(keyI(k), a...) }, map[int]*maker{}},
		{"FactoryS", func(k int, cr factory.Creater) error { return fs.AddCreater(keyS(k), cr) }, func(k int) error { return fs.RemoveCreater(keyS(k)) },
			func(k int, a ...interface{}) interface{} { return fs.Create(keyS(k), a...) }, map[int]*maker{}},
		{"another FactoryS", func(k int, cr factory.Creater) error { return fs2.AddCreater(keyS(k), cr) }, func(k int) error { return fs2.RemoveCreater(keyS(k)) },
			func(k int, a ...interface{}) interface{} { return fs2.Create(keyS(k), a...) }, map[int]*maker{}},
		{"the global factory", func(k int, cr factory.Creater) error { return factory.AddCreater(pre+keyS(k), cr) }, func(k int) error { return factory.RemoveCreater(pre + keyS(k)) },
			func(k int, a ...interface{}) interface{} { return factory.Create(pre+keyS(k), a...) }, map[int]*maker{}},
	}
	steps := r.Range(20, 150)
	nk := r.Range(1, 12)
	if r.Intn(30) == 0 {
		steps, nk = r.Range(500, 3000), r.Range(50, 500)
	}
	only := -1
	if r.Intn(4) == 0 { // all in one factory; the others stay empty
		only = r.Intn(len(facs))
	}
	g := facs[len(facs)-1]
	defer func() { // the global factory is left empty
		for k := range g.model {
			g.remove(k)
		}
	}()
	// sub creates one type and checks what comes; it is also what a creater
	// that needs another object does
	sub := func(f *fac, k int) {
		has := f.model[k]
		if has != nil && (has.inner != nil || has.boom != nil) {
			return
		}
		got := f.create(k, k)
		m, ok := got.(*made)
		if has == nil || has.null {
			c.Assert(got == nil, "%s: creating type #%d (known: %v) gives %v", f.name, k, has != nil, got)
		} else {
			c.Assert(ok && m.by == has && m.seq == has.n && len(m.arg) == 1 && m.arg[0] == k, "%s: creating type #%d did not give what its creater returned", f.name, k)
		}
	}
	for i := 0; i < steps; i++ {
		f := facs[r.Intn(len(facs))]
		if only >= 0 && r.Intn(10) > 0 {
			f = facs[only]
		}
		k := r.Intn(nk)
		has := f.model[k]
		switch op := r.Intn(10); {
		case op < 3:
			m := &maker{id: i, null: r.Intn(8) == 0}
			switch r.Intn(10) {
			case 0:
				m.boom = &made{seq: i}
			case 1:
				k2, f2 := r.Intn(nk), facs[r.Intn(len(facs))]
				if r.Bool() {
					f2 = f
				}
				m.inner = func() { sub(f2, k2); c.Count("creaters that use a factory", 1) }
			}
			var cr factory.Creater = m
			if m.val = r.Bool(); m.val {
				cr = valMaker{m}
			}
			if r.Intn(12) == 0 {
				cr = nil
			} else if has != nil && r.Intn(3) == 0 { // the one that is there
				cr = has
				if has.val {
					cr = valMaker{has}
				}
			}
			err := f.add(k, cr)
			c.Logf("%s add %d (known %v, nil %v): %v", f.name, k, has != nil, cr == nil, err)
			if cr == nil || has != nil {
				c.Assert(err != nil, "%s: adding %s for type #%d gives no error", f.name, map[bool]string{true: "a nil creater", false: "a second creater"}[cr == nil], k)
				c.Count("refused additions", 1)
			} else {
				c.Assert(err == nil, "%s: adding a creater for the free type #%d: %v", f.name, k, err)
				f.model[k] = m
				c.Count("additions", 1)
			}
		case op < 5:
			err := f.remove(k)
			c.Logf("%s remove %d (known %v): %v", f.name, k, has != nil, err)
			c.Assert((err == nil) == (has != nil), "%s: removing type #%d (known: %v) gives %v", f.name, k, has != nil, err)
			delete(f.model, k)
			c.Count("removals", 1)
		default:
			var args []interface{}
			n := r.Intn(5)
			if r.Chance(1, 6) {
				n = r.Size(600)
			}
			for j := 0; j < n; j++ {
				args = append(args, []interface{}{j, "s", nil, 2.5, f, &args, [2]int{j, 1}, []interface{}{j, nil}, []interface{}(nil), []int{j}, map[int]int{j: 1}}[r.Intn(11)])
			}
			before := 0
			if has != nil {
				before = has.n
			}
			var got, boom interface{}
			func() {
				if has != nil && has.boom != nil {
					defer func() { boom = recover() }()
				}
				got = f.create(k, args...)
			}()
			c.Logf("%s create %d with %d arguments (known %v)", f.name, k, len(args), has != nil)
			if has == nil {
				c.Assert(got == nil, "%s: creating the unknown type #%d gives %v", f.name, k, got)
				c.Count("unknown types", 1)
				break
			}
			c.Assert(has.n == before+1, "%s: creating type #%d called its creater %d times", f.name, k, has.n-before)
			if has.boom != nil {
				c.Assert(boom == has.boom, "%s: a creater panicked with %v, Create with %v", f.name, has.boom, boom)
				c.Count("panics passed on", 1)
				break
			}
			if has.null {
				c.Assert(got == nil, "%s: a creater returned nil, Create %v", f.name, got)
				break
			}
			m, ok := got.(*made)
			c.Assert(ok && m.by == has && m.seq == has.n, "%s: creating type #%d did not give what its creater returned", f.name, k)
			c.Assert(len(m.arg) == len(args), "%s: %d arguments arrived of %d", f.name, len(m.arg), len(args))
			for j := range args {
				c.Assert(stdreflect.DeepEqual(m.arg[j], args[j]), "%s: argument %d arrived as %v", f.name, j, m.arg[j])
			}
			c.Count("creations", 1)
		}
		h := mon.HashInit.Str(f.name)
		for q := 0; q < nk; q++ {
			if f.model[q] != nil {
				h = h.Add(uint64(q))
			}
		}
		c.Seen(h)
	}
	for _, f := range facs {
		for k := 0; k < nk; k++ {
			sub(f, k)
		}
	}
	c.Eval(steps + nk*len(facs))
	c.Sample("%d steps over %d types", steps, nk)
}

func init() {
	mon.Register(&mon.Prop{ID: "C28",
		Rule: "one evaluation = one decided claim about one sample; distinct = distinct sample types",
		Sections: []mon.Section{
			{Name: "types", Quick: 1500, Thorough: 30000, Run: reflRun},
		}})
	mon.Register(&mon.Prop{ID: "C29",
		Rule: "one evaluation = one step compared with the map model; distinct = distinct sets of registered types",
		Sections: []mon.Section{
			{Name: "model", Quick: 2000, Thorough: 40000, Run: facRun},
		}})
}
