package main

import (
	stderrors "errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/vipally/gx/errors"
	"vp/mon"
)

// known is every registration this process made: number -> name.
var (
	known   = map[uint32]string{}
	knownMu sync.Mutex
	full    bool
	uniq    int64
	// first is the first number this process was given: other packages have
	// taken those before it when they were initialised
	first = uint32(1 << 31)
)

const maxErrId = 9999

// handle is one registered error as a client holds it; the id type is not
// exported, so it is reached through these functions.
type handle struct {
	num  uint32
	name string
	get  func() (string, error)
	str  func() string
	nu   func() errors.WithIdErr
	nuf  func(f string, a ...interface{}) errors.WithIdErr
}

// reg registers name and checks the answer; nil when the ids are used up.
func reg(c *mon.Case, name string) *handle {
	id, err := errors.Reg(name)
	if err != nil {
		c.Assert(!(uint32(id) >= 1001 && uint32(id) <= maxErrId), "Reg failed (%v) and gave the valid number %d", err, id)
		_, e := id.Get()
		c.Assert(e != nil, "Reg failed (%v) and gave an id that names an error", err)
		return nil
	}
	n := uint32(id)
	c.Assert(n >= 1001 && n <= maxErrId, "Reg(%q) gives %d, outside [1001,%d]", name, n, maxErrId)
	knownMu.Lock()
	old, dup := known[n]
	known[n] = name
	if n < first {
		first = n
	}
	knownMu.Unlock()
	c.Assert(!dup, "Reg(%q) gives number %d, which names %q already", name, n, old)
	c.Assert(n != uint32(errors.ERRID_UNKNOWN) && n != uint32(errors.ERRID_STD), "Reg(%q) gives the predefined number %d", name, n)
	c.Count("registrations", 1)
	return &handle{n, name, id.Get, id.String, func() errors.WithIdErr { return errors.New(id) },
		func(f string, a ...interface{}) errors.WithIdErr { return errors.Newf(id, f, a...) }}
}

var names = []string{"", "plain", "with %d verb", "100%", "%!s(MISSING)", "multi\nline", "日本語", "a (b): c", "\x00\xff"}

func newName(r *mon.Rand) string {
	if r.Chance(1, 5) { // as it is: nothing says that names differ
		return append(names, " ", "  two words ", "\ttab\n", "unknown error", strings.Repeat("long ", 300))[r.Intn(len(names)+5)]
	}
	return names[r.Intn(len(names))] + fmt.Sprintf("/%d", atomic.AddInt64(&uniq, 1))
}

func (h *handle) check(c *mon.Case, r *mon.Rand) {
	n, err := h.get()
	c.Assert(err == nil && n == h.name, "id %d gives %q, %v; it was registered as %q", h.num, n, err, h.name)
	s := h.str()
	c.Assert(strings.Contains(s, h.name) && strings.Contains(s, fmt.Sprint(h.num)), "the text %q of id %d lacks its number or name %q", s, h.num, h.name)
	e := h.nu()
	c.Assert(uint32(e.Id()) == h.num, "New(%d).Id() is %d", h.num, e.Id())
	c.Assert(e.Error() == s, "New(%d).Error() is %q, the id's text %q", h.num, e.Error(), s)
	var std error = e
	c.Assert(std != nil && fmt.Sprint(std) == s, "New(%d) prints as %q", h.num, fmt.Sprint(std))
	arg := names[r.Intn(len(names))]
	f := []string{"%s", "x %s y", "%v|%%", "<%s>", "100%% %s"}[r.Intn(5)]
	want := fmt.Sprintf(f, arg)
	e = h.nuf(f, arg)
	c.Assert(uint32(e.Id()) == h.num, "Newf(%d).Id() is %d", h.num, e.Id())
	t := e.Error()
	c.Assert(strings.HasPrefix(t, s) && strings.HasSuffix(t, want), "Newf(%d, %q, %q).Error() is %q: it lacks the id's text %q or the message %q", h.num, f, arg, t, s, want)
	c.Assert(e.Error() == t, "Newf(%d): two calls of Error differ", h.num)
	f = []string{"", "plain", "100%%", "%%s", "a\nb", "%% %%"}[r.Intn(6)] // no arguments
	t = h.nuf(f).Error()
	c.Assert(strings.HasPrefix(t, s) && strings.HasSuffix(t, fmt.Sprintf(f)), "Newf(%d, %q).Error() is %q", h.num, f, t)
	t = h.nuf("%d %s %v", 3, arg, nil).Error()
	c.Assert(strings.HasPrefix(t, s) && strings.HasSuffix(t, "3 "+arg+" <nil>"), "Newf(%d) with three arguments prints as %q", h.num, t)
	w := errors.StdErr(e)
	c.Assert(w.Id() == errors.ERRID_STD && strings.HasPrefix(w.Error(), errors.ERRID_STD.String()) && strings.HasSuffix(w.Error(), e.Error()), "StdErr(%q) has id %d and prints as %q", e, w.Id(), w)
	c.Eval(4)
	c.Seen(mon.HashInit.Add(uint64(h.num)).Str(f).Str(arg))
}

func errsSeq(c *mon.Case) {
	r := c.R
	var hs []*handle
	for i, n := 0, r.Range(1, 8); i < n && !full; i++ {
		h := reg(c, newName(r))
		c.Assert(h != nil, "Reg failed although only %d numbers are taken", len(known))
		c.Logf("registered %q as %d", h.name, h.num)
		hs = append(hs, h)
	}
	for i := 1; i < len(hs); i++ {
		c.Assert(hs[i].num == hs[i-1].num+1, "two registrations in a row got %d and %d", hs[i-1].num, hs[i].num)
	}
	for _, h := range hs {
		h.check(c, r)
	}
	stdErrs(c, r)
	if len(hs) > 0 {
		c.Sample("%d names from %d (%q)", len(hs), hs[0].num, hs[0].name)
	}
}

func stdErrs(c *mon.Case, r *mon.Rand) {
	m := names[r.Intn(len(names))]
	e := errors.StdErr(stderrors.New(m))
	c.Assert(e.Id() == errors.ERRID_STD, "StdErr has id %d, not %d", e.Id(), errors.ERRID_STD)
	s := e.Error()
	c.Assert(strings.HasPrefix(s, errors.ERRID_STD.String()) && strings.HasSuffix(s, m), "StdErr(%q) prints as %q", m, s)
	n, err := errors.ERRID_STD.Get()
	c.Assert(err == nil && n == "standard error", "ERRID_STD names %q, %v", n, err)
	n, err = errors.ERRID_UNKNOWN.Get()
	c.Assert(err == nil && n == "unknown error", "ERRID_UNKNOWN names %q, %v", n, err)
	p := errors.NewError("a %d b %s", 7, m)
	c.Assert(p != nil && p.Error() == "a 7 b "+m, "NewError prints as %q", p)
	for _, f := range []string{"", "100%%", "%d", "%", "%s %[1]s", "a\nb"} {
		w := fmt.Errorf(f).Error()
		p = errors.NewError(f)
		c.Assert(p != nil && p.Error() == w, "NewError(%q) prints as %q, not %q", f, p, w)
	}
	// ids never handed out: arithmetic on a real id reaches them
	knownMu.Lock()
	top := first
	for k := range known {
		if k > top {
			top = k
		}
	}
	knownMu.Unlock()
	if !full {
		for k := 0; k < 9; k++ {
			// the type is not exported: reach the numbers by arithmetic
			zero := errors.ERRID_STD - errors.ERRID_STD
			one := errors.ERRID_STD / errors.ERRID_STD
			x := zero
			switch k {
			case 0:
			case 1:
				x = errors.ERRID_UNKNOWN - one
			case 2:
				x = zero - one
			case 3:
				x = one << 31
			case 4:
				x = (one << 13) + (one << 10) + (one << 9) + (one << 8) + (one << 4) // 10000
			case 5:
				for y := errors.ERRID_STD; uint32(y) <= top; y += one {
					x = y
				}
				x += one
			case 6, 7, 8: // what a narrower number would take for a valid one
				x = errors.ERRID_STD + one<<uint(r.Range(14, 31))
				if k == 8 {
					x = errors.ERRID_STD | one<<uint(r.Range(14, 31)) | one<<uint(r.Range(14, 31))
				}
			}
			id := x
			n, err := id.Get()
			c.Assert(err != nil && n == "", "the id %d was never handed out and names %q", uint32(id), n)
			e := errors.New(id)
			c.Assert(e != nil && e.Error() == err.Error(), "New of an invalid id prints as %q", e.Error())
			e = errors.Newf(id, "m")
			c.Assert(e != nil && e.Error() != "", "Newf of an invalid id prints nothing")
		}
	}
	c.Eval(8)
}

func errsConc(c *mon.Case) {
	r0 := c.R
	ng := 5
	var mu sync.Mutex
	var all []*handle
	per := 12
	for g := 0; g < ng; g++ {
		r := mon.NewRand(r0.U64())
		c.Go(func() {
			var mine []*handle
			for i := 0; i < per; i++ {
				h := reg(c, newName(r))
				if h == nil {
					c.Failf("Reg failed although numbers are left")
				}
				if len(mine) > 0 {
					c.Assert(h.num > mine[len(mine)-1].num, "a later registration got the smaller number %d after %d", h.num, mine[len(mine)-1].num)
				}
				mine = append(mine, h)
				h.check(c, r)
				mine[r.Intn(len(mine))].check(c, r)
				mu.Lock()
				all = append(all, h)
				o := all[r.Intn(len(all))]
				mu.Unlock()
				o.check(c, r)
				if r.Intn(30) == 0 {
					s := errors.ShowAll()
					c.Assert(strings.Contains(s, h.str()), "ShowAll lacks %q", h.str())
				}
			}
		})
	}
	c.Wait()
	for _, h := range all {
		h.check(c, r0)
	}
	c.Assert(len(all) == ng*per, "%d registrations of %d", len(all), ng*per)
	c.Count("concurrent registrations", len(all))
	min, max := all[0].num, all[0].num
	for _, h := range all {
		if h.num < min {
			min = h.num
		}
		if h.num > max {
			max = h.num
		}
	}
	c.Assert(int(max-min+1) == len(all), "%d registrations took the numbers %d..%d", len(all), min, max)
	// the order in which the goroutines got their numbers is the schedule seen
	h := mon.HashInit
	for _, x := range all {
		h = h.Add(uint64(x.num - min))
	}
	c.Seen(h)
	showAll(c)
}

func showAll(c *mon.Case) {
	s := errors.ShowAll()
	knownMu.Lock()
	defer knownMu.Unlock()
	pos := 0
	for n := uint32(1001); ; n++ {
		name, ok := known[n]
		if n == 1001 || n == 1002 {
			name, ok = map[uint32]string{1001: "unknown error", 1002: "standard error"}[n], true
		}
		if n > 1002 && n < first {
			continue
		}
		if !ok {
			break
		}
		w := fmt.Sprintf("error#%d (%s)", n, name)
		i := strings.Index(s[pos:], w)
		c.Assert(i >= 0, "ShowAll lacks %q, or has it out of order", w)
		pos += i
	}
	total := int(first-1001) + len(known)
	head := s[:strings.Index(s, "error#1001")]
	found := false
	for _, w := range strings.FieldsFunc(head, func(r rune) bool { return r < '0' || r > '9' }) {
		found = found || w == fmt.Sprint(total)
	}
	c.Assert(found, "ShowAll begins with %q, the count is %d", head, total)
	c.Count("ShowAll listings compared", 1)
}

// errsFull uses the numbers up, from several goroutines, and goes on.
func errsFull(c *mon.Case) {
	var ok, refused int64
	before := len(known)
	for g := 0; g < 4; g++ {
		r := mon.NewRand(c.R.U64())
		c.Go(func() {
			for miss := 0; miss < 20; {
				h := reg(c, newName(r))
				if h == nil {
					miss++
					atomic.AddInt64(&refused, 1)
					continue
				}
				c.Assert(miss == 0, "Reg gave %d after the numbers were used up", h.num)
				atomic.AddInt64(&ok, 1)
				if r.Intn(50) == 0 {
					h.check(c, r)
				}
			}
		})
	}
	c.Wait()
	full = true
	c.Assert(before+int(ok) == int(maxErrId+1-first), "%d numbers could be registered from %d on, expected %d", before+int(ok), first, maxErrId+1-first)
	c.Count("refused registrations", int(refused))
	c.Max("registered numbers", before+int(ok))
	showAll(c)
	h := reg(c, "one more")
	c.Assert(h == nil, "Reg succeeded after the numbers were used up")
	stdErrs(c, c.R)
}

func init() {
	mon.Register(&mon.Prop{ID: "C30",
		Rule: "one evaluation = one registered error looked up, printed or refused; distinct = distinct (number, message) and distinct orders of concurrent registration",
		Sections: []mon.Section{
			{Name: "sequential", Quick: 600, Thorough: 900, Run: errsSeq},
			{Name: "concurrent", Quick: 90, Thorough: 180, Run: errsConc, CPU: 60},
			{Name: "exhaust", Quick: 3, Thorough: 3, Run: errsFull, CPU: 120},
		}})
}
