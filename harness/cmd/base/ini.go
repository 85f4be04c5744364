package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/vipally/gx/encoding/ini"
	"vp/mon"
)

type iniModel map[string]map[string]string

// refIni parses a document by the rules: lines are trimmed; empty lines and
// lines that start with ';' are skipped; [name] opens (or re-opens) a section;
// other lines are key=value, split at the first '=', both trimmed, and a line
// without '=' is a key with an empty value; keys outside a section and empty
// keys are skipped; the last value of a key wins.
func refIni(doc string) iniModel {
	m := iniModel{}
	cur, open := "", false
	for _, ln := range strings.Split(doc, "\n") {
		ln = strings.TrimSpace(ln)
		if len(ln) == 0 || strings.HasPrefix(ln, ";") {
			continue
		}
		if strings.HasPrefix(ln, "[") && strings.HasSuffix(ln, "]") {
			cur, open = ln[1:len(ln)-1], true
			if m[cur] == nil {
				m[cur] = map[string]string{}
			}
			continue
		}
		if !open || cur == "" {
			continue
		}
		k, v := ln, ""
		if i := strings.IndexByte(ln, '='); i >= 0 {
			k, v = ln[:i], ln[i+1:]
		}
		if k = strings.TrimSpace(k); k != "" {
			m[cur][k] = strings.TrimSpace(v)
		}
	}
	return m
}

// iniCompare looks everything up, twice: lookups change nothing.
func iniCompare(c *mon.Case, f *ini.IniFile, m iniModel, doc string) {
	iniCompare1(c, f, m, doc, "<default>")
	iniCompare1(c, f, m, doc, []string{"", "other", "<default>"}[c.Idx%3])
}

func iniCompare1(c *mon.Case, f *ini.IniFile, m iniModel, doc, def string) {
	fail := func(s string, a ...interface{}) {
		if len(doc) < 3000 {
			c.Logf("document:\n%s", doc)
		}
		c.Failf(s, a...)
	}
	if f == nil {
		fail("no document was returned")
	}
	var want []string
	for s := range m {
		want = append(want, s)
	}
	got := append([]string(nil), f.Sections()...)
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
		fail("sections %q, want %q", got, want)
	}
	for s, kv := range m {
		var wk []string
		for k := range kv {
			wk = append(wk, k)
		}
		gk := append([]string(nil), f.Keys(s)...)
		sort.Strings(wk)
		sort.Strings(gk)
		if strings.Join(gk, "\x00") != strings.Join(wk, "\x00") || len(gk) != len(wk) {
			fail("keys of [%s]: %q, want %q", s, gk, wk)
		}
		for k, v := range kv {
			if c.Long() {
				return
			}
			if g := f.GetString(s, k, def); g != v {
				fail("[%s] %s = %q, want %q", s, k, clipS(g), clipS(v))
			}
			c.Count("values compared", 1)
		}
		// names that only resemble those of the document
		for _, o := range alike(s) {
			if m[o] == nil {
				for k := range kv {
					if g := f.GetString(o, k, def); g != def || len(f.Keys(o)) != 0 {
						fail("[%s] is absent, but %s there gives %q", o, k, clipS(g))
					}
					break
				}
			}
		}
		for k := range kv {
			if len(k) > 200 {
				continue
			}
			for _, o := range alike(k) {
				if _, ok := kv[o]; !ok {
					if g := f.GetString(s, o, def); g != def {
						fail("[%s]: the key %q is absent, but gives %q", s, o, clipS(g))
					}
				}
			}
			if len(kv) > 50 {
				break
			}
		}
		if g := f.GetString(s, "no such key\n", def); g != def {
			fail("[%s]: a missing key gives %q instead of the default", s, g)
		}
	}
	if g := f.GetString("no such section\n", "k", def); g != def || len(f.Keys("no such section\n")) != 0 {
		fail("a missing section gives %q and %d key(s)", g, len(f.Keys("no such section\n")))
	}
}

// alike gives names that are like a name but not it.
func alike(s string) []string {
	l := []string{" " + s, s + " ", "[" + s + "]", s + "=", s + s}
	if s != "" {
		l = append(l, s[1:], s[:len(s)-1])
	}
	if t := strings.ToUpper(s); t != s {
		l = append(l, t)
	}
	if t := strings.ToLower(s); t != s {
		l = append(l, t)
	}
	return l
}

func clipS(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s...(%d bytes)", s[:200], len(s))
	}
	return s
}

func word(r *mon.Rand, chars string, min, max int) string {
	n := r.Range(min, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[r.Intn(len(chars))]
	}
	return string(b)
}

// iniRender writes a known model with noise and reads it back.
func iniRender(c *mon.Case) {
	r := c.R
	var sb strings.Builder
	m := iniModel{}
	nl := func() {
		if r.Chance(1, 3) {
			sb.WriteString("\r\n")
		} else {
			sb.WriteString("\n")
		}
	}
	pad := func() string { return word(r, " \t", 0, 3) }
	noise := func() {
		switch r.Intn(8) {
		case 0:
			sb.WriteString(pad())
			nl()
		case 1:
			sb.WriteString(pad() + ";" + word(r, "abc=[]; x", 0, 30))
			nl()
		case 2:
			sb.WriteString(pad() + ";key=value")
			nl()
		}
	}
	if r.Chance(1, 3) { // keys before any section do not count
		sb.WriteString("stray=1")
		nl()
	}
	const secCh = "abcdeXYZ019._- /\\=;[]中文"
	const keyCh = "abcdefXYZ019._-[]中\\/"
	const valCh = "abcXYZ 0129=;[]#\"'\\\t.中文%"
	ns, nk := r.Range(0, 6), 9
	if r.Chance(1, 300) { // a long document
		ns, nk = r.Range(1, 300), r.Range(1, 60)
	}
	cur := ""
	var names []string
	for i := 0; i < ns; i++ {
		name := []string{"s", "S", "#", "!", ":", "\""}[r.Intn(6)] + word(r, secCh, 0, 8) + "e"
		if len(names) > 0 && r.Chance(1, 3) {
			name = names[r.Intn(len(names))] // re-open
		}
		names = append(names, name)
		cur = name
		if m[cur] == nil {
			m[cur] = map[string]string{}
		}
		noise()
		sb.WriteString(pad() + "[" + name + "]" + pad())
		nl()
		for k := r.Intn(nk); k > 0; k-- {
			noise()
			key := []string{"k", "k", "K", "#", "#k", "!", "//", ":", "'", "\"", "%", "-", "rem ", "@", "{", "&", "]", "0", "$HOME", "\ufeff", "\u200b"}[r.Intn(21)] + word(r, keyCh, 0, 6)
			if r.Chance(1, 4) {
				for o := range m[cur] { // write it again, the last one wins
					if len(o) > len(key)-3 {
						key = o
					}
					break
				}
			}
			val := word(r, valCh, 0, 30)
			if r.Chance(1, 25) {
				val = word(r, valCh, 4000, 9000) // longer than a read buffer
				if r.Chance(1, 10) {
					val = word(r, valCh, 60000, 140000)
				}
			}
			if r.Chance(1, 12) { // what means something elsewhere
				val = []string{"$HOME", "${HOME}", "$x", "%PATH%", "\\n", "~", "`x`", "$(x)", "\ufeffx", "<<E", "true ", "\\", "#x", "{{x}}", "&amp;", "%20"}[r.Intn(16)] + val
			}
			val = strings.TrimSpace(val)
			switch {
			case r.Chance(1, 12):
				sb.WriteString(pad() + key) // no '=' at all
				val = ""
			default:
				sb.WriteString(pad() + key + pad() + "=" + pad() + val + pad())
			}
			if k == 1 && i == ns-1 && r.Bool() {
				// the last line has no line end
			} else {
				nl()
			}
			m[cur][key] = val
		}
		if r.Chance(1, 6) {
			noise()
			sb.WriteString(" = value without a key")
			nl()
		}
	}
	doc := sb.String()
	// the reference parser must agree with the model, or the generator is wrong
	if fmt.Sprint(refIni(doc)) != fmt.Sprint(m) {
		c.Inconclusive("generator")
		return
	}
	var in io.Reader = strings.NewReader(doc)
	if r.Bool() {
		in = &src{data: []byte(doc), max: []int{1, 5, 4096}[r.Intn(3)], empties: r.Intn(3), joined: r.Bool(), faultAt: -1, r: r}
	}
	iniCompare(c, ini.Load(in), m, doc)
	if c.Idx%10 == 0 {
		p := filepath.Join(os.TempDir(), fmt.Sprintf("ini%d", c.Idx))
		if err := os.WriteFile(p, []byte(doc), 0644); err != nil {
			c.Inconclusive("scratch file")
			return
		}
		f, err := ini.New(p)
		c.NoneOpen(filepath.Clean(p))
		os.Remove(p)
		if err != nil {
			c.Failf("New of an existing file: %v", err)
		}
		iniCompare(c, f, m, doc)
		if g, err := ini.New(p); err == nil || g != nil {
			c.Failf("New of a missing file gave no error")
		}
	}
	c.Seen(mon.HashInit.Str(doc))
	c.Sample("%d section(s): %q", len(m), clipS(doc))
}

// iniFuzz reads arbitrary text made of the format's characters.
func iniFuzz(c *mon.Case) {
	r := c.R
	var doc string
	if r.Chance(1, 8) {
		doc = string(r.Bytes(r.Intn(300)))
	} else {
		doc = word(r, "[]=;\n\n\r\t\v\f  abkAB#:'\"\\", 0, 120)
	}
	if strings.Contains(doc, "[]") { // the empty section name is not covered
		doc = strings.Replace(doc, "[]", "[a]", -1)
	}
	m := refIni(doc)
	if _, ok := m[""]; ok {
		return
	}
	iniCompare(c, ini.Load(strings.NewReader(doc)), m, doc)
	c.Seen(mon.HashInit.Str(doc))
	c.Sample("%q", doc)
}

// iniNoName: a heading without a name ends the section before it; what follows
// belongs to no section that has a name, and the heading is no key.
func iniNoName(c *mon.Case) {
	r := c.R
	var b strings.Builder
	m := iniModel{}
	cur := ""
	for i, n := 0, r.Range(1, 30); i < n; i++ {
		switch r.Intn(4) {
		case 0:
			cur = ""
			b.WriteString(word(r, " \t", 0, 2) + "[]" + word(r, " \t", 0, 2) + "\n")
		case 1:
			cur = "s" + word(r, "abc", 0, 1)
			if m[cur] == nil {
				m[cur] = map[string]string{}
			}
			b.WriteString("[" + cur + "]\n")
		default:
			k, v := "k"+word(r, "abc", 0, 1), word(r, "xyz=[]", 0, 4)
			b.WriteString(k + "=" + v + "\n")
			if cur != "" {
				m[cur][k] = v
			}
		}
	}
	doc := b.String()
	f := ini.Load(strings.NewReader(doc))
	for sec, kv := range m {
		keys := append([]string(nil), f.Keys(sec)...)
		sort.Strings(keys)
		var want []string
		for k, v := range kv {
			want = append(want, k)
			if g := f.GetString(sec, k, "<d>"); g != v {
				c.Failf("%q: [%s] %s = %q, want %q", doc, sec, k, g, v)
			}
		}
		sort.Strings(want)
		if strings.Join(keys, " ") != strings.Join(want, " ") {
			c.Failf("%q: keys of [%s]: %q, want %q", doc, sec, keys, want)
		}
	}
	for _, sec := range f.Sections() {
		if sec != "" && m[sec] == nil {
			c.Failf("%q: a section %q", doc, sec)
		}
	}
	c.Seen(mon.HashInit.Str(doc))
}

// iniOpen: what cannot be opened or read to its end is an error, whatever the reason.
func iniOpen(c *mon.Case) {
	d, err := os.MkdirTemp("", "ini")
	if err != nil {
		c.Inconclusive("scratch directory")
		return
	}
	defer os.RemoveAll(d)
	join := func(n string) string { return filepath.Join(d, n) }
	doc := []byte("[s]\nk=v\n")
	if os.WriteFile(join("good"), doc, 0644) != nil || os.WriteFile(join("closed"), doc, 0) != nil || os.Mkdir(join("shut"), 0700) != nil ||
		os.WriteFile(join("shut/in"), doc, 0644) != nil || os.Chmod(join("shut"), 0) != nil || os.Symlink("loop", join("loop")) != nil ||
		os.Symlink("nowhere", join("dangling")) != nil || os.Symlink("good", join("link")) != nil ||
		os.Mkdir(join("dir"), 0755) != nil || os.Symlink("dir", join("dirlink")) != nil || os.Symlink("/proc/self/mem", join("mem")) != nil {
		c.Inconclusive("scratch files")
		return
	}
	defer os.Chmod(join("shut"), 0700)
	for _, p := range []string{"good", "link", "closed", "shut/in", "loop", "dangling", "good/x", "dir", "dirlink", "mem", "missing", "missing/x", strings.Repeat("n", 300), "a\x00b", ""} {
		full := p
		if p != "" {
			full = join(p)
		}
		want, oerr := os.ReadFile(full) // the reference: may it be opened and read to its end
		if oerr == nil && !bytes.Equal(want, doc) {
			continue
		}
		f, err := ini.New(full)
		if (err != nil) != (oerr != nil) || (f == nil) != (oerr != nil) {
			c.Failf("New(%.40q) gives %v and error %v, reading it gives %v", p, f != nil, err, oerr)
		}
		if err == nil && f.GetString("s", "k", "") != "v" {
			c.Failf("New(%q) read something else", p)
		}
		c.Count("files opened or refused", 1)
		c.Seen(mon.HashInit.Str(p))
	}
	// a pipe has no size
	if syscall.Mkfifo(join("pipe"), 0600) == nil {
		go func() {
			if w, err := os.OpenFile(join("pipe"), os.O_WRONLY, 0); err == nil {
				for i := 0; i < 500; i++ {
					fmt.Fprintf(w, "[s%d]\nk=v%d\n", i, i)
				}
				w.Close()
			}
		}()
		f, err := ini.New(join("pipe"))
		if err != nil || len(f.Sections()) != 500 || f.GetString("s499", "k", "") != "v499" {
			c.Failf("New of a pipe gives %v, not all that is written to it", err)
		}
		c.Count("pipes read", 1)
	}
	c.NoneOpen(d)
}

// iniBig: very many lines, sections and keys, sections taken up again and again.
func iniBig(c *mon.Case) {
	r := c.R
	m := iniModel{}
	var b bytes.Buffer
	ns := []int{3, 300, 70000}[c.Idx%3]
	sec := func(i int) string { return fmt.Sprintf("s%d", i) }
	lines := r.Range(150000, 200000)
	cur := ""
	for i := 0; i < lines; i++ {
		if i == 0 || ns == 70000 && i < ns || r.Chance(1, 40) {
			k := r.Intn(ns)
			if ns == 70000 && i < ns {
				k = i
			}
			cur = sec(k)
			if m[cur] == nil {
				m[cur] = map[string]string{}
			}
			b.WriteString("[" + cur + "]\n")
			continue
		}
		k := fmt.Sprintf("k%d", r.Intn(lines))
		v := fmt.Sprint(i)
		b.WriteString(k + " = " + v + "\n")
		m[cur][k] = v
	}
	if c.Idx%3 == 0 { // tens of megabytes
		for i := 0; i < 14; i++ {
			k, v := fmt.Sprintf("huge%d", i), strings.Repeat(word(r, "abcdefgh=", 1000, 2000), r.Range(700, 1100))
			b.WriteString(k + "=" + v + "\n")
			m[cur][k] = v
		}
		b.WriteString("last=1")
		m[cur]["last"] = "1"
	}
	doc := b.String()
	f := ini.Load(strings.NewReader(doc))
	iniCompare(c, f, m, doc)
	p := filepath.Join(os.TempDir(), fmt.Sprintf("big%d", c.Idx))
	if os.WriteFile(p, []byte(doc), 0644) == nil {
		f, err := ini.New(p)
		os.Remove(p)
		if err != nil {
			c.Failf("New of a file of %d bytes: %v", len(doc), err)
		}
		iniCompare(c, f, m, doc)
	}
	c.Max("bytes of one document", len(doc))
	keys := 0
	for _, kv := range m {
		keys += len(kv)
		c.Max("keys of one section", len(kv))
	}
	c.Max("lines of one document", lines)
	c.Max("sections of one document", len(m))
	c.Seen(mon.HashInit.Str(doc))
	c.Sample("%d lines, %d sections, %d keys", lines, len(m), keys)
}

// iniApart: lists that were handed out belong to the caller, and documents do not
// know of each other.
func iniApart(c *mon.Case) {
	r := c.R
	docs, ms, fs := []string{}, []iniModel{}, []*ini.IniFile{}
	for i := 0; i < 3; i++ {
		m := iniModel{}
		var b strings.Builder
		for j, n := 0, r.Range(1, 5); j < n; j++ {
			s := "s" + word(r, "abc", 0, 1)
			if m[s] == nil {
				m[s] = map[string]string{}
			}
			b.WriteString("[" + s + "]\n")
			for x := r.Intn(5); x > 0; x-- {
				k, v := "k"+word(r, "abcd", 0, 1), word(r, "xyz", 0, 3)
				b.WriteString(k + "=" + v + "\n")
				m[s][k] = v
			}
		}
		docs, ms, fs = append(docs, b.String()), append(ms, m), append(fs, ini.Load(strings.NewReader(b.String())))
	}
	type list struct{ got, was []string }
	var held []list
	for i := 0; i < 40; i++ {
		k := r.Intn(3)
		f := fs[k]
		var l []string
		if r.Bool() {
			l = f.Sections()
		} else {
			l = f.Keys("s" + word(r, "abc", 0, 1))
		}
		if r.Bool() { // the caller's to keep
			held = append(held, list{l, append([]string(nil), l...)})
		} else { // or to write to
			for j := range l {
				l[j] = "overwritten"
			}
			_ = append(l, "more")
		}
	}
	for i := range fs {
		iniCompare(c, fs[i], ms[i], docs[i])
		c.Seen(mon.HashInit.Str(docs[i]))
	}
	for _, h := range held {
		if strings.Join(h.got, "\x00") != strings.Join(h.was, "\x00") {
			c.Failf("a list that gave %q has become %q", h.was, h.got)
		}
	}
	c.Count("lists held", len(held))
}

// iniFault: a reader that fails half way ends the document there, it does not hang.
func iniFault(c *mon.Case) {
	r := c.R
	var b bytes.Buffer
	for i := 0; i < r.Range(1, 40); i++ {
		if i%5 == 0 {
			fmt.Fprintf(&b, "[s%d]\n", i)
		}
		fmt.Fprintf(&b, "k%d = v%d\n", i, i)
	}
	at := r.Intn(b.Len() + 1)
	s := &src{data: b.Bytes(), max: 50, faultAt: at, fault: errors.New("fault"), joined: r.Bool(), r: r}
	f := ini.Load(s)
	doc := string(b.Bytes()[:at])
	// everything up to the last complete line must be there
	cut := strings.LastIndexByte(doc, '\n') + 1
	m := refIni(doc[:cut])
	for sec, kv := range m {
		for k, v := range kv {
			if g := f.GetString(sec, k, "<d>"); g != v {
				c.Failf("after a read fault at %d: [%s] %s = %q, want %q", at, sec, k, g, v)
			}
		}
	}
	c.Count("read faults", 1)
	c.Seen(mon.HashInit.Str(doc))
}

func init() {
	mon.Register(&mon.Prop{ID: "C17",
		Rule: "documents rendered from a random model with comments, padding, CR LF, repeated sections and keys, missing '=' and values beyond the read buffer, arbitrary text over the format's characters against a reference parser, and read faults; distinct = distinct document",
		Sections: []mon.Section{
			{Name: "render", Quick: 6000, Thorough: 300000, Run: iniRender},
			{Name: "fuzz", Quick: 20000, Thorough: 1000000, Run: iniFuzz},
			{Name: "no-name", Quick: 1000, Thorough: 30000, Run: iniNoName},
			{Name: "open", Quick: 3, Thorough: 10, Run: iniOpen},
			{Name: "big", Quick: 3, Thorough: 30, CPU: 120, Run: iniBig},
			{Name: "apart", Quick: 1000, Thorough: 30000, Run: iniApart},
			{Name: "fault", Quick: 1000, Thorough: 30000, Run: iniFault},
		}})
}
