// Package engine replays behaviours of the specification on generated code
// and records what the code did, in the terms of the specification.
package engine

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"corp/facts"

	"github.com/google/uuid"
	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

type M = map[string]any

// Type, Field and Decl mirror the records of the specification.
type Type struct {
	K   string  `json:"k"`
	N   any     `json:"n"` // name of a ref, or a length
	E   *Type   `json:"e"`
	Key *Type   `json:"key"`
	F   []Field `json:"f"`
}
type Field struct {
	G  string `json:"g"`
	T  *Type  `json:"t"`
	N  string `json:"n"`
	O  string `json:"o"`
	D  string `json:"d"`
	L  string `json:"l"`
	Em string `json:"em"`
}
type Decl struct {
	Tag string `json:"tag"`
	T   *Type  `json:"t"`
}
type Env struct {
	Types map[string]Decl `json:"types"`
}

// Root is a generated type under test.
type Root struct {
	New func() any // pointer to a new value
	Nil any        // nil pointer of the type
}

type Unmarshaler interface{ UnmarshalJSON([]byte) error }
type Filler interface {
	FillFromJSON(*fastjson.Value) error
}
type Marshaler interface{ MarshalJSON() ([]byte, error) }
type WriterTo interface {
	MarshalTo(*jwriter.Writer) error
}
type Resetter interface{ Reset() }
type Zeroer interface{ IsZero() bool }

type Engine struct {
	env   Env
	lit   facts.Literals
	lays  []string
	tok   *facts.Tokens
	roots map[string]Root
}

var (
	timeT = reflect.TypeOf(time.Time{})
	uuidT = reflect.TypeOf(uuid.UUID{})
)

func Load(envFile, litFile string, roots map[string]Root) *Engine {
	e := &Engine{roots: roots}
	read(envFile, &e.env)
	read(litFile, &e.lit)
	e.lays = append([]string{""}, e.lit.Layouts...)
	e.tok = facts.NewTokens(e.lit.Tokens)
	return e
}

func read(f string, into any) {
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, into)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", f, err)
		os.Exit(3)
	}
}

func (e *Engine) under(t *Type) *Type {
	for t.K == "ref" {
		t = e.env.Types[t.N.(string)].T
	}
	return t
}

// ---------------------------------------------------------------- documents

// text renders an abstract document; style varies white space and escapes.
func (e *Engine) text(d M, style int) []byte {
	var b bytes.Buffer
	e.render(&b, d, style)
	if style == 1 {
		return []byte("\n\t " + b.String() + " \r\n")
	}
	return b.Bytes()
}

func (e *Engine) render(b *bytes.Buffer, d M, style int) {
	sp := func() {
		switch style {
		case 1:
			b.WriteString(" \n\t")
		case 3:
			b.WriteByte(' ')
		}
	}
	switch d["k"] {
	case "null":
		b.WriteString("null")
	case "bool":
		b.WriteString(d["v"].(string))
	case "num":
		b.WriteString(d["s"].(string))
	case "str":
		e.quote(b, e.tok.Real(d["s"].(string)), style)
	case "arr":
		b.WriteByte('[')
		sp()
		for i, x := range d["e"].([]any) {
			if i > 0 {
				b.WriteByte(',')
				sp()
			}
			e.render(b, x.(M), style)
			sp()
		}
		b.WriteByte(']')
	case "obj":
		b.WriteByte('{')
		sp()
		for i, x := range d["m"].([]any) {
			if i > 0 {
				b.WriteByte(',')
				sp()
			}
			m := x.(M)
			e.quote(b, e.tok.Real(m["n"].(string)), style)
			sp()
			b.WriteByte(':')
			sp()
			e.render(b, m["v"].(M), style)
			sp()
		}
		b.WriteByte('}')
	default:
		panic(fmt.Sprint("bad document ", d))
	}
}

func (e *Engine) quote(b *bytes.Buffer, s string, style int) {
	if style == 2 { // everything escaped
		b.WriteByte('"')
		for _, r := range s {
			if r >= 0x10000 {
				r -= 0x10000
				fmt.Fprintf(b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(b, `\u%04x`, r)
			}
		}
		b.WriteByte('"')
		return
	}
	var t bytes.Buffer
	enc := json.NewEncoder(&t)
	enc.SetEscapeHTML(style == 1)
	_ = enc.Encode(s)
	q := strings.TrimSuffix(t.String(), "\n")
	if style == 3 { // some characters escaped
		q = strings.ReplaceAll(q, "a", `\u0061`)
		q = strings.ReplaceAll(q, "/", `\/`)
	}
	b.WriteString(q)
}

// known adds the facts to an abstract document made of texts.
func (e *Engine) known(d M) M {
	switch d["k"] {
	case "num":
		r := facts.Num(d["s"].(string))
		r["k"], r["s"] = "num", d["s"]
		return r
	case "str":
		r := facts.Str(e.tok.Real(d["s"].(string)), e.lays)
		r["k"], r["s"] = "str", d["s"]
		return r
	case "arr":
		l := d["e"].([]any)
		o := make([]any, len(l))
		for i := range l {
			o[i] = e.known(l[i].(M))
		}
		return M{"k": "arr", "e": o}
	case "obj":
		l := d["m"].([]any)
		o := make([]any, len(l))
		for i := range l {
			m := l[i].(M)
			o[i] = M{"n": m["n"], "v": e.known(m["v"].(M))}
		}
		return M{"k": "obj", "m": o}
	}
	return d
}

// parse turns JSON text into an abstract document with facts, repeated
// members kept; ok is false when the text is not exactly one JSON document.
func (e *Engine) parse(b []byte) (d M, ok bool) {
	if !json.Valid(b) {
		return nil, false
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	d, err := e.doc(dec)
	if err != nil {
		return nil, false
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, false
	}
	return d, true
}

func (e *Engine) doc(dec *json.Decoder) (M, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return M{"k": "null"}, nil
	case bool:
		return M{"k": "bool", "v": strconv.FormatBool(x)}, nil
	case json.Number:
		return e.known(M{"k": "num", "s": string(x)}), nil
	case string:
		return e.known(M{"k": "str", "s": e.tok.Name(x)}), nil
	case json.Delim:
		if x == '[' {
			l := []any{}
			for dec.More() {
				c, err := e.doc(dec)
				if err != nil {
					return nil, err
				}
				l = append(l, c)
			}
			_, err = dec.Token()
			return M{"k": "arr", "e": l}, err
		}
		l := []any{}
		for dec.More() {
			n, err := dec.Token()
			if err != nil {
				return nil, err
			}
			c, err := e.doc(dec)
			if err != nil {
				return nil, err
			}
			l = append(l, M{"n": e.tok.Name(n.(string)), "v": c})
		}
		_, err = dec.Token()
		return M{"k": "obj", "m": l}, err
	}
	return nil, errors.New("token")
}

// ------------------------------------------------------------------- values

func length(t *Type) int { return int(t.N.(float64)) }

// snap is the abstract value held in v, which has type t.
func (e *Engine) snap(t *Type, v reflect.Value) any {
	u := e.under(t)
	switch u.K {
	case "bool":
		return M{"k": "b", "v": strconv.FormatBool(v.Bool())}
	case "int", "int8", "int16", "int32", "int64":
		return M{"k": "i", "v": strconv.FormatInt(v.Int(), 10)}
	case "uint", "uint8", "uint16", "uint32", "uint64":
		return M{"k": "i", "v": strconv.FormatUint(v.Uint(), 10)}
	case "float64":
		return M{"k": "f", "v": facts.Float64(v.Float())}
	case "float32":
		return M{"k": "f", "v": facts.Float32(float32(v.Float()))}
	case "string":
		return M{"k": "s", "v": e.tok.Name(strings.Clone(v.String()))}
	case "time":
		tm := v.Convert(timeT).Interface().(time.Time)
		r := facts.Time(tm, e.lays)
		r["k"], r["v"] = "t", tm.Format(facts.Canon)
		return r
	case "uuid":
		return M{"k": "u", "v": v.Convert(uuidT).Interface().(uuid.UUID).String()}
	case "bytes":
		if v.IsNil() {
			return M{"k": "nil"}
		}
		return M{"k": "y", "v": base64.StdEncoding.EncodeToString(v.Bytes())}
	case "bytesN":
		b := make([]byte, v.Len())
		for i := range b {
			b[i] = byte(v.Index(i).Uint())
		}
		return M{"k": "y", "v": base64.StdEncoding.EncodeToString(b)}
	case "ptr":
		if v.IsNil() {
			return M{"k": "nil"}
		}
		return M{"k": "p", "e": e.snap(u.E, v.Elem())}
	case "slice", "array":
		if u.K == "slice" && v.IsNil() {
			return M{"k": "nil"}
		}
		l := make([]any, v.Len())
		for i := range l {
			l[i] = e.snap(u.E, v.Index(i))
		}
		r := M{"k": "l", "e": l}
		if u.K == "slice" && v.Cap() > v.Len() && e.nested(u.E) {
			// what the memory behind the list holds, used only to state a known finding
			all := v.Slice(0, v.Cap())
			b := make([]any, 0, v.Cap()-v.Len())
			for i := v.Len(); i < v.Cap() && i < 64; i++ {
				b = append(b, e.snap(u.E, all.Index(i)))
			}
			r["b"] = b
		}
		return r
	case "map":
		if v.IsNil() {
			return M{"k": "nil"}
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		l := make([]any, len(keys))
		for i, k := range keys {
			l[i] = M{"n": e.tok.Name(strings.Clone(k.String())), "v": e.snap(u.E, v.MapIndex(k))}
		}
		return M{"k": "m", "e": l}
	case "struct":
		l := make([]any, len(u.F))
		for i := range u.F {
			l[i] = e.snap(u.F[i].T, v.Field(i))
		}
		return M{"k": "o", "f": l}
	}
	panic("snap " + u.K)
}

// nested tells whether values of type t can be decoded over old content.
func (e *Engine) nested(t *Type) bool {
	switch u := e.under(t); u.K {
	case "struct", "map":
		return true
	case "slice":
		return e.nested(u.E)
	}
	return false
}

// put stores the abstract value x into v, which has type t.
const bulk = 10050

// grow fills the maps of an object; those that are larger already shrink to max entries
func grow(v reflect.Value, max int) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			grow(v.Elem(), max)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				grow(v.Field(i), max)
			}
		}
	case reflect.Map:
		if v.IsNil() || v.Type().Name() != "" || v.Type().Key().Kind() != reflect.String {
			return
		}
		for _, k := range v.MapKeys() {
			if v.Len() <= max {
				break
			}
			v.SetMapIndex(k, reflect.Value{})
		}
		for i := 0; max == bulk && i < bulk; i++ {
			v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("bulk%d", i)).Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	}
}

func (e *Engine) put(t *Type, v reflect.Value, x M) {
	u := e.under(t)
	if x["k"] == "nil" {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	str := func() string { return x["v"].(string) }
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch u.K {
	case "bool":
		v.SetBool(str() == "true")
	case "int", "int8", "int16", "int32", "int64":
		n, err := strconv.ParseInt(str(), 10, 64)
		must(err)
		v.SetInt(n)
	case "uint", "uint8", "uint16", "uint32", "uint64":
		n, err := strconv.ParseUint(str(), 10, 64)
		must(err)
		v.SetUint(n)
	case "float32", "float64":
		n, err := strconv.ParseFloat(str(), 64)
		must(err)
		v.SetFloat(n)
	case "string":
		v.SetString(strings.Clone(e.tok.Real(str())))
	case "time":
		tm, err := time.Parse(facts.Canon, str())
		must(err)
		v.Set(reflect.ValueOf(tm).Convert(v.Type()))
	case "uuid":
		id, err := uuid.Parse(str())
		must(err)
		v.Set(reflect.ValueOf(id).Convert(v.Type()))
	case "bytes":
		b, err := base64.StdEncoding.DecodeString(str())
		must(err)
		v.Set(reflect.ValueOf(b).Convert(v.Type()))
	case "bytesN":
		b, err := base64.StdEncoding.DecodeString(str())
		must(err)
		for i := range b {
			v.Index(i).SetUint(uint64(b[i]))
		}
	case "ptr":
		p := reflect.New(v.Type().Elem())
		e.put(u.E, p.Elem(), x["e"].(M))
		v.Set(p.Convert(v.Type()))
	case "slice", "array":
		l := x["e"].([]any)
		if u.K == "slice" {
			v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		}
		for i := range l {
			e.put(u.E, v.Index(i), l[i].(M))
		}
	case "map":
		m := reflect.MakeMap(v.Type())
		for _, kv := range x["e"].([]any) {
			c := reflect.New(v.Type().Elem()).Elem()
			e.put(u.E, c, kv.(M)["v"].(M))
			m.SetMapIndex(reflect.ValueOf(e.tok.Real(kv.(M)["n"].(string))).Convert(v.Type().Key()), c)
		}
		v.Set(m)
	case "struct":
		l := x["f"].([]any)
		for i := range u.F {
			e.put(u.F[i].T, v.Field(i), l[i].(M))
		}
	default:
		panic("put " + u.K)
	}
}

// pointers lists everything v refers to through pointers.
func (e *Engine) pointers(t *Type, v reflect.Value, out *[]kept) {
	u := e.under(t)
	switch u.K {
	case "ptr":
		if !v.IsNil() {
			*out = append(*out, kept{u.E, v.Elem()})
			e.pointers(u.E, v.Elem(), out)
		}
	case "slice", "array":
		for i := 0; i < v.Len(); i++ {
			e.pointers(u.E, v.Index(i), out)
		}
	case "map":
		for _, k := range v.MapKeys() {
			if e.under(u.E).K == "ptr" {
				e.pointers(u.E, v.MapIndex(k), out)
			}
		}
	case "struct":
		for i := range u.F {
			e.pointers(u.F[i].T, v.Field(i), out)
		}
	}
}

type kept struct {
	t *Type
	v reflect.Value
}

// ------------------------------------------------------------------ history

type Step struct {
	Op   string `json:"op"`
	O    int    `json:"o"`
	D    M      `json:"d"`
	V    M      `json:"v"`
	Text string `json:"text"`
}
type History struct {
	ID int    `json:"h"`
	T  string `json:"t"`
	S  []Step `json:"s"`
}

// errInfo describes an error: what it quotes and how deep its causes go.
func (e *Engine) errInfo(r M, err error) {
	txt := e.tok.InText(err.Error())
	seen := map[string]bool{}
	q := []string{}
	add := func(s string) {
		if !seen[s] && len(s) < 200 {
			seen[s] = true
			q = append(q, s)
		}
	}
	for _, c := range []string{"'", `"`, "`"} {
		if p := strings.Split(txt, c); len(p) > 2 {
			for _, s := range p[1 : len(p)-1] {
				add(s)
			}
		}
	}
	for _, w := range strings.Fields(txt) {
		add(strings.Trim(w, "'\"`.,:;()[]"))
	}
	r["q"] = q
	dep, b64, tm := 0, "n", "n"
	for x := err; x != nil && dep < 50; x = errors.Unwrap(x) {
		dep++
		switch x.(type) {
		case base64.CorruptInputError:
			b64 = "y"
		case *time.ParseError:
			tm = "y"
		}
	}
	r["dep"], r["b64"], r["tm"] = dep, b64, tm
	if len(txt) > 160 {
		txt = txt[:160]
	}
	r["txt"] = txt
}

type outs struct{ live, copy []byte }

// Run replays one history.
func (e *Engine) Run(h History, seed int) (res M) {
	steps := make([]any, 0, len(h.S))
	root, ok := e.roots[h.T]
	if !ok {
		return nil
	}
	t := &Type{K: "ref", N: h.T}
	hash := fnv.New32a()
	fmt.Fprintf(hash, "%d/%d/%s", h.ID, seed, h.T)
	style := int(hash.Sum32() % 4)
	objs := []any{root.New(), root.New()}
	deref := func(i int) reflect.Value { return reflect.ValueOf(objs[i-1]).Elem() }
	var keeps []kept
	var given [][]byte
	var produced []outs
	raws := map[int]string{}
	for n, s := range h.S {
		r := M{"op": s.Op, "o": s.O, "ok": "y"}
		if s.D != nil {
			r["d"] = e.known(s.D)
		}
		if s.V != nil {
			r["v"] = s.V
		}
		fail := func(err error) {
			if err != nil {
				r["ok"] = "n"
				e.errInfo(r, err)
			}
		}
		output := func(b []byte) {
			d, wf := e.parse(b)
			r["wf"] = "n"
			if wf {
				r["wf"], r["out"] = "y", d
			} else {
				s := string(b)
				if len(s) > 300 {
					s = s[:300]
				}
				r["bad"] = s
			}
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					r["ok"] = "p"
					r["txt"] = fmt.Sprint(p)
				}
			}()
			switch s.Op {
			case "dec":
				b := e.text(s.D, style)
				given = append(given, b)
				r["src"] = clip(b)
				fail(objs[s.O-1].(Unmarshaler).UnmarshalJSON(b))
			case "raw":
				b := []byte(s.Text)
				given = append(given, b)
				fail(objs[s.O-1].(Unmarshaler).UnmarshalJSON(b))
			case "fill":
				b := e.text(s.D, style)
				r["src"] = clip(b)
				var p fastjson.Parser
				v, err := p.ParseBytes(b)
				if err != nil {
					panic("driver: unparsable document " + string(b))
				}
				given = append(given, b)
				fail(objs[s.O-1].(Filler).FillFromJSON(v))
				// the parser, with the memory of v, is reused at once
				_, _ = p.Parse(`{"scribble":["` + strings.Repeat("#", len(b)+64) + `"]}`)
			case "set":
				objs[s.O-1] = root.New()
				e.put(t, deref(s.O), s.V)
			case "reset":
				objs[s.O-1].(Resetter).Reset()
			case "bulk":
				grow(deref(s.O), bulk)
				objs[s.O-1].(Resetter).Reset()
				grow(deref(s.O), 3)
			case "zero":
				r["z"] = yn(objs[s.O-1].(Zeroer).IsZero())
			case "enc":
				b, err := objs[s.O-1].(Marshaler).MarshalJSON()
				fail(err)
				if err == nil {
					output(b)
					produced = append(produced, outs{b, append([]byte(nil), b...)})
					if prev, ok := raws[s.O]; ok {
						r["same"] = yn(prev == string(b))
					}
					raws[s.O] = string(b)
				}
			case "encto":
				w := jwriter.Writer{}
				const prefix = `["kept",`
				w.RawString(prefix)
				err := objs[s.O-1].(WriterTo).MarshalTo(&w)
				fail(err)
				if err == nil {
					b, err := w.BuildBytes()
					if err != nil {
						fail(err)
						break
					}
					r["pre"] = yn(bytes.HasPrefix(b, []byte(prefix)))
					b = bytes.TrimPrefix(b, []byte(prefix))
					output(b)
					if prev, ok := raws[s.O]; ok {
						r["same"] = yn(prev == string(b))
					}
				}
			case "share":
				// one object, used by many at once
				e.share(objs[s.O-1], r)
			case "nilenc":
				b, err := root.Nil.(Marshaler).MarshalJSON()
				fail(err)
				if err == nil {
					output(b)
				}
			case "back":
				b, err := objs[s.O-1].(Marshaler).MarshalJSON()
				fail(err)
				if err == nil {
					r["src"] = clip(b)
					objs[1] = root.New()
					if err := objs[1].(Unmarshaler).UnmarshalJSON(b); err != nil {
						r["ok"] = "b"
						e.errInfo(r, err)
					}
				}
			case "scrib":
				for _, b := range given {
					for i := range b {
						b[i] = '#'
					}
				}
			case "keep":
				keeps = nil
				e.pointers(t, deref(s.O), &keeps)
			default:
				panic("driver: operation " + s.Op)
			}
		}()
		if txt, ok := r["txt"].(string); ok && r["ok"] == "p" && strings.HasPrefix(txt, "driver:") {
			fmt.Fprintln(os.Stderr, txt, "in history", h.ID, "step", n, h.T)
			os.Exit(3)
		}
		if s.Op != "enc" && s.Op != "share" && s.Op != "zero" && s.Op != "encto" && s.O > 0 {
			delete(raws, s.O)
			if s.Op == "back" {
				delete(raws, 2)
			}
		}
		st := make([]any, len(objs))
		for i := range objs {
			st[i] = e.snap(t, deref(i+1))
		}
		r["st"] = st
		if len(keeps) > 0 {
			k := make([]any, len(keeps))
			for i := range keeps {
				k[i] = e.snap(keeps[i].t, keeps[i].v)
			}
			r["kept"] = k
		}
		own := true
		for _, o := range produced {
			own = own && bytes.Equal(o.live, o.copy)
		}
		r["own"] = yn(own)
		steps = append(steps, r)
	}
	return M{"h": h.ID, "t": h.T, "sty": style, "s": steps}
}

// share encodes and tests one object from several goroutines at once.
func (e *Engine) share(obj any, r M) {
	const n = 6
	type result struct {
		txt  []string
		zero []string
		err  error
		pan  any
	}
	res := make([]result, n)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(x *result, i int) {
			defer wg.Done()
			defer func() { x.pan = recover() }()
			<-gate
			for k := 0; k < 2; k++ {
				x.zero = append(x.zero, yn(obj.(Zeroer).IsZero()))
				if i%3 == 2 {
					w := jwriter.Writer{}
					if x.err = obj.(WriterTo).MarshalTo(&w); x.err != nil {
						return
					}
					b, err := w.BuildBytes()
					if x.err = err; err != nil {
						return
					}
					x.txt = append(x.txt, string(b))
					continue
				}
				b, err := obj.(Marshaler).MarshalJSON()
				if x.err = err; err != nil {
					return
				}
				x.txt = append(x.txt, string(b))
			}
		}(&res[i], i)
	}
	close(gate)
	wg.Wait()
	txts, zs := map[string]bool{}, map[string]bool{}
	for _, x := range res {
		if x.pan != nil {
			panic(x.pan)
		}
		if x.err != nil {
			r["ok"] = "n"
			e.errInfo(r, x.err)
			return
		}
		for _, t := range x.txt {
			txts[t] = true
		}
		for _, z := range x.zero {
			zs[z] = true
		}
	}
	outs, zero := []any{}, []string{}
	for t := range txts {
		o := M{"wf": "n"}
		if d, wf := e.parse([]byte(t)); wf {
			o["wf"], o["out"] = "y", d
		} else {
			r["bad"] = clip([]byte(t))
		}
		if outs = append(outs, o); len(outs) == 6 {
			break
		}
	}
	for z := range zs {
		zero = append(zero, z)
	}
	r["outs"], r["zs"] = outs, zero
	r["same"] = yn(len(txts) == 1)
}

func clip(b []byte) string {
	if len(b) > 400 {
		return string(b[:400])
	}
	return string(b)
}

func yn(b bool) string {
	if b {
		return "y"
	}
	return "n"
}

func die(x ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"driver:"}, x...)...)
	os.Exit(3)
}

// Replay reads histories, one per line, and writes what happened.  With
// batch > 1 that many histories are replayed at a time, concurrently.
func (e *Engine) Replay(in, out string, seed, batch int) {
	f, err := os.Open(in)
	if err != nil {
		die(err)
	}
	o, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		die(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var hs []History
	flush := func() {
		res := make([]M, len(hs))
		done := make(chan struct{})
		go func() {
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for i := range hs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-gate
					res[i] = e.Run(hs[i], seed)
				}(i)
			}
			close(gate)
			wg.Wait()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(time.Duration(20+len(hs)) * time.Second):
			// the process dies with the histories unanswered; the caller notes it
			fmt.Fprintln(os.Stderr, "hang: history", hs[0].ID, hs[0].T)
			os.Exit(4)
		}
		var all []byte
		for _, r := range res {
			if r == nil {
				die("unknown type")
			}
			b, err := json.Marshal(r)
			if err != nil {
				die(err)
			}
			all = append(append(all, b...), '\n')
		}
		if _, err := o.Write(all); err != nil {
			die(err)
		}
		hs = hs[:0]
	}
	for sc.Scan() {
		var h History
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			die(err)
		}
		if hs = append(hs, h); len(hs) >= batch {
			flush()
		}
	}
	if err := sc.Err(); err != nil {
		die(err)
	}
	flush()
}
