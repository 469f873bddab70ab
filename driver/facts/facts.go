// Package facts computes what the texts that occur in documents and values
// denote: numbers, times, UUIDs, base64 bytes.  It uses only the Go standard
// library and google/uuid, never the code under test.
package facts

import (
	"encoding/base64"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/google/uuid"
)

// Canon is the canonical text of an instant: its offset is kept.
const Canon = "2006-01-02T15:04:05.999999999Z07:00"

// Documented are the formats accepted for a time member without a layout.
var Documented = []string{
	"2006-01-02T15:04:05.999999999Z07:00",
	"2006-01-02T15:04:05Z07:00",
	"2006-01-02 15:04:05Z07:00",
	"02.01.2006 15:04:05Z07:00",
}

// Literals is the committed table of texts and layouts.
type Literals struct {
	Num     []string          `json:"num"`
	Str     []string          `json:"str"`
	Time    []string          `json:"time"`
	Layouts []string          `json:"layouts"` // without "", which stands for the default
	Tokens  map[string]string `json:"tokens"`  // symbolic name -> real content
	Bytes   []int             `json:"bytes"`   // lengths of byte arrays
}

var intRe = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)

type M = map[string]any

// Float64 and Float32 give the canonical text of a float.
func Float64(x float64) string { return fl(x, 64) }
func Float32(x float32) string { return fl(float64(x), 32) }

func fl(x float64, b int) string {
	switch {
	case math.IsNaN(x):
		return "nan"
	case math.IsInf(x, 0):
		return "inf"
	case x == 0:
		return "0"
	}
	return strconv.FormatFloat(x, 'g', -1, b)
}

// Num gives the facts about a JSON number text.
func Num(s string) M {
	f := M{"int": "n", "i": "!", "neg": "n", "g": []int{}, "f": "inf", "h": "inf"}
	if intRe.MatchString(s) {
		f["int"] = "y"
		d := strings.TrimPrefix(s, "-")
		g := make([]int, len(d))
		for i := range d {
			g[i] = int(d[i] - '0')
		}
		f["g"] = g
		f["i"] = s
		if s == "-0" {
			f["i"] = "0"
		}
	}
	if strings.HasPrefix(s, "-") {
		f["neg"] = "y"
	}
	f["w"] = wrapped(s)
	if x, err := strconv.ParseFloat(s, 64); err == nil {
		f["f"] = Float64(x)
	}
	if x, err := strconv.ParseFloat(s, 32); err == nil {
		f["h"] = Float32(float32(x))
	}
	return f
}

// wrapped is what the number becomes when it is read as a 64-bit number and
// converted without a check; "!" when it does not even fit into 64 bits.
func wrapped(s string) M {
	w := M{}
	for _, k := range []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "float32"} {
		w[k] = "!"
	}
	if x, err := strconv.ParseInt(s, 10, 64); err == nil {
		w["int8"] = strconv.Itoa(int(int8(x)))
		w["int16"] = strconv.Itoa(int(int16(x)))
		w["int32"] = strconv.Itoa(int(int32(x)))
	}
	if x, err := strconv.ParseUint(s, 10, 64); err == nil {
		w["uint8"] = strconv.Itoa(int(uint8(x)))
		w["uint16"] = strconv.Itoa(int(uint16(x)))
		w["uint32"] = strconv.Itoa(int(uint32(x)))
	}
	if x, err := strconv.ParseFloat(s, 64); err == nil {
		w["float32"] = Float32(float32(x))
	} else if math.IsInf(x, 0) {
		w["float32"] = "inf"
	}
	return w
}

// Constants are the layouts that may be given by name.
var Constants = map[string]string{
	"time.ANSIC": time.ANSIC, "time.UnixDate": time.UnixDate, "time.RubyDate": time.RubyDate, "time.RFC822": time.RFC822, "time.RFC822Z": time.RFC822Z,
	"time.RFC850": time.RFC850, "time.RFC1123": time.RFC1123, "time.RFC1123Z": time.RFC1123Z, "time.RFC3339": time.RFC3339, "time.RFC3339Nano": time.RFC3339Nano,
	"time.Kitchen": time.Kitchen, "time.StampMicro": time.StampMicro, "time.DateTime": time.DateTime, "time.DateOnly": time.DateOnly, "time.TimeOnly": time.TimeOnly,
}

// Layout is the layout that l stands for.
func Layout(l string) string {
	if c, ok := Constants[l]; ok {
		return c
	}
	return l
}

// ParseTime reads s in layout l ("" is the default); ok is false when it cannot be read.
func ParseTime(l, s string) (time.Time, bool) {
	if l == "" {
		for _, f := range Documented {
			if t, err := time.Parse(f, s); err == nil {
				return t, true
			}
		}
		return time.Time{}, false
	}
	t, err := time.Parse(Layout(l), s)
	return t, err == nil
}

// WriteTime formats t in layout l ("" is the default).
func WriteTime(l string, t time.Time) string {
	if l == "" {
		l = time.RFC3339Nano
	}
	return t.Format(Layout(l))
}

// Str gives the facts about a string; only layouts that can read it are listed.
func Str(s string, layouts []string) M {
	f := M{"u": "!", "y": "!", "yn": 0}
	t := M{}
	for _, l := range layouts {
		if x, ok := ParseTime(l, s); ok {
			t[l] = x.Format(Canon)
		}
	}
	f["t"] = t
	if u, err := uuid.Parse(s); err == nil {
		f["u"] = u.String()
	}
	if b, err := base64.StdEncoding.DecodeString(s); err == nil {
		f["y"] = base64.StdEncoding.EncodeToString(b)
		f["yn"] = len(b)
	}
	return f
}

// Time gives the facts about an instant.
func Time(t time.Time, layouts []string) M {
	x, r := M{}, M{}
	for _, l := range layouts {
		s := WriteTime(l, t)
		x[l] = s
		if b, ok := ParseTime(l, s); ok {
			r[l] = b.Format(Canon)
		} else {
			r[l] = "!"
		}
	}
	z := "n"
	if t.IsZero() {
		z = "y"
	}
	return M{"z": z, "x": x, "r": r}
}

// Tokens maps symbolic names to contents and back.
type Tokens struct {
	to, from map[string]string
	rep      *strings.Replacer
}

func NewTokens(m map[string]string) *Tokens {
	t := &Tokens{to: m, from: map[string]string{}}
	var p []string
	for k, v := range m {
		t.from[v] = k
		p = append(p, v, k)
	}
	t.rep = strings.NewReplacer(p...)
	return t
}

func (t *Tokens) Real(s string) string {
	if v, ok := t.to[s]; ok {
		return v
	}
	return s
}

func (t *Tokens) Name(s string) string {
	if v, ok := t.from[s]; ok {
		return v
	}
	return s
}

// InText replaces every real content by its token.
func (t *Tokens) InText(s string) string { return t.rep.Replace(s) }

// Table computes the whole table of facts, closed under rewriting to canonical forms.
func Table(lit Literals) M {
	tok := NewTokens(lit.Tokens)
	layouts := append([]string{""}, lit.Layouts...)
	nums, strs, times := M{}, M{}, M{}
	var addNum, addStr, addTime func(string)
	addNum = func(s string) {
		if _, ok := nums[s]; ok || s == "inf" || s == "nan" || s == "!" {
			return
		}
		f := Num(s)
		nums[s] = f
		addNum(f["i"].(string))
		addNum(f["f"].(string))
		addNum(f["h"].(string))
		for _, w := range f["w"].(M) {
			addNum(w.(string))
		}
	}
	addStr = func(s string) {
		if _, ok := strs[s]; ok {
			return
		}
		f := Str(tok.Real(s), layouts)
		strs[s] = f
		for _, k := range []string{"u", "y"} {
			if v := f[k].(string); v != "!" {
				addStr(v)
			}
		}
		for _, v := range f["t"].(M) {
			addTime(v.(string))
		}
	}
	addTime = func(c string) {
		if _, ok := times[c]; ok {
			return
		}
		t, err := time.Parse(Canon, c)
		if err != nil {
			panic(err)
		}
		f := Time(t, layouts)
		times[c] = f
		for _, v := range f["x"].(M) {
			addStr(v.(string))
		}
		for _, v := range f["r"].(M) {
			if v != "!" {
				addTime(v.(string))
			}
		}
	}
	for _, s := range lit.Num {
		addNum(s)
	}
	for _, s := range lit.Str {
		addStr(s)
	}
	for k := range lit.Tokens {
		addStr(k)
	}
	for _, s := range lit.Time {
		addTime(s)
	}
	addTime(time.Time{}.Format(Canon))
	zb := M{}
	for _, n := range lit.Bytes {
		s := base64.StdEncoding.EncodeToString(make([]byte, n))
		zb[strconv.Itoa(n)] = s
		addStr(s)
	}
	return M{"num": nums, "str": strs, "time": times, "zerobytes": zb}
}
