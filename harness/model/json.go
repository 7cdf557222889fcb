package model

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The executor's picture of encoding/json. A marshalled value is a handle on a normalised tree, so that
// arbitrary scalars survive the trip through bytes; text (from files or programs) is parsed.

type jnum struct {
	kind int // 0 integer, 1 float, 2 literal text
	i    int
	f    float64
	lit  string
}

type jfield struct {
	k string
	v any
}

type jobj []jfield

var docs []any

const jmark = "\x00JSONDOC"

func wrapDoc(t any) []byte {
	docs = append(docs, t)
	return []byte(jmark + strconv.Itoa(len(docs)-1) + ";")
}

// JsonTree normalises a Go value.
func jsonTree(v reflect.Value) (any, error) {
	if !v.IsValid() {
		return nil, nil
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nil, nil
		}
		return jsonTree(v.Elem())
	case reflect.Bool:
		return v.Bool(), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return jnum{kind: 0, i: int(v.Int())}, nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return jnum{kind: 2, lit: strconv.FormatUint(v.Uint(), 10)}, nil
	case reflect.Float64, reflect.Float32:
		f := v.Float()
		if f != f || f > math.MaxFloat64 || f < -math.MaxFloat64 {
			return nil, errors.New("json: unsupported value: not a finite number")
		}
		return jnum{kind: 1, f: f}, nil
	case reflect.String:
		if v.Type() == reflect.TypeOf(json.Number("")) {
			if v.Len() == 0 {
				return jnum{kind: 2, lit: "0"}, nil
			}
			return jnum{kind: 2, lit: v.String()}, nil
		}
		return mangle(v.String()), nil
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return nil, nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return nil, errors.New("model: bytes in JSON")
		}
		out := make([]any, v.Len())
		for i := range out {
			x, err := jsonTree(v.Index(i))
			if err != nil {
				return nil, err
			}
			out[i] = x
		}
		return out, nil
	case reflect.Map:
		if v.IsNil() {
			return nil, nil
		}
		if v.Type().Key().Kind() != reflect.String {
			return nil, errors.New("json: unsupported type: " + v.Type().String())
		}
		var out jobj
		for _, k := range v.MapKeys() {
			x, err := jsonTree(v.MapIndex(k))
			if err != nil {
				return nil, err
			}
			out = append(out, jfield{mangle(k.String()), x})
		}
		sort.SliceStable(out, func(i, j int) bool { return out[i].k < out[j].k })
		if out == nil {
			out = jobj{}
		}
		return out, nil
	case reflect.Struct:
		out := jobj{}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			name, omit, skip := jtag(t.Field(i))
			if skip {
				continue
			}
			f := v.Field(i)
			if omit && jempty(f) {
				continue
			}
			x, err := jsonTree(f)
			if err != nil {
				return nil, err
			}
			out = append(out, jfield{name, x})
		}
		return out, nil
	}
	return nil, errors.New("json: unsupported type: " + v.Type().String())
}

func jtag(f reflect.StructField) (name string, omit, skip bool) {
	if f.PkgPath != "" {
		return "", false, true
	}
	tag := f.Tag.Get("json")
	if tag == "-" {
		return "", false, true
	}
	name, opts, _ := strings.Cut(tag, ",")
	if name == "" {
		name = f.Name
	}
	return name, strings.Contains(","+opts+",", ",omitempty,"), false
}

func jempty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Interface, reflect.Pointer:
		return v.IsNil()
	}
	return false
}

// mangle replaces invalid UTF-8.
func mangle(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ok = false
			break
		}
	}
	if ok || utf8.ValidString(s) {
		return s
	}
	out := ""
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			out += "\uFFFD"
		} else {
			out += s[i : i+n]
		}
		i += n
	}
	return out
}

func JsonMarshal(v any) ([]byte, error) {
	t, err := jsonTree(reflect.ValueOf(v))
	if err != nil {
		return nil, err
	}
	return wrapDoc(t), nil
}

func JsonMarshalIndent(v any, prefix, indent string) ([]byte, error) { return JsonMarshal(v) }

func JsonUnmarshal(data []byte, v any) error {
	p := &jparser{s: string(data)}
	t, err := p.doc()
	if err != nil {
		return err
	}
	p.space()
	if p.i < len(p.s) {
		return errors.New("invalid character after top-level value")
	}
	return assignTo(v, t)
}

func assignTo(v any, t any) error {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Pointer || rv.IsNil() {
		return errors.New("json: Unmarshal(non-pointer)")
	}
	return assign(rv.Elem(), t)
}

func typeErr(what string, v reflect.Value) error {
	return errors.New("json: cannot unmarshal " + what + " into Go value of type " + v.Type().String())
}

// useNumber is the setting of the decoder at work.
var useNumber bool

func jfloat(f float64) string {
	abs := math.Abs(f)
	if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
		return strconv.FormatFloat(f, 'e', -1, 64)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

func generic(t any) (any, error) {
	switch x := t.(type) {
	case nil, bool, string:
		return x, nil
	case jnum:
		if useNumber {
			switch x.kind {
			case 0:
				return json.Number(strconv.Itoa(x.i)), nil
			case 1:
				return json.Number(jfloat(x.f)), nil
			}
			return json.Number(x.lit), nil
		}
		switch x.kind {
		case 0:
			return float64(x.i), nil
		case 1:
			return x.f, nil
		}
		f, err := strconv.ParseFloat(x.lit, 64)
		if err != nil {
			return nil, errors.New("json: cannot unmarshal number " + x.lit + " into Go value of type float64")
		}
		return f, nil
	case []any:
		out := make([]any, len(x))
		var first error
		for i := range x {
			v, err := generic(x[i])
			if err != nil && first == nil {
				first = err
			}
			out[i] = v
		}
		return out, first
	case jobj:
		out := map[string]any{}
		var first error
		for _, f := range x {
			v, err := generic(f.v)
			if err != nil && first == nil {
				first = err
			}
			out[f.k] = v
		}
		return out, first
	}
	return nil, errors.New("model: bad tree")
}

// assign stores a tree; like encoding/json it carries on after a type mismatch and reports the first.
func assign(v reflect.Value, t any) error {
	if v.Kind() == reflect.Interface {
		if v.NumMethod() != 0 {
			return typeErr("value", v)
		}
		g, err := generic(t)
		if err != nil {
			return err
		}
		if g == nil {
			v.Set(reflect.Zero(v.Type()))
		} else {
			v.Set(reflect.ValueOf(g))
		}
		return nil
	}
	if t == nil {
		switch v.Kind() {
		case reflect.Pointer, reflect.Map, reflect.Slice:
			v.Set(reflect.Zero(v.Type()))
		}
		return nil
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		return assign(v.Elem(), t)
	}
	switch x := t.(type) {
	case bool:
		if v.Kind() != reflect.Bool {
			return typeErr("bool", v)
		}
		v.SetBool(x)
	case string:
		if v.Kind() != reflect.String {
			return typeErr("string", v)
		}
		v.SetString(x)
	case jnum:
		switch v.Kind() {
		case reflect.Float64:
			save := useNumber
			useNumber = false
			g, err := generic(x)
			useNumber = save
			if err != nil {
				return err
			}
			v.SetFloat(g.(float64))
		case reflect.Int, reflect.Int64:
			switch x.kind {
			case 0:
				v.SetInt(int64(x.i))
			case 1:
				if !(x.f >= -9223372036854775808.0 && x.f < 9223372036854775808.0) || float64(int64(x.f)) != x.f {
					return typeErr("number", v)
				}
				v.SetInt(int64(x.f))
			default:
				n, err := strconv.ParseInt(x.lit, 10, 64)
				if err != nil {
					return typeErr("number "+x.lit, v)
				}
				v.SetInt(n)
			}
		default:
			return typeErr("number", v)
		}
	case []any:
		if v.Kind() != reflect.Slice {
			return typeErr("array", v)
		}
		out := reflect.MakeSlice(v.Type(), len(x), len(x))
		var first error
		for i := range x {
			if err := assign(out.Index(i), x[i]); err != nil && first == nil {
				first = err
			}
		}
		v.Set(out)
		return first
	case jobj:
		var first error
		switch v.Kind() {
		case reflect.Map:
			if v.Type().Key().Kind() != reflect.String {
				return typeErr("object", v)
			}
			if v.IsNil() {
				v.Set(reflect.MakeMap(v.Type()))
			}
			for _, f := range x {
				e := reflect.New(v.Type().Elem()).Elem()
				if err := assign(e, f.v); err != nil {
					if first == nil {
						first = err
					}
				}
				v.SetMapIndex(reflect.ValueOf(f.k), e)
			}
		case reflect.Struct:
			st := v.Type()
			for _, f := range x {
				at := -1
				for i := 0; i < st.NumField(); i++ {
					name, _, skip := jtag(st.Field(i))
					if !skip && name == f.k {
						at = i
						break
					}
				}
				if at < 0 {
					for i := 0; i < st.NumField(); i++ {
						name, _, skip := jtag(st.Field(i))
						if !skip && strings.EqualFold(name, f.k) {
							at = i
							break
						}
					}
				}
				if at < 0 {
					continue
				}
				if err := assign(v.Field(at), f.v); err != nil && first == nil {
					first = err
				}
			}
		default:
			return typeErr("object", v)
		}
		return first
	}
	return nil
}

// ---- text

type jparser struct {
	s     string
	i     int
	depth int
}

var errEOF = errors.New("unexpected end of JSON input")

func (p *jparser) space() {
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case ' ', '\t', '\n', '\r':
			p.i++
		default:
			return
		}
	}
}

func (p *jparser) bad() error {
	if p.i >= len(p.s) {
		return errEOF
	}
	return fmt.Errorf("invalid character at offset %d", p.i)
}

func (p *jparser) doc() (any, error) {
	if strings.HasPrefix(p.s[p.i:], jmark) {
		rest := p.s[p.i+len(jmark):]
		j := strings.IndexByte(rest, ';')
		n, _ := strconv.Atoi(rest[:j])
		p.i += len(jmark) + j + 1
		return docs[n], nil
	}
	return p.value()
}

func (p *jparser) value() (any, error) {
	p.space()
	if p.i >= len(p.s) {
		return nil, errEOF
	}
	if p.depth > 10000 {
		return nil, errors.New("exceeded max depth")
	}
	c := p.s[p.i]
	switch {
	case c == '{':
		p.i++
		p.depth++
		defer func() { p.depth-- }()
		out := jobj{}
		p.space()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			return out, nil
		}
		for {
			p.space()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return nil, p.bad()
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.space()
			if p.i >= len(p.s) || p.s[p.i] != ':' {
				return nil, p.bad()
			}
			p.i++
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			out = append(out, jfield{k, v})
			p.space()
			if p.i >= len(p.s) {
				return nil, errEOF
			}
			if p.s[p.i] == ',' {
				p.i++
				continue
			}
			if p.s[p.i] == '}' {
				p.i++
				return out, nil
			}
			return nil, p.bad()
		}
	case c == '[':
		p.i++
		p.depth++
		defer func() { p.depth-- }()
		out := []any{}
		p.space()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			return out, nil
		}
		for {
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			out = append(out, v)
			p.space()
			if p.i >= len(p.s) {
				return nil, errEOF
			}
			if p.s[p.i] == ',' {
				p.i++
				continue
			}
			if p.s[p.i] == ']' {
				p.i++
				return out, nil
			}
			return nil, p.bad()
		}
	case c == '"':
		return p.str()
	case c == 't':
		return true, p.word("true")
	case c == 'f':
		return false, p.word("false")
	case c == 'n':
		return nil, p.word("null")
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	}
	return nil, p.bad()
}

func (p *jparser) word(w string) error {
	for j := 0; j < len(w); j++ {
		if p.i >= len(p.s) || p.s[p.i] != w[j] {
			return p.bad()
		}
		p.i++
	}
	return nil
}

func (p *jparser) digits() bool {
	n := 0
	for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
		p.i++
		n++
	}
	return n > 0
}

func (p *jparser) num() (any, error) {
	start := p.i
	if p.s[p.i] == '-' {
		p.i++
	}
	if p.i < len(p.s) && p.s[p.i] == '0' {
		p.i++
	} else if !p.digits() {
		return nil, p.bad()
	}
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		if !p.digits() {
			return nil, p.bad()
		}
	}
	if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++
		if p.i < len(p.s) && (p.s[p.i] == '+' || p.s[p.i] == '-') {
			p.i++
		}
		if !p.digits() {
			return nil, p.bad()
		}
	}
	return jnum{kind: 2, lit: p.s[start:p.i]}, nil
}

func (p *jparser) hex4() (int, bool) {
	if p.i+4 > len(p.s) {
		p.i = len(p.s)
		return 0, false
	}
	n := 0
	for j := 0; j < 4; j++ {
		c := p.s[p.i]
		switch {
		case c >= '0' && c <= '9':
			n = n*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			n = n*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			n = n*16 + int(c-'A') + 10
		default:
			return 0, false
		}
		p.i++
	}
	return n, true
}

func (p *jparser) str() (string, error) {
	p.i++
	out := ""
	for {
		if p.i >= len(p.s) {
			return "", errEOF
		}
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return mangle(out), nil
		case c < 0x20:
			return "", p.bad()
		case c != '\\':
			out += p.s[p.i : p.i+1]
			p.i++
		default:
			p.i++
			if p.i >= len(p.s) {
				return "", errEOF
			}
			switch p.s[p.i] {
			case '"':
				out += "\""
			case '\\':
				out += "\\"
			case '/':
				out += "/"
			case 'b':
				out += "\b"
			case 'f':
				out += "\f"
			case 'n':
				out += "\n"
			case 'r':
				out += "\r"
			case 't':
				out += "\t"
			case 'u':
				p.i++
				r, ok := p.hex4()
				if !ok {
					return "", p.bad()
				}
				if r >= 0xd800 && r < 0xdc00 && strings.HasPrefix(p.s[p.i:], "\\u") {
					save := p.i
					p.i += 2
					r2, ok := p.hex4()
					if !ok {
						return "", p.bad()
					}
					if r2 >= 0xdc00 && r2 < 0xe000 {
						r = 0x10000 + (r-0xd800)<<10 + (r2 - 0xdc00)
					} else {
						p.i = save
						r = 0xfffd
					}
				}
				if r >= 0xd800 && r < 0xe000 {
					r = 0xfffd
				}
				out += string(rune(r))
				continue
			default:
				return "", p.bad()
			}
			p.i++
		}
	}
}

// ---- streams

type jdec struct {
	r      io.Reader
	p      *jparser
	fail   error
	number bool
}

var (
	jdecs = map[*json.Decoder]*jdec{}
	jencs = map[*json.Encoder]io.Writer{}
)

func JsonNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	jdecs[d] = &jdec{r: r}
	return d
}

func JsonDecode(d *json.Decoder, v any) error {
	s := jdecs[d]
	if s.fail != nil {
		return s.fail
	}
	if s.p == nil {
		b, err := io.ReadAll(s.r)
		if err != nil {
			s.fail = err
			return err
		}
		s.p = &jparser{s: string(b)}
	}
	if !strings.HasPrefix(s.p.s[s.p.i:], jmark) {
		s.p.space()
	}
	if s.p.i >= len(s.p.s) {
		return io.EOF
	}
	t, err := s.p.doc()
	if err != nil {
		if err == errEOF {
			err = io.ErrUnexpectedEOF
		}
		s.fail = err
		return err
	}
	useNumber = s.number
	err = assignTo(v, t)
	useNumber = false
	return err
}

func JsonMore(d *json.Decoder) bool {
	s := jdecs[d]
	if s.p == nil {
		b, err := io.ReadAll(s.r)
		if err != nil {
			s.fail = err
			return false
		}
		s.p = &jparser{s: string(b)}
	}
	s.p.space()
	return s.p.i < len(s.p.s) && s.p.s[s.p.i] != ']' && s.p.s[s.p.i] != '}'
}

func JsonNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	jencs[e] = w
	return e
}

func JsonEncode(e *json.Encoder, v any) error {
	b, err := JsonMarshal(v)
	if err != nil {
		return err
	}
	_, err = jencs[e].Write(append(b, '\n'))
	return err
}

func JsonSetIndent(e *json.Encoder, a, b string) {}
func JsonSetEscapeHTML(e *json.Encoder, on bool) {}
func JsonUseNumber(d *json.Decoder) {
	jdecs[d].number = true
}

// JsonToken tells the end of the input from anything else.
func JsonToken(d *json.Decoder) (json.Token, error) {
	s := jdecs[d]
	if s.fail != nil {
		return nil, s.fail
	}
	if s.p == nil {
		b, err := io.ReadAll(s.r)
		if err != nil {
			return nil, err
		}
		s.p = &jparser{s: string(b)}
	}
	s.p.space()
	if s.p.i >= len(s.p.s) {
		return nil, io.EOF
	}
	return json.Delim(s.p.s[s.p.i]), nil
}

func JsonDisallow(d *json.Decoder) {}
