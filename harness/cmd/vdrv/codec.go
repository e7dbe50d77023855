package main

// Objects of spec/Codec.tla serialised and read by the real code.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"fpkiverif/lib"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"
	"github.com/netsec-ethz/fpki/pkg/common"
)

func init() { drivers["codec"] = codecDriver }

var codecKinds = map[string]reflect.Type{
	"pcsr":    reflect.TypeOf(common.PolicyCertificateSigningRequest{}),
	"pc":      reflect.TypeOf(common.PolicyCertificate{}),
	"spct":    reflect.TypeOf(common.SignedPolicyCertificateTimestamp{}),
	"pcrevsr": reflect.TypeOf(common.PolicyCertificateRevocationSigningRequest{}),
	"pcrev":   reflect.TypeOf(common.PolicyCertificateRevocation{}),
	"spcrevt": reflect.TypeOf(common.SignedPolicyCertificateRevocationTimestamp{}),
	"proof":   reflect.TypeOf(trillian.Proof{}),
	"root":    reflect.TypeOf(trilliantypes.LogRootV1{}),
	"siginput": reflect.TypeOf(common.SignedEntryTimestampSignatureInput{}),
}

var (
	timeType  = reflect.TypeOf(time.Time{})
	bytesType = reflect.TypeOf([]byte{})
)

// leafFields lists the fields with values of their own, through embedded structures and lists of structures.
func leafFields(t reflect.Type, prefix string) []string {
	r := []string{}
	for k := 0; k < t.NumField(); k++ {
		f := t.Field(k)
		if f.Name == "JSONField" || !f.IsExported() {
			continue
		}
		name := prefix + f.Name
		switch {
		case f.Type.Kind() == reflect.Struct && f.Type != timeType:
			if f.Anonymous {
				name = prefix
			} else {
				name += "."
			}
			r = append(r, leafFields(f.Type, name)...)
		case f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.Struct:
			r = append(r, name)
			r = append(r, leafFields(f.Type.Elem(), name+".")...)
		default:
			r = append(r, name)
		}
	}
	return r
}

type cvalue struct {
	W, Kind string
	Base    int
	Dev     []any
	Of      []cvalue
}

type codec struct {
	rng *rand.Rand
	res *lib.Result
}

var codecStrings = []string{"a", "é\u2028\"\\<&>", "\x00\x1f", "日本.example", "CN=a, O=\"b\"", strings.Repeat("long", 300), "null", "😀"}

// set gives the leaf called name (below prefix) the value number val; others get base.
func (c *codec) fill(v reflect.Value, prefix string, val func(name string) int) {
	t := v.Type()
	for k := 0; k < t.NumField(); k++ {
		f := t.Field(k)
		if f.Name == "JSONField" || !f.IsExported() {
			continue
		}
		name := prefix + f.Name
		x := v.Field(k)
		switch {
		case f.Type.Kind() == reflect.Struct && f.Type != timeType:
			if f.Anonymous {
				name = prefix
			} else {
				name += "."
			}
			c.fill(x, name, val)
		case f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.Struct:
			n := val(name)
			for _, s := range leafFields(f.Type.Elem(), name+".") {
				if n == 0 && val(s) != 0 {
					n = 1
				}
			}
			s := reflect.MakeSlice(f.Type, n, n)
			for i := 0; i < n; i++ {
				c.fill(s.Index(i), name+".", val)
			}
			if n > 0 || c.rng.Intn(2) == 0 {
				x.Set(s)
			}
		default:
			c.leaf(x, name, val(name))
		}
	}
}

func (c *codec) leaf(x reflect.Value, name string, n int) {
	h := int64(0)
	for _, ch := range name {
		h = h*31 + int64(ch)
	}
	// values 1 and 2 of a field differ in everything, or as little as possible
	far := int64(0)
	if (uint64(h)>>5+uint64(lib.Seed()))%3 == 0 {
		far = int64(n) * 7919
	}
	pick := func(k int) int { return int(uint64(h+far+lib.Seed()) % uint64(k)) }
	switch {
	case x.Type() == timeType:
		if n > 0 {
			ts := []time.Time{time.Unix(1700000000, 1).UTC(), time.Date(2024, 2, 29, 23, 59, 59, 999999999, time.FixedZone("", 5*3600+45*60)), time.Date(9999, 12, 31, 0, 0, 0, 0, time.UTC),
				time.Unix(1, 0).In(time.FixedZone("", -11*3600)), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC)}
			t := ts[pick(len(ts))]
			if n == 2 {
				if t.Nanosecond() < 2 { // in the same second
					t = t.Add(2 * time.Nanosecond)
				} else {
					t = t.Add(-time.Nanosecond)
				}
			}
			x.Set(reflect.ValueOf(t))
		}
	case x.Type() == bytesType:
		switch n {
		case 0:
			if c.rng.Intn(2) == 0 {
				x.SetBytes([]byte{})
			}
		default:
			b := bytes.Repeat([]byte{byte(h), 0xff, 0}, 1+pick(40))
			b[len(b)-1] = byte(n)
			x.SetBytes(b)
		}
	case x.Kind() == reflect.Bool:
		x.SetBool(n == 1)
	case x.CanInt():
		v := []int64{0, 1 + h%1000, -1 - h%1000}[n]
		if n > 0 && x.Type().Bits() == 64 {
			v = []int64{0, math.MaxInt64 - h%9, math.MinInt64 + h%9}[n]
		}
		x.SetInt(v)
	case x.CanUint():
		v := []uint64{0, 1, 2}[n]
		if n > 0 && x.Type().Bits() == 64 {
			v = math.MaxUint64 - uint64(n)
		}
		x.SetUint(v)
	case x.Kind() == reflect.String:
		if n > 0 {
			x.SetString(codecStrings[pick(len(codecStrings))] + strings.Repeat("!", n))
		}
	case x.Kind() == reflect.Slice:
		// lists of strings or of byte strings: the number of elements is one, or the second element differs
		l := []int{0, 2, 2}[n]
		if n == 0 && c.rng.Intn(2) == 0 {
			return
		}
		s := reflect.MakeSlice(x.Type(), l, l)
		for i := 0; i < l; i++ {
			if s.Index(i).Kind() == reflect.String {
				s.Index(i).SetString(codecStrings[(int(h)&15+i)%len(codecStrings)] + fmt.Sprint(i*n))
			} else {
				s.Index(i).SetBytes([]byte{byte(h), byte(i * n)})
			}
		}
		x.Set(s)
	default:
		lib.Fatal("field %s of type %v", name, x.Type())
	}
}

func vals(v cvalue, isBool func(string) bool) func(string) int {
	return func(name string) int {
		n := v.Base
		if d := v.Dev[0].(string); d != "" && d == name {
			n = int(v.Dev[1].(float64))
		}
		return n
	}
}

// build makes the Go value of v.
func (c *codec) build(v cvalue) reflect.Value {
	switch v.W {
	case "leaf":
		p := reflect.New(codecKinds[v.Kind])
		c.fill(p.Elem(), "", vals(v, nil))
		return p.Elem()
	case "ptr":
		e := c.build(v.Of[0])
		p := reflect.New(e.Type())
		p.Elem().Set(e)
		return p
	}
	items := []reflect.Value{}
	same := len(v.Of) > 0
	for _, x := range v.Of {
		items = append(items, c.build(x))
		same = same && items[0].Type() == items[len(items)-1].Type()
	}
	t := reflect.TypeOf([]any{})
	if same && c.rng.Intn(2) == 0 {
		t = reflect.SliceOf(items[0].Type())
	}
	l := reflect.MakeSlice(t, 0, len(items))
	for _, x := range items {
		l = reflect.Append(l, x)
	}
	return l
}

// same says why got is not the object want; lists are read as lists of any.
func (c *codec) same(want, got reflect.Value) string {
	for got.IsValid() && got.Kind() == reflect.Interface {
		got = got.Elem()
	}
	for want.Kind() == reflect.Interface {
		want = want.Elem()
	}
	if !got.IsValid() {
		return "nothing was read"
	}
	if want.Kind() == reflect.Pointer {
		if got.Kind() != reflect.Pointer || got.IsNil() {
			return fmt.Sprintf("a pointer was read as %v", got.Type())
		}
		return c.same(want.Elem(), got.Elem())
	}
	if want.Kind() == reflect.Slice {
		if got.Kind() != reflect.Slice || got.Len() != want.Len() {
			return fmt.Sprintf("a list of %d was read as %v", want.Len(), got.Type())
		}
		for k := 0; k < want.Len(); k++ {
			if s := c.same(want.Index(k), got.Index(k)); s != "" {
				return fmt.Sprintf("item %d: %s", k, s)
			}
		}
		return ""
	}
	if want.Type() != got.Type() {
		return fmt.Sprintf("%v was read as %v", want.Type(), got.Type())
	}
	if s := diff(want, got, want.Type().Name()); s != "" {
		return s
	}
	if eq, ok := equals(want, got); ok && !eq {
		return fmt.Sprintf("%v: the object read is not equal to the one written, though no field differs", want.Type())
	}
	return ""
}

// diff compares the fields themselves.
func diff(a, b reflect.Value, name string) string {
	switch {
	case a.Type() == timeType:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		_, ox := x.Zone()
		_, oy := y.Zone()
		if !x.Equal(y) || ox != oy {
			return fmt.Sprintf("%s is %v, was %v", name, y, x)
		}
	case a.Kind() == reflect.Struct:
		for k := 0; k < a.NumField(); k++ {
			f := a.Type().Field(k)
			if f.Name == "JSONField" || !f.IsExported() {
				continue
			}
			if s := diff(a.Field(k), b.Field(k), name+"."+f.Name); s != "" {
				return s
			}
		}
	case a.Kind() == reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s has %d elements, had %d", name, b.Len(), a.Len())
		}
		for k := 0; k < a.Len(); k++ {
			if s := diff(a.Index(k), b.Index(k), fmt.Sprintf("%s[%d]", name, k)); s != "" {
				return s
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s is %v, was %v", name, b.Interface(), a.Interface())
		}
	}
	return ""
}

// equals calls the object's own Equal, if it has one.
func equals(a, b reflect.Value) (bool, bool) {
	ptr := func(v reflect.Value) reflect.Value {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p
	}
	pa, pb := ptr(a), ptr(b)
	m := pa.MethodByName("Equal")
	if !m.IsValid() || m.Type().NumIn() != 1 {
		return false, false
	}
	switch m.Type().In(0) {
	case a.Type():
		return m.Call([]reflect.Value{pb.Elem()})[0].Bool(), true
	case pa.Type():
		return m.Call([]reflect.Value{pb})[0].Bool(), true
	}
	return false, false // of an embedded part only
}

// raws checks the text kept with the objects read from text.
func (c *codec) raws(got reflect.Value, text []byte, skip bool, report func(string)) {
	for got.Kind() == reflect.Interface || got.Kind() == reflect.Pointer {
		got = got.Elem()
	}
	if got.Kind() == reflect.Slice {
		var o struct{ O []json.RawMessage }
		lib.Must(json.Unmarshal(text, &o))
		for k := 0; k < got.Len() && k < len(o.O); k++ {
			c.raws(got.Index(k), o.O[k], skip, report)
		}
		return
	}
	d, ok := got.Interface().(common.MarshallableDocument)
	if !ok || got.Type() == codecKinds["siginput"] {
		return
	}
	raw, err := d.Raw()
	if err != nil {
		report(fmt.Sprintf("Raw fails: %v", err))
		return
	}
	field := got.FieldByName("JSONField")
	if skip {
		if field.Len() != 0 {
			report("text is kept although it was to be skipped")
		}
		back, err := common.FromJSON(raw)
		if err != nil {
			report(fmt.Sprintf("raw text cannot be read: %v", err))
		} else if s := c.same(got, reflect.Indirect(reflect.ValueOf(back))); s != "" {
			report("raw text stands for another object: " + s)
		}
	} else if !bytes.Equal(raw, bytes.TrimSpace(text)) {
		report(fmt.Sprintf("raw text of %v is %.120q, was read from %.120q", got.Type(), raw, text))
	}
}

func codecDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("codec", flag.ExitOnError)
	list := fs.String("list", "", "")
	values := fs.String("values", "", "")
	more := fs.Int("more", 1, "")
	lib.Must(fs.Parse(args))
	if *list != "" {
		out := map[string]any{}
		fields, keeps := map[string][]string{}, []string{}
		for k, t := range codecKinds {
			fields[k] = leafFields(t, "")
			if _, ok := reflect.Zero(t).Interface().(common.MarshallableDocument); ok {
				keeps = append(keeps, k)
			}
		}
		sort.Strings(keeps)
		out["fields"], out["keeps"] = fields, keeps
		b, _ := json.Marshal(out)
		lib.Must(os.WriteFile(*list, b, 0o644))
		res.Eval(1)
		res.Trace(1)
		return
	}
	c := &codec{rng: rand.New(rand.NewSource(lib.Seed())), res: res}
	dir := lib.Scratch()
	leaves := map[string][]cvalue{}
	texts := [][]byte{}
	lib.ReadLines(*values, func(line []byte) {
		var in struct {
			V    cvalue
			Skip bool
		}
		lib.Must(json.Unmarshal(line, &in))
		if in.V.W == "leaf" && !in.Skip {
			leaves[in.V.Kind] = append(leaves[in.V.Kind], in.V)
		}
		res.Trace(1)
		res.Eval(1)
		safely(res, "panic", "serialising "+string(line), string(line), func() {
			v := c.build(in.V)
			text, err := common.ToJSON(v.Interface())
			if err != nil {
				res.Violate("serialise", fmt.Sprintf("%s cannot be serialised: %v", line, err), string(line))
				return
			}
			if in.V.W != "leaf" || c.rng.Intn(20) == 0 {
				texts = append(texts, append([]byte{}, text...))
			}
			shape := c.rng.Intn(3)
			if shape == 1 {
				var b bytes.Buffer
				lib.Must(json.Indent(&b, text, " ", "\t"))
				text = b.Bytes()
			} else if shape == 2 {
				text = append(append([]byte(" \n"), text...), '\n', ' ')
			}
			orig := append([]byte{}, text...)
			opts := []common.FromJSONModifier{}
			if in.Skip {
				opts = append(opts, common.WithSkipCopyJSONIntoPolicyObjects)
			}
			back, err := common.FromJSON(text, opts...)
			if err != nil {
				res.Violate("read", fmt.Sprintf("the serialised form %.200s cannot be read: %v", text, err), string(text))
				return
			}
			if !bytes.Equal(text, orig) {
				res.Violate("input", fmt.Sprintf("reading changed its input %.200s", orig), string(orig))
			}
			for k := range text { // the caller may use its buffer for something else
				text[k] = '#'
			}
			if s := c.same(v, reflect.ValueOf(back)); s != "" {
				res.Violate("round-trip", fmt.Sprintf("%.300s: %s", orig, s), string(orig))
				return
			}
			c.raws(reflect.ValueOf(back), orig, in.Skip, func(s string) { res.Violate("raw", fmt.Sprintf("%.300s: %s", orig, s), string(orig)) })
			again, err := common.ToJSON(back)
			if err == nil {
				var b3 any
				b3, err = common.FromJSON(again)
				if err == nil {
					if s := c.same(v, reflect.ValueOf(b3)); s != "" {
						err = fmt.Errorf("%s", s)
					}
				}
			}
			if err != nil {
				res.Violate("again", fmt.Sprintf("%.300s, read and serialised again: %v", orig, err), string(orig))
			}
			if c.rng.Intn(8) == 0 {
				c.files(in.V, v, dir)
			}
		})
	})
	c.equality(leaves)
	for k := 0; k < *more; k++ {
		c.spoil(texts)
	}
	for _, bad := range []any{nil, 1, "x", struct{ A int }{1}, &struct{}{}, map[string]int{}, []int{1}, []any{nil}, (*common.PolicyCertificate)(nil), []*common.PolicyCertificate{nil}, []any{&common.PolicyCertificate{}, 3}} {
		safely(res, "panic-serialise", fmt.Sprintf("serialising %T %v", bad, bad), fmt.Sprintf("%T", bad), func() {
			res.Eval(1)
			if b, err := common.ToJSON(bad); err == nil {
				res.Violate("serialise-unknown", fmt.Sprintf("%T is serialised to %s", bad, b), fmt.Sprintf("%T", bad))
			}
		})
	}
}

// files writes v to a file; the readers of single kinds accept pointers to theirs only.
func (c *codec) files(m cvalue, v reflect.Value, dir string) {
	file := filepath.Join(dir, "object.json")
	if err := common.ToJSONFile(v.Interface(), file); err != nil {
		c.res.Violate("file", fmt.Sprintf("cannot write to a file: %v", err), nil)
		return
	}
	back, err := common.FromJSONFile(file)
	if err != nil {
		c.res.Violate("file", fmt.Sprintf("cannot read the file back: %v", err), nil)
	} else if s := c.same(v, reflect.ValueOf(back)); s != "" {
		c.res.Violate("file", "from file: "+s, nil)
	}
	kind := ""
	if m.W == "ptr" {
		kind = m.Of[0].Kind
	}
	try := func(k string, x any, err error) {
		c.res.Eval(1)
		if (err == nil) != (k == kind) {
			c.res.Violate("file-kind", fmt.Sprintf("file with %s of %q read as %s: error %v", m.W, kind, k, err), nil)
		} else if err == nil {
			if s := c.same(v, reflect.ValueOf(x)); s != "" {
				c.res.Violate("file", "from file as "+k+": "+s, nil)
			}
		}
	}
	pc, err := common.JsonFileToPolicyCert(file)
	try("pc", pc, err)
	sp, err := common.JsonFileToSPT(file)
	try("spct", sp, err)
	pr, err := common.JsonFileToProof(file)
	try("proof", pr, err)
	lr, err := common.JsonFileToSTH(file)
	try("root", lr, err)
}

// equality compares every two objects of a kind that have an Equal.
func (c *codec) equality(leaves map[string][]cvalue) {
	for kind, vs := range leaves {
		objs := make([]reflect.Value, len(vs))
		for k, v := range vs {
			objs[k] = c.build(v)
		}
		for i := range objs {
			other := c.build(vs[i]) // the same fields, in another object
			if eq, ok := equals(objs[i], other); ok {
				c.res.Eval(1)
				if d := diff(objs[i], other, kind); !eq && d == "" {
					c.res.Violate("equal-same", fmt.Sprintf("%s with %v: an object with the same fields is not equal", kind, vs[i].Dev), vs[i])
				}
			}
			for j := range objs {
				eq, ok := equals(objs[i], objs[j])
				if !ok {
					continue
				}
				c.res.Eval(1)
				d := diff(objs[i], objs[j], kind)
				if eq != (d == "") {
					c.res.Violate("equal", fmt.Sprintf("%s base %d with %v and base %d with %v: equal is %v (%s)", kind, vs[i].Base, vs[i].Dev, vs[j].Base, vs[j].Dev, eq, d), []any{vs[i], vs[j]})
				}
			}
		}
	}
}


// spoil breaks texts: reading them is refused with an error, whatever is broken and how deep inside.
func (c *codec) spoil(texts [][]byte) {
	type env struct {
		T any
		O json.RawMessage
	}
	for n, text := range texts {
		if n > 4000 {
			break
		}
		for _, how := range []string{"unknown", "empty", "stars", "no-kind", "number-kind", "payload-scalar", "payload-shape", "no-payload", "cut", "tail", "noise"} {
			bad := append([]byte{}, text...)
			must := true
			var deep func(t []byte) []byte
			deep = func(t []byte) []byte {
				var e env
				lib.Must(json.Unmarshal(t, &e))
				tag, _ := e.T.(string)
				var items []json.RawMessage
				isList := strings.HasSuffix(tag, "[]")
				if isList && json.Unmarshal(e.O, &items) == nil && len(items) > 0 && c.rng.Intn(3) > 0 {
					k := c.rng.Intn(len(items))
					items[k] = deep(items[k])
					e.O, _ = json.Marshal(items)
					b, _ := json.Marshal(e)
					return b
				}
				switch how {
				case "unknown":
					e.T = []string{"nope", "pc ", "PC", "p", "pcx", "*nope", "[", "[]x"}[c.rng.Intn(8)]
				case "empty":
					e.T = []string{"", "*"}[c.rng.Intn(2)]
				case "stars":
					e.T = "**" + strings.TrimPrefix(tag, "*")
				case "number-kind":
					e.T = 3
				case "payload-scalar":
					e.O = json.RawMessage([]string{"3", `"x"`, "true"}[c.rng.Intn(3)])
				case "payload-shape":
					if isList {
						e.O = json.RawMessage(`{"Version":1}`)
					} else {
						e.O = json.RawMessage(`[]`)
					}
				case "no-payload":
					return []byte(fmt.Sprintf(`{"T":%q}`, tag))
				case "no-kind":
					return []byte(fmt.Sprintf(`{"O":%s}`, e.O))
				}
				b, _ := json.Marshal(e)
				return b
			}
			switch how {
			case "cut":
				bad = bad[:c.rng.Intn(len(bad))]
			case "tail":
				bad = append(bad, []byte([]string{"x", "{}", "]", "}", "0"}[c.rng.Intn(5)])...)
			case "noise":
				must = false
				for k := 1 + c.rng.Intn(3); k > 0; k-- {
					bad[c.rng.Intn(len(bad))] = byte(c.rng.Intn(256))
				}
			default:
				bad = deep(bad)
			}
			c.res.Eval(1)
			safely(c.res, "panic-read", fmt.Sprintf("reading %.300q", bad), string(bad), func() {
				back, err := common.FromJSON(append([]byte{}, bad...))
				if err == nil && must {
					c.res.Violate("accepts", fmt.Sprintf("%s: %.300q is read as %T", how, bad, back), string(bad))
				}
				if err == nil && back != nil {
					if _, err := common.ToJSON(back); err != nil {
						c.res.Violate("accepts", fmt.Sprintf("%.300q is read as %T, which cannot be serialised: %v", bad, back, err), string(bad))
					}
				}
			})
		}
	}
}
