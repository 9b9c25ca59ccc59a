package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/hcl"
	gtjson "github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/gotemplate/v3/utils"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"
)

type impl struct {
	name string
	d    collections.IDictionaryHelper
	l    collections.IListHelper
}

var impls = map[string]impl{
	"base": {"base", implementation.DictionaryHelper, implementation.GenericListHelper},
	"json": {"json", gtjson.DictionaryHelper, gtjson.GenericListHelper},
	"yaml": {"yaml", yaml.DictionaryHelper, yaml.GenericListHelper},
	"hcl":  {"hcl", hcl.DictionaryHelper, hcl.GenericListHelper},
	"xml":  {"xml", xml.DictionaryHelper, xml.GenericListHelper},
}
var implNames = []string{"base", "json", "yaml", "hcl"}

type heapStep struct {
	O string   `json:"o"`
	A []string `json:"a"`
	R string   `json:"r"`
	V []string `json:"v"`
}

type heapCase struct {
	Steps  []heapStep `json:"steps"`
	Impl   string     `json:"impl"`   // an implementation, or "mixed"
	Global string     `json:"global"` // implementation registered globally
	Conc   int        `json:"conc"`   // choice of the concrete values of the atoms
	Via    string     `json:"via"`    // api or template
}

// Concrete values standing for the atoms of the model
var concretes = []map[string]interface{}{
	{"1": 1, "2": 2, `"a"`: "a", `"b"`: "b", `""`: ""},
	{"1": 1.5, "2": 2.25, `"a"`: "A b", `"b"`: "b.c", `""`: ""},
	{"1": 1, "2": 10, `"a"`: "True x", `"b"`: "é\"[0]", `""`: ""},
	{"1": 17, "2": 42, `"a"`: "aaa", `"b"`: "bb", `""`: ""},
	{"1": false, "2": true, `"a"`: "z", `"b"`: "zé", `""`: ""}, // false < true keeps the order of the keys
}

type heapEnv struct {
	conc  map[string]interface{}
	atom  map[string]string // Go type and value -> atom
	keyOf map[string]string // concrete key -> key of the model
	key   map[string]string // key of the model -> concrete key
}

func newHeapEnv(conc int) *heapEnv {
	env := &heapEnv{conc: concretes[conc%len(concretes)], atom: map[string]string{}, keyOf: map[string]string{}, key: map[string]string{}}
	for a, v := range env.conc {
		env.atom[fmt.Sprintf("%T:%v", v, v)] = a
		k := a
		if strings.HasPrefix(a, `"`) {
			k = a[1 : len(a)-1]
		}
		if k != "" {
			env.key[k] = fmt.Sprint(v)
			env.keyOf[fmt.Sprint(v)] = k
		}
	}
	env.key["c"], env.keyOf["😀z"] = "😀z", "c" // after all the others
	return env
}

// render gives the deep value of a Go value in the notation of the model.
func (env *heapEnv) render(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case collections.IDictionary:
		m := map[string]interface{}{}
		for k, e := range v.AsMap() {
			m[k] = e
		}
		return env.renderMap(m)
	case collections.IGenericList:
		return env.renderList(v.AsArray())
	case collections.String:
		return env.render(string(v))
	case float64:
		if v == float64(int(v)) {
			return env.render(int(v))
		}
	case int64:
		return env.render(int(v))
	}
	if a, ok := env.atom[fmt.Sprintf("%T:%v", v, v)]; ok {
		return a
	}
	if k, ok := v.(string); ok {
		if name, ok := env.keyOf[k]; ok {
			return strconv.Quote(name)
		}
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Map:
		m := map[string]interface{}{}
		for _, k := range rv.MapKeys() {
			m[fmt.Sprint(k)] = rv.MapIndex(k).Interface()
		}
		return env.renderMap(m)
	case reflect.Slice, reflect.Array:
		l := make([]interface{}, rv.Len())
		for i := range l {
			l[i] = rv.Index(i).Interface()
		}
		return env.renderList(l)
	}
	out, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("?%T:%v", v, v)
	}
	return string(out)
}

func (env *heapEnv) renderMap(m map[string]interface{}) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	parts := make([]string, len(keys))
	for i, k := range keys {
		name, ok := env.keyOf[k]
		if !ok {
			name = "?" + k
		}
		parts[i] = fmt.Sprintf("%q:%s", name, env.render(m[k]))
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func (env *heapEnv) renderList(l []interface{}) string {
	parts := make([]string, len(l))
	for i := range l {
		parts[i] = env.render(l[i])
	}
	return "[" + strings.Join(parts, ",") + "]"
}

// checkTypes verifies that every nested object is of the expected implementation.
func checkTypes(v interface{}, name string) string {
	switch v := v.(type) {
	case collections.IDictionary:
		if v.TypeName().Str() != name {
			return fmt.Sprintf("dictionary of type %s instead of %s", v.TypeName(), name)
		}
		for _, e := range v.AsMap() {
			if r := checkTypes(e, name); r != "" {
				return r
			}
		}
	case collections.IGenericList:
		if v.TypeName().Str() != name {
			return fmt.Sprintf("list of type %s instead of %s", v.TypeName(), name)
		}
		for _, e := range v.AsArray() {
			if r := checkTypes(e, name); r != "" {
				return r
			}
		}
	}
	return ""
}

type heapMachine struct {
	*heapEnv
	impl  func() impl
	regs  []interface{}
	count int
}

func (h *heapMachine) val(o string) interface{} {
	if strings.HasPrefix(o, "x") {
		i, _ := strconv.Atoi(o[1:])
		return h.regs[i-1]
	}
	if o == "null" {
		return nil
	}
	v, ok := h.conc[o]
	if !ok {
		panic("unknown operand " + o)
	}
	return v
}

func (h *heapMachine) vals(o []string) []interface{} {
	r := make([]interface{}, len(o))
	for i := range o {
		r[i] = h.val(o[i])
	}
	return r
}

func (h *heapMachine) keys(o []string) []interface{} {
	r := make([]interface{}, len(o))
	for i := range o {
		r[i] = h.key[o[i]]
	}
	return r
}

func ints(o []string) []int {
	r := make([]int, len(o))
	for i := range o {
		r[i], _ = strconv.Atoi(o[i])
	}
	return r
}

func (h *heapMachine) list(items ...interface{}) collections.IGenericList {
	r := h.impl().l.CreateList(len(items))
	for i := range items {
		if _, err := r.Set(i, items[i]); err != nil {
			panic(err)
		}
	}
	return r
}

func (h *heapMachine) dict(kv ...interface{}) collections.IDictionary {
	r := h.impl().d.CreateDictionary()
	for i := 0; i < len(kv); i += 2 {
		r.Set(h.key[kv[i].(string)], kv[i+1])
	}
	return r
}

func (h *heapMachine) init(shape string) {
	c := func(a string) interface{} { return h.val(a) }
	switch shape {
	case "1":
		r1 := h.list(c("1"), c(`"a"`))
		h.regs = []interface{}{r1, h.dict("a", c("1"), "b", r1)}
	case "2":
		r1 := h.list(c("1"), c("2"), c("1"))
		r2 := h.dict("a", c("2"))
		h.regs = []interface{}{r1, h.dict("a", r2, "c", r1), h.list(r2, r1, nil), r2}
	case "3":
		r1 := h.list()
		r2 := h.dict()
		h.regs = []interface{}{r1, r2, h.dict("a", r2, "b", r1), h.dict("b", h.list(r1, c("1")))}
	case "4":
		r1 := h.list(c(`"b"`), c(`""`), nil)
		h.regs = []interface{}{r1, h.dict("a", h.dict("c", c(`"b"`)), "b", c("1")),
			h.dict("a", h.dict("c", c("1"), "b", r1), "c", c("2"))}
	case "5":
		r1 := h.list(c("2"))
		h.regs = []interface{}{r1, h.dict(), h.dict("a", c("1"), "b", c("2")),
			h.dict("a", c(`"a"`), "b", h.dict("c", c("2"), "a", r1), "c", c("1")),
			h.dict("b", h.dict("c", c("1"), "b", c(`"b"`)), "a", c("2"))}
	default:
		panic("shape " + shape)
	}
}

// native converts to plain Go maps and slices.
func native(v interface{}) interface{} {
	switch v := v.(type) {
	case collections.IDictionary:
		m := map[string]interface{}{}
		for k, e := range v.AsMap() {
			m[k] = native(e)
		}
		return m
	case collections.IGenericList:
		l := make([]interface{}, v.Len())
		for i, e := range v.AsArray() {
			l[i] = native(e)
		}
		return l
	}
	return v
}

// do executes one step on the real objects. It returns the values to keep and the textual result.
func (h *heapMachine) do(s heapStep) (keep []interface{}, res string, err error) {
	res = "-"
	var lst collections.IGenericList
	var dct collections.IDictionary
	if len(s.A) > 0 && strings.HasPrefix(s.A[0], "x") {
		switch v := h.val(s.A[0]).(type) {
		case collections.IGenericList:
			lst = v
		case collections.IDictionary:
			dct = v
		}
	}
	one := func(v interface{}) { keep = append(keep, v) }
	switch s.O {
	case "list":
		one(h.impl().l.NewList(h.vals(s.A)...))
	case "reverse":
		one(lst.Reverse())
	case "unique":
		one(lst.Unique())
	case "removeNil":
		one(lst.RemoveNil())
	case "removeEmpty":
		one(lst.RemoveEmpty())
	case "append":
		one(lst.Append(h.vals(s.A[1:])...))
	case "prepend":
		one(lst.Prepend(h.vals(s.A[1:])...))
	case "union":
		one(lst.Union(h.vals(s.A[1:])...))
	case "intersect":
		one(lst.Intersect(h.vals(s.A[1:])...))
	case "without":
		one(lst.Without(h.vals(s.A[1:])...))
	case "removeAt":
		idx := ints(s.A[1:])
		one(lst.Remove(idx...))
		if !reflect.DeepEqual(idx, ints(s.A[1:])) {
			return nil, "", fmt.Errorf("Remove altered its arguments: %v", idx)
		}
	case "pop":
		v, rest := lst.Pop(ints(s.A[1:])...)
		one(rest)
		one(v)
	case "setAt":
		v, e := lst.Set(ints(s.A[1:2])[0], h.val(s.A[2]))
		if e != nil {
			return nil, "error", nil
		}
		one(v)
	case "getAt":
		one(lst.Get(ints(s.A[1:])...))
	case "first":
		one(lst.First())
	case "last":
		one(lst.Last())
	case "contains":
		res = fmt.Sprint(lst.Contains(h.vals(s.A[1:])...))
	case "containsStrict":
		res = fmt.Sprint(lst.ContainsStrict(h.vals(s.A[1:])...))
		if res != fmt.Sprint(lst.HasStrict(h.vals(s.A[1:])...)) {
			return nil, "", fmt.Errorf("ContainsStrict and HasStrict differ")
		}
	case "findStrict":
		res = h.render(lst.FindStrict(h.val(s.A[1])))
	case "find":
		res = h.render(lst.Find(h.val(s.A[1])))
	case "len":
		if lst.Len() != lst.Count() {
			return nil, "", fmt.Errorf("Len and Count differ")
		}
		res = fmt.Sprint(lst.Len())
	case "clone":
		if lst != nil {
			one(lst.Clone())
		} else {
			one(dct.Clone())
		}
	case "dict":
		d := h.impl().d.CreateDictionary()
		for i := 0; i < len(s.A); i += 2 {
			d.Set(h.key[s.A[i]], h.val(s.A[i+1]))
		}
		one(d)
	case "set":
		dct.Set(h.key[s.A[1]], h.val(s.A[2]))
	case "add":
		dct.Add(h.key[s.A[1]], h.val(s.A[2]))
	case "get":
		one(dct.Get(h.keys(s.A[1:])...))
	case "has":
		res = fmt.Sprint(dct.Has(h.keys(s.A[1:])...))
	case "default":
		one(dct.Default(h.key[s.A[1]], h.val(s.A[2])))
	case "delete":
		if _, e := dct.Delete(h.key[s.A[1]]); e != nil {
			res = "error"
		}
	case "flush":
		dct.Flush(h.keys(s.A[1:])...)
	case "popKey":
		one(dct.Pop(h.keys(s.A[1:])...))
	case "pick":
		one(dct.Clone(h.keys(s.A[1:])...))
	case "omit":
		k := h.keys(s.A[1:])
		if len(k) == 0 {
			k = []interface{}{"-missing-"}
		}
		one(dct.Omit(k[0], k[1:]...))
	case "keys":
		one(dct.GetKeys())
	case "keysText":
		r := make([]string, 0)
		for _, k := range dct.KeysAsString() {
			r = append(r, strconv.Quote(h.keyOf[k.Str()]))
		}
		res = "[" + strings.Join(r, ",") + "]"
		if dct.Len() != len(r) || dct.Count() != len(r) {
			return nil, "", fmt.Errorf("Len and number of keys differ")
		}
	case "values":
		one(dct.GetValues())
	case "transpose":
		one(dct.Transpose())
	case "merge":
		others := make([]collections.IDictionary, 0)
		for _, a := range s.A[2:] {
			others = append(others, h.val(a).(collections.IDictionary))
		}
		one(dct.Merge(h.val(s.A[1]).(collections.IDictionary), others...))
	case "mergeNew":
		m1 := native(h.val(s.A[0])).(map[string]interface{})
		m2 := native(h.val(s.A[1])).(map[string]interface{})
		before := h.render(m1) + h.render(m2)
		r, e := utils.MergeDictionaries(m1, m2)
		if e != nil {
			return nil, "", e
		}
		if before != h.render(m1)+h.render(m2) {
			return nil, "", fmt.Errorf("MergeDictionaries altered its sources")
		}
		res = h.render(r)
	case "pluck":
		// there is no such operation in the interfaces: get on each dictionary
		r := h.impl().l.CreateList()
		for _, a := range s.A[:2] {
			d := h.val(a).(collections.IDictionary)
			if d.Has(h.key[s.A[2]]) {
				r = r.Append(d.Get(h.key[s.A[2]]))
			}
		}
		one(r)
	case "native":
		n := dct.Native()
		if bad := notNative(n); bad != "" {
			return nil, "", fmt.Errorf("Native contains %s", bad)
		}
		res = h.render(n)
	case "roundTrip":
		im := impls[dct.TypeName().Str()]
		codec := gtjson.Marshal
		decode := func(b []byte, out interface{}) error { return gtjson.Unmarshal(b, out) }
		if h.count++; h.count%2 == 0 || dct.TypeName().Str() == "yaml" {
			codec, decode = yaml.Marshal, func(b []byte, out interface{}) error { return yaml.Unmarshal(b, out) }
		}
		text, err := codec(dct)
		if err != nil {
			return nil, "", err
		}
		var out interface{}
		if err := decode(text, &out); err != nil {
			return nil, "", err
		}
		// converted again in the type of the source
		d := im.d.CreateDictionary()
		for k, v := range native(out).(map[string]interface{}) {
			d.Set(k, v)
		}
		one(d)
	default:
		panic("unknown operation " + s.O)
	}
	return
}

func notNative(v interface{}) string {
	switch v := v.(type) {
	case collections.IDictionary, collections.IGenericList:
		return fmt.Sprintf("%T", v)
	case map[string]interface{}:
		for _, e := range v {
			if r := notNative(e); r != "" {
				return r
			}
		}
	case []interface{}:
		for _, e := range v {
			if r := notNative(e); r != "" {
				return r
			}
		}
	}
	return ""
}

func init() {
	modes["heap"] = func(raw []byte) interface{} {
		var c heapCase
		mustDecode(raw, &c)
		g := impls[c.Global]
		collections.SetListHelper(g.l)
		collections.SetDictionaryHelper(g.d)
		if c.Via == "template" {
			return heapTemplate(c)
		}
		return heapAPI(c)
	}
}

type diff struct {
	Ok   bool        `json:"ok"`
	Step int         `json:"step,omitempty"`
	What string      `json:"what,omitempty"`
	Want interface{} `json:"want,omitempty"`
	Got  interface{} `json:"got,omitempty"`
}

func heapAPI(c heapCase) (result diff) {
	h := &heapMachine{heapEnv: newHeapEnv(c.Conc)}
	h.impl = func() impl {
		if c.Impl == "mixed" {
			h.count++
			return impls[implNames[(h.count*7+len(h.regs)+c.Conc)%len(implNames)]]
		}
		return impls[c.Impl]
	}
	step := 0
	defer func() {
		if r := recover(); r != nil {
			result = diff{Step: step, What: fmt.Sprintf("panic: %v", r)}
		}
	}()
	for i, s := range c.Steps {
		step = i
		if s.O == "init" {
			h.init(s.A[0])
		} else {
			keep, res, err := h.do(s)
			if err != nil {
				return diff{Step: i, What: err.Error()}
			}
			h.regs = append(h.regs, keep...)
			if res != s.R {
				return diff{Step: i, What: "result of " + s.O, Want: s.R, Got: res}
			}
		}
		got := make([]string, len(h.regs))
		for j := range h.regs {
			got[j] = h.render(h.regs[j])
		}
		if !reflect.DeepEqual(got, s.V) {
			return diff{Step: i, What: "values after " + s.O, Want: s.V, Got: got}
		}
		if c.Impl != "mixed" {
			for j := range h.regs {
				if bad := checkTypes(h.regs[j], c.Impl); bad != "" {
					return diff{Step: i, What: fmt.Sprintf("type of x%d after %s: %s", j+1, s.O, bad)}
				}
			}
		}
	}
	return diff{Ok: true}
}

// ------------------------------------------------------------------ through the template functions

func heapTemplate(c heapCase) (result diff) {
	h := &heapMachine{heapEnv: newHeapEnv(c.Conc)}
	lit := func(o string) string {
		if strings.HasPrefix(o, "x") {
			return "$" + o
		}
		v := h.val(o)
		switch v := v.(type) {
		case nil:
			return "nil"
		case string:
			return strconv.Quote(v)
		}
		return fmt.Sprint(v)
	}
	lits := func(o []string) string {
		r := make([]string, len(o))
		for i := range o {
			r[i] = lit(o[i])
		}
		return strings.Join(r, " ")
	}
	key := func(k string) string { return strconv.Quote(h.key[k]) }
	keys := func(o []string) string {
		r := make([]string, len(o))
		for i := range o {
			r[i] = key(o[i])
		}
		return strings.Join(r, " ")
	}
	var code strings.Builder
	var want []string
	n := 0
	for _, s := range c.Steps {
		res := ""
		let := func(expr string) { n++; fmt.Fprintf(&code, "{{ $x%d := %s }}", n, expr) }
		text := func(expr string) { fmt.Fprintf(&code, "{{ %s }}\n", expr); res = s.R }
		switch s.O {
		case "init":
			switch s.A[0] {
			case "1":
				let("list " + lits([]string{"1", `"a"`}))
				let(fmt.Sprintf("dict %s %s %s $x1", key("a"), lit("1"), key("b")))
			case "2":
				let("list " + lits([]string{"1", "2", "1"}))
				fmt.Fprintf(&code, "{{ $y2 := dict %s %s }}", key("a"), lit("2"))
				let(fmt.Sprintf("dict %s $y2 %s $x1", key("a"), key("c")))
				let("list $y2 $x1 nil")
				let("$y2")
			case "3":
				let("list")
				let("dict")
				let(fmt.Sprintf("dict %s $x2 %s $x1", key("a"), key("b")))
				let(fmt.Sprintf("dict %s (list $x1 %s)", key("b"), lit("1")))
			case "4":
				let("list " + lits([]string{`"b"`, `""`, "null"}))
				let(fmt.Sprintf("dict %s (dict %s %s) %s %s", key("a"), key("c"), lit(`"b"`), key("b"), lit("1")))
				let(fmt.Sprintf("dict %s (dict %s %s %s $x1) %s %s", key("a"), key("c"), lit("1"), key("b"), key("c"), lit("2")))
			case "5":
				let("list " + lit("2"))
				let("dict")
				let(fmt.Sprintf("dict %s %s %s %s", key("a"), lit("1"), key("b"), lit("2")))
				let(fmt.Sprintf("dict %s %s %s (dict %s %s %s $x1) %s %s", key("a"), lit(`"a"`), key("b"), key("c"), lit("2"), key("a"), key("c"), lit("1")))
				let(fmt.Sprintf("dict %s (dict %s %s %s %s) %s %s", key("b"), key("c"), lit("1"), key("b"), lit(`"b"`), key("a"), lit("2")))
			}
		case "list", "reverse", "unique", "removeNil", "removeEmpty", "append", "prepend", "union", "intersect", "without", "first", "last":
			let(s.O + " " + lits(s.A))
		case "dict":
			args := ""
			for i := 0; i < len(s.A); i += 2 {
				args += " " + key(s.A[i]) + " " + lit(s.A[i+1])
			}
			let("dict" + args)
		case "contains":
			text(fmt.Sprintf("toJson (contains %s)", lits(s.A)))
		case "containsStrict":
			text(fmt.Sprintf("toJson (containsStrict %s)", lits(s.A)))
		case "findStrict":
			text(fmt.Sprintf("toJson (findStrict %s)", lits(s.A)))
		case "find":
			text(fmt.Sprintf("toJson (find %s)", lits(s.A)))
		case "len":
			text(fmt.Sprintf("len %s", lit(s.A[0])))
		case "set":
			fmt.Fprintf(&code, "{{ set %s %s %s }}", lit(s.A[0]), key(s.A[1]), lit(s.A[2]))
		case "delete":
			fmt.Fprintf(&code, "{{ unset %s %s }}", lit(s.A[0]), key(s.A[1]))
		case "get":
			let(fmt.Sprintf("get %s %s", lit(s.A[0]), key(s.A[1])))
		case "has":
			text(fmt.Sprintf("hasKey %s %s", lit(s.A[0]), key(s.A[1])))
		case "omit":
			list := keys(s.A[1:])
			if len(s.A) == 1 {
				list = `"-missing-"`
			}
			let(fmt.Sprintf("omit %s %s", lit(s.A[0]), list))
		case "pick":
			let(fmt.Sprintf("%s %s %s", s.O, lit(s.A[0]), keys(s.A[1:])))
		case "keys", "values":
			let(fmt.Sprintf("%s %s", s.O, lit(s.A[0])))
		case "keysText":
			text(fmt.Sprintf("toJson (keys %s)", lit(s.A[0])))
		case "merge":
			let("merge " + lits(s.A))
		case "pluck":
			let(fmt.Sprintf("pluck %s %s", key(s.A[2]), lits(s.A[:2])))
		case "clone":
			// a deep copy through pick of all the keys is only possible for dictionaries: use the encoded form
			let(fmt.Sprintf("json (toJson %s)", lit(s.A[0])))
		case "roundTrip":
			let(fmt.Sprintf("json (toJson %s)", lit(s.A[0])))
		default:
			panic("operation not available in templates: " + s.O)
		}
		line := ""
		if res != "" {
			want = append(want, res)
		}
		for i := 1; i <= n; i++ {
			line += fmt.Sprintf("{{ toJson $x%d }}|", i)
		}
		code.WriteString(line + "\n")
		want = append(want, strings.Join(s.V, "|")+"|")
	}
	defer func() {
		if r := recover(); r != nil {
			result = diff{What: fmt.Sprintf("panic: %v", r), Got: code.String()}
		}
	}()
	t, err := template.NewTemplate("", nil, "", nil)
	if err != nil {
		return diff{What: "NewTemplate: " + err.Error()}
	}
	out, err := t.ProcessContent(code.String(), "heap.gt")
	if err != nil {
		return diff{What: "error: " + err.Error(), Got: code.String()}
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines) != len(want) {
		return diff{What: "number of lines", Want: want, Got: lines}
	}
	for i := range lines {
		got := lines[i]
		if strings.HasSuffix(got, "|") {
			parts := strings.Split(strings.TrimSuffix(got, "|"), "|")
			for j := range parts {
				parts[j] = h.renderText(parts[j])
			}
			got = strings.Join(parts, "|") + "|"
		} else if strings.HasPrefix(got, "[") {
			got = h.renderText(got)
		}
		if got != want[i] {
			return diff{Step: i, What: "values in template", Want: want[i], Got: []string{got, code.String()}}
		}
	}
	return diff{Ok: true}
}

// renderText gives the notation of the model for a JSON text
func (env *heapEnv) renderText(text string) string {
	var v interface{}
	if err := json.Unmarshal([]byte(text), &v); err != nil {
		return "?" + text
	}
	return env.render(v)
}
