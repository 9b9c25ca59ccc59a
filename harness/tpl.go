package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
)

// Generic evaluation of contents with a template.
type tplCase struct {
	Ctx    json.RawMessage   `json:"ctx"`  // context (object), null for none
	Kind   string            `json:"kind"` // implementation of the context: base (default), json, yaml, hcl, native
	Opts   map[string]bool   `json:"opts"` // options by name
	Delims string            `json:"delims"`
	Subs   []string          `json:"subs"`
	Folder string            `json:"folder"`
	Texts  []tplText         `json:"texts"`
	Env    map[string]string `json:"env"`
	Shared bool              `json:"shared"` // all the contents on the same template (otherwise one each)
	Global string            `json:"global"`
	Start  string            `json:"start"`  // options before opts: the default ones, or none
	Steps  []optionStep      `json:"steps"`  // options switched before opts
	Assign string            `json:"assign"` // validation of assignments: strict, warning (default) or disabled
}

type optionStep struct {
	Set   bool     `json:"set"`
	Names []string `json:"names"`
}

type tplText struct {
	Name string `json:"name"`
	Text string `json:"text"`
}

type tplOut struct {
	Out   string `json:"out"`
	Err   string `json:"err,omitempty"`
	Panic string `json:"panic,omitempty"`
	Ctx   string `json:"ctx,omitempty"` // context after the evaluation (JSON)
}

var optionNames = map[string]template.Options{
	"Razor": template.Razor, "Extension": template.Extension, "Math": template.Math, "Sprig": template.Sprig,
	"Data": template.Data, "Logging": template.Logging, "Runtime": template.Runtime, "Utils": template.Utils,
	"Net": template.Net, "OS": template.OS, "Git": template.Git, "Overwrite": template.Overwrite,
	"OutputStdout": template.OutputStdout, "RenderingDisabled": template.RenderingDisabled,
	"AcceptNoValue": template.AcceptNoValue, "StrictErrorCheck": template.StrictErrorCheck,
}

func setAssign(mode string) {
	switch mode {
	case "strict":
		template.StrictAssignationMode = template.AssignationValidationStrict
	case "disabled":
		template.StrictAssignationMode = template.AssignationValidationDisabled
	default:
		template.StrictAssignationMode = template.AssignationValidationWarning
	}
}

func useGlobal(name string) {
	if g, ok := impls[name]; ok {
		collections.SetListHelper(g.l)
		collections.SetDictionaryHelper(g.d)
	}
}

func makeContext(raw json.RawMessage, kind string) (interface{}, error) {
	if len(raw) == 0 || string(raw) == "null" {
		return nil, nil
	}
	var m map[string]interface{}
	dec := json.NewDecoder(strings.NewReader(string(raw)))
	dec.UseNumber()
	if err := dec.Decode(&m); err != nil {
		return nil, err
	}
	v := numbers(m).(map[string]interface{})
	switch kind {
	case "native":
		return v, nil
	case "":
		return collections.AsDictionary(v), nil
	}
	d := impls[kind].d.CreateDictionary()
	for k, e := range v {
		d.Set(k, e)
	}
	return d, nil
}

// numbers converts json.Number to int or float64
func numbers(v interface{}) interface{} {
	switch v := v.(type) {
	case json.Number:
		if i, err := v.Int64(); err == nil {
			return int(i)
		}
		f, _ := v.Float64()
		return f
	case map[string]interface{}:
		for k := range v {
			v[k] = numbers(v[k])
		}
	case []interface{}:
		for i := range v {
			v[i] = numbers(v[i])
		}
	}
	return v
}

func optionSet(c tplCase) template.OptionsSet {
	set, opts := template.DefaultOptions(), c.Opts
	if c.Start == "none" {
		set = make(template.OptionsSet)
	}
	for _, step := range c.Steps {
		var names []template.Options
		for _, name := range step.Names {
			o, ok := optionNames[name]
			if !ok {
				panic("unknown option " + name)
			}
			names = append(names, o)
		}
		if step.Set {
			set = set.Set(names...)
		} else {
			set = set.Unset(names...)
		}
	}
	for name, on := range opts {
		o, ok := optionNames[name]
		if !ok {
			panic("unknown option " + name)
		}
		set[o] = on
	}
	return set
}

func evalText(t *template.Template, text tplText) (r tplOut) {
	defer func() {
		if e := recover(); e != nil {
			r.Panic = fmt.Sprint(e)
		}
	}()
	name := text.Name
	if name == "" {
		name = "case.gt"
	}
	out, err := t.ProcessContent(text.Text, name)
	r.Out = out
	if err != nil {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "(empty error)"
		}
	}
	return
}

func init() {
	modes["tpl"] = func(raw []byte) interface{} {
		var c tplCase
		mustDecode(raw, &c)
		useGlobal(c.Global)
		setAssign(c.Assign)
		for k, v := range c.Env {
			os.Setenv(k, v)
			defer os.Unsetenv(k)
		}
		res := make([]tplOut, len(c.Texts))
		var t *template.Template
		for i, text := range c.Texts {
			ctx, err := makeContext(c.Ctx, c.Kind)
			if err != nil {
				panic(err)
			}
			if t == nil || !c.Shared {
				if t, err = template.NewTemplate(c.Folder, ctx, c.Delims, optionSet(c), c.Subs...); err != nil {
					res[i] = tplOut{Err: "NewTemplate: " + err.Error()}
					t = nil
					continue
				}
			}
			res[i] = evalText(t, text)
			if ctx != nil && !c.Shared {
				out, _ := json.Marshal(native(ctx))
				res[i].Ctx = string(out)
			}
		}
		return res
	}
}
