package main

import (
	enc "encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
)

// Processing of a list of files through the API, with or without a handler.
type filesCase struct {
	Dir      string            `json:"dir"` // scratch folder: it becomes the current folder
	Target   string            `json:"target"`
	Files    []string          `json:"files"`
	Opts     map[string]bool   `json:"opts"`
	Ctx      enc.RawMessage    `json:"ctx"`
	Handler  map[string]string `json:"handler"` // decision by file; null: no handler
	Replaced map[string]string `json:"replaced"`
	Separate bool              `json:"separate"` // one call by file on the same template
}

type filesCall struct {
	Name, Original, Result string
	Changed                bool
	Failed                 bool
}

func init() {
	modes["files"] = func(raw []byte) (res interface{}) {
		var c filesCase
		mustDecode(raw, &c)
		type answer struct {
			Files []string    `json:"files"`
			Err   string      `json:"err"`
			Calls []filesCall `json:"calls"`
			Panic string      `json:"panic,omitempty"`
		}
		a := answer{}
		defer func() {
			if e := recover(); e != nil {
				a.Panic = fmt.Sprint(e)
				res = a
			}
		}()
		old, _ := os.Getwd()
		defer os.Chdir(old)
		if err := os.Chdir(c.Dir); err != nil {
			panic(err)
		}
		collections.SetListHelper(json.GenericListHelper)
		collections.SetDictionaryHelper(json.DictionaryHelper)
		ctx, err := makeContext([]byte(c.Ctx), "")
		if err != nil {
			panic(err)
		}
		t, err := template.NewTemplate("", ctx, "", optionSet(tplCase{Opts: c.Opts}))
		if err != nil {
			panic(err)
		}
		var handler template.CustomHandler
		if c.Handler != nil {
			handler = func(name, original string, result *string, changed bool, status error) (bool, error) {
				call := filesCall{Name: name, Original: original, Changed: changed, Failed: status != nil}
				if result != nil {
					call.Result = *result
				}
				a.Calls = append(a.Calls, call)
				switch c.Handler[filepath.Clean(name)] {
				case "fail":
					return changed, fmt.Errorf("refused by the handler")
				case "clear":
					if status != nil {
						*result = c.Replaced[filepath.Clean(name)]
					}
					return true, nil
				case "replace":
					*result = c.Replaced[filepath.Clean(name)]
					return true, nil
				case "touch":
					return true, status
				}
				return false, status
			}
		}
		target := c.Target
		if c.Separate {
			for _, f := range c.Files {
				r, err := t.ProcessTemplatesWithHandler(c.Dir, target, handler, f)
				a.Files = append(a.Files, r...)
				if err != nil {
					a.Err += err.Error() + "\n"
				}
			}
			return a
		}
		if a.Files, err = t.ProcessTemplatesWithHandler(c.Dir, target, handler, c.Files...); err != nil {
			a.Err = err.Error()
			if a.Err == "" {
				a.Err = "(empty error)"
			}
		}
		return a
	}
}
