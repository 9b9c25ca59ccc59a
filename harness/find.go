package main

import (
	"fmt"

	"github.com/coveooss/gotemplate/v3/utils"
)

// Searches of files through the API.
func init() {
	modes["find"] = func(raw []byte) (res interface{}) {
		var c struct {
			Queries []struct {
				Dir      string   `json:"dir"`
				Max      int      `json:"max"`
				Follow   bool     `json:"follow"`
				Patterns []string `json:"patterns"`
			} `json:"queries"`
		}
		mustDecode(raw, &c)
		type answer struct {
			Files []string `json:"files"`
			Err   string   `json:"err"`
		}
		answers := []answer{}
		for _, q := range c.Queries {
			func() {
				var a answer
				defer func() {
					if rec := recover(); rec != nil {
						a.Err = fmt.Sprint(rec)
					}
					answers = append(answers, a)
				}()
				files, err := utils.FindFilesMaxDepth(q.Dir, q.Max, q.Follow, q.Patterns...)
				a.Files = files
				if err != nil {
					a.Err = err.Error()
				}
			}()
		}
		return answers
	}
}
