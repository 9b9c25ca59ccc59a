// Driver used by /verif: reads one case per line on stdin, executes it on the real code and prints one
// answer per line ("@@" + JSON). It is compiled inside the module through an overlay.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/coveooss/gotemplate/v3/template"
	"github.com/sirupsen/logrus"
)

type handler func(raw []byte) interface{}

var modes = map[string]handler{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "mode required")
		os.Exit(9)
	}
	run, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(9)
	}
	if os.Getenv("VERIF_LOGS") == "" {
		template.InternalLog.SetHookLevel("", logrus.PanicLevel.String())
		template.TemplateLog.SetHookLevel("", logrus.PanicLevel.String())
	}
	out := bufio.NewWriter(os.Stdout)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			answer, jerr := json.Marshal(run(line))
			if jerr != nil {
				answer, _ = json.Marshal(map[string]string{"harness": jerr.Error()})
			}
			out.WriteString("\n@@")
			out.Write(answer)
			out.WriteString("\n")
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

// mustDecode panics when the case is malformed: this is an error of the machinery.
func mustDecode(raw []byte, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		fmt.Fprintln(os.Stderr, "bad case", err, string(raw))
		os.Exit(9)
	}
}
