// Command genfile writes the files of a replay's scenario to a directory (for looking at them).
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
)

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var d struct{ Scenario *plan.Scenario }
	json.Unmarshal(b, &d)
	gen.LoadCorpus()
	for i := range d.Scenario.Files {
		f := &d.Scenario.Files[i]
		data, err := f.Bytes()
		if err != nil {
			panic(err)
		}
		p := filepath.Join(os.Args[2], filepath.Base(f.Path))
		os.WriteFile(p, data, 0644)
		fmt.Println(p, len(data))
	}
}
