// Command full judges histories in a process with the built-in formats.
package main

import (
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"
	"verif.local/sim/p15"
)

func main() {
	p15.Main([]p15.Builtin{{"xls", 1, xls.Open}, {"xlsx", 5, xlsx.Open}, {"tsv", 10, simple.OpenTSV}, {"csv", 15, simple.OpenCSV}})
}
