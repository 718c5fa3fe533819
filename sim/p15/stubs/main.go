// Command stubs judges histories in a process without built-in formats.
package main

import "verif.local/sim/p15"

func main() { p15.Main(nil) }
