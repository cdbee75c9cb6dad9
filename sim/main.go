// The simulator: see DESIGN.md.
package main

import (
	_ "verifsim/checks"
	"verifsim/engine"
	"verifsim/sites"
)

func main() {
	engine.Sites = sites.Table
	engine.Command()
}
