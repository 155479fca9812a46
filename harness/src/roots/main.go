// C20: packages are loaded once, and the reference filter loses nothing.
package main

import (
	"os"
	"path/filepath"

	"sigs.k8s.io/controller-tools/verifmc/mc"
)

func body(r *mc.Run) {
	drv := filepath.Join(r.Scratch, "driver.sh")
	if err := os.WriteFile(drv, []byte(driver), 0o755); err != nil {
		panic(err)
	}
	os.Setenv("GOPACKAGESDRIVER", drv)
	references(r)
	os.Setenv("GOPACKAGESDRIVER", "off")
	patterns(r)
	r.Sample("every way to refer to another package in every context; every list of patterns over a tree of nested modules")
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C20" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C20", Body: body,
		Rule:        "all references to another package (selector, alias, generic argument, constraint, array length through constants and expressions, dot and renamed imports) in all pairs of fourteen contexts and five forms of declaration, each under five filters, compared with go/types on everything; all lists of up to two (thorough: three) patterns over a tree of four modules from several directories; non-trivial: all",
		Assumptions: []string{"for the first part, packages are listed by a stand-in driver", "the second part runs the go command"}})
}
