//go:build go1.24

// c31js is the transcript alone, for platforms without processes.
package main

import (
	"os"
	"path/filepath"

	"github.com/sencha-dev/powkit/internal/zzverif/flavour"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
)

func main() {
	r := mon.Start("C31", "transcript")
	w := flavour.Build(r)
	if err := w.Write(r, r.N(6000, 120000), 4, filepath.Join(os.Getenv("ZZ_T"), "transcript")); err != nil {
		panic(err)
	}
	os.Exit(0)
}
