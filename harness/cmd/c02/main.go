//go:build go1.24

package main

import (
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
)

func main() {
	r := mon.Start("C02", "random small-cache DAG configurations (in memory and on disk) and the shipped presets; boundary-biased hashes, heights, nonces; every result compared with the independent specification; distinct by (hash, height, nonce, DAG)")
	hx.CheckDag(r, hx.Kaw, []string{"RVN"})
}
