//go:build go1.24

package progpow

import "github.com/sencha-dev/powkit/internal/zzverif/reg"

func init() { reg.Set("progpow.compute", compute) }
