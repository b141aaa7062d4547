//go:build go1.24

package heavyhash

import "github.com/sencha-dev/powkit/internal/zzverif/reg"

func init() {
	reg.Set("heavyhash.rank", func(m *[64][64]uint16) int { return calculateRank((*matrix)(m)) })
}
