package misc

import (
	"os"
	"testing"

	"verif/harness/pbt"
)

func TestPBT(t *testing.T) {
	m := map[string]*pbt.Prop{}
	for _, p := range []*pbt.Prop{C26, C27, C28, C29, C30, C39, C40, C42} {
		m[p.ID] = p
	}
	os.Exit(pbt.Main(m))
}
