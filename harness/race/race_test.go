package race

import (
	"os"
	"testing"

	"verif/harness/pbt"
)

func TestPBT(t *testing.T) {
	m := map[string]*pbt.Prop{}
	for _, p := range []*pbt.Prop{C45, C47, C51} {
		m[p.ID] = p
	}
	os.Exit(pbt.Main(m))
}
