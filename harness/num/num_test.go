package num

import (
	"os"
	"testing"

	"verif/harness/pbt"
)

func TestPBT(t *testing.T) {
	m := map[string]*pbt.Prop{}
	for _, p := range []*pbt.Prop{C01, C02, C03, C04, C05, C06, C07, C08, C09, C37, C46} {
		m[p.ID] = p
	}
	os.Exit(pbt.Main(m))
}
