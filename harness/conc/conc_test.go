package conc

import (
	"os"
	"testing"

	"verif/harness/pbt"
)

var theT *testing.T
var workdir string

func TestPBT(t *testing.T) {
	theT = t
	m := map[string]*pbt.Prop{}
	for _, p := range []*pbt.Prop{C34, C35, C36, C38} {
		m[p.ID] = p
	}
	os.Exit(pbt.Main(m))
}
