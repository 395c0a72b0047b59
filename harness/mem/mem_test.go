package mem

import (
	"os"
	"testing"

	"verif/harness/pbt"
)

func TestPBT(t *testing.T) {
	os.Exit(pbt.Main(map[string]*pbt.Prop{C50.ID: C50}))
}
