package coll

import (
	"os"
	"testing"

	"verif/harness/pbt"
)

func TestPBT(t *testing.T) {
	os.Exit(pbt.Main(props))
}
