package fsx

import (
	"os"
	"testing"

	"verif/harness/pbt"
)

var workdir string

func TestPBT(t *testing.T) {
	if w := os.Getenv("PBT_WORK"); w != "" {
		if err := os.Chdir(w); err == nil {
			workdir = w
		}
	}
	m := map[string]*pbt.Prop{}
	for _, p := range []*pbt.Prop{C31, C32, C33} {
		m[p.ID] = p
	}
	os.Exit(pbt.Main(m))
}
