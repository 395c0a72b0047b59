package conc

import "testing"

type testingT = testing.T
