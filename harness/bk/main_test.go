package bk

import (
	"testing"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }
