package net

import (
	"verif/vk"

	"github.com/RenatoGeh/gospn/sys"
)

func init() {
	vk.BeforeCase = func(seed int64) {
		sys.RefreshRandom(seed)
		sys.Verbose = false
	}
}
