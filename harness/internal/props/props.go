// Package props states every property as executable checks.
package props

import (
	"verif/harness/internal/core"
)

// All maps a property to the function that yields its checks.
var All = map[string]func(r *core.Run) []core.Sub{}

func register(id string, f func(r *core.Run) []core.Sub) { All[id] = f }
