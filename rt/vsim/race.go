//go:build race

package vsim

import "runtime"

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceErrors counts the data races reported so far by this process.
func RaceErrors() int { return runtime.RaceErrors() }

const RaceEnabled = true
