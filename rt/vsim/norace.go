//go:build !race

package vsim

func raceDisable() {}
func raceEnable()  {}

// RaceErrors counts the data races reported so far by this process.
func RaceErrors() int { return 0 }

const RaceEnabled = false
