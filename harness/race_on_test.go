//go:build race

package checks

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
