//go:build !race

package checks

func raceErrors() int { return 0 }
