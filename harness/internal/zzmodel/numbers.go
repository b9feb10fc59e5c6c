package zzmodel

import (
	"errors"
	"time"
)

// Ints, Floats and Durations are the numbers that texts stand for. Other texts
// are not numbers.
var (
	Ints      map[string]int64
	Floats    map[string]float64
	Durations map[string]time.Duration
)

var errNumber = errors.New("not a number")

//zz:for strconv.ParseInt if=numbers
func parseInt(s string, base, bits int) (int64, error) {
	if v, ok := Ints[s]; ok {
		return v, nil
	}
	return 0, errNumber
}

//zz:for strconv.Atoi if=numbers
func parseAtoi(s string) (int, error) {
	if v, ok := Ints[s]; ok {
		return int(v), nil
	}
	return 0, errNumber
}

//zz:for strconv.ParseFloat if=numbers
func parseFloat(s string, bits int) (float64, error) {
	if v, ok := Floats[s]; ok {
		return v, nil
	}
	if v, ok := Ints[s]; ok {
		return float64(v), nil
	}
	return 0, errNumber
}

//zz:for time.ParseDuration if=numbers
func parseDuration(s string) (time.Duration, error) {
	if v, ok := Durations[s]; ok {
		return v, nil
	}
	return 0, errNumber
}
