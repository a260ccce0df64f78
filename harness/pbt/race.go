//go:build race

package pbt

import "runtime"

func init() { RaceErrors = runtime.RaceErrors }
