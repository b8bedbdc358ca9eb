// Code generated by cmd/genalias. DO NOT EDIT.

package rand

import real "math/rand/v2"

type ChaCha8 = real.ChaCha8

var New = real.New
var NewChaCha8 = real.NewChaCha8
var NewPCG = real.NewPCG
var NewZipf = real.NewZipf

type PCG = real.PCG
type Rand = real.Rand
type Source = real.Source

var Uint = real.Uint

type Zipf = real.Zipf
