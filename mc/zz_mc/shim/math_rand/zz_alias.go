// Code generated by aliasgen. DO NOT EDIT.
package rand

import real "math/rand"

type Source64 = real.Source64
type Zipf = real.Zipf

var ExpFloat64 = real.ExpFloat64
var Float32 = real.Float32
var Int31 = real.Int31
var NewZipf = real.NewZipf
var NormFloat64 = real.NormFloat64
