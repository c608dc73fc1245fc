// Code generated by aliasgen. DO NOT EDIT.
package sha256

import real "crypto/sha256"

const BlockSize = real.BlockSize
const Size = real.Size
const Size224 = real.Size224

var New224 = real.New224
var Sum224 = real.Sum224
