// Code generated by aliasgen. DO NOT EDIT.
package ecdsa

import real "crypto/ecdsa"

var ParseRawPrivateKey = real.ParseRawPrivateKey
var ParseUncompressedPublicKey = real.ParseUncompressedPublicKey
