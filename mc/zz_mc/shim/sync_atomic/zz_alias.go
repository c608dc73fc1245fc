// Code generated by aliasgen. DO NOT EDIT.
package atomic

import real "sync/atomic"

var AddUintptr = real.AddUintptr
var AndInt32 = real.AndInt32
var AndInt64 = real.AndInt64
var AndUint32 = real.AndUint32
var AndUint64 = real.AndUint64
var AndUintptr = real.AndUintptr
var CompareAndSwapPointer = real.CompareAndSwapPointer
var CompareAndSwapUintptr = real.CompareAndSwapUintptr
var LoadPointer = real.LoadPointer
var LoadUintptr = real.LoadUintptr
var OrInt32 = real.OrInt32
var OrInt64 = real.OrInt64
var OrUint32 = real.OrUint32
var OrUint64 = real.OrUint64
var OrUintptr = real.OrUintptr
var StorePointer = real.StorePointer
var StoreUintptr = real.StoreUintptr
var SwapPointer = real.SwapPointer
var SwapUintptr = real.SwapUintptr
