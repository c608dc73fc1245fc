// Code generated by aliasgen. DO NOT EDIT.
package debug

import real "runtime/debug"

type BuildInfo = real.BuildInfo
type BuildSetting = real.BuildSetting
type CrashOptions = real.CrashOptions
type GCStats = real.GCStats
type Module = real.Module

var FreeOSMemory = real.FreeOSMemory
var ParseBuildInfo = real.ParseBuildInfo
var ReadBuildInfo = real.ReadBuildInfo
var ReadGCStats = real.ReadGCStats
var SetCrashOutput = real.SetCrashOutput
var SetGCPercent = real.SetGCPercent
var SetMaxStack = real.SetMaxStack
var SetMaxThreads = real.SetMaxThreads
var SetMemoryLimit = real.SetMemoryLimit
var SetPanicOnFault = real.SetPanicOnFault
var SetTraceback = real.SetTraceback
var WriteHeapDump = real.WriteHeapDump
