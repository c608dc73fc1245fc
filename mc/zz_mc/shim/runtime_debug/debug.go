package debug

import rd "runtime/debug"

func PrintStack()   {}
func Stack() []byte { return rd.Stack() }
