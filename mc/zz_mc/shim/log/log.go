package log

import (
	"fmt"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

func Println(a ...any)          { mcrt.Print(fmt.Sprintln(a...)) }
func Print(a ...any)            { mcrt.Print(fmt.Sprint(a...) + "\n") }
func Printf(f string, a ...any) { mcrt.Print(fmt.Sprintf(f, a...) + "\n") }
func Fatal(a ...any)            { Print(a...); mcrt.Exit(1) }
func Fatalf(f string, a ...any) { Printf(f, a...); mcrt.Exit(1) }
func Fatalln(a ...any)          { Println(a...); mcrt.Exit(1) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...any)          { panic(fmt.Sprintln(a...)) }
func SetFlags(int)              {}
func SetPrefix(string)          {}
