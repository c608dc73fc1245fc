package fmt

import (
	rf "fmt"

	"github.com/levilutz/basiccoin/zz_mc/shim/os"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

func Println(a ...any) (int, error) {
	s := rf.Sprintln(a...)
	mcrt.Print(s)
	return len(s), nil
}
func Print(a ...any) (int, error) {
	s := rf.Sprint(a...)
	mcrt.Print(s)
	return len(s), nil
}
func Printf(f string, a ...any) (int, error) {
	s := rf.Sprintf(f, a...)
	mcrt.Print(s)
	return len(s), nil
}
func Scan(a ...any) (int, error)            { return rf.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)          { return rf.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error) { return rf.Fscanf(os.Stdin, f, a...) }
