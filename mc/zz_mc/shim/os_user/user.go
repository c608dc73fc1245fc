package user

import "github.com/levilutz/basiccoin/zz_mc/mcrt"

type User struct {
	Uid, Gid, Username, Name, HomeDir string
}

func Current() (*User, error) {
	mcrt.Point()
	return &User{Uid: "1000", Gid: "1000", Username: "u", Name: "u", HomeDir: "/home/u"}, nil
}
