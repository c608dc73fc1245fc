module aliasgen

go 1.23
