module amtinstr

go 1.24
