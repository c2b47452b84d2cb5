module mcbuild

go 1.23
