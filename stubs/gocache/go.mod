module github.com/patrickmn/go-cache

go 1.20
