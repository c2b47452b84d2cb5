module github.com/redis/go-redis/extra/redisotel/v9

go 1.24
