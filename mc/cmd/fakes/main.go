// fakes serves the fake Redis, Redis Cluster and MongoDB on the ports the
// repository's own integration tests use, to validate the fakes with them.
package main

import (
	"fmt"

	"github.com/takenet/deckard/internal/verifx/mongofake"
	"github.com/takenet/deckard/internal/verifx/redisfake"
)

func main() {
	redisfake.Port = 6379
	redisfake.New(0)
	redisfake.Port = 7000
	redisfake.New(3)
	mongofake.Port = 27017
	mongofake.New(false)
	fmt.Println("ready")
	select {}
}
