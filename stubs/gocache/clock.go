package cache

import "time"

// Clock is the time source; the model checker makes it virtual. This is the
// only difference from the original module.
var Clock = time.Now
