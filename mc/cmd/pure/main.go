// pure decides the properties about configuration, names, times, credentials and
// connecting: their spaces are small enough to be gone through completely.
package main

import (
	"time"

	"github.com/takenet/deckard/internal/verifx/vx"
)

func main() {
	vx.Main(map[string]*vx.Check{
		"C23": {Jobs: configJobs, Rule: configRule, Assumptions: configAssumptions, Quick: 60 * time.Second, Thorough: 8 * time.Minute},
		"C27": {Jobs: nameJobs, Rule: nameRule, Assumptions: nameAssumptions, Quick: 60 * time.Second, Thorough: 8 * time.Minute},
		"C29": {Jobs: timeJobs, Rule: timeRule, Assumptions: timeAssumptions, Quick: 60 * time.Second, Thorough: 8 * time.Minute},
		"C30": {Jobs: connectJobs, Rule: connectRule, Assumptions: connectAssumptions, Quick: 90 * time.Second, Thorough: 10 * time.Minute},
		"C24": {Jobs: tlsJobs, Rule: tlsRule, Assumptions: tlsAssumptions, Quick: 90 * time.Second, Thorough: 10 * time.Minute},
	})
}
