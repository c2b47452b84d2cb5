// seq decides the properties about sequential histories.
package main

import (
	"os"
	"time"

	. "github.com/takenet/deckard/internal/verifx/explore"
	"github.com/takenet/deckard/internal/verifx/sut"
	"github.com/takenet/deckard/internal/verifx/vx"
)

const rule = "Breadth-first enumeration of every operation sequence over the scenario's alphabet up to its depth; every sequence runs on the real service, queue, housekeeper, cache and storage code and is compared, operation by operation, with the reference model; states (model state, clock and full implementation state) reached again are not expanded twice; at every new state the deployment is drained through the public interface and compared as well."

var assumptions = []string{
	"Redis and MongoDB are replaced by in-process servers speaking their wire protocols (mc/redisfake, mc/mongofake); the Lua scripts of the code run in an interpreter of the Lua 5.1 subset they use (mc/luavm).",
	"Time is the code's own injectable clock, moved only between operations.",
	"OpenTelemetry and go-cache are replaced by stubs (stubs/); go-cache is the original with an injectable clock.",
}

func seqCheck(scs ...Scenario) *vx.Check {
	return &vx.Check{Jobs: func(tier string) []vx.Job { return Jobs(tier, scs...) }, Rule: rule, Assumptions: assumptions, Quick: 80 * time.Second, Thorough: 10 * time.Minute}
}

const faultRule = "Every history over the alphabet up to the depth; in each, at every engine operation (or every command the Redis and MongoDB stand-ins receive) one fault of every mode (fails without effect, fails after its effect, process stops after it), followed by the client repeating the call, or the cache being lost, or neither; then time passes, recovery and sweeps run, and everything deliverable and stored is compared with what was acknowledged."

const gaugeRule = rule + " After every metrics computation the values gathered from the real registry are compared with the stored messages. Further: every storage access of a computation failing once after every prefix of a history, and the labels of every sample for every combination of up to three environment attributes and service names, each in a process of its own."

const interRule = "Every unordered pair (thorough: also triple) of client call sequences and background tasks from every starting situation; the threads run the real code and pause before every storage and cache operation (or every command the Redis and MongoDB stand-ins receive), and a depth-first search executes every order of these steps (up to the preemption bound of the configuration); each execution is judged on deliveries against rights to deliver, deliveries after completed removals, and on whether everything stored is deliverable once deadlines and locks have passed and the sweeps ran."

const togetherRule = "Further, every pair of threads of such calls and tasks from several situations, in every order of the mutexes they acquire (in-memory engines) or of the commands Redis and MongoDB receive, up to the preemption bound."

func kinds(k ...sut.Kind) []sut.Kind { return k }

func main() {
	if os.Getenv("VERIF_LABELS") != "" {
		labelsChild()
		return
	}
	and := func(a, b func(string) []vx.Job) func(string) []vx.Job {
		return func(tier string) []vx.Job { return append(a(tier), b(tier)...) }
	}
	also := func(jobs func(string) []vx.Job, scs ...Scenario) *vx.Check {
		c := seqCheck(scs...)
		hist := c.Jobs
		c.Jobs = func(tier string) []vx.Job { return append(jobs(tier), hist(tier)...) }
		return c
	}
	with := func(jobs func(string) []vx.Job, scs ...Scenario) *vx.Check {
		c := also(jobs, scs...)
		c.Rule += " " + togetherRule
		return c
	}
	checks := map[string]*vx.Check{
		"C01": with(c01Together().jobs, c01()...),
		"C02": with(c02Together().jobs, c02()...),
		"C03": with(and(c03Together().jobs, and(manyTimeouts, faultyTimeouts)), c03()...),
		"C04": seqCheck(c04()...),
		"C05": with(and(c05Together().jobs, and(manyLocks, faultyUnlocks)), c05()...),
		"C06": also(scoreJobs, c06()...),
		"C07": with(c07Together().jobs, c07()...),
		"C08": also(nameJobs, c08()...),
		"C09": with(c09Together().jobs, c09()...),
		"C10": with(c10Together().jobs, c10()...),
		"C11": also(manyExpired, c11()...),
		"C12": also(faultyTrims, c12()...),
		"C13": with(c13Together().jobs, c13()...),
		"C14": also(batchJobs, c14()...),
		"C15": {Jobs: faultJobs, Rule: faultRule, Assumptions: assumptions, Quick: 80 * time.Second, Thorough: 12 * time.Minute},
		"C17": {Jobs: interJobs, Rule: interRule, Assumptions: assumptions, Quick: 80 * time.Second, Thorough: 12 * time.Minute},
		"C18": {Jobs: nsJobs, Rule: nsRule, Assumptions: assumptions, Quick: 80 * time.Second, Thorough: 12 * time.Minute},
		"C19": seqCheck(c19()...),
		"C20": seqCheck(c20()...),
		"C25": {Jobs: gaugeJobs, Rule: gaugeRule, Assumptions: assumptions, Quick: 80 * time.Second, Thorough: 10 * time.Minute},
		"C26": seqCheck(c26()...),
		"C28": {Jobs: queryJobs, Rule: queryRule, Assumptions: assumptions, Quick: 80 * time.Second, Thorough: 10 * time.Minute},
		"ALL": seqCheck(everything()...),
	}
	if os.Getenv("VERIF_OTHER_BIN") != "" {
		for _, p := range sut.WholeProps {
			checks[p].Jobs = and(checks[p].Jobs, program)
			checks[p].Rule += programRule
		}
	}
	c26 := checks["C26"]
	lag := c26.Jobs
	c26.Jobs = func(tier string) []vx.Job { return append(failoverJobs(tier), lag(tier)...) }
	c26.Rule += " Further, for every subset of three messages missing on the secondary: the primary is away before a pull, goes away within it, is known to be away, or is not known yet because the program has just connected; nothing may be discarded, and all is delivered once the primary is back."
	vx.Main(checks)
}

const programRule = " The whole program: on four combinations of engines the real main function is run with its configuration, gRPC server and housekeeping tasks under virtual time, and all histories of a small set are played in queues of their own; what the property promises has to happen through the program's own tasks, and nothing else may."

// program are the jobs that run the real main function (mc/inject/internal/cmd/deckard/verif_whole.go).
func program(string) []vx.Job {
	var r []vx.Job
	for _, n := range sut.WholeNames {
		r = append(r, vx.Job{Name: sut.WholeName(n), Other: true})
	}
	return r
}

func everything() []Scenario {
	var r []Scenario
	for _, f := range []struct {
		n string
		f func() []Scenario
	}{{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C19", c19}, {"C20", c20}, {"C26", c26}} {
		for _, s := range f.f() {
			s.Name = f.n + "/" + s.Name
			s.Targets = []string{"*"}
			r = append(r, s)
		}
	}
	return r
}
