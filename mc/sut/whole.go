package sut

// WholeNames are the engine combinations the whole program is run with.
var WholeNames = [][2]string{{"MEMORY", "MEMORY"}, {"MEMORY", "MONGODB"}, {"REDIS", "MEMORY"}, {"REDIS", "MONGODB"}}

// WholeName is the name of the job for a combination.
func WholeName(n [2]string) string { return "program, " + n[0] + " and " + n[1] }

// WholeProps are the properties decided on the whole program as well.
var WholeProps = []string{"C03", "C05", "C11", "C12", "C14", "C19", "C25"}
