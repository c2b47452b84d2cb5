package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/verifx/vx"
)

var configAssumptions = []string{
	"Durations without a unit, and integers and booleans that cannot be parsed, are outside the property.",
	"An empty environment variable counts as absent, as it always did.",
}

const configRule = "Explicit-state search of each setting: a state is what the environment holds under the main name and every alias, the value set programmatically, and whether the configuration was loaded again; transitions set and unset each variable to each value class (among them the default itself, empty and unparsable ones), set a value, and load the configuration with and without reset. Every reachable state is visited over the real configuration package, and the getter is compared with the rule. All documented settings are searched, and synthetic ones of every type with zero to two aliases."

// kind of a setting.
type kind int

const (
	str kind = iota
	boolean
	integer
	duration
)

type setting struct {
	key     config.ConfigKey
	k       kind
	env     []string // main name, then aliases
	def     string   // "" : none
	name    string
	aliases []string
}

func envName(k string) string {
	return "DECKARD_" + strings.ToUpper(strings.ReplaceAll(k, ".", "_"))
}

// documented settings: the variable, its aliases and its default, as documented.
func documented() []setting {
	d := func(key config.ConfigKey, k kind, def string, env ...string) setting {
		for i := range env {
			env[i] = "DECKARD_" + env[i]
		}
		return setting{key: key, k: k, def: def, env: env, name: env[0]}
	}
	buckets := "0,1,2,5,10,15,20,30,35,50,100,200,400,600,800,1000,1500,2000,5000,10000"
	return []setting{
		d(config.DebugEnabled, boolean, "false", "DEBUG"),
		d(config.LogType, str, "json", "LOG_TYPE"),
		d(config.GrpcEnabled, boolean, "true", "GRPC_ENABLED"),
		d(config.GrpcPort, integer, "8081", "GRPC_PORT"),
		d(config.GrpcServerKeepaliveTime, duration, "", "GRPC_SERVER_KEEPALIVE_TIME"),
		d(config.GrpcServerKeepaliveTimeout, duration, "", "GRPC_SERVER_KEEPALIVE_TIMEOUT"),
		d(config.GrpcServerMaxConnectionIdle, duration, "", "GRPC_SERVER_MAX_CONNECTION_IDLE"),
		d(config.GrpcServerMaxConnectionAge, duration, "", "GRPC_SERVER_MAX_CONNECTION_AGE"),
		d(config.GrpcServerMaxConnectionAgeGrace, duration, "", "GRPC_SERVER_MAX_CONNECTION_AGE_GRACE"),
		d(config.GrpcServerMaxRecvMsgSize, integer, "4194304", "GRPC_SERVER_MAX_RECV_MSG_SIZE"),
		d(config.GrpcServerMaxSendMsgSize, integer, "4194304", "GRPC_SERVER_MAX_SEND_MSG_SIZE"),
		d(config.CacheType, str, "MEMORY", "CACHE_TYPE"),
		d(config.CacheUri, str, "", "CACHE_URI", "REDIS_URI"),
		d(config.CachePrefix, str, "deckard_v1", "CACHE_PREFIX"),
		d(config.CacheConnectionRetryEnabled, boolean, "true", "CACHE_CONNECTION_RETRY_ENABLED"),
		d(config.CacheConnectionRetryAttempts, integer, "10", "CACHE_CONNECTION_RETRY_ATTEMPTS"),
		d(config.CacheConnectionRetryDelay, duration, "5s", "CACHE_CONNECTION_RETRY_DELAY"),
		d(config.RedisClusterMode, boolean, "false", "REDIS_CLUSTER_MODE"),
		d(config.StorageType, str, "MEMORY", "STORAGE_TYPE"),
		d(config.StorageUri, str, "", "STORAGE_URI", "MONGO_URI", "MONGODB_URI"),
		d(config.StorageConnectionRetryEnabled, boolean, "true", "STORAGE_CONNECTION_RETRY_ENABLED"),
		d(config.StorageConnectionRetryAttempts, integer, "10", "STORAGE_CONNECTION_RETRY_ATTEMPTS"),
		d(config.StorageConnectionRetryDelay, duration, "5s", "STORAGE_CONNECTION_RETRY_DELAY"),
		d(config.MongoDatabase, str, "deckard", "MONGO_DATABASE", "MONGODB_DATABASE"),
		d(config.MongoCollection, str, "queue", "MONGO_COLLECTION", "MONGODB_COLLECTION"),
		d(config.MongoQueueConfigurationCollection, str, "queue_configuration", "MONGO_QUEUE_CONFIGURATION_COLLECTION", "MONGODB_QUEUE_CONFIGURATION_COLLECTION"),
		d(config.HousekeeperEnabled, boolean, "true", "HOUSEKEEPER_ENABLED"),
		d(config.HousekeeperTaskTimeoutDelay, duration, "1s", "HOUSEKEEPER_TASK_TIMEOUT_DELAY"),
		d(config.HousekeeperTaskUnlockDelay, duration, "1s", "HOUSEKEEPER_TASK_UNLOCK_DELAY"),
		d(config.HousekeeperTaskUpdateDelay, duration, "1s", "HOUSEKEEPER_TASK_UPDATE_DELAY"),
		d(config.HousekeeperTaskTTLDelay, duration, "1s", "HOUSEKEEPER_TASK_TTL_DELAY"),
		d(config.HousekeeperTaskMaxElementsDelay, duration, "1s", "HOUSEKEEPER_TASK_MAX_ELEMENTS_DELAY"),
		d(config.HousekeeperTaskMetricsDelay, duration, "60s", "HOUSEKEEPER_TASK_METRICS_DELAY"),
		d(config.AuditEnabled, boolean, "false", "AUDIT_ENABLED"),
		d(config.ElasticAddress, str, "http://localhost:9200/", "ELASTIC_ADDRESS"),
		d(config.ElasticPassword, str, "", "ELASTIC_PASSWORD"),
		d(config.ElasticUser, str, "", "ELASTIC_USER"),
		d(config.MetricsEnabled, boolean, "true", "METRICS_ENABLED"),
		d(config.MetricsPort, integer, "22022", "METRICS_PORT"),
		d(config.MetricsPath, str, "/metrics", "METRICS_PATH"),
		d(config.MetricsHistogramBuckets, str, buckets, "METRICS_HISTOGRAM_BUCKETS"),
		d(config.MetricsOpenMetricsEnabled, boolean, "true", "METRICS_OPENMETRICS_ENABLED"),
		d(config.TlsClientAuthType, str, "NoClientCert", "TLS_CLIENT_AUTH_TYPE"),
		d(config.TlsServerCertFilePaths, str, "", "TLS_SERVER_CERT_FILE_PATHS"),
		d(config.TlsServerKeyFilePaths, str, "", "TLS_SERVER_KEY_FILE_PATHS"),
		d(config.TlsClientCertFilePaths, str, "", "TLS_CLIENT_CERT_FILE_PATHS"),
	}
}

// synthetic settings of every type with zero to two aliases, with and without default.
func synthetic() []setting {
	var r []setting
	for n := 0; n <= 2; n++ {
		for _, x := range []struct {
			k   kind
			def any
			s   string
		}{{str, "dflt", "dflt"}, {str, nil, ""}, {boolean, true, "true"}, {boolean, false, "false"}, {boolean, nil, ""}, {integer, 7, "7"}, {integer, 0, "0"}, {integer, nil, ""}, {duration, "3s", "3s"}, {duration, "0s", "0s"}, {duration, nil, ""}} {
			name := fmt.Sprintf("verif.t%d_%s.n%d", x.k, x.s, n)
			if x.s == "" {
				name = fmt.Sprintf("verif.t%d.n%d", x.k, n)
			}
			s := setting{k: x.k, def: x.s, name: fmt.Sprintf("%s default %q, %d aliases", []string{"string", "boolean", "integer", "duration"}[x.k], x.s, n), env: []string{envName(name)}}
			for i := 0; i < n; i++ {
				s.aliases = append(s.aliases, fmt.Sprintf("verif_alias%d.%s", i, name))
				s.env = append(s.env, envName(s.aliases[i]))
			}
			s.key = config.Create(&config.ViperConfigKey{Key: name, Default: x.def, Aliases: s.aliases})
			r = append(r, s)
		}
	}
	return r
}

// values lists the classes of a setting's values; the first is "absent".
func (s setting) values(thorough bool) []string {
	var v []string
	switch s.k {
	case str:
		v = []string{"", "one", "two words", "0"}
		if thorough {
			v = append(v, "false", "nil", "a,b", "é\"'$", " ")
		}
	case boolean:
		v = []string{"", "true", "false"}
		if thorough {
			v = append(v, "1", "0", "TRUE", "F")
		}
	case integer:
		v = []string{"", "12", "0", "-1"}
		if thorough {
			v = append(v, "9223372036854775807", "1")
		}
	case duration:
		v = []string{"", "250ms", "0s", "bad"}
		if thorough {
			v = append(v, "1h2m3s", "-5s", "bad2 s", "1d")
		}
	}
	for _, x := range v {
		if x == s.def {
			return v
		}
	}
	return append(v, s.def)
}

// parse returns the value a text stands for; ok is false for one that is absent or unparsable.
func (s setting) parse(v string) (any, bool) {
	if v == "" {
		return nil, false
	}
	switch s.k {
	case boolean:
		switch strings.ToLower(v) {
		case "true", "1", "t":
			return true, true
		}
		return false, true
	case integer:
		var i int
		fmt.Sscan(v, &i)
		return i, true
	case duration:
		d, err := time.ParseDuration(v)
		return d, err == nil
	}
	return v, true
}

func (s setting) zero() any {
	if v, ok := s.parse(s.def); ok {
		return v
	}
	return []any{"", false, 0, time.Duration(0)}[s.k]
}

func (s setting) get() any {
	switch s.k {
	case boolean:
		return s.key.GetBool()
	case integer:
		return s.key.GetInt()
	case duration:
		return s.key.GetDuration()
	}
	return s.key.Get()
}

// cfgState is a state of the search.
type cfgState struct {
	env [3]int
	set int // 0: none, 1+i: value i of the programmatic values
}

func (s setting) expect(st cfgState, vals []string, sets []any) any {
	if st.set > 0 {
		v := sets[st.set-1]
		if x, ok := v.(string); ok {
			if p, ok := s.parse(x); ok {
				return p
			}
			// An unusable value: what the environment says no longer matters.
			return s.zero()
		}
		return v
	}
	for i := range s.env {
		if v, ok := s.parse(vals[st.env[i]]); ok {
			return v
		}
	}
	return s.zero()
}

func (s setting) sets() []any {
	switch s.k {
	case boolean:
		return []any{true, false}
	case integer:
		return []any{5, 0, s.zero()}
	case duration:
		return []any{"7s", 8 * time.Second, s.zero().(time.Duration).String(), "unparsable"}
	}
	return []any{"set", s.zero()}
}

func search(t *vx.T, s setting) {
	vals, sets := s.values(t.Thorough()), s.sets()
	clear := func() {
		for _, e := range s.env {
			os.Unsetenv(e)
		}
	}
	clear()
	defer clear()
	apply := func(i, v int) {
		if v == 0 && i%2 == 0 {
			os.Unsetenv(s.env[i])
			return
		}
		os.Setenv(s.env[i], vals[v]) // "" for an odd position: present but empty
	}
	config.Configure(true)
	// goTo brings the real package into a state, always from another state.
	goTo := func(st cfgState) {
		config.Configure(true)
		for i := range s.env {
			apply(i, st.env[i])
		}
		if st.set > 0 {
			s.key.Set(sets[st.set-1])
		}
	}
	show := func(st cfgState) string {
		var b []string
		for i, e := range s.env {
			if st.env[i] > 0 {
				b = append(b, fmt.Sprintf("%s=%q", e, vals[st.env[i]]))
			}
		}
		if st.set > 0 {
			b = append(b, fmt.Sprintf("Set(%v)", sets[st.set-1]))
		}
		if b == nil {
			return "nothing given"
		}
		return strings.Join(b, " ")
	}
	seen := map[cfgState]bool{{}: true}
	todo := []cfgState{{}}
	for len(todo) > 0 {
		st := todo[0]
		todo = todo[1:]
		t.States++
		type step struct {
			name string
			to   cfgState
			do   func()
		}
		var steps []step
		for i := range s.env {
			for v := range vals {
				if v != st.env[i] {
					n := st
					n.env[i] = v
					steps = append(steps, step{fmt.Sprintf("then %s=%q", s.env[i], vals[v]), n, func() { apply(i, v) }})
				}
			}
		}
		for v := range sets {
			n := st
			n.set = 1 + v
			steps = append(steps, step{fmt.Sprintf("then Set(%v)", sets[v]), n, func() { s.key.Set(sets[v]) }})
		}
		n := st
		n.set = 0
		steps = append(steps, step{"then configured again", n, func() { config.Configure(true) }}, step{"then configured twice", st, func() { config.Configure() }})
		for _, x := range steps {
			t.Step(s.name + show(st) + x.name)
			t.Trans++
			t.Traces++
			goTo(st)
			x.do()
			want := s.expect(x.to, vals, sets)
			if got := s.get(); got != want {
				t.Fail(fmt.Sprintf("%s: %s %s", s.name, show(st), x.name), fmt.Sprintf("%s is %v instead of %v with %s, %s", s.name, got, want, show(st), x.name), []string{show(st), x.name})
				if len(t.Violations) >= 5 {
					return
				}
			}
			if !seen[x.to] {
				seen[x.to] = true
				todo = append(todo, x.to)
			}
		}
		if t.Expired() {
			t.Truncate("time budget used up")
			return
		}
	}
}

func configJobs(tier string) []vx.Job {
	var r []vx.Job
	docs := documented()
	for i := 0; i < 4; i++ {
		r = append(r, vx.Job{Name: fmt.Sprintf("documented-%d", i), Fn: func(t *vx.T) {
			for j := i; j < len(docs); j += 4 {
				search(t, docs[j])
			}
		}})
	}
	for i := 0; i < 8; i++ {
		r = append(r, vx.Job{Name: fmt.Sprintf("synthetic-%d", i), Fn: func(t *vx.T) {
			for j, s := range synthetic() {
				if j%8 == i {
					search(t, s)
				}
			}
		}})
	}
	return append(r, vx.Job{Name: "together", Fn: together})
}

// together checks that no setting's variable influences another setting.
func together(t *vx.T) {
	docs := documented()
	config.Configure(true)
	for _, a := range docs {
		for _, e := range a.env {
			for _, v := range a.values(false)[1:] {
				t.Step(e + v)
				os.Setenv(e, v)
				for _, b := range docs {
					t.Trans++
					if b.name != a.name && b.get() != b.zero() {
						t.Fail(a.name+" changes "+b.name, fmt.Sprintf("%s=%q changes %s to %v", e, v, b.name, b.get()), nil)
					}
				}
				t.States++
				os.Unsetenv(e)
			}
		}
	}
	t.Traces++
	// The same names without Deckard's prefix mean nothing.
	for _, a := range docs {
		for _, e := range a.env {
			e = strings.TrimPrefix(e, "DECKARD_")
			old, had := os.LookupEnv(e)
			for _, v := range a.values(false)[1:] {
				os.Setenv(e, v)
				t.Trans++
				if a.get() != a.zero() {
					t.Fail("unprefixed "+e, fmt.Sprintf("%s=%q without prefix changes %s to %v", e, v, a.name, a.get()), nil)
				}
			}
			os.Unsetenv(e)
			if had {
				os.Setenv(e, old)
			}
		}
	}
}
