//go:build go1.21

package main

import "strings"

// relevant lists what has to happen in a run (prefixes of statistics) to put the property
// to the test.
var relevant = map[string][]string{
	"P01": {"states of replicas compared"},
	"P02": {"recoveries by replay", "fault: restart"},
	"P03": {"transactions: ", "mempool checks", "odd requests: ", "reads"},
	"P04": {"transactions: success", "refused as it must: P04"},
	"P05": {"refused as it must: P05"},
	"P06": {"transactions: success", "transactions: failed"},
	"P07": {"transactions: success", "transactions: failed"},
	"P08": {"refused as it must: P08", "access decisions: "},
	"P09": {"transactions: "},
	"P10": {"mempool checks", "reads", "listings"},
	"P11": {"transactions: success", "orm: "},
	"P12": {"listings", "orm: lists"},
	"P13": {"reads", "listings", "concurrent reads", "orm: "},
	"P14": {"views of modules checked"},
	"P15": {"validator changes submitted", "validator changes handed over"},
	"P16": {"transactions after the faults stopped"},
	"P17": {"transactions: success"},
	"P18": {"geneses", "services: "},
	"P19": {"kv: "},
}

func relevantRun(prop string, stats map[string]int64) bool {
	for k := range stats {
		for _, p := range relevant[prop] {
			if strings.HasPrefix(k, p) {
				return true
			}
		}
	}
	return false
}

type component struct{ real, stub []string }

var parts = map[string]component{
	"kv": {
		[]string{"kv.Badger adapter and iterators", "kv.Journal", "Badger (in memory), including flushes and compaction"},
		[]string{"threads (the simulator interleaves their operations one at a time)"},
	},
	"orm": {
		[]string{"orm.Store, objects store, index store, field encodings", "kv.Badger adapter and iterators", "kv.Journal", "Badger (in memory)"},
		[]string{"object types (made up at run time)", "threads (readers run at seeded storage operations of the writer)"},
	},
	"runtime": {
		[]string{"runtime, builder, router, module clients, service groups", "modules abci, runtime, rbac with its authorizer and role creation", "ABCI application", "ORM, kv adapter and journal, Badger (in memory)"},
		[]string{"modules, types, transitions, transactions and services (made up at run time, executing scripts)", "transaction decoder"},
	},
	"chain": {
		[]string{"runtime, router, authorization, ORM, kv adapter and journal", "Badger (in memory)", "modules abci, runtime, rbac, authn, bank, distribution, testmodule", "apiserver handlers", "ABCI application"},
		[]string{"consensus and gossip (the simulator decides the blocks and calls the application)", "HTTP transport (handlers are called in process)", "wall clock and math/rand", "process (a crash ends the goroutine at a storage operation, memory is discarded)"},
	},
}

func components(scen map[string]int, real bool) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range sortedKeys(scen) {
		l := parts[s].stub
		if real {
			l = parts[s].real
		}
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	return out
}

var commonAssumptions = []string{
	"search by seeds over a sample of schedules, workloads and faults: finding nothing is evidence, not proof",
	"the Go runtime, Badger, protobuf and the secp256k1 implementation work",
}

var assumptions = map[string][]string{}

func init() {
	for p := range relevant {
		assumptions[p] = append(assumptions[p], commonAssumptions...)
	}
}
