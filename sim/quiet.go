//go:build go1.21

package main

import (
	"flag"
	"io"

	"github.com/dgraph-io/badger/v3"
	"github.com/fdymylja/tmos/runtime/kv"
	"k8s.io/klog/v2"
)

// memTable is the size of the tables of the databases: bigger ones allow bigger values.
var memTable int64 = 8 << 20

// quiet silences the logs of the code under test.
func quiet() {
	fs := flag.NewFlagSet("klog", flag.ContinueOnError)
	klog.InitFlags(fs)
	_ = fs.Set("logtostderr", "false")
	_ = fs.Set("alsologtostderr", "false")
	_ = fs.Set("stderrthreshold", "FATAL")
	klog.SetOutput(io.Discard)
	kv.BadgerTuning = func(o badger.Options) badger.Options { return o.WithLogger(nil).WithMemTableSize(memTable) }
}
