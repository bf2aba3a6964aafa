// Package vharness holds the runtime monitors for NodeBoy2/rtspclient.
//
// One test binary plays two roles. As parent (VH_ROLE unset) it starts worker
// processes, collects what they observed and prints the verdict. As worker
// (VH_ROLE=worker) it runs its share of the cases of one property.
package vharness

import (
	"fmt"
	"io"
	"log"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if os.Getenv("VH_ROLE") == "worker" {
		log.SetOutput(io.Discard)
		os.Exit(m.Run())
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness ID quick|thorough | harness replay FILE")
		os.Exit(2)
	}
	os.Exit(parentMain())
}
