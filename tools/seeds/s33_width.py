PROP='C33'; PKG='cmd/eth'
NEEDS='an argument of type bytes1 to bytes32 given with fewer bytes than its type has'
BREAKS='a short value is padded and sent instead of refused'
EDITS=[('cmd/eth/call.go','''	if len(buf) != width {
''','''	if len(buf) > width {
''')]
TEST='''package main

import (
	"os"
	"os/exec"
	"testing"
)

func TestSeed(t *testing.T) {
	if v := os.Getenv("SEED_ARG"); v != "" {
		parsearg("bytes4", v)
		os.Exit(0)
	}
	for _, k := range []struct {
		arg string
		ok  bool
	}{{"0x01020304", true}, {"0x010203", false}, {"0x0102030405", false}, {"0x", false}} {
		cmd := exec.Command(os.Args[0], "-test.run", "TestSeed")
		cmd.Env = append(os.Environ(), "SEED_ARG="+k.arg)
		if err := cmd.Run(); (err == nil) != k.ok {
			t.Errorf("bytes4 %s: %v", k.arg, err)
		}
	}
}
'''
