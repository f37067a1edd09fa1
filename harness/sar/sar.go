// Package sar sets the code under test up: the flag tables come from /repo's own saratoga.json.
package sar

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"verifharness/pbt"

	"github.com/charlesetsmith/saratoga/sarflags"
)

// Repo is where the code under test is.
func Repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// Config is the configuration file shipped with the code under test.
func Config() string {
	if c := os.Getenv("VERIF_CONFIG"); c != "" {
		return c
	}
	return Repo() + "/saratoga/saratoga.json"
}

// Load reads the shipped configuration, with the saratoga directory in scratch.
func Load(t testing.TB) *sarflags.Cliflags {
	os.Setenv("SARDIR", os.Getenv("VERIF_SCRATCH"))
	c := new(sarflags.Cliflags)
	sarflags.Cliflag = c
	if err := c.ReadConfig(Config()); err != nil {
		t.Fatalf("shipped configuration does not load: %v", err)
	}
	return c
}

// Sardir makes an empty directory, makes it the saratoga directory and the working directory.
func Sardir(name string) (string, error) {
	d := filepath.Join(pbt.Scratch, name)
	if err := os.RemoveAll(d); err != nil {
		return "", err
	}
	if err := os.MkdirAll(d, 0o755); err != nil {
		return "", err
	}
	if err := os.Chdir(d); err != nil {
		return "", err
	}
	setdir(d)
	return d, nil
}

// What commands did before is over, but the race detector does not know.
//
//go:norace
func setdir(d string) { sarflags.Cliflag.Sardir = d }

// Sockets is how many sockets this process has open.
func Sockets() (n int) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return
}

// Open tells which files below a directory this process has open.
func Open(dir string) (names []string) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if n, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(n, dir+"/") {
			names = append(names, n)
		}
	}
	return
}
