//go:build go1.24

// Package reg hands unexported functions of the code under test to a harness.
// The files under harness/access that call it are laid into powkit's packages
// when they compile there; without them a harness finds nothing and does
// without.
package reg

var m = map[string]any{}

func Set(name string, v any) { m[name] = v }

func Get(name string) any { return m[name] }
