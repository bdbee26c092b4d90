package main

import "harness/h"

// Replaced by an overlay that lists the harnesses of one check.
var targets = map[string]func(){"Smoke": h.Smoke}
