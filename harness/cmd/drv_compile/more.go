package main

import "github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"

func applyMore(spec wiring.WiringSpec, o Op) bool { return false }
