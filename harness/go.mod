module verif.local/harness

go 1.24

require (
	verif.local/crunch1 v1.0.0
	github.com/superwhiskers/crunch/v2 v2.0.0
	github.com/superwhiskers/crunch/v3 v3.0.0
	pgregory.net/rapid v1.3.0
)

replace (
	verif.local/crunch1 => /repo/v1
	github.com/superwhiskers/crunch/v2 => /repo/v2
	github.com/superwhiskers/crunch/v3 => /repo/v3
)
