module verif/harness

go 1.24

require (
	github.com/buildkite/yaml v2.1.0+incompatible
	github.com/drone/drone-runtime v1.0.7-0.20190729202838-87c84080f4a1
	github.com/drone/drone-yaml v0.0.0
	gopkg.in/yaml.v3 v3.0.1
	pgregory.net/rapid v1.3.0
)

require (
	github.com/bmatcuk/doublestar v1.1.1 // indirect
	github.com/docker/distribution v2.7.1+incompatible // indirect
	github.com/docker/go-units v0.3.3 // indirect
	github.com/ghodss/yaml v1.0.0 // indirect
	github.com/opencontainers/go-digest v1.0.0-rc1 // indirect
	github.com/vinzenz/yaml v0.0.0-20170920082545-91409cdd725d // indirect
	gopkg.in/yaml.v2 v2.2.2 // indirect
)

exclude docker.io/go-docker v1.0.0

replace github.com/drone/drone-yaml => /repo
