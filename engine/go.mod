module gosym

go 1.26.0

require golang.org/x/tools v0.52.0

require github.com/tidwall/gjson v1.9.3

require (
	github.com/tidwall/match v1.1.1 // indirect
	github.com/tidwall/pretty v1.2.0 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
