module verif

go 1.24

require (
	github.com/Aize-Public/forego v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	golang.org/x/net v0.19.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/google/uuid v1.5.0 // indirect
	golang.org/x/sys v0.15.0 // indirect
)

replace github.com/Aize-Public/forego => /repo
