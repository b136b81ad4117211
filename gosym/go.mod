module gosym

go 1.26.0

require (
	github.com/blocktree/go-owcrypt v1.1.13
	golang.org/x/tools v0.52.0
)

require (
	github.com/drand/kyber v1.1.4 // indirect
	github.com/phoreproject/bls v0.0.0-20200525203911-a88a5ae26844 // indirect
	golang.org/x/crypto v0.0.0-20200728195943-123391ffb6de // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/sys v0.49.0 // indirect
)
