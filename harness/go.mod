module verif

go 1.23

require (
	github.com/akito0107/xsqlparser v0.0.0
	github.com/google/go-cmp v0.3.1
	golang.org/x/xerrors v0.0.0-20190717185122-a985d3407aa7
)

replace github.com/akito0107/xsqlparser => /repo
