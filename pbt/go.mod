module verif/pbt

go 1.23

require (
	github.com/go-ini/ini v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/go-ini/ini => /repo
