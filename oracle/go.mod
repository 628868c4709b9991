module gv.test/oracle

go 1.23

require (
	github.com/goccmack/gogll/v3 v3.0.0
	github.com/goccmack/goutil v1.2.3
)

replace github.com/goccmack/gogll/v3 => /repo
