module gv

go 1.23
