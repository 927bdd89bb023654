module mut
go 1.20
