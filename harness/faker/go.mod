module faker

go 1.23
