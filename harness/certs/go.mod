module certs

go 1.23
