module verif.local/driver

go 1.23
