module verif.local/simgo

go 1.23
