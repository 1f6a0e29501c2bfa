module verif.local/vsim

go 1.21
