package main

import "verif.local/vsim/fw"

func main() { fw.Main() }
