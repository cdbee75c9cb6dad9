module verif.local/simbuild

go 1.23
