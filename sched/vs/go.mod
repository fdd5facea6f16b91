module verif/vs

go 1.23.0
