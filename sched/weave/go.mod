module verif/weave

go 1.23.0
