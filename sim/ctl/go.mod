module verif/ctl

go 1.21
