module verif/instrument

go 1.21
