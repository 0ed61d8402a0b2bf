module verif/simrun

go 1.21
