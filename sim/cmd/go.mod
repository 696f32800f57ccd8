module simcmd

go 1.22
