module dv

go 1.21
