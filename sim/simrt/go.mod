module simrt

go 1.24
