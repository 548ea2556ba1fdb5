module vsim.local/simrt

go 1.24
