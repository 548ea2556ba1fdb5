module vsim.local/simapp

go 1.24

require vsim.local/simrt v0.0.0
