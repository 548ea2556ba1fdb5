module vsim.local/vsim

go 1.24

require vsim.local/simrt v0.0.0

replace vsim.local/simrt => ../simrt
