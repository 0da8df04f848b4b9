module vsim

go 1.25
