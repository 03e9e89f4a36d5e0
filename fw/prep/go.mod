module zkcverif/prep

go 1.21
