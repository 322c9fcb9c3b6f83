module simverif

go 1.23
