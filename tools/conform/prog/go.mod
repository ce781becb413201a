module prog

go 1.16
