module mutator

go 1.23
