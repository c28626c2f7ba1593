module rewrite

go 1.22
