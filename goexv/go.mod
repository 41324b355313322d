module goexv

go 1.23
