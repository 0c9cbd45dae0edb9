module rxref

go 1.23
