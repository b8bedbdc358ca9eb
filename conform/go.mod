module conform

go 1.15
