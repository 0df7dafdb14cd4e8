module verif

go 1.23

require github.com/RenatoGeh/gospn v0.0.0

require (
	github.com/RenatoGeh/kmeans v0.0.0-20181113221341-d44c6e0fd993 // indirect
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0 // indirect
	github.com/muesli/clusters v0.0.0-20180605185049-a07a36e67d36 // indirect
	github.com/sbinet/npyio v0.2.0 // indirect
	github.com/wcharczuk/go-chart v2.0.1+incompatible // indirect
	golang.org/x/exp v0.0.0-20180321215751-8460e604b9de // indirect
	golang.org/x/image v0.0.0-20181116024801-cd38e8056d9b // indirect
	gonum.org/v1/gonum v0.0.0-20181214184630-004553317c78 // indirect
)

replace github.com/RenatoGeh/gospn => /repo
