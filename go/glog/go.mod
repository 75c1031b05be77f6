module github.com/golang/glog
go 1.21
