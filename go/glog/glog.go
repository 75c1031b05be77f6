// Package glog stands in for github.com/golang/glog.
package glog

import (
	"fmt"
	"os"
)

func Warningf(format string, args ...interface{}) {}
func Warning(args ...interface{})                 {}
func Infof(format string, args ...interface{})    {}
func Info(args ...interface{})                    {}
func Errorf(format string, args ...interface{})   {}
func Error(args ...interface{})                   {}
func Fatalf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(3)
}
func Exitf(format string, args ...interface{}) { Fatalf(format, args...) }
