module aaa.scripted

go 1.21
