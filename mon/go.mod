module verif/mon

go 1.23

require github.com/yoheimuta/go-protoparser/v4 v4.0.0

replace github.com/yoheimuta/go-protoparser/v4 => /repo
