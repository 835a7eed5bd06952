module mc

go 1.21

require github.com/yoheimuta/go-protoparser/v4 v4.0.0

replace github.com/yoheimuta/go-protoparser/v4 => /repo
