module vmon

go 1.21

require github.com/Tom5521/gotext-tools/v2 v2.0.0

replace github.com/Tom5521/gotext-tools/v2 => /repo
